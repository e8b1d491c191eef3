#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, levels.py, the harnesses, known_findings.txt,
seeded/ and the texts below."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import levels

# what a handful of examples cannot settle, i.e. why the generated search reaches further
WHY = {
"S01": "the tests parse single files; the interplay of order, notation, layout and every subset of settings needs generation, and the tests look at the fields set, not at the rays and the picture that come out",
"S02": "the space of byte strings is unbounded; the tests know a dozen bad files. The recogniser gives a verdict for every generated sentence, the sanitizers for memory",
"S03": "names may clash, miss and precede their definitions in any combination, and a wrong order of rotations or a leaking attribute only shows with several entries",
"S04": "tests include one file; the property quantifies over every way to split a description",
"S05": "the layout of OBJ files is free: index styles, polygons, notations and statement orders multiply",
"S06": "memory safety over all bytes and every position of the buffer's end cannot be sampled by hand",
"S07": "bugs live in sequences of operations and in odd components",
"I01": "row padding, block and buffer limits depend on width and height modulo several numbers and on large sizes",
"I02": "files of other programs use variants that the writer of this library never produces",
"I03": "arbitrary damage; only fuzzing with sanitizers covers it",
"I04": "histories of copies and sizes around the block limits",
"C01": "piecewise curves and knees, all byte values",
"C02": "mixtures by order of the components, every temperature, two builds with different code",
"R01": "one wrong shift in 32 steps of the recurrence is visible only in long sequences of generic seeds; end points need chosen words",
"R02": "last rows and columns, extreme strata and sample numbers",
"R03": "piecewise formulas with parameters, at joints and beyond the extent",
"R04": "cancellation and special cases over many decades",
"F01": "order of samples, tiles and threads",
"F02": "all values and formats, and the state of the file system at the time of saving",
"F03": "aspect ratios, seams and placements",
"G01": "generic matrices; tests use diagonal or hand-made ones",
"G02": "limits such as unit length tolerances and critical angles",
"G03": "ties, flat boxes and axis-parallel rays",
"G04": "scale: tiny, huge, distant and grazing configurations, and origins on the surface",
"G05": "statistics over many samples of many shapes; a missing triangle in 100 is invisible to examples",
"G06": "the tree is only right if no pruning step is wrong for any arrangement of triangles; exhaustive search decides each ray",
"G07": "as G06, with flat and coincident instances and more of them than any test",
"G08": "non-uniform, mirrored and composed placements",
"G09": "derivatives away from the convenient points",
"G10": "the masked crossing may be any of several, and thresholds may be met exactly",
"M01": "two directions, two media and a roughness span six or more dimensions",
"M02": "agreement of three separately written functions for all arguments",
"M03": "critical angle, sides, per-wavelength indices",
"M04": "every facet and roughness; quadrature instead of single values",
"M05": "numbers and kinds of parts, requested kinds, tilted frames, both sides of a mask",
"M06": "histories; double frees and leaks are visible through counting entries",
"T01": "footprints of every shape and level, seams, sizes 1 to 4096",
"T02": "frames that tests build orthonormal and untilted",
"L01": "estimates must converge for every shape and placement, not for the unit sphere alone",
"L02": "an answer that depends on earlier queries appears only in histories",
"L03": "whole-system statement: every factor lost or counted twice between camera, materials and lights shows as a bias",
"L04": "schedules, sizes and thread numbers",
}
HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
TAIL = open(os.path.join(HERE, "tools", "design_tail.md")).read()
S = levels.SAMPLED
rows = {}
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
known, fixed = {}, {}
for l in open(os.path.join(HERE, "known_findings.txt")):
    m = re.match(r"(finding|fixed): property=(\w+) (.*)", l)
    if m:
        (known if m.group(1) == "finding" else fixed).setdefault(m.group(2), []).append(m.group(3))
out = [HEAD.rstrip(), ""]
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    src = open(os.path.join(HERE, "props", i+".cpp")).read()
    tech, note = levels.L[i]
    out += [f"### {i} - {p['title']}", "", p["statement"], "", f"*Decided by* {tech}. {note.replace(S, '').strip()}", ""]
    fl = re.search(r"// flavours: (.*)", src).group(1)
    for m in re.finditer(r'^PROP(?:_CPU)?\((\w+), (\d+), (\d+),\s*((?:"[^"]*"\s*)+)', src, re.M):
        rule = "".join(re.findall(r'"([^"]*)"', m.group(4)))
        out.append(f"* `{m.group(1)}` ({int(m.group(2)):,} cases quick, {int(m.group(3)):,} thorough; non-trivial by the rule): {rule}")
    out += ["", f"Builds: {fl}. Beyond the tests: {WHY[i]}."]
    if i in known:
        out += ["", "Known findings: "+"; ".join(re.sub(r"^key=(\w+)", r"`\1`", k) for k in known[i])+"."]
    if i in fixed:
        out += ["", f"Repaired in /repo: {len(fixed[i])} defect(s), see known_findings.txt."]
    if i in rows:
        out += ["", "Planted: "+", ".join(f"`{n}`" for n, _ in rows[i])+"."]
    out.append("")
out += [TAIL.rstrip(), "", "## Planted bugs and the checks that catch them", "",
        "Every change below applies to /repo's HEAD, compiles, passes the existing tests and has a demonstration. All are caught by the quick check of their property.", "",
        "| change | caught by | needs |", "|---|---|---|"]
for i in sorted(rows):
    for n, d in rows[i]:
        out.append(f"| {n} | {i}{', '+', '.join(d['also']) if d.get('also') else ''} | {d['needs'].replace('|', '/')} |")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out)+"\n")
