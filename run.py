#!/usr/bin/env python3
"""Builds and runs the checks.

  run.py check <ID> [quick|thorough]   the registered command of a property
  run.py replay <ID> <file>            re-executes a replay file
  run.py build [<ID>...]               only builds
  run.py setup                         builds every check once
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SAN = "address,bounds,null,return,unreachable,integer-divide-by-zero,bool,vla-bound,pointer-overflow"
LIBS = "-ljpeg -lpng -ltiff -lpthread -lm"

BASE = ("-g1 -fno-omit-frame-pointer -ffp-contract=off -w "
        "-DJPEG_FOUND -DPNG_FOUND -DTIFF_FOUND -DSUPPRESS_MOTD "
        "-DCOMPILER_NAME='\"clang\"' -DCOMPILER_VERSION='\"18\"'")
ASAN = f"-O1 -fsanitize={SAN} -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern"
FLAVOURS = {
    # name: (compile flags, link flags)
    "rgb": (f"{BASE} -DDEBUG {ASAN}", f"-fsanitize={SAN}"),
    "spec": (f"{BASE} -DDEBUG -DSPECTRAL=1 {ASAN}", f"-fsanitize={SAN}"),
    "rgbT": (f"{BASE} -DDEBUG -DTESTS {ASAN}", f"-fsanitize={SAN}"),
    "specT": (f"{BASE} -DDEBUG -DTESTS -DSPECTRAL=1 {ASAN}", f"-fsanitize={SAN}"),
    # optimised, no sanitizer: for statistical checks
    "fast": (f"{BASE} -DDEBUG -O2 -ftrivial-auto-var-init=pattern", ""),
    "fastspec": (f"{BASE} -DDEBUG -DSPECTRAL=1 -O2 -ftrivial-auto-var-init=pattern", ""),
    "rel": (f"{BASE} -O2 -ftrivial-auto-var-init=pattern", ""),
    "tsan": (f"{BASE} -DDEBUG -O1 -fsanitize=thread", "-fsanitize=thread"),
    "fuzz": (f"{BASE} -DDEBUG {ASAN} -fsanitize=fuzzer-no-link", f"-fsanitize={SAN},fuzzer"),
    "fuzzT": (f"{BASE} -DDEBUG -DTESTS {ASAN} -fsanitize=fuzzer-no-link", f"-fsanitize={SAN},fuzzer"),
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:malloc_fill_byte=199:max_malloc_fill_size=1048576:"
                    "handle_abort=1:symbolize=1:detect_odr_violation=0:strict_string_checks=0:hard_rss_limit_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_signal_unsafe=0",
    "LC_ALL": "C.UTF-8",
}


def directives(src):
    """// key: value lines at the top of a harness."""
    d = {}
    with open(src) as f:
        for line in f:
            m = re.match(r"//\s*(\w+):\s*(.*)$", line)
            if m:
                d[m.group(1)] = m.group(2).strip()
            elif line.strip() and not line.startswith("//"):
                break
    return d


def harnesses():
    res = {}
    for src in sorted(glob.glob(os.path.join(HERE, "props", "*.cpp"))):
        res[os.path.basename(src)[:-4]] = (src, directives(src))
    return res


def esc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def write_ninja():
    os.makedirs(BUILD, exist_ok=True)
    hs = harnesses()
    srcs = [s for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True) +
                              glob.glob(REPO + "/src/**/*.cc", recursive=True) +
                              glob.glob(REPO + "/src/**/*.c", recursive=True))
            if os.path.relpath(s, REPO) != "src/main.cpp"]
    o = [f"builddir = {BUILD}", "ninja_required_version = 1.3"]
    for fl, (cf, lf) in FLAVOURS.items():
        o += [f"rule cxx_{fl}", f"  command = clang++ -std=c++14 -include cstdint {cf} -I{REPO}/src -I{HERE}/engine -I{HERE}/props $extra -MMD -MF $out.d -c $in -o $out",
              "  depfile = $out.d", "  deps = gcc",
              f"rule cc_{fl}", f"  command = clang -std=c99 -D_GNU_SOURCE {cf} -I{REPO}/src -MMD -MF $out.d -c $in -o $out",
              "  depfile = $out.d", "  deps = gcc",
              f"rule ar_{fl}", "  command = rm -f $out && ar rcs $out $in",
              f"rule link_{fl}", f"  command = clang++ {lf} $in {LIBS} -o $out"]
        objs = []
        for s in srcs:
            obj = f"{BUILD}/{fl}/" + os.path.relpath(s, REPO + "/src").replace("/", "__") + ".o"
            rule = "cc" if s.endswith(".c") else "cxx"
            o.append(f"build {obj}: {rule}_{fl} {esc(s)}")
            objs.append(obj)
        o.append(f"build {BUILD}/{fl}/libspectre.a: ar_{fl} " + " ".join(objs))
        extra = "-DPBT_FUZZ" if fl.startswith("fuzz") else "-DPBT_MAIN"
        o.append(f"build {BUILD}/{fl}/pbt.o: cxx_{fl} {HERE}/engine/pbt.cpp")
        o.append(f"  extra = {extra}")
        o.append(f"build {BUILD}/{fl}/main.o: cxx_{fl} {REPO}/src/main.cpp")
        o.append(f"build {BUILD}/{fl}/spectre: link_{fl} {BUILD}/{fl}/main.o {BUILD}/{fl}/libspectre.a")
        for pid, (src, d) in hs.items():
            fls = d.get("flavours", "rgb").split() + (["fuzz"] if "fuzz" in d else []) + (["fuzzT"] if "fuzzT" in d else [])
            if fl not in fls:
                continue
            obj = f"{BUILD}/{fl}/check_{pid}.o"
            o.append(f"build {obj}: cxx_{fl} {src}")
            o.append(f"  extra = -DFLAVOUR_{fl} {extra}")
            o.append(f"build {BUILD}/{fl}/check_{pid}: link_{fl} {obj} {BUILD}/{fl}/pbt.o {BUILD}/{fl}/libspectre.a"
                     + (f" | {BUILD}/{fl}/spectre" if "program" in d else ""))
    text = "\n".join(o) + "\n"
    path = os.path.join(BUILD, "build.ninja")
    old = open(path).read() if os.path.exists(path) else ""
    if old != text:
        with open(path, "w") as f:
            f.write(text)
    return path


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        path = write_ninja()
        r = subprocess.run(["ninja", "-f", path] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            lines = [l for l in r.stdout.split('\n') if 'error' in l or 'FAILED' in l or 'undefined' in l]
            sys.stdout.write('\n'.join(l[:400] for l in lines[:40]) + '\n')
            return False
    return True


def known_findings():
    """(property, key) -> text of listed findings; fixed: lines suppress nothing."""
    res = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line)
            if m:
                res[(m.group(1), m.group(2))] = m.group(3).strip()
    return res


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hs = harnesses()
    if pid not in hs:
        print(f"no harness for {pid}")
        return 2
    src, d = hs[pid]
    fls = d.get("flavours", "rgb").split()
    if not build([f"{BUILD}/{fl}/check_{pid}" for fl in fls]):
        print(f"BUILD FAILED for {pid}")
        return 2
    t_build = time.time() - t0
    out = os.path.join(BUILD, "out", pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_REPO"] = REPO
    workers = str(min(8, os.cpu_count() or 4))
    max_s = "480" if tier == "quick" else "3600"
    results, rc = [], 0
    for fl in fls:
        env["PBT_PROGRAM"] = f"{BUILD}/{fl}/spectre"
        scale = os.environ.get("PBT_SCALE", "1")
        r = subprocess.run([f"{BUILD}/{fl}/check_{pid}", "--seed", str(seed), "--tier", tier, "--out", out,
                            "--workers", workers, "--flavour", fl, "--max-seconds", max_s, "--scale", scale]
                           + (["--only", os.environ["PBT_ONLY"]] if "PBT_ONLY" in os.environ else []), env=env)
        path = os.path.join(out, f"result-{fl}.json")
        if not os.path.exists(path):
            print(f"check of {pid} ({fl}) ended with status {r.returncode} and no result")
            return 2
        results.append((fl, json.load(open(path))))
        if any(p["violation"] for p in results[-1][1]["props"]) and time.time()-t0>120:
            break  # enough is known
    for fl in ("fuzz", "fuzzT"):
        if tier == "thorough" and fl in d:
            results.append(fuzz(pid, d, fl, out, seed, env))
    kf = known_findings()
    ev, viols, known_lines = evidence(pid, tier, seed, results, kf, out)
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["coverage"]["build_s"] = round(t_build, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in known_lines:
        print(l)
    for v in viols:
        print(f"VIOLATION property={pid} replay={v}")
        rc = 1
    print(f"{pid} {tier}: evaluations={ev['coverage']['evaluations']} distinct_nontrivial={ev['coverage']['distinct_nontrivial']} "
          f"violations={len(viols)} build={t_build:.1f}s total={ev['wall_s']}s")
    return rc


def evidence(pid, tier, seed, results, kf, out):
    viols, known_lines, samples, rules, per, unrep = [], [], [], [], [], []
    evals = distinct = 0
    for fl, res in results:
        for p in res["props"]:
            evals += p["evals"]
            distinct += p["distinct"]
            per.append({"search": f"{fl}/{p['name']}", "evaluations": p["evals"], "nontrivial": p["nontrivial"],
                        "distinct_nontrivial": p["distinct"], "discarded": p["discarded"],
                        "classes": p["labels"], "stopped_by_time_limit": p["cut"], "wall_s": round(p["wall"], 2)})
            rules.append(f"{p['name']}: {p['rule']}")
            samples += [f"[{fl}/{p['name']}] " + s for s in p["samples"]]
            if p["violation"]:
                viols.append(p["violation"])
            if p["unreproduced"]:
                unrep.append(f"{fl}/{p['name']}: {p['unreproduced']}")
        for k in res.get("known", []):
            if not k["text"]:
                continue
            listed = kf.get((pid, k["name"]))
            if listed is not None:
                line = f"KNOWN-FINDING: property={pid} {listed}"
                if line not in known_lines:
                    known_lines.append(line)
            else:
                path = os.path.join(out, f"replay-known-{k['name']}.txt")
                with open(path, "w") as f:
                    f.write(f"finding {k['name']} (deterministic case of {pid}, flavour {fl})\n{k['text']}\n")
                viols.append(path)
                print(f"FAILED {k['name']}: {k['text']}")
    seen = []
    for r in rules:
        if r not in seen:
            seen.append(r)
    cov = {"evaluations": evals, "distinct_nontrivial": distinct,
           "rule": "; ".join(seen) + ". A case is the sequence of choices its generator made; distinct counts different sequences among the non-trivial ones.",
           "samples": samples[:24] or ["none"], "searches": per}
    if unrep:
        cov["unreproduced_failures"] = unrep
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["sampling of the input space: absence of violations is not proved",
                          "built from /repo with clang -O1 and sanitizers (flavours %s)" % ", ".join(f for f, _ in results)],
          "violations": len(viols)}
    return ev, viols, known_lines


def fuzz(pid, d, fl, out, seed, env):
    """Coverage-guided campaign over the same properties (thorough tier)."""
    names = d[fl].split()
    if names == ["props"]:  # all of them
        names = re.findall(r"^PROP(?:_CPU)?\((\w+)", open(harnesses()[pid][0]).read(), re.M)
    base_fl = d.get("flavours", "rgb").split()[0]
    props = []
    if not build([f"{BUILD}/{fl}/check_{pid}"]):
        return fl, {"props": []}
    secs = int(os.environ.get("VERIF_FUZZ_SECONDS", "300"))
    for name in names:
        t0 = time.time()
        corpus = os.path.join(out, "corpus-" + name)
        os.makedirs(corpus, exist_ok=True)
        e = dict(env)
        e["PBT_PROP"] = name
        e["PBT_TMP"] = os.path.join(out, "fuzztmp-" + name)
        art = os.path.join(out, f"crash-{name}-")
        r = subprocess.run([f"{BUILD}/{fl}/check_{pid}", corpus, f"-seed={seed if seed else 1}", f"-max_total_time={secs}",
                            "-max_len=4096", "-timeout=60", "-rss_limit_mb=4096", f"-artifact_prefix={art}",
                            "-fork=8", "-ignore_crashes=0", "-print_final_stats=1"],
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        runs = 0
        for m in re.finditer(r"^#(\d+):", r.stdout, re.M):
            runs = max(runs, int(m.group(1)))
        crashes = sorted(glob.glob(art + "*"))
        viol = ""
        for c in crashes:
            # replay the bytes through the engine of the checked flavour, shrink, confirm
            q = subprocess.run([f"{BUILD}/{base_fl}/check_{pid}", "--bytes", c, "--only", name, "--out", out,
                                "--flavour", base_fl, "--tier", "thorough"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            m = re.search(r"^REPLAY (\S+)", q.stdout, re.M)
            if m:
                viol = m.group(1)
                sys.stdout.write(q.stdout[-2500:])
                break
        ncorp = len(os.listdir(corpus))
        props.append({"name": "coverage-guided " + name, "evals": runs, "nontrivial": ncorp, "distinct": ncorp, "discarded": 0,
                      "rule": "libFuzzer inputs decoded as choices; non-trivial: inputs kept because they reached new code",
                      "cut": False, "wall": time.time() - t0, "labels": {}, "samples": [], "violation": viol,
                      "unreproduced": "" if viol or not crashes else "a fuzzer artifact did not reproduce in the engine"})
        shutil.rmtree(corpus, ignore_errors=True)
        shutil.rmtree(e["PBT_TMP"], ignore_errors=True)
    return fl, {"props": props}


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    cmd = sys.argv[1]
    if cmd == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        return check(sys.argv[2], tier)
    if cmd in ("build", "setup"):
        hs = harnesses()
        ids = sys.argv[2:] or list(hs)
        t = [f"{BUILD}/{fl}/check_{i}" for i in ids for fl in hs[i][1].get("flavours", "rgb").split()]
        return 0 if build(t) else 2
    if cmd == "replay":
        pid, f = sys.argv[2], sys.argv[3]
        m = re.search(r"^flavour (\S+)", open(f).read(), re.M)
        fl = m.group(1)
        if not build([f"{BUILD}/{fl}/check_{pid}"]):
            return 2
        env = dict(os.environ)
        env.update(ENV)
        env["PBT_PROGRAM"] = f"{BUILD}/{fl}/spectre"
        env["VERIF_REPO"] = REPO
        out = os.path.join(BUILD, "out", pid + "-replay")
        os.makedirs(out, exist_ok=True)
        return subprocess.run([f"{BUILD}/{fl}/check_{pid}", "--replay", f, "--out", out, "--flavour", fl], env=env).returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
