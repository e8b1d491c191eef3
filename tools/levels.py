"""Technique and assurance note of every check."""
NA = {}
SAMPLED = " Sampled, not exhaustive; trusts the reference model in the harness, the compiler and the sanitizers."
L = {
 "G01": ("algebraic relations and double precision differential on generated matrices",
         "Sums, products, transposition, inversion and transformation of points, vectors, normals and rays on generated matrices and placements, compared with a double precision reference with error bounds scaled by the operands." + SAMPLED),
 "G02": ("algebraic laws and double precision differential on generated vectors",
         "Every vector and point operation on generated operands compared with double precision, plus the laws between them." + SAMPLED),
 "I04": ("model-based histories against a row-major reference array, allocation balance",
         "Random histories of construct, set, clear, assign, copy and destroy compared cell by cell with a plain vector, in the normal and the small-block build." + SAMPLED),
 "G03": ("model-based growth histories and slab reference in double precision",
         "Random growth histories against the running minimum and maximum, and ray tests against the exact slab intersection with rounding bands around the boundary." + SAMPLED),
 "G04": ("differential against exact ray-surface crossings in double precision",
         "Rays of every family (outside, inside, grazing, axis parallel, scaled directions, limited distance) against the analytic crossings of sphere, box and triangle; verdicts are only demanded outside a rounding band around grazing." + SAMPLED),
 "G05": ("geometric invariants and statistical tests of uniformity",
         "Sampled points are checked to lie on the surface with its normal, areas against the geometric formula in double precision, and the share of samples per part against its area with a false alarm bound below 1e-9 per test." + SAMPLED),
 "G06": ("differential against exhaustive search over all triangles",
         "Meshes of ten families up to 4000 triangles; every ray is also traced against every triangle one by one." + SAMPLED),
 "G07": ("differential against exhaustive search over all instances",
         "Scenes of ten families up to 4096 instances (lattices, coincident planes, flat pieces, nested, clustered); every ray is also traced against every instance one by one." + SAMPLED),
 "G08": ("metamorphic: instance against shape intersected in object space with double precision transformations; histories against lone instances",
         "Random placements (mirrored, anisotropic) of spheres, boxes and meshes; hits, records and bounding boxes are compared outside a rounding band; histories over instances that share a shape." + SAMPLED),
}
L["T01"] = ("differential against a reference mip pyramid in double precision; metamorphic shifts by whole repetitions",
  "Nearest, trilinear and EWA lookups on images of side 1 to 4096 with any coordinates, footprints, shifts and scales, compared with an independent pyramid, bilinear and elliptical filter (tolerance covers the truncation of the stored bytes); textures loaded from good, damaged and missing files." + SAMPLED)
L["G10"] = ("differential against masked crossings enumerated in double precision",
  "Spheres, triangle soups and scenes of placed instances with random masks (nearest, trilinear, EWA; all channels, inverted, shifted, scaled): all crossings are enumerated and filtered by the mask in the harness; camera rays, limited rays and shadow rays must find the first visible one. Cases where rounding decides are skipped. Boxes carry no texture coordinates and are not masked here." + SAMPLED)
L["G09"] = ("differential against analytic derivatives and footprints in double precision",
  "Hits on randomly placed spheres, triangles (smooth and flat, degenerate coordinates) and boxes: unit normals, analytic position derivatives, orthonormal shading frames and round trips through them; pixel footprints against the tangent plane solution and against the coordinates neighbouring rays really hit." + SAMPLED)
L["M03"] = ("differential against the exact Fresnel and Snell equations in double precision",
  "Mirrors, smooth glass, conductor and dielectric Fresnel terms, vector reflection and refraction, Cauchy and Sellmeier dispersion for generated indices, absorptions, named metals and directions on both sides (critical angle included, with a rounding band); power balance of reflection and transmission." + SAMPLED)
L["M04"] = ("differential against the published densities, shadowing terms and inverse distribution functions in double precision",
  "Blinn, Beckmann, GGX and anisotropic GGX with roughness 0.001 to 1: value, range, symmetry, monotony of the shadowing, placement of every drawn facet against the cumulative distribution, and quadrature of density and projected area. Where the repository's tests pin a wrong formula (known findings) exactly that formula or the published one is accepted." + SAMPLED)
L["M01"] = ("differential against the published models in double precision; reciprocity; quadrature of the reflected energy",
  "Lambertian, Oren-Nayar, rough reflection (dielectric, conductor, named metals) and rough transmission with every distribution, for direction pairs on all sides: value against the model built from the distribution and Fresnel oracles, zero across the surface, exchange of the directions, and the share of light a white surface reflects (limit 1.02, 1.1 for Blinn and Beckmann whose shadowing is itself a published fit; grazing angles below 6 degrees left out). Where tests pin a deviation (known findings) exactly that or the model is accepted." + SAMPLED)
L["M02"] = ("metamorphic: drawn direction against value() and pdf(); mass of small squares of random numbers against solid angle times density",
  "Lambertian, Oren-Nayar, rough reflection and transmission with every distribution: the direction drawn for generated numbers lies on the implied side, is scattered by the drawn facet, has the value and density that evaluating it reports, and the directions drawn from a small square of numbers fill the solid angle its density promises (a local proof of the density, within 6%)." + SAMPLED)
L["M05"] = ("model-based: materials assembled from recording stand-in functions and from the real ones, compared with the sum of their parts in double precision",
  "One to five parts of every kind with textures, straight and tilted frames: value, density and drawn directions against the sum, the average and the selected part; reflecting materials never draw through the surface; dual materials answer every question through the material the mask selects and never ask the other; parts are destroyed once. Density agreement is demanded where frame and surface agree on the side." + SAMPLED)
L["M06"] = ("model-based histories with counting stand-in entries",
  "Histories of insertions (clashing, empty, reserved names), lookups, removals and clears over the material, texture and map libraries and the registries of a scene (with more lights than it takes), every answer and every destruction compared with a model." + SAMPLED)
L["R01"] = ("differential against an independent implementation of the published recurrence; statistical tests of uniformity",
  "Random, sparse and saturated seeds, interleaved and copied generators against a shift register implementation of WELL1024a; seeds built to produce words at the ends of the range; chi-square, pair and moment tests with a false alarm bound below 1e-9 per case." + SAMPLED)
L["R02"] = ("model-based: visited pixels counted, samples located in their cells; statistical tests of spread",
  "Rectangles anywhere in an image, 1 to 400 samples per pixel, all sampler kinds: every pixel once, every sample in its pixel, every stratum once, nothing written beyond the announced number. Stratified sampling is exercised with square numbers of samples, which the scene parser guarantees." + SAMPLED)
L["R03"] = ("differential against the published formulas in double precision; symmetry and separability",
  "All filters and parameters, offsets within the extent including the joints and the edge." + SAMPLED)
L["R04"] = ("differential against exact computation",
  "Every helper over many decades of arguments; roots are checked by residue, sum and product, with the verdict free only next to a double root." + SAMPLED)
L["F01"] = ("differential against the weighted mean computed in double precision; concurrent histories under ThreadSanitizer",
  "Images up to 40x40 in random tile partitions, every filter, samples on pixel and tile edges, colours also negative and beyond white, handed over at random times; and images up to 160x160 filled by 2 to 8 threads, also with ThreadSanitizer. The film is observed through the picture it saves; pixels with a nearly cancelling total weight, or with a sample exactly on the edge of a filter that is not zero there, are not judged. Thread schedules are those the machine produces." + SAMPLED)
L["C01"] = ("differential against the sRGB and Adobe RGB definitions in double precision; round trips; monotony",
  "Displayable, negative and over-bright colours, the knees of the transfer curve, all byte triples sampled; conversions, inverse, order, texel unpacking and every arithmetic form." + SAMPLED)
L["C02"] = ("differential against element-wise arithmetic, the CIE tables and Planck's law in double precision; round trips through colours",
  "Both builds, debug and optimised: all operators and compound forms, constants, validity, XYZ and luminance from the CIE tables, mixtures of the tabulated primaries (tolerance 0.075 in linear light relative to white, 0.02 per sample), black bodies from 1000K to 40000K. The sign in Planck's law is a known finding." + SAMPLED)
L["I01"] = ("round trips through files, decoded also by independent decoders",
  "Random images of 1x1 to 64x64 (all remainders of the row length) and single rows and columns in every format; the saved file is read back by the library and by decoders written for the harness (ppm, bmp, tga) or by libpng and libtiff; JPEG within the error of its compression on smooth pictures." + SAMPLED)
L["I02"] = ("differential against independent encoders of every supported variant",
  "Files built by encoders in the harness: binary and ASCII ppm with comments and any maximum value, bmp bottom-up and top-down with 24 and 32 bits and gaps, tga with every depth, row order, run-length packets crossing lines and identification fields, png of every colour type, depth and interlacing, grey and colour JPEG, TIFF with several compressions and layouts." + SAMPLED)
L["I03"] = ("mutation fuzzing of good files with sanitizers and exact buffers; truncation oracle; coverage-guided fuzzing (thorough)",
  "Mutated, truncated, mislabelled and arbitrary files in every format, under AddressSanitizer and UndefinedBehaviorSanitizer with a destination of exactly the announced size; images above a million pixels are sized but not decoded. JPEG pixels missing at the end are filled in by libjpeg and not judged." + SAMPLED)
L["S05"] = ("generated texts with known triangles; imported meshes compared with reference meshes built from the model",
  "OBJ texts of 1 to 6 objects (named by o, by g, or unnamed), up to 400 triangles, every index style, all layouts and number notations, several files per importer; areas, boxes, sampled points with normals and rays with texture coordinates of every triangle are compared with a mesh built from the model; names and materials per face. The test build with a 3 byte buffer is checked as well. More than 255 materials per mesh, line continuations and mixed g/o naming are left out." + SAMPLED)
L["S06"] = ("mutation fuzzing with sanitizers; metamorphic: a comment in front moves every buffer boundary; coverage-guided fuzzing (thorough)",
  "Damaged and arbitrary texts under AddressSanitizer with the 4096 byte and the 3 byte buffer; the importer must return and import a good file afterwards; the same text behind 0 to 9000 bytes of comment must give the same meshes." + SAMPLED)
L["F03"] = ("generated cameras, placements and film positions against an independent double-precision projection",
  "Perspective, orthographic and panorama cameras in generated placements; origin, direction, length and ray differentials are recomputed in double precision, including neighbouring pixels." + SAMPLED)
L["S07"] = ("model-based histories against a lexical path model and the operating system's own answers",
  "Histories of joins, parents, copies and assignments on three path objects against a component model; queries against stat and access in generated trees, also as an unprivileged user; mkdir, mkdirs and ls against the tree on disk. Backslashes count as separators, as the tests pin." + SAMPLED)
L["F02"] = ("round-trip: films of known colours decoded by other programs' decoders; injected obstacles on the output path",
  "Films of known colours saved under generated names in all formats, decoded by libpng, libtiff, libjpeg and hand-written readers and compared with the colours developed in double precision; folders in the way, missing folders, files as folders, and folders that vanish before saving." + SAMPLED)
L["S01"] = ("generated scene files rendered with a recording integrator; the rays, traced back through the written camera, and the saved picture are compared with the written settings",
  "Scene files with any subset of the settings, in any order, layout and number notation, are parsed and rendered by the real renderer with an integrator that records rays: number and place of the samples in every pixel, strata, camera, size and name of the picture, and the filter (the saved picture is the weighted mean of the recorded colours). Texture filter, scale, shift and names are judged by lookups. Cameras are kept away from degenerate frames; output names are relative to the working directory, which is the folder of the scene." + SAMPLED)
L["S02"] = ("grammar-based and mutation fuzzing with sanitizers, judged by an independent recogniser of the documented grammar",
  "Random bytes, random words, mutated and unchanged sentences of the grammar, in scene files and in included files, under AddressSanitizer and UndefinedBehaviorSanitizer; a separate tokenizer and recursive-descent recogniser decides which of them must be refused. Left open by the documentation and only judged for crashes: backslashes and NUL in strings, exponents without mantissa, a dot without digits. Pictures above 900 pixels a side are not judged." + SAMPLED)
L["S03"] = ("generated scene files; materials compared with directly built ones, instances with a double-precision ray tracer of the written entries",
  "Generated textures, materials, dual materials, OBJ files, worlds and lights in any order, layout and notation, with names of missing things mixed in. Materials are compared (frame, value, density, samples) with ones built directly from the documented meaning of the keys; instances by tracing rays (surface distance, material, light, emission, mask) against a double-precision model; missing names must appear in the messages. Left out: dual materials of dual materials, duplicate names, more than 32 lights, masks that vary over a surface (judged under G10 and T01)." + SAMPLED)
L["S04"] = ("differential testing: random scenes split over included files against the same scene in one file, compared by everything observable in a rendering",
  "Scenes with settings, textures, materials, masks, OBJ files, worlds and lights are distributed over a main file and included files in other directories; hits, materials, recorded camera rays and the picture must be identical. " + SAMPLED)
L["L01"] = ("property-based testing: sampled directions, densities and emitted rays of area lights against double precision geometry, irradiance estimates against quadrature",
  "Spheres, quads, boxes and triangle sets under any placement (uniform scale for spheres). Closed lights and smoothed normals have recorded findings, only exactly those deviations are accepted there. " + SAMPLED)
L["L02"] = ("stateful property-based testing: histories of shadow queries against testing every instance",
  "Random scenes and sequences of queries on one tester; queries within rounding error of a silhouette or of the distance are not judged. " + SAMPLED)
L["L03"] = ("property-based testing: estimates of the path tracer against closed forms, quadrature and a metamorphic relation",
  "Emitters seen directly and in mirrors (followed by the test), surfaces lit by squares and spheres with things in between (quadrature over the emitters), glowing rooms, linearity in the emission. Means of 1000-40000 estimates within 7 standard errors plus 2-3%. " + SAMPLED)
L["L04"] = ("generated images, thread counts and delays rendered with a recording camera; differential between thread counts; ThreadSanitizer",
  "Images of 32 to 192 by 1 to 160 pixels (the width is a multiple of 32, as the renderer requires), 1 to 64 threads, both samplers, every filter, random delays inside the workers; every sample is recorded and the saved picture compared with the weighted mean of what was recorded; the same scene with two thread counts; the real path tracer in noise-free scenes. Schedules are those the machine and the delays produce; data races are found by ThreadSanitizer whatever the schedule." + SAMPLED)
L["T02"] = ("property-based testing: frames of generated and real surface points under generated maps against the decoded texels in double precision",
  "Normal maps and height maps (the latter not reachable from scene files) with every filter, shift and scale; synthetic points with slanted, mirrored and interpolated frames and points found on placed spheres, boxes and smooth triangles; flat maps against no map; light transport with reflecting materials and glass under normal maps. Green tilts against dpdv, as the tests pin. Points whose dpdu is within 6 degrees of the normal are not judged. " + SAMPLED)
