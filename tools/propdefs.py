"""Single source for properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))


# ------------------------------------------------------------------ scene description
prop("S01", "Scene files: every setting takes its written value, else its default",
     "Rendering settings written in a scene file (output path, resolution, camera, sampler, filter, integrator, samples per pixel, texture filter) produce a renderer, camera and film with exactly those values; a setting that is not written takes its documented default. "
     "The order in which settings are written, the whitespace, line breaks and comments between them, and the notation of numbers do not matter.",
     ["inputs", "configurations"],
     "every subset, order, layout and value combination of top level settings",
     "the parser tests load about a dozen fixed files; they cannot cover the combinations of settings, orders and number notations",
     ["src/parsers/config_driver.cpp", "src/parsers/config_driver.hpp", "src/parsers/config_parser.tab.cc", "src/parsers/lex.yy.cc", "src/parsers/config_lexer.l", "src/parsers/config_parser.y", "src/parsers/README.md"],
     [("grammar actions storing settings", "src/parsers/config_parser.y"), ("ConfigDriver::parse / deferred construction", "src/parsers/config_driver.cpp")],
     ["ConfigDriver::parse result", "Camera::create_ray", "image file written"])
prop("S02", "Malformed scene files are reported and rejected cleanly",
     "For any sequence of bytes given as a scene file the program terminates, never corrupts memory, and a file that does not follow the grammar is reported with an error and yields no renderer (the program exits with a failure status and writes no image).",
     ["inputs"], "arbitrary and mutated scene files, including truncated, binary, huge-number and unterminated-string inputs",
     "tests contain a few fixed malformed files; the input space is unbounded",
     ["src/parsers/config_driver.cpp", "src/parsers/lex.yy.cc", "src/parsers/config_parser.tab.cc", "src/main.cpp"],
     [("bison error reporting", "src/parsers/config_driver.cpp"), ("Console.critical", "src/utility/console.cpp")],
     ["exit status", "standard error"])
prop("S03", "Scene files: instances get the named shape, material, mask and placement",
     "Every world and light entry of a scene file creates one instance per entry, with the named shape, placed by scale, then rotation about x, y and z, then translation, carrying the named material and the mask written for it. "
     "A name that does not exist is reported and replaced by the default (material or texture) or ignored (shape), and never disturbs the other entries; a second definition of a shape or material name is reported and the first one stays; entries may come before or after the definitions they refer to.",
     ["inputs", "configurations"], "scene files with any mixture, order and number of material, texture, shape, world and light entries",
     "fixed example files only exercise a handful of name bindings and placements",
     ["src/parsers/config_driver.cpp", "src/parsers/config_parser.y", "src/materials/material_library.cpp", "src/textures/texture_library.cpp"],
     [("deferred resolution of names", "src/parsers/config_driver.cpp"), ("MeshWorld / MaterialLibrary / TextureLibrary", "src/parsers/config_driver.hpp")],
     ["rays traced in the resulting scene"])
prop("S04", "Scene files: included files act as if written in place",
     "Splitting a scene description over a main file and files included by it gives the same scene as writing the entries of the included files, in the order of inclusion, at the end of the main file: later settings override earlier ones, every relative path is resolved against the directory of the main file, includes inside included files are ignored, and a missing file is reported without consequences for the rest.",
     ["inputs", "histories"], "every partition of a scene description into a main file and included files in a tree of directories",
     "tests include a single file; nesting depth, ordering and directory layout are unbounded",
     ["src/parsers/config_driver.cpp", "src/parsers/config_parser.y", "src/utility/file.cpp"],
     [("children list processing", "src/parsers/config_driver.cpp"), ("File::append_relative", "src/utility/file.cpp")])
prop("S05", "OBJ import reproduces the geometry of the file",
     "Importing a Wavefront OBJ file yields one mesh per named object, in file order, holding exactly the triangles of its faces (polygons split as fans) with the positions, normals and texture coordinates the file assigns to their corners; the corners of a face without normals get the face normal, objects without faces yield nothing, and materials follow the material statements in force.",
     ["inputs"], "all well formed OBJ texts: any number of objects, polygons, index styles, comments, blank lines, separators, number notations and file sizes (without line continuations)",
     "tests use about fifteen fixed files with small objects",
     ["src/parsers/parser_obj.cpp", "src/parsers/parser_obj.hpp", "src/primitives/mesh.cpp"],
     [("ParserObj::get_next_mesh", "src/parsers/parser_obj.cpp"), ("triangulation", "src/parsers/parser_obj.cpp")],
     ["triangles of the returned meshes"])
prop("S06", "OBJ import survives arbitrary input and never depends on buffering",
     "For any sequence of bytes given as an OBJ file the import terminates without memory errors, and a reported failure leaves the importer usable; where the read buffer happens to end has no influence on the result.",
     ["inputs"], "arbitrary and mutated OBJ texts; every position of the buffer boundary",
     "tests use a few fixed files and one buffer size",
     ["src/parsers/parser_obj.cpp"],
     [("buffer refill", "src/parsers/parser_obj.cpp"), ("index validation", "src/parsers/parser_obj.cpp")])
prop("S07", "Paths are composed, split and queried like the operating system does",
     "Joining, splitting and taking the parent, file name or extension of a path agrees with the usual rules for absolute, relative, '.' and '..' components for every path and every sequence of operations on one path object, and the existence, readability and folder queries tell what the file system says.",
     ["inputs", "histories"], "all path strings and all histories of operations on a path object",
     "tests enumerate a few paths, each used once",
     ["src/utility/file.cpp", "src/utility/file.hpp"],
     [("File::append_relative, get_parent", "src/utility/file.cpp")])
# ------------------------------------------------------------------ images
prop("I01", "Saving and reloading an image keeps every pixel",
     "Saving any pixel array in a supported format and reading the file back gives the same dimensions and, for lossless formats, exactly the same pixels (for JPEG, pixels within the compression error), for every width and height.",
     ["inputs"], "all image sizes (including widths that need padding) and pixel contents, all formats",
     "tests save one or two fixed small images per format",
     ["src/utility/imageio/imageio.c", "src/utility/imageio/bmp.c", "src/utility/imageio/tga.c", "src/utility/imageio/ppm.c", "src/utility/imageio/png.c", "src/utility/imageio/jpg.c", "src/utility/imageio/tiff.c"],
     [("img_write / img_read8", "src/utility/imageio/imageio.c")])
prop("I02", "Images written by other programs are decoded faithfully",
     "Images in any of the supported variants (bit depth, channel count, row order, run-length packets, comments, maximum value, grey or colour) decode to the pixels their format defines, with the right dimensions.",
     ["inputs"], "images encoded by an independent encoder over every supported variant, size and content",
     "tests decode a few fixed files",
     ["src/utility/imageio/imageio.c", "src/utility/imageio/bmp.c", "src/utility/imageio/tga.c", "src/utility/imageio/ppm.c", "src/utility/imageio/png.c", "src/utility/imageio/jpg.c", "src/utility/imageio/tiff.c"],
     [("format decoders", "src/utility/imageio/")])
prop("I03", "Damaged image files are refused without harm",
     "For any sequence of bytes presented as an image file, asking for its validity or dimensions and decoding it terminates, never reads or writes outside its buffers and never aborts the program; a file that ends before its last pixel (for JPEG, before its first) is reported as a failure, as is a missing or empty file, and whatever is decoded has the announced dimensions.",
     ["inputs", "fault_sequences"], "arbitrary bytes, truncations and mutations of valid files in every format",
     "tests use one or two corrupted headers",
     ["src/utility/imageio/imageio.c", "src/utility/imageio/bmp.c", "src/utility/imageio/tga.c", "src/utility/imageio/ppm.c", "src/utility/imageio/png.c", "src/utility/imageio/jpg.c", "src/utility/imageio/tiff.c"],
     [("header validation", "src/utility/imageio/")])
prop("I04", "Two-dimensional arrays store and return every element",
     "A two-dimensional array returns, for every position, the last value stored there, whatever its size, and copies and assignments are equal to and independent of their source.",
     ["histories", "inputs"], "all sizes and histories of set, copy, assign and move",
     "tests fill a fixed size array once",
     ["src/utility/array2D.hpp"], [("blocked storage index", "src/utility/array2D.hpp")])
# ------------------------------------------------------------------ colour
prop("C01", "Colour space conversions follow their standards and invert each other",
     "Conversions between linear RGB, sRGB and XYZ follow the sRGB definition, are inverse of each other within rounding, are monotonic, every byte value survives decoding and encoding, and arithmetic on colours is component-wise.",
     ["inputs"], "all colour values, inside and outside the displayable range",
     "tests check a handful of colours",
     ["src/utility/color.cpp", "src/utility/color.hpp", "src/utility/spectrum.cpp"],
     [("ColorRGB / ColorXYZ conversions", "src/utility/color.cpp")])
prop("C02", "Light spectra form an element-wise algebra and convert faithfully to colour",
     "Arithmetic on light spectra is element-wise and agrees with the compound-assignment forms; a spectrum built from a displayable sRGB colour stays non-negative and converts back to that colour (in the spectral build relative to white and within the accuracy of the tabulated spectra), spectra of black bodies follow Planck's law, and the luminance reported is the photometric luminance of the colour, in both the RGB and the spectral build.",
     ["inputs", "configurations"], "all colours, factors and operation sequences, in both build flavours",
     "tests check a few constants in one flavour",
     ["src/utility/spectrum.cpp", "src/utility/spectrum.hpp"],
     [("SpectrumRGB / SpectrumFull", "src/utility/spectrum.cpp")])
# ------------------------------------------------------------------ sampling
prop("R01", "Random numbers are reproducible, uniform and inside [0,1]",
     "The random generator is a pure function of its seed: equal seeds give equal sequences and different seeds unrelated ones, matching the published WELL1024a recurrence, whatever other generators do; every floating point draw is uniform and lies between 0 and 1.",
     ["inputs", "histories"], "all seeds and draw sequences",
     "tests draw a few numbers from one seed",
     ["src/utility/wellrng.hpp", "src/utility/wellrng.cpp"],
     [("WELLrng::getNumber", "src/utility/wellrng.cpp")])
prop("R02", "Samplers cover every pixel of their area with well placed samples",
     "Over its lifetime a sampler visits every pixel of its rectangle exactly once, each time with the announced number of samples, every sample lying inside its pixel; stratified samples occupy distinct cells of the subdivision of the pixel.",
     ["inputs", "histories"], "all rectangles, sample counts, seeds and both sampler kinds",
     "tests use one rectangle and one seed",
     ["src/samplers/sampler.cpp", "src/samplers/sampler_random.cpp", "src/samplers/sampler_stratified.cpp"],
     [("Sampler::get_samples", "src/samplers/sampler_stratified.cpp")])
prop("R03", "Reconstruction filters have their defined shape",
     "Every reconstruction filter returns the weight its formula defines at every offset inside its extent, is symmetric in both axes and its two axes are separable, for every choice of its parameters; the tent, Gaussian and Lanczos weights are zero beyond the extent.",
     ["inputs"], "all offsets and parameters, all filters",
     "tests check a few offsets per filter",
     ["src/samplers/filter.hpp", "src/samplers/filter_box.cpp", "src/samplers/filter_tent.cpp", "src/samplers/filter_gaussian.cpp", "src/samplers/filter_mitchell.cpp", "src/samplers/filter_lanczos.cpp"],
     [("Filter::weight", "src/samplers/")])
prop("R04", "Shared numeric helpers agree with exact computation",
     "The numeric helpers shared by all components (linear and quadratic equations, interpolation and its inverse, clamping, extremes, angles, rounding to multiples, byte order reversal, exchange and the formatting of durations) agree with exact computation over their whole documented domain.",
     ["inputs"], "all arguments in the documented domain",
     "tests check a few arguments",
     ["src/utility/utility.hpp", "src/utility/utility.cpp"],
     [("equation2, lerp, clamp, swap_endianness", "src/utility/utility.hpp"), ("format_seconds", "src/utility/utility.cpp")])

# ------------------------------------------------------------------ film and camera
prop("F01", "The film is the filter-weighted mean of the samples around each pixel",
     "After any sequence of samples every pixel of the film equals the filter-weighted mean of the samples within the filter extent of its centre, whatever the order of the samples and however the image was partitioned into tiles; constant samples give a constant image.",
     ["inputs", "histories"], "all sample sets, filters, image sizes, tile partitions and arrival orders",
     "tests add a few samples at fixed positions",
     ["src/cameras/image_film.cpp", "src/cameras/image_film.hpp"],
     [("ImageFilm::add_pixel / add_pixel_deferred", "src/cameras/image_film.cpp")])
prop("F02", "The saved image is the film, developed pixel by pixel",
     "Saving the film writes, under the requested name and in the format of its extension, an image of the requested size in which every pixel is the sRGB encoding of the film value clamped to the displayable range, top row first; names without a supported extension or that cannot be written are reported.",
     ["inputs"], "all sizes, contents and output names",
     "tests save a uniformly filled film",
     ["src/cameras/image_film.cpp", "src/utility/imageio/imageio.c"],
     [("ImageFilm::save_image / set_pixel", "src/cameras/image_film.cpp")])
prop("F03", "Cameras map image positions to the rays of their projection",
     "For every placement, field of view, image size and film position each camera produces the unit-direction ray of its projection: perspective rays start at the eye and span the field of view, orthographic rays are parallel to the view axis, panorama rays sweep the sphere. "
     "Ray differentials point through the neighbouring pixels.",
     ["inputs", "configurations"], "all camera placements, image sizes and film positions",
     "tests check rays for a few fixed cameras",
     ["src/cameras/camera.cpp", "src/cameras/camera_perspective.cpp", "src/cameras/camera_orthographic.cpp", "src/cameras/camera360.cpp"],
     [("Camera::create_ray", "src/cameras/")])
# ------------------------------------------------------------------ geometry
prop("G01", "Transformation matrices obey the laws of affine geometry",
     "Matrix products compose transformations, inverses undo them, transposition, identity, translation, scaling, axis rotations and camera frames agree with their textbook definition for points, directions and normals, and normals stay perpendicular to transformed surfaces.",
     ["inputs"], "all matrices, compositions and transformed entities",
     "tests check fixed matrices with fixed arguments",
     ["src/geometry/matrix4.cpp", "src/geometry/vec3.cpp", "src/geometry/point3.cpp", "src/geometry/ray.cpp"],
     [("Matrix4 operators", "src/geometry/matrix4.cpp")])
prop("G02", "Vectors and points obey the laws of vector algebra",
     "Every vector and point operation (sums, products, dot, cross, length, normalisation, distance, extremes, component access, comparison) agrees with exact computation, its compound form agrees with its plain form, and its other operands stay untouched.",
     ["inputs"], "all operands of two and three dimensional vectors, points and normals",
     "tests check one or two operands per operation",
     ["src/geometry/vec2.cpp", "src/geometry/vec3.cpp", "src/geometry/vec2.hpp", "src/geometry/vec3.hpp", "src/geometry/point2.cpp", "src/geometry/point3.cpp"],
     [("operators", "src/geometry/vec3.hpp")])
prop("G03", "Bounding boxes enclose what they were given and classify points and rays",
     "A bounding box grown by points and boxes is the smallest one containing them, answers containment, volume, surface, centre and longest axis accordingly, and a ray is reported to hit it exactly when it passes through it, with the right entry and exit distances.",
     ["inputs", "histories"], "all growth histories and rays (including axis parallel and interior origins)",
     "tests use a few fixed boxes and rays",
     ["src/geometry/AABB.cpp", "src/geometry/AABB.hpp"],
     [("AABB::engulf, intersect", "src/geometry/AABB.cpp")])
prop("G04", "Rays hit spheres, boxes and triangles where geometry says",
     "A ray is reported to hit a sphere, box or triangle exactly when the nearest crossing beyond the self-intersection margin lies within the allowed distance, the reported distance and point are that crossing, and the normal and texture coordinates are those of the surface there; a miss leaves the caller's record and distance untouched.",
     ["inputs"], "all rays (outside, inside, grazing, axis parallel) and all triangles",
     "tests trace a few fixed rays per shape",
     ["src/primitives/sphere.cpp", "src/primitives/box.cpp", "src/primitives/triangle.cpp"],
     [("Shape::intersect", "src/primitives/")])
prop("G05", "Surface samples lie on the surface, uniformly by area",
     "Points drawn from the surface of a sphere, box, triangle or mesh lie on that surface with its normal there, every part of the surface is drawn in proportion to its area (also under a non-uniform transformation of the reported total), the reported area is the geometric one, and the bounding box contains the shape tightly.",
     ["inputs"], "all meshes, transformations and random numbers",
     "tests draw a handful of points with fixed numbers",
     ["src/primitives/mesh.cpp", "src/primitives/triangle.cpp", "src/primitives/sphere.cpp", "src/primitives/box.cpp"],
     [("Shape::sample_point / surface", "src/primitives/")])
prop("G06", "Mesh intersection finds the nearest triangle, as exhaustive search does",
     "For every mesh and ray, intersecting the mesh reports a hit exactly when some triangle is hit within the allowed distance, and the hit is the nearest one with that triangle's distance, normal, texture coordinates and material; the order of the triangles does not matter.",
     ["inputs"], "all triangle soups (clustered, coplanar, degenerate boxes, duplicated, nested, large) and rays",
     "tests use a few bunny rays and small meshes",
     ["src/accelerators/bvh.cpp", "src/accelerators/bvh.hpp", "src/primitives/mesh.cpp"],
     [("Bvh::buildTree / intersect", "src/accelerators/bvh.cpp")])
prop("G07", "Scene intersection finds the nearest instance, as exhaustive search does",
     "For every set of placed shapes and every ray, tracing the scene reports a hit exactly when some instance is hit within the allowed distance and returns the nearest hit and its instance, independently of insertion order and of rays traced before.",
     ["inputs", "histories"], "all scenes (overlapping, nested, coincident, flat, far apart, many instances) and ray sequences",
     "tests trace fixed scenes of a few spheres",
     ["src/accelerators/kdtree.cpp", "src/accelerators/kdtree.hpp"],
     [("KdTree::buildTree / intersect", "src/accelerators/kdtree.cpp")])
prop("G08", "Placed instances intersect as the transformed shape does",
     "An instance under any invertible placement (scale, rotation, translation, composed) is hit exactly where the transformed shape is, its hit point, normal and distance are in world space, its bounding box contains it, and instances sharing a shape do not influence each other.",
     ["inputs", "histories"], "all placements of all shapes, and histories of instances sharing a shape",
     "tests use a few placements of a sphere",
     ["src/primitives/asset.cpp", "src/primitives/asset.hpp", "src/geometry/matrix4.cpp"],
     [("Asset::intersect", "src/primitives/asset.cpp")])
prop("G09", "Surface records carry a consistent local frame and texture derivatives",
     "At every hit the surface record holds a unit normal, the position derivatives along the texture coordinates match the change of position with the texture coordinates over the surface, and the texture-coordinate footprint of a pixel matches the texture coordinates its neighbouring rays hit.",
     ["inputs"], "all shapes, placements, hit positions and ray differentials",
     "tests check records at a few fixed hits",
     ["src/primitives/hit_point.cpp", "src/primitives/sphere.cpp", "src/primitives/box.cpp", "src/primitives/triangle.cpp", "src/materials/bump.cpp"],
     [("HitPoint differentials", "src/primitives/hit_point.cpp")])
prop("G10", "Masked-out parts of a surface are absent, the rest is untouched",
     "With an opacity mask on an instance or material a ray passes through exactly where the chosen channel of the mask, inverted if so requested, is off at the texture coordinates of the hit, both for visible surfaces and for shadows; the unmasked part is hit exactly as without the mask.",
     ["inputs"], "all mask images, channels, inversion and rays",
     "tests use one mask with a few rays",
     ["src/textures/mask_boolean.cpp", "src/textures/mask_boolean.hpp", "src/primitives/sphere.cpp", "src/primitives/triangle.cpp", "src/primitives/box.cpp", "src/accelerators/bvh.cpp"],
     [("MaskBoolean::is_masked", "src/textures/mask_boolean.cpp")])
# ------------------------------------------------------------------ materials
prop("M01", "Reflection functions have their defined value and obey physics",
     "The value of every reflection function matches its published model for every pair of directions, is never negative or non-finite, is symmetric in its two directions where the model is reciprocal, is zero across the surface where it does not transmit, and never reflects more light than arrives.",
     ["inputs"], "all pairs of directions, colours, roughnesses and all reflection models",
     "tests evaluate a few direction pairs",
     ["src/materials/lambertian.cpp", "src/materials/oren_nayar.cpp", "src/materials/microfacet.cpp", "src/materials/reflection.cpp", "src/materials/refraction.cpp", "src/materials/bdf.cpp"],
     [("Bdf::value", "src/materials/")])
prop("M02", "Direction sampling agrees with the value and density of the material",
     "Every sampled direction comes with the density and value that evaluating the material for that direction reports, lies on the side of the surface the event implies, and the density is non-negative and integrates to one over the directions that can be drawn.",
     ["inputs"], "all outgoing directions, random numbers, roughnesses and all reflection models",
     "tests draw a few samples with fixed numbers",
     ["src/materials/lambertian.cpp", "src/materials/oren_nayar.cpp", "src/materials/microfacet.cpp", "src/materials/bdf.cpp", "src/materials/single_brdf.cpp", "src/materials/multi_bsdf.cpp"],
     [("Bdf::sample_value / pdf", "src/materials/")])
prop("M03", "Mirrors and glass follow the laws of reflection, refraction and Fresnel",
     "Specular reflection mirrors the direction, specular transmission obeys Snell's law, total internal reflection happens exactly beyond the critical angle, dielectric and conductor reflectance equal the Fresnel equations, and reflected plus transmitted power never exceeds the incident power.",
     ["inputs"], "all directions on both sides, refraction indices, absorptions and colours",
     "tests evaluate a few angles",
     ["src/materials/reflection.cpp", "src/materials/refraction.cpp", "src/materials/fresnel_conditions.cpp", "src/materials/fresnel_conditions.hpp"],
     [("Fresnel conditions", "src/materials/fresnel_conditions.cpp")])
prop("M04", "Microfacet distributions are normalised, sampled and shadowed consistently",
     "Every microfacet distribution is non-negative and finite, its shadowing terms lie in [0,1], decrease towards grazing angles and are symmetric, sampled facets lie in the upper hemisphere and follow the reported density, and the distribution has the value of its published formula.",
     ["inputs"], "all half directions, roughnesses (isotropic and anisotropic) and random numbers",
     "tests evaluate fixed directions and the mean of fixed draws",
     ["src/materials/microfacet_distributions.cpp", "src/materials/microfacet_distributions.hpp"],
     [("MicrofacetDist", "src/materials/microfacet_distributions.cpp")])
prop("M05", "Layered and two-sided materials are the sum of their parts",
     "A material made of several reflection functions has, for every pair of directions and requested kinds of scattering, the sum of the values of the matching parts and the average of their densities; a dual material behaves at every point as the one its mask selects; light on the wrong side of the surface is handled consistently in shading space.",
     ["inputs", "configurations"], "all compositions, directions, masks and requested scattering kinds",
     "tests combine two functions at fixed directions",
     ["src/materials/multi_bsdf.cpp", "src/materials/single_brdf.cpp", "src/materials/dual.cpp", "src/materials/shading_space.cpp", "src/materials/bump.cpp"],
     [("MultiBSDF::value / pdf / sample_value", "src/materials/multi_bsdf.cpp")])
prop("M06", "Named libraries behave as maps that own their entries",
     "For every history of insertions, lookups, removals and clears the material and texture libraries answer as a map from names to entries does: the first entry added under a name stays until it is removed, a second one is refused and stays with its owner, the default entries are always there, and every entry a library took is freed exactly once, when it is removed or cleared. "
     "A scene likewise holds every shape, instance and light once, keeps lights in the order given up to its limit and reports the ones beyond it, and frees what it holds exactly once.",
     ["histories"], "all histories of library and scene operations",
     "tests run one fixed history per library",
     ["src/materials/material_library.cpp", "src/textures/texture_library.cpp", "src/utility/scene.cpp"],
     [("MaterialLibrary, TextureLibrary, Scene", "src/materials/material_library.cpp")])
# ------------------------------------------------------------------ textures
prop("T01", "Texture lookups return texels of the image, filtered as requested",
     "A lookup without filtering returns the texel that contains the coordinate; filtered lookups are averages of texels (inside the range of the image, exact on constant images, interpolating between neighbouring texels when magnified, converging to the image mean for large footprints), for every coordinate, footprint, image size and filter; images repeat periodically.",
     ["inputs"], "all images, coordinates (also negative and beyond one), footprints and filters",
     "tests look up a few coordinates in two fixed textures",
     ["src/textures/image_map.cpp", "src/textures/image_map.hpp", "src/textures/texture_image.cpp", "src/textures/texture_uniform.cpp"],
     [("ImageMap::filter and mip chain", "src/textures/image_map.cpp")])
prop("T02", "Bump and normal maps tilt the shading frame as the map prescribes",
     "A flat map leaves the shading frame unchanged, any map yields an orthonormal frame on the side of the geometric normal that the map prescribes, and light transported in a tilted frame never leaks through the surface.",
     ["inputs"], "all maps, coordinates, surface frames and directions",
     "tests use fixed maps and a fixed hit",
     ["src/materials/bump.cpp", "src/textures/texture_height.cpp", "src/textures/texture_normal.cpp"],
     [("Bump::bump", "src/materials/bump.cpp")])
# ------------------------------------------------------------------ light transport
prop("L01", "Area lights are sampled with the density of what the surface sees",
     "Directions sampled towards an area light point at a visible part of the light with the density per solid angle the light reports for that direction, estimates of the irradiance from a light converge to the analytic value for every shape and placement, and the emitted light is the configured spectrum on the front of the surface only.",
     ["inputs"], "all light shapes, placements, receivers and random numbers",
     "tests sample one unit sphere at one position",
     ["src/lights/area_light.cpp", "src/lights/area_light.hpp"],
     [("AreaLight::sample_visible_surface / pdf", "src/lights/area_light.cpp")])
prop("L02", "Shadow tests answer whether something lies in between, whatever was asked before",
     "Between a point and a light the shadow test reports blocked exactly when some instance lies in between, and its answer never depends on earlier queries.",
     ["inputs", "histories"], "all scenes and all histories of shadow queries",
     "tests issue a couple of queries",
     ["src/utility/occlusion_tester.cpp", "src/utility/occlusion_tester.hpp"],
     [("OcclusionTester::is_occluded", "src/utility/occlusion_tester.cpp")])
prop("L03", "Rendered radiance converges to the analytic solution",
     "For scenes with a known solution (emitters seen directly or in mirrors, directly lit diffuse surfaces, uniform enclosures, black surroundings) the average of independent estimates of the radiance along a ray converges to that solution; estimates are never negative or non-finite, and scale linearly with the emitted light.",
     ["inputs", "configurations"], "all scenes of the families with a closed form solution and all rays",
     "no test compares radiance with a known solution",
     ["src/integrators/path_tracer.cpp", "src/integrators/ray_tracer.cpp", "src/integrators/light_integrator.hpp", "src/lights/area_light.cpp"],
     [("PathTracer::radiance", "src/integrators/path_tracer.cpp")])
prop("L04", "Rendering covers the whole image once, with any number of threads",
     "Rendering a scene samples every pixel of the image exactly once per requested sample whatever the image size and number of worker threads, so that a noise-free scene renders to the same image for every thread count, and finishes with the image file written.",
     ["inputs", "schedules", "configurations"], "all image sizes, thread counts and schedules of the workers",
     "tests never render an image",
     ["src/renderer.cpp", "src/renderer.hpp", "src/cameras/image_film.cpp", "src/main.cpp"],
     [("Renderer::render job queue", "src/renderer.cpp")])
