#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

R = "src/renderer/mod.rs"
p("C01", "Rendered image is the exact average of all samples on every schedule",
  "On every interleaving of the render's worker tasks, the image reported after sample k shows, at every pixel, the gamma-corrected average of exactly k radiance samples taken through that pixel: no contribution is lost, counted twice, or added to another pixel or row. This holds for every image size from one pixel upwards and any number of worker threads, and a render that is neither aborted nor failed always terminates.",
  ["schedules", "configurations"],
  "every interleaving of row tasks (2-3 rows, 1-3 workers, 1-2 samples) with all lock, channel and job-queue operations as switch points, up to the stated preemption bound; image sizes 1x1 to 4x3",
  "The tests compare a few downscaled renders with a 0.95 similarity threshold on whatever schedule happens to occur; a lost row update in one sample, or a misplaced row on some schedule, stays below the threshold.",
  [R, "src/camera.rs", "src/util/rgb_color.rs"],
  [("one task per row, merged into shared accumulators under a mutex, joined per sample", "src/renderer/mod.rs Renderer::render"), ("add_row_data", R)],
  ["RenderProgress.render_image received on the output channel"],
  [("pixel_colors", "sum of radiance per pixel over all finished samples", R)])
p("C02", "Progress reports: one per sample, in order, ending in exactly 1",
  "A render of N samples that is not aborted sends exactly N progress reports, the k-th of which carries progress k/N, and then returns success with nothing sent afterwards. The frames-per-second figure of the k-th report is k divided by the time since rendering started and its estimated time left is that elapsed time scaled by the remaining over the finished samples, for any behaviour of the clock, including one that stands still or steps backwards (then still without a panic).",
  ["histories", "configurations"],
  "every N up to the bound and every sequence of clock readings over an alphabet of steps (zero, small, large, backwards), with every schedule of the workers irrelevant to the outcome",
  "Unit tests check the two arithmetic helpers on four points; nothing checks the sequence of reports, their count, or odd clocks.",
  [R], [("sample loop and output.send", "Renderer::render"), ("calculate_fps / calculate_estimated_time_left", R)],
  ["messages on the output channel"])
p("C03", "Images are delivered exactly when the chosen strategy says so",
  "With the every-sample strategy each progress report carries an image; with the only-final strategy only the last one does; with an interval strategy the last one does and any other one does exactly if more than the interval has passed since the last report that carried an image (the first report always carries one, a gap of exactly the interval is left open). Each delivered image has the configured width and height.",
  ["histories", "configurations"],
  "every strategy, N up to the bound and every sequence of clock readings relative to the interval (below, equal, above, zero, backwards)",
  "No test uses any strategy but only-final, and clock histories cannot be sampled by a wall-clock test.",
  [R], [("RenderImageStrategy::should_generate_image and last_image_generated_time", R)],
  ["RenderProgress.render_image"])
p("C04", "An abort request stops the render within one sample on every schedule",
  "Once an abort message (of either value) has been sent, the render reports at most one more progress message and then returns success, wherever in the render the message arrives; if it was sent before rendering started nothing is reported at all. Reports sent before the stop are exactly a prefix of the reports of the unaborted render, and merely dropping the abort sender never stops a render.",
  ["schedules", "histories"],
  "every point of the render's execution at which the abort message can arrive, on every interleaving up to the preemption bound, for every image strategy",
  "No test ever sends an abort.",
  [R, "src/lib.rs"], [("abort.try_recv at the start of each sample and before image generation", "Renderer::render")],
  ["return value of the render call and messages on the output channel"])
p("C05", "Failures end the render with an error: never a panic, a hang or silence",
  "If the consumer of progress reports goes away at any moment, the render returns an error at its next report instead of panicking, hanging or rendering on to the end. If a post-processor fails, or cannot be used in the position it was given, the render returns that error and reports no progress for that sample.",
  ["schedules", "fault_sequences"],
  "every moment of the render at which the receiver can be dropped, on every interleaving up to the preemption bound; every position of a failing post-processor in chains of length 1 to 3 and every sample at which it fails",
  "No test drops the receiver or makes a post-processor fail.",
  [R, "src/post/mod.rs", "src/post/oidn.rs"], [("output.send(..)? and post-processor ?", "Renderer::render")],
  ["return value of the render call"])
p("C06", "Post-processors run in order on a copy of the raw average",
  "The image of the k-th sample equals the configured post-processors applied in order (all but the last as intermediate steps, the last producing the image) to the raw accumulated colors with sample count k; an empty list leaves the image unprocessed. Post-processing for one report never influences the colors from which later reports are made.",
  ["configurations", "histories"],
  "every chain of length 0 to 3 over no-op, bloom variants and the denoiser, every image strategy, several samples",
  "One test runs one bloom processor on one image outside the renderer; chains and repeated images are never tested.",
  [R, "src/post/mod.rs", "src/post/bloom.rs", "src/post/nop.rs"], [("split_last over post_processors, clone of the accumulator", "Renderer::render")],
  ["RenderProgress.render_image"])
p("C07", "The denoiser receives the true albedo and normal feature images",
  "When the configured post-processing asks for feature images, it is given, for each pixel, the accumulated albedo (background color where nothing is hit) and the accumulated normal of the first surface seen through that pixel, covering the same samples as the color image and laid out in the same pixel order. With the denoising feature compiled in, the denoiser is handed finite, in-range color, albedo and normal images of width x height x 3 values and its output becomes the delivered image.",
  ["configurations", "inputs", "schedules"],
  "small scenes with every pixel distinguishable, 1-2 samples, chains ending in the denoiser; feature oidn-postprocessor compiled against a recording stand-in for the library",
  "The denoiser feature is not compiled by the test build, and the similarity tests use the no-op fallback.",
  [R, "src/post/oidn.rs"], [("needs_albedo_and_normal_colors", "RenderConfig / PostProcessor"), ("to_rgb_vec", "src/post/oidn.rs")],
  ["buffers handed to the denoiser"])
p("C08", "A scene needs a light, and every light in it can be found and sampled",
  "Rendering is refused with an error exactly if the scene contains no light-emitting shape, at whatever depth of nested hierarchies; otherwise every light-emitting sphere, quad and triangle of the scene, and nothing else, is used as a light, once each, and can be sampled without a panic. Shapes that only bound a fog volume are never lights.",
  ["configurations", "inputs"],
  "every arrangement of up to three shapes (each kind, light or not, fog or empty group) in nested hierarchies of depth up to three",
  "One test has a scene without lights; nesting, fog and duplicates are not covered.",
  [R, "src/hittable/bvh.rs", "src/hittable/mod.rs", "src/pdf.rs"], [("get_lights", "src/hittable/*.rs"), ("Renderer::new", R)],
  ["Renderer::new result, Renderer.lights"])
p("C09", "Path traced color is the product of surface colors times the light reached",
  "The color returned for a path is the emitted color of the light it ends on, or the background color if it leaves the scene, multiplied by the color (and, for diffuse and fog surfaces, the sampling weight) of every surface on the way; lights emit from their front side only. Each component of a diffusely scattered color is limited to 3 with invalid values replaced by 0, and for every choice of random numbers the recursion ends at the configured depth, a path cut off there contributing black.",
  ["inputs", "configurations"],
  "every scene of a small family (mirrors, glass, diffuse, fog, blends, lights, background) and every outcome of the random draws on a finite grid, depth limits 0 to 5",
  "Similarity tests cannot tell a path weight that is off by a few percent or wrong only at one depth or on back faces.",
  ["src/renderer/shader.rs", R, "src/material/mod.rs"], [("PathTracingShader::shade recursion", "src/renderer/shader.rs"), ("filter_invalid_color_values", "src/renderer/shader.rs")],
  ["color of a shaded ray"])
p("C10", "Rendering any valid scene never panics and never yields an invalid color",
  "For every combination of shapes, materials, textures, transformations and shaders with finite parameters, and every possible sequence of random numbers, shading a camera ray terminates without a panic and gives finite color components, none negative except those of the normal preview. This includes surfaces inside or touching lights, rays along edges and axes, and degenerate shapes.",
  ["inputs", "configurations", "histories"],
  "all pairs of shape x material x light kind x shader in a small scene family and every outcome of the random draws on a grid that includes the extremes of the generator",
  "Random draws at the extreme of their range and degenerate placements practically never occur in a test run.",
  ["src/renderer/shader.rs", "src/material/mod.rs", "src/hittable/mod.rs", "src/pdf.rs"], [("NaN filtering and clamping in the shader; guards in hit functions", "src/renderer/shader.rs, src/hittable")],
  ["color of a shaded ray"])
p("C11", "Light attenuation follows the real distance the light travelled",
  "A light with an attenuation half length h seen along a path of total length L appears with its color scaled by 1/(1+L/h), thus at half strength at distance h, where L is the geometric length of the whole path from the camera over all bounces. The result depends neither on how the camera's focus distance or a ray's direction vector are scaled nor on whether a bounce was aimed at the light or chosen at random; lights without attenuation and the background are never scaled.",
  ["inputs", "configurations"],
  "every combination of a set of half lengths, distances, ray direction lengths, camera focus distances and bounce types (none, mirror, glass, diffuse aimed/random)",
  "The tests compare three renders with reference images made by the same code.",
  ["src/renderer/shader.rs", "src/material/mod.rs", R], [("accumulated_ray_length and attenuation_factor", "src/renderer/shader.rs"), ("AttenuatedColor::get_attenuated_color", "src/material/mod.rs")],
  ["color of a shaded ray"])
p("C12", "Preview shaders report surface color, normal and flat shading",
  "The albedo shader gives the surface (or emitted) color at the hit point, the normal shader gives the surface normal at the hit point facing the viewer, and the simple shader gives the surface color scaled by 0.75 plus half the dot product of that normal with the direction (1,1,-1), lights being unshaded. None of them depends on depth, on previous ray length, on the lights or on random numbers for a non-blended material.",
  ["inputs", "configurations"],
  "every shape x material x view direction of a small family and every outcome of the random draws",
  "Only one similarity test uses the simple shader; albedo and normal shaders are untested.",
  ["src/renderer/shader.rs"], [("AlbedoShader, NormalShader, SimpleShader", "src/renderer/shader.rs")],
  ["color of a shaded ray"])
p("C13", "The bounding hierarchy finds the same nearest hit as trying every object",
  "For every list of objects, in any order and nesting, with duplicates, coincident centers or empty groups, and for every ray and allowed distance interval (including intervals reaching behind the origin), intersecting the hierarchy gives a hit exactly if some object is hit, namely the nearest one with the same hit details. Rays that only graze an object's outline may go either way.",
  ["inputs", "configurations"],
  "all multisets of up to 5 shapes from a palette of spheres, quads and triangles placed on a grid (plus structured larger lists up to 64), in all orders, against a lattice of rays including axis-parallel ones, and several intervals",
  "The tests never compare the hierarchy with a linear search; the benchmark only measures it.",
  ["src/hittable/bvh.rs", "src/geo/mod.rs"], [("binary tree split by most spread axis; box culling; narrowed interval for the right child", "src/hittable/bvh.rs")],
  ["Hittable::hit on a Bvh"],
  [("Bvh", "tree of boxes over all objects", "src/hittable/bvh.rs")])
p("C14", "Parallel hierarchy construction gives the same result on every schedule",
  "Whatever the number of worker threads and however the parallel construction tasks interleave, building the hierarchy from a given list terminates and yields the same hierarchy (same text form, bounding box, lights and hits), containing every given object exactly once.",
  ["schedules", "configurations"],
  "every order of execution of the fork-join tasks of the construction for lists of 0 to 7 objects on 1 to 3 workers, including construction from inside a worker",
  "A test run sees one schedule of the fork-join pool.",
  ["src/hittable/bvh.rs"], [("rayon::join over disjoint copies of the two halves", "src/hittable/bvh.rs new_bvh")],
  ["Display form, bounding_box, get_lights and hit of the result"])
p("C15", "Bounding boxes enclose their shapes and box culling never loses a hit",
  "Every point at which a ray hits a shape, a box of quads, a fog volume or a hierarchy lies within that object's bounding box, which is never flatter than a small padding for flat shapes and is no larger than the shape requires beyond that padding. The box test accepts every ray that passes through the box's interior in front of the ray's origin and rejects every ray that clearly misses it, including rays parallel to an axis or starting inside the box; combining boxes gives the smallest box around both.",
  ["inputs", "configurations"],
  "all shapes of a palette under rotations, translations and scalings, and all boxes x rays on a small integer lattice (exact rational oracle), including zero direction components of either sign",
  "Unit tests cover one combination and one center; no box test at all on boundary or parallel rays.",
  ["src/geo/mod.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs", "src/hittable/sphere.rs", "src/util/interval.rs"], [("slab test", "Aabb::hit"), ("pad_if_needed, combine, new_from_*_points", "src/geo/mod.rs")],
  ["Hittable::bounding_box, Aabb::hit"])
p("C16", "Sphere intersection is the nearest true crossing in the interval",
  "A ray hits a sphere exactly if the sphere's surface has a point on the ray within the allowed distance interval, and the hit is the nearest such point; the reported distance, hit point, outward-facing test, unit normal facing against the ray and texture coordinates (angle around and height angle, both within 0..1) all describe that point. Scaling the ray's direction rescales only the distance.",
  ["inputs"],
  "all combinations of a lattice of centers, radii, origins (outside, inside), directions (unnormalized, axis parallel) and intervals",
  "No unit test intersects a sphere.",
  ["src/hittable/sphere.rs"], [("quadratic solve with both roots tried against the interval", "Sphere::hit"), ("calculate_sphere_uv", "src/hittable/sphere.rs")],
  ["RayHit fields"])
p("C17", "Quad intersection is exact and boxes of quads are closed and outward-facing",
  "A ray hits a quad exactly if it crosses its parallelogram within the allowed interval, and the reported distance, point, surface coordinates along the two edges, unit normal facing against the ray and front side (the side from which the edges turn counterclockwise) describe that crossing. A box made of quads is watertight: a ray from inside always hits it from behind, a ray from outside hits front side first, and every ray crosses it an even number of times or from inside an odd number.",
  ["inputs", "configurations"],
  "all combinations of a palette of parallelograms and boxes (corners given in any order), transformations, and a lattice of rays and intervals",
  "Only similarity tests of three rotated quads exist.",
  ["src/hittable/quad.rs"], [("plane equation plus planar coordinates", "Quad::hit"), ("six sides", "Quad::new_box")],
  ["RayHit fields"])
p("C18", "Triangle intersection is exact, whatever the triangle's size",
  "A ray hits a triangle exactly if it crosses it within the allowed interval, and the reported distance, point, interpolated texture coordinates, unit normal facing against the ray and front side (counterclockwise winding) describe that crossing. Scaling the whole geometry, or the ray's direction, up or down by a constant does not change whether it is hit; two triangles sharing an edge leave no gap, and a degenerate triangle is never hit and never causes a panic.",
  ["inputs", "configurations"],
  "all combinations of a palette of triangles (sizes from 1e-5 to 1e5, slivers, degenerate), windings, transformations and a lattice of rays and intervals",
  "Only similarity tests of loaded models exist.",
  ["src/hittable/triangle.rs"], [("Moeller-Trumbore", "Triangle::hit")],
  ["RayHit fields"])
p("C19", "Transformations compose in list order and act rigidly on shapes",
  "Rotations about each axis preserve lengths, angles and orientation, turn by the given angle with the documented sense and leave their axis fixed; translation moves points but not directions; scaling multiplies; a list applies its members first to last, and an empty list or the no-op changes nothing. A shape built with a transformation is hit by a ray exactly where the transformed image of the untransformed shape would be.",
  ["inputs", "programs"],
  "all transformation lists up to length 3 over an alphabet of rotations, translations and scalings, applied to a lattice of points, directions and shapes",
  "Doc examples check one point per transformation and one list of length two.",
  ["src/geo/transformation.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs"], [("Transformer implementations", "src/geo/transformation.rs")],
  ["Transformer::transform and hits on transformed shapes"])
p("C20", "Camera rays cover the configured view and meet at the focus plane",
  "The ray for image position (u,v) passes through the point of the focus plane (at the look-at distance, perpendicular to the view direction) that lies at fraction u from the left and v from the bottom of a view of the configured vertical field of view and the image's aspect ratio, upright with respect to the up vector. Its origin is the camera position without aperture, and otherwise lies within half the aperture size of it in the lens plane for every random draw, the ray still meeting the same point of the focus plane.",
  ["inputs", "configurations"],
  "all combinations of a palette of camera configurations (positions, fields of view, up vectors, apertures), image sizes, positions and random draws on a grid",
  "The camera has no unit test.",
  ["src/camera.rs"], [("Camera::new, Camera::get_ray", "src/camera.rs")],
  ["Camera::get_ray"])
p("C21", "Fog scatters after exactly the drawn free path inside its boundary",
  "For fog of density d a ray scatters inside the volume with probability 1-exp(-d*s), where s is the real length of the ray's stretch inside the boundary and within the allowed interval, at an exponentially distributed depth along that stretch, and passes through otherwise. This holds whatever closed convex shape, or hierarchy of the faces of one, forms the boundary, whether the ray starts outside or inside it, and however the ray's direction is scaled.",
  ["inputs", "configurations"],
  "all combinations of boundary (sphere, quad box in a hierarchy, nested), density, origins inside/outside, direction scalings and intervals; every outcome of the random draw on a fine grid",
  "One similarity scene contains thin fog; the scattering law is never checked.",
  ["src/hittable/constant_medium.rs", "src/hittable/bvh.rs"], [("two boundary intersections and a log-distributed distance", "ConstantMedium::hit")],
  ["Hittable::hit on a ConstantMedium"])
p("C22", "Mirrors reflect and glass refracts by the laws of optics",
  "A mirror sends the ray off by the mirror law, perturbed by at most its fuzz; glass sends it off either by the mirror law or by Snell's law for its index of refraction with the side taken into account, always mirroring beyond the critical angle and otherwise mirroring with the probability of Schlick's approximation. The scattered ray starts at the hit point and carries the surface color unchanged.",
  ["inputs"],
  "all combinations of incidence directions, normals, sides, indices of refraction and fuzz values on a grid and every outcome of the random draws on a fine grid",
  "Two doc examples check two reflections and one trivial refraction.",
  ["src/material/mod.rs", "src/geo/vec3.rs"], [("Metal::scatter, Dielectric::scatter, reflectance", "src/material/mod.rs"), ("reflect, refract", "src/geo/vec3.rs")],
  ["Material::scatter"])
p("C23", "Directions sampled toward lights match their stated probability density",
  "For every light shape and every viewing point outside it, all directions it samples hit the light, are distributed over its visible solid angle as the stated density says, and the density is zero for directions that miss it and integrates to one. The same agreement between sampling and density holds for the cosine and uniform-sphere distributions and for an equal mixture over several lights.",
  ["inputs", "configurations"],
  "all light shapes (sphere, quad, triangle) x viewing points of a palette, alone and in lists of 1-3, with every outcome of the random draws on a fine grid binned over the sphere of directions",
  "No test touches light sampling; a biased sampler only shifts brightness a little in the similarity tests.",
  ["src/pdf.rs", "src/hittable/sphere.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs"], [("pdf_value / random_direction", "src/hittable/*.rs"), ("ContainerPdf, CosinePdf, SpherePdf", "src/pdf.rs")],
  ["Hittable::pdf_value, Hittable::random_direction, Pdf"])
p("C24", "Diffuse and fog scattering is energy preserving wherever the lights are",
  "Averaged over its random choices, a diffuse surface lit uniformly from all directions returns exactly its color, and so does a fog particle, regardless of the number, shape and placement of the scene's lights; lit by part of the directions it returns the cosine-weighted (for fog uniform) share of them. No scattered ray of a diffuse surface with positive weight points below the surface.",
  ["inputs", "configurations"],
  "a palette of light sets x surface points x normals, with every outcome of the random draws on a fine grid",
  "Similarity tests cannot separate a slightly wrong weight from sampling noise.",
  ["src/material/mod.rs", "src/pdf.rs", "src/geo/vec3.rs"], [("mixture of light and cosine/sphere densities", "Lambertian::scatter, Isotropic::scatter")],
  ["Material::scatter"])
p("C25", "Blended materials choose the second with exactly the blend probability",
  "A blend behaves, for each scattered ray and each normal lookup, exactly like one of its two materials: the second with probability equal to the blend factor, otherwise the first, so that a factor of 0 (except with probability zero) or 1 gives pure materials. This holds through nested blends.",
  ["inputs", "configurations"],
  "blend factors 0 to 1 on a grid, all pairs of material kinds, nesting up to depth 2, every outcome of the random draws on a fine grid",
  "Three similarity renders at factors 0, 0.5 and 1.",
  ["src/material/mod.rs"], [("Blend::scatter, Blend::get_transformed_normal", "src/material/mod.rs")],
  ["Material::scatter on a Blend"])
p("C26", "Normal mapping yields unit normals in the surface's own frame",
  "With a normal map, the normal at a hit is the map's direction expressed in the frame formed by the surface's texture directions and its normal, and is of unit length on every shape, size and transformation; a flat map leaves the normal unchanged. A map that leans along the direction of increasing texture coordinates tilts the normal along that direction on the surface, and no finite map or placement yields an invalid normal.",
  ["inputs", "configurations"],
  "all shapes (spheres of several radii, quads, triangles with texture coordinates) x a lattice of hit points x a palette of map colors",
  "Tests check the transform on one ideal basis and a few renders of a sphere of one radius.",
  ["src/material/mod.rs", "src/hittable/sphere.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs", "src/geo/mod.rs"], [("transform_normal_by_map, Onb::local", "src/material/mod.rs"), ("tangent and bi_tangent in hit", "src/hittable/*.rs")],
  ["RayHit.normal"])
p("C27", "Texture lookup is total, wraps, and shows every texel equally",
  "An image texture gives for every pair of finite texture coordinates the color of one of its texels without a panic: coordinates repeat with period one in both directions, negative ones showing the mirror image (the lookup depends on the absolute values only), u runs left to right and v bottom to top, and the unit square is divided evenly among all texels, including the last row and column. Invalid coordinates never panic, and a solid color is the same everywhere.",
  ["inputs"],
  "all images of sizes 1x1 to 4x4 with distinct texels, and all coordinates on a dense grid over several periods plus special values (0, 1, -0, huge, NaN, infinities)",
  "Similarity tests of textured renders do not notice a missing row or column of texels or mirrored negative coordinates.",
  ["src/material/texture.rs"], [("ImageMap::color", "src/material/texture.rs")],
  ["Texture::color"])
p("C28", "Color conversion averages, gamma-corrects, clamps and never panics",
  "Converting an accumulated color to a pixel divides by the sample count, applies a square-root gamma and clamps to the displayable range: it is monotone in every component, independent per component, invariant when colors and count are scaled together, maps 0 or less or invalid values to 0 and 1 or more to 255. Converting a pixel to a color maps 0..255 evenly onto 0..1.",
  ["inputs"],
  "all 256 pixel values, and a dense grid of color values (negative, zero, tiny, around every quantization step, above one, infinite, NaN) x sample counts",
  "Two unit tests check three values.",
  ["src/util/rgb_color.rs", "src/post/mod.rs"], [("to_float, to_rgb_color, rgb_to_vec3", "src/util/rgb_color.rs")],
  ["pixels of the produced image"])
p("C29", "Height maps become the normal map of their surface",
  "Converting a height image gives a normal image of the same size whose every pixel encodes the unit normal of the surface computed from the eight neighbouring heights (edge pixels repeated), pointing away from rising heights, with a constant image giving straight normals; it works for every size including one pixel. Loading a bump texture treats the image as a height map exactly if more of its pixels look gray than look like unit vectors, and fails with an error for a missing or undecodable file.",
  ["inputs"],
  "all height images of 1x1 to 3x3 pixels over 3 gray levels, and all small images over a palette of gray and unit-vector colors written to and loaded from files",
  "Two tests check only which kind two files are detected as.",
  ["src/util/height_map.rs", "src/material/texture.rs"], [("to_normal_map", "src/util/height_map.rs"), ("load_bump_map / load_normal_texture", "src/material/texture.rs")],
  ["pixels of the normal map, colors of the loaded texture"])
p("C30", "Bloom adds exactly a clamped Gaussian blur of the bright pixels",
  "Bloom returns the input plus the separable Gaussian blur (weights symmetric and summing to one, width set by the configured fraction of the image width, edge pixels repeated) of the input's pixels at or above the threshold, capped at the maximum intensity; scaling colors and sample count together scales the result, and pixels farther from any bright pixel than the kernel radius are unchanged. Kernel fractions outside 0 to 0.5 are rejected and every accepted configuration works on every image size without a panic.",
  ["inputs", "configurations"],
  "all images up to 4x3 over a 3-color alphabet x kernel fractions x thresholds x caps x sample counts; all kernel sizes up to 200 for the weights; all orders of the parallel blur tasks on small images",
  "One similarity test of one image with one configuration.",
  ["src/post/bloom.rs", "src/util/gaussian.rs"], [("two-pass separable blur", "BloomPostProcessor::intermediate_post_process"), ("create_gaussian_blur_weights", "src/util/gaussian.rs")],
  ["PostProcessor::post_process and intermediate_post_process"])
p("C31", "A loaded OBJ model has exactly the file's faces, coordinates and materials",
  "Loading an OBJ file gives a model that consists of exactly the triangles described by its faces (polygons split into triangles, absolute and relative indices), with their positions under the given transformation, their texture coordinates, and the material in force for each face: its texture or diffuse color and normal map from the material file, or the given default (white if none) where no material applies; a material that names neither color nor texture is white. This holds for any number of faces, groups and materials.",
  ["programs", "inputs"],
  "all small OBJ/MTL programs over a grammar of vertex, texture-coordinate, face, group and material statements up to a length bound, and files with 1 to 600 materials",
  "A handful of fixed files with at most a few materials are rendered with a similarity threshold.",
  ["src/loader/obj.rs"], [("Obj::load", "src/loader/obj.rs")],
  ["hits on the loaded model"])
p("C32", "Damaged or missing model files are reported as errors, never a panic",
  "Loading a model whose OBJ file, material file or texture is missing, truncated at any byte, or has any byte or token damaged either succeeds with some model or returns an error naming the failing file; it never panics or hangs. A missing object file, material file or texture is always reported as an error. A model that fails to load leaves nothing behind and loading the repaired file afterwards succeeds.",
  ["fault_sequences", "crash_points"],
  "every truncation point and every single-token deletion, duplication and replacement of small OBJ, MTL and PNG files, and every missing file",
  "Four tests cover three missing and one invalid file.",
  ["src/loader/obj.rs", "src/material/texture.rs"], [("map_err on each file access", "src/loader/obj.rs, src/material/texture.rs")],
  ["result of Loader::load, ImageMap::load, load_normal_texture"])
p("C33", "Random helpers stay in range for every draw and cover it uniformly",
  "For every value the underlying generator can give, the random helpers return values within their stated range: floats at least the minimum and below (never above) the maximum, integers below their bound, indices inside the slice, points inside the unit ball or disc, and directions of unit length (cosine directions in the upper hemisphere). Over all draws, floats, integers and indices are uniform, points and directions uniform over ball, disc and sphere, and cosine directions have the cosine density.",
  ["inputs"],
  "every outcome of the draws on a fine grid including the generator's extremes, with rejection loops followed to a bounded number of retries",
  "The tests draw 100 values each: extremes and distributions are not covered.",
  ["src/random.rs", "src/geo/vec3.rs"], [("random_* functions", "src/random.rs, src/geo/vec3.rs")],
  ["return values"])
p("C34", "Vector, basis, ray-distance and interval operations obey their laws",
  "Vector arithmetic, dot and cross product, length, normalization, reflection and refraction satisfy the algebraic laws they are named for; a basis built from any non-zero vector is orthonormal, has that vector's direction as its normal and maps local coordinates isometrically. The distance between two rays' lines is symmetric, independent of their parametrization and equal to the true minimum distance for skew, crossing, parallel and equal lines; intervals contain, clamp, expand, shift and combine consistently.",
  ["inputs"],
  "all tuples over a lattice of vectors, scalars and intervals",
  "Doc examples and unit tests check one to three points per operation.",
  ["src/geo/vec3.rs", "src/geo/mod.rs", "src/util/interval.rs", "src/util/mod.rs"], [("Vec3 operators, Onb, Ray::shortest_distance, Interval", "src/geo, src/util/interval.rs")],
  ["return values"])

p("C35", "Renders are independent of earlier and concurrent renders",
  "What a render reports and returns depends on its scene alone: rendering again with the same renderer after a render that completed, was aborted, lost its receiver or failed, rendering other scenes of other sizes and settings before it, and rendering on several threads at the same time (by one shared renderer or by several) all give the same reports, images, denoiser inputs and results as the render on its own. No sample of one render ever appears in another.",
  ["histories", "schedules"],
  "every sequence of up to 3 renders over an alphabet of sizes, post-processors, strategies and endings; every sequence of up to 4 uses of one renderer with every combination of endings; two concurrent renders on every schedule up to a bound on deviations",
  "Every test makes one render; what a renderer keeps from an earlier or aborted render can never show.",
  [R, "src/lib.rs", "src/post/oidn.rs"], [("accumulators, channels and thread pool local to each call", "Renderer::render")],
  ["messages on the output channel and return value of the render call"])

p("C36", "What a camera sees does not depend on where the scene is or how it is listed",
  "Moving, scaling and turning a whole scene together with its camera does not change what is seen: for the same random numbers every ray through the image gives the same color, with lengths of attenuation scaled along, the normal preview turning with the scene. It is the same whether the coordinates are given moved or the shapes are moved by the library's transformations, and listing the objects in another order, or grouping them into nested hierarchies in another way, shows the same. Turning applies to scenes without scattering in random directions, reordering to those where no light is chosen at random; fog and flat shading have fixed lengths and directions and are only moved.",
  ["configurations", "inputs"],
  "five scenes of mirrors, glass, matte and rough surfaces, textures, normal maps, fog and lights x translations, scalings and rotations x seven groupings x four shaders x a lattice of image positions x a decision tree of random draws",
  "Tests show each scene at one place only; a part of the pipeline that forgets the origin, the camera's frame or the order of a list is right where the tests look.",
  ["src/hittable", "src/geo", "src/camera.rs", "src/renderer/shader.rs", "src/material/mod.rs"],
  [("hits, boxes and hierarchy relative to any origin", "src/hittable"), ("camera frame", "src/camera.rs"), ("transformations", "src/geo/transformation.rs")],
  ["color of a shaded camera ray"])
p("C37", "Light adds up: what is seen is linear in what lights and background give off",
  "With the path tracing shader, the color seen for any sequence of random numbers is the sum of what each light and the background contribute alone, each in proportion to its brightness, per color channel, through any number of mirrors, glass, fog, matte surfaces and attenuation, as long as scattered light stays below the level at which it is cut off on purpose. A light of no brightness contributes nothing and changes nothing else.",
  ["configurations", "inputs"],
  "five scenes with up to 10 lights x mixtures (off, on, another color, of each light) x depth limits x a lattice of image positions x a decision tree of random draws",
  "Tests render each scene with one set of lights and compare whole images with a tolerance.",
  ["src/renderer/shader.rs", "src/material/mod.rs", "src/pdf.rs"],
  [("product of color, probability and incoming light", "src/renderer/shader.rs"), ("emission and its attenuation", "src/material/mod.rs")],
  ["color of a shaded camera ray"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
