NOTE = ('Every obligation of the listed contracts is discharged for all inputs over the mathematical reals; assumes the exact-real '
        'model of numpy (pyvc/npx.py) and elementary-function axioms; rounding is not modelled. The same contracts are evaluated on '
        'the real code with real numpy as a cross-check. ')
NOT_APPLICABLE = []
PROPS = [
 dict(id='C01', title='Vectors, frames, rays and surface differentials obey vector algebra',
  statement='Normalising a non-null direction yields the unit vector of the same direction, any unit vector is completed to an orthonormal frame, flipping a normal towards a direction and converting to and from spherical angles preserve the direction, and none of these modifies its arguments. Copying a ray (with or without offset rays) preserves every field without sharing storage, a child ray is one bounce deeper at the same time, and scaling differentials scales exactly the offsets. A hit record holds the unit surface normal with the documented orientation, and its texture differentials reproduce the offset of the hit point in the tangent plane.',
  quant='all vectors, rays and tangent pairs (degenerate null vectors included where defined)',
  why='tests sample mostly non-negative random vectors; differentials, frames and aliasing between copies are not tested at all',
  files=['pytracer/geometry/__init__.py', 'pytracer/geometry/utility.py', 'pytracer/geometry/diffgeom.py'],
  mech=[('vector classes and rays', 'pytracer/geometry/__init__.py'), ('frame and angle utilities', 'pytracer/geometry/utility.py'), ('hit record', 'pytracer/geometry/diffgeom.py')],
  note=NOTE),
 dict(id='C02', title='Axis-aligned boxes form a lattice under union and containment',
  statement='A box contains a point exactly when each coordinate lies between its corners; union with a point or a box is the least box containing both, has the empty box as its identity and, in its functional form, leaves its arguments unchanged; overlap, expansion, surface area, volume, longest axis, interpolation, relative offset and bounding sphere agree with the same set-of-points meaning. Equality and inequality of boxes are negations of each other.',
  quant='all boxes (empty and degenerate ones included), all points and all parameters',
  why='tests sample a few random boxes and never the empty box, degenerate boxes or aliasing',
  files=['pytracer/geometry/__init__.py'], mech=[('box operations', 'pytracer/geometry/__init__.py BBox')], note=NOTE),
 dict(id='C03', title='The ray/box test reports exactly the parametric interval inside the box',
  statement='For every ray, axis-parallel ones included, the box test reports a hit if and only if some point of the ray within its parametric range lies in the box, and on a hit the returned interval is exactly the set of such parameters. The test changes neither the ray nor the box.',
  quant='all boxes, all rays with finite or unbounded range and any non-null direction, including zero direction components and origins on box planes',
  why='tests use random directions without zero components; zero divided by zero and infinite slabs only occur on measure-zero inputs',
  files=['pytracer/geometry/__init__.py'], mech=[('slab test', 'pytracer/geometry/__init__.py BBox.intersect_p')], note=NOTE + 'Infinities and NaN are followed as IEEE values.'),
 dict(id='C05', title='Transforms stay invertible and act consistently on every geometric type',
  statement='Every transform that the constructors, the factories (translation, scaling, rotations, look-at, perspective, orthographic), inversion and composition produce carries a matrix and its true inverse and cannot be modified afterwards. Points, directions, normals, rays, offset rays and boxes are mapped consistently: composition is application in sequence, the inverse undoes it, normals stay perpendicular to transformed tangents, ray points correspond at equal parameters, and the world bound of a shape encloses the image of its object bound.',
  quant='all affine (and, for points, projective) matrices, angles, axes and geometric arguments',
  why='tests try a handful of matrices; inverse consistency and action laws quantify over all matrices and arguments',
  files=['pytracer/transform/__init__.py', 'pytracer/shape/__init__.py'],
  mech=[('transform class and factories', 'pytracer/transform/__init__.py'), ('world bound', 'pytracer/shape/__init__.py Shape.world_bound')], note=NOTE),
 dict(id='C06', title='Triangles are hit exactly where a ray crosses them, and report that point',
  statement='A ray hits a triangle of a mesh if and only if it crosses the triangle within its parametric range (never when parallel to its plane), the intersection predicate agrees with the full test, and the hit record holds the crossing point, its parameter, the interpolated texture coordinates and derivatives consistent with them. An alpha mask of zero removes exactly the masked points. Area, bounds, sampled points and the interpolated shading frame are those of the triangle whose vertices the mesh indices select; mesh creation keeps vertex data and refinement yields every triangle once.',
  quant='all triangles, all rays and ranges, all barycentric positions, all per-vertex normals, tangents and texture coordinates',
  why='tests shoot a few rays at one triangle; index mix-ups, parallel rays, clipped ranges and shading data are unseen',
  files=['pytracer/shape/triangle.py'], mech=[('triangle and mesh', 'pytracer/shape/triangle.py')], note=NOTE),
 dict(id='C07', title='Quadrics report the nearest kept surface point of a ray and its local geometry',
  statement='For spheres, cylinders and disks of any size, partial ones (clipped in z or radius and swept by a maximum azimuth) included, a ray hits if and only if a kept surface point lies within its parametric range; the nearest such point is reported, predicate and full test agree, and the ray is left unchanged. Rays whose line stays off the surface miss. The hit record holds the point, texture coordinates in the unit square that locate it, tangents that are the derivatives of the point with respect to them, and a unit normal. Area and object bound agree with the kept surface, and sampled points lie on it with its outward normal; the densities of points and of directions towards a shape match the sampling, and the world bound is that of the placed object bound.',
  quant='all radii, heights, azimuth limits, placements, all rays and parametric ranges',
  why='tests shoot random rays at one full sphere; second roots, clipping, partial sweeps, cylinders and disks are untested',
  files=['pytracer/shape/sphere.py', 'pytracer/shape/cylinder.py', 'pytracer/shape/disk.py', 'pytracer/shape/__init__.py'],
  mech=[('sphere', 'pytracer/shape/sphere.py'), ('cylinder', 'pytracer/shape/cylinder.py'), ('disk', 'pytracer/shape/disk.py')], note=NOTE),
 dict(id='C08', title='Sampling warps have exactly the densities they are documented with',
  statement='Each warp of the unit square onto a sphere, hemisphere, disk, cone or triangle reaches its documented domain in the documented parametrisation, including the ends of the parameter ranges, and the reported density is exactly the reciprocal of the area (solid-angle) element of the warp, so that samples are distributed with the density that estimators divide by. The Henyey-Greenstein warp and density agree with its phase function, and the power and balance heuristics are partitions of unity.',
  quant='all parameters in the unit square, all cone angles and frames, all anisotropies and sample counts',
  why='a wrong warp still returns plausible points; no test relates the distribution of samples to the density',
  files=['pytracer/montecarlo/utility.py'], mech=[('warps and densities', 'pytracer/montecarlo/utility.py')], note=NOTE),
 dict(id='C09', title='Tabulated distributions sample exactly the density they report',
  statement='For every table of non-negative values with a positive sum, of any size, the cumulative table is the normalised running integral, a continuous sample lies in the segment its random number selects at the relative position of the number within it, the reported density is the table value over the integral, segments of zero value are never sampled, and discrete samples have probability proportional to the value. The two-dimensional distribution samples the row by its marginal and the column by its conditional, and its density function agrees with the density returned when sampling.',
  quant='all tables of any length and all random numbers (loops cut at invariants, no bound)',
  why='no test samples a distribution; off-by-one indices and zero segments only show for particular tables and numbers',
  files=['pytracer/montecarlo/distribution.py'], mech=[('1-D and 2-D distributions', 'pytracer/montecarlo/distribution.py')], note=NOTE),
 dict(id='C13', title='Reflection components: Fresnel terms, values, reciprocity and densities',
  statement='The Fresnel terms are the dielectric and conductor formulas, between 0 and 1, with total internal reflection. Every reflection and transmission component (Lambertian, Oren-Nayar, microfacet with Blinn or anisotropic distribution, Fresnel blend, specular, measured) evaluates the documented formula, non-physical directions aside reciprocally; the direction it samples lies in its hemisphere, comes with the value and density of that direction, and that density is the derivative of the sampled solid angle. Scaled and BRDF-to-BTDF adapters and reflectances by Monte Carlo are the composition they document, flags match exactly the documented subsets, and measured tables are looked up at the documented bin.',
  quant='all direction pairs (grazing and mirror ones included), indices of refraction, exponents, roughness, spectra and random numbers',
  why='no test evaluates a reflection component; reciprocity and density agreement quantify over all direction pairs',
  files=['pytracer/reflection/fresnel.py', 'pytracer/reflection/utility.py', 'pytracer/reflection/bdf/bdf.py', 'pytracer/reflection/bdf/torrance.py', 'pytracer/reflection/bdf/orennayar.py', 'pytracer/reflection/bdf/fresnelblend.py', 'pytracer/reflection/bdf/measured.py'],
  mech=[('Fresnel terms', 'pytracer/reflection/fresnel.py'), ('components and adapters', 'pytracer/reflection/bdf/'), ('direction helpers', 'pytracer/reflection/utility.py')], note=NOTE),
 dict(id='C14', title='The BSDF of a point is the mixture of its components in its shading frame',
  statement='The shading frame is orthonormal and right-handed with the normal as its pole, and world-to-local and local-to-world are inverse rotations. For any number of components and any flags, the value is the sum of the matching components on the side told by the geometric normal, the density is the average over the matching components (zero when none match), and reflectances are sums, all evaluated at the local directions. A sample is taken from the matching component its component number selects, and its density and value are those of the whole mixture, except that a specular component keeps its own value; black and unmatched samples are empty. Components are kept in order and counted by flags, and sample numbers come from the slots reserved for them.',
  quant='all frames, all lists of components of any length (loops cut at invariants), all directions, random numbers; flag sets as listed in the contracts',
  why='no test builds a BSDF; mixture densities and side selection quantify over component lists and directions',
  files=['pytracer/reflection/bsdf.py'], mech=[('BSDF and samples', 'pytracer/reflection/bsdf.py')], note=NOTE),
 dict(id='C15', title='Spectra are sample-wise algebras with consistent colour conversion',
  statement='Arithmetic, interpolation, clamping and elementary functions of spectra act on each sample, keep the class, and leave their operands unchanged; spectra are made of the values given and share no storage with them. RGB and XYZ convert linearly and back to the precision of the standard matrices, luminance is the Y of that conversion, also for sampled spectra, whose colour is the matching-curve integral. Resampling a measured curve given in any order yields per bin the mean of the piecewise linear curve; RGB colours become sampled spectra by the documented basis decomposition, and basis tables are the binned measured curves.',
  quant='all sample values, scalars, wavelength intervals and curves (mean of a curve: at most 3 points symbolically)',
  why='tests compare a few random spectra; resampling, basis decomposition and storage sharing are untested',
  files=['pytracer/spectral/spectrum.py'], mech=[('spectrum classes', 'pytracer/spectral/spectrum.py')],
  note=NOTE + 'The mean over an interval (average_spectrum_samples) is bounded to curves of 3 points, labelled bounded.'),
 dict(id='C10', title='The film gives every sample to exactly the pixels its filter reaches',
  statement='The pixels of a film are those of its crop window, black and with storage of their own; every sample within reach of a pixel lies in the sample extent. Adding a sample changes exactly the pixels whose centres lie within the half widths of the filter, each by the tabulated filter weight of its offset: weight to the weight sum, weighted XYZ colour to the colour. A splat goes unweighted to the pixel containing it. The written image holds, at (row, column), the weighted mean of the samples, no component negative, plus the scaled splats, and a window is placed at its offsets in an existing file.',
  quant='all resolutions, crop windows, filters, sample positions, colours and reachable pixel contents (loops cut at invariants, no bound); the PNG codec only by random images',
  why='no test makes a film; extents, offsets and weights go wrong only at borders, crops and particular offsets',
  files=['pytracer/film/film.py', 'pytracer/utility/imageio.py'], mech=[('image film', 'pytracer/film/film.py'), ('image files', 'pytracer/utility/imageio.py')],
  note=NOTE + 'PIL is not modelled: the placement of a window in a file is a bounded check on random images. Concurrency of add_sample is not modelled beyond locks being released.'),
 dict(id='C11', title='Reconstruction filters have their documented profiles',
  statement='Each filter (box, triangle, Gaussian, Mitchell, Lanczos) is the product of its documented one-dimensional profiles at every offset of its support, mirror symmetric in each coordinate; the triangle, Gaussian and Lanczos filters are nil beyond the half widths, box, triangle and Gaussian never negative; the Mitchell pieces meet smoothly, vanish at the edge and sum to one over unit shifts. Arrays of offsets are weighted entry by entry and not modified.',
  quant='all half widths, parameters and offsets; arrays of at most 3 offsets',
  why='no test evaluates a filter; a wrong coefficient still gives a plausible image',
  files=['pytracer/filter/filter.py'], mech=[('filters', 'pytracer/filter/filter.py')], note=NOTE),
 dict(id='C12', title='Stratified sampling covers every stratum, pixel and tile exactly once',
  statement='A stratified pattern of any size has exactly one sample in each cell, centred without jitter, and a Latin hypercube exactly one in each row and column. Generating fills one pixel per call in reading order, every pixel of the window once and then nothing: image and lens positions from stratified patterns, times spread over the shutter interval, one Latin hypercube per request. Tiles are whole pixels, partition the window, and sub-samplers keep the other parameters. Requests are answered with the slot they are stored in, and duplicates have storage of their own.',
  quant='all numbers of samples, windows, requests, positions in the traversal and permutations (loops cut at invariants); partition of tiles for counts of at most 4, grid membership for all',
  why='no test draws a sample; strata and tiles go wrong only for particular counts, windows and tile numbers',
  files=['pytracer/sampler/sampler/__init__.py', 'pytracer/sampler/sampler/stratified.py', 'pytracer/sampler/utility.py', 'pytracer/sampler/sample.py'],
  mech=[('patterns', 'pytracer/sampler/utility.py'), ('stratified sampler', 'pytracer/sampler/sampler/stratified.py'), ('tiles', 'pytracer/sampler/sampler/__init__.py'), ('sample requests', 'pytracer/sampler/sample.py')],
  note=NOTE + 'numpy.random is assumed to return values in [0, 1) and shuffle to apply some permutation.'),
 dict(id='C16', title='Cameras turn film samples into the rays of their projection',
  statement='A film position maps to the screen window of the camera: columns left to right, rows top to bottom, on the near plane scaled by the tangent of half the field of view. Without a lens the ray of a sample is that of the pinhole or parallel projection through that place; with one it starts at the sampled lens point and passes the focal point of the pinhole ray. Environment cameras cover the sphere by polar rows and azimuthal columns. Rays have unit direction, unlimited range and depth nil, and carry the time of the sample within the shutter interval, at which they are placed in the world. Differentials are the rays of the samples one pixel to the right and one below, and the sample is unchanged.',
  quant='all samples, resolutions, windows, shutter intervals, lens radii, focal distances and fields of view',
  why='no test makes a camera; wrong differentials, shutter times or lens offsets still produce plausible pictures',
  files=['pytracer/camera/camera.py', 'pytracer/camera/projective.py', 'pytracer/camera/environment.py'],
  mech=[('orthographic, perspective and pinhole cameras', 'pytracer/camera/projective.py'), ('environment camera', 'pytracer/camera/environment.py'), ('general differentials', 'pytracer/camera/camera.py')],
  note=NOTE + 'The placement of rays in the world is the contract of C05; the disk warp that of C08.'),
 dict(id='C04', title='The bounding volume hierarchy finds exactly what brute force finds',
  statement='For any set of primitives, split method, leaf size, ray and parametric range, the hierarchy reports a hit exactly when some primitive is hit in the range, with the record and parameter of a closest one, and nothing changes without a hit; the predicate agrees and leaves the ray alone. Building only permutes the primitives: each lies in exactly one leaf and in the box of every node above it, an inner node being preceded by no other node of its subtree and followed by its first one. Splits lose no primitive, the search stays within its stack and the node array, and terminates. The bound is that of all primitives, and an empty set gives an empty hierarchy that nothing hits.',
  quant='all numbers of primitives, boxes, tree shapes, split methods, leaf sizes, rays (axis-parallel ones included) and ranges (loops and recursion cut at invariants and contracts, no bound)',
  why='no test builds a hierarchy; lost primitives, culled hits and overflowing stacks need particular sets, trees and rays',
  files=['pytracer/aggregate/accelerator/bvh.py'], mech=[('construction, flattening and traversal', 'pytracer/aggregate/accelerator/bvh.py')],
  note=NOTE + 'Primitives are abstract: each has a box, and a parameter at which it is hit, inside the box. Equal-count splitting is not implemented by the code and not claimed.'),
 dict(id='C20', title='Primitives, aggregates and scenes report the surface they were hit on',
  statement='A geometric primitive is hit exactly when its shape is within the range; the range is shortened to the hit and the record carries the primitive, its placement, the differential geometry and epsilon, and nothing changes on a miss. A transformed primitive answers for its child at the time of the ray, with the range carried back and the record placed in the world. A list of primitives reports the closest hit whatever the order, the predicate agrees, and bounds cover all members. Refinement replaces primitives by all their parts, once each. A scene forwards to its aggregate and its bound covers aggregate and volume. Records carry the tangents, derived normal and ray differentials of their definitions.',
  quant='all primitives, shapes and lights (abstract, by contract), lists of any length, refinement worklists of any length, rays and ranges (loops cut at invariants, no bound)',
  why='no test builds a primitive or a scene; a closer hit lost, a stale range or a record without placement needs particular orders of primitives',
  files=['pytracer/aggregate/primitive.py', 'pytracer/aggregate/aggregate.py', 'pytracer/aggregate/intersection.py', 'pytracer/scene/scene.py', 'pytracer/geometry/diffgeom.py'],
  mech=[('primitives', 'pytracer/aggregate/primitive.py'), ('list aggregate', 'pytracer/aggregate/aggregate.py'), ('scene', 'pytracer/scene/scene.py'), ('surface records', 'pytracer/geometry/diffgeom.py')], note=NOTE + 'The placement of the child of a transformed primitive is taken by its contract (C05); shapes are abstract here (C07).'),
 dict(id='C21', title='The grid accelerator finds exactly what brute force finds',
  statement='For any set of primitives, ray and range, the grid reports a hit exactly when some primitive is hit in the range, with the record and parameter of a closest one, and the predicate agrees. Building lists every primitive in every voxel its box touches and in no voxel twice, voxel positions and offsets are inverse up to the width of a voxel, and offsets are distinct. The walk visits the voxels along the ray in order of entry, starting where the ray enters the grid, and stops only when it leaves the grid or its range.',
  quant='all numbers of primitives, boxes, grid resolutions, rays (axis-parallel, outside and crossing several planes at once included) and ranges (loops cut at invariants, no bound)',
  why='no test builds a grid; missed voxels and early stops need particular rays',
  files=['pytracer/aggregate/aggregate.py'], mech=[('construction and traversal', 'pytracer/aggregate/aggregate.py')],
  note=NOTE + 'Primitives are abstract: each has a box, and a parameter at which it is hit, inside the box. Grids over no primitives or of zero extent are not claimed.'),
 dict(id='C17', title='Lights: emitted radiance, shadow rays, emitted rays and their densities',
  statement='Every light returns the radiance of its definition (inverse square law, spot profile, projected and goniometric images looked up at the right place, one-sided area emission, environment map), a unit direction to the light, the density of that direction (1 with pdf 0 for delta lights), and a shadow ray from the point over exactly the segment to the light (all of the direction for lights at infinity) with its time. Rays leaving a light start on it, carry the right normal, radiance and density. Total power matches the definition. Sets of shapes choose by area and have the area weighted mean density.',
  quant='all placements, intensities, images (abstract, by contract), shading points, random numbers and times; sets of any number of shapes (loops cut at invariants, no bound)',
  why='no test builds a light; wrong directions, densities and ranges bias images without failing',
  files=['pytracer/light/light.py', 'pytracer/light/utility.py'],
  mech=[('lights', 'pytracer/light/light.py'), ('samples, shadow rays, sets of shapes', 'pytracer/light/utility.py')], note=NOTE + 'Image maps and shapes are abstract, by contract (C22, C07); sampling routines by C08, C09. DiffuseAreaLight.le is left alone.'),
 dict(id='C18', title='Participating media: phase functions, regions, optical thickness, aggregates',
  statement='Phase functions equal their definitions, depend on the angle only, are symmetric, not negative and integrate to one over the sphere. Volume regions answer with their coefficients (scaled by the density of the medium) at the world point carried into the space of the volume, nothing outside; they intersect rays carried there and are bounded by their placed extent. Gridded density is trilinear between voxel centres; exponential density decays with height. Optical thickness is the attenuation summed at each step of the overlap. Aggregates add their regions, mix phase functions by scattering, cover all overlaps and bounds. Measured coefficients come in the order absorption, scattering.',
  quant='all directions, asymmetries, points, placements, rays, grids of any size, any number of regions and steps (loops cut at invariants, no bound); every entry of the measured table',
  why='no test touches the volumes; a wrong frame, a dropped step or an unnormalised phase function only changes brightness',
  files=['pytracer/volume/volume.py', 'pytracer/volume/utility.py', 'pytracer/volume/bssrdf.py'],
  mech=[('regions and aggregates', 'pytracer/volume/volume.py'), ('phase functions and data', 'pytracer/volume/utility.py'), ('subsurface coefficients', 'pytracer/volume/bssrdf.py')], note=NOTE + 'subsurface_from_diffuse is an empty stub in the code and not claimed.'),
 dict(id='C23', title='Light transport: direct lighting, specular bounces, integrators, rendering',
  statement='The direct lighting of a point is the sum over both sampling strategies of emission times reflection times cosine over density, weighted by the power heuristic, attenuated along the shadow ray, and nothing where blocked; over all lights it is the mean of the requested samples per light, over one light it is that of the chosen light over the probability of the choice. Specular reflection and transmission recurse along the mirrored or refracted ray (with the differentials of it) and return radiance times weight times cosine over density, leaving the intersection and the ray as they were. Whitted, direct and path integrators return emission where seen directly plus direct lighting plus their bounces up to the depth, with the throughput of the whole path, Russian roulette unbiased, and ask for the samples they use. The renderer attenuates surface radiance and adds that of the volume; a rendering task takes every sample once, with its weight, and puts it in the film where it belongs; rendering runs all tasks and writes the image.',
  quant='all points, materials, lights, spectra, densities, random numbers, depths, numbers of lights, samples and bounces (loops cut at invariants, no bound); the rendering task for at most 2 pixels and 3 samples per pixel',
  why='no reliable test runs an integrator; a bias in radiance never fails, it only changes the image',
  files=['pytracer/integrator/utility.py', 'pytracer/integrator/surface/whitted.py', 'pytracer/integrator/surface/direct.py', 'pytracer/integrator/surface/path.py', 'pytracer/renderer/renderer.py'],
  mech=[('direct lighting and specular bounces', 'pytracer/integrator/utility.py'), ('Whitted', 'pytracer/integrator/surface/whitted.py'), ('direct', 'pytracer/integrator/surface/direct.py'), ('path', 'pytracer/integrator/surface/path.py'), ('rendering loop', 'pytracer/renderer/renderer.py')], note=NOTE + 'Lights, reflection, media, film and samplers are abstract, by contract (C17, C13, C18, C11, C10). The rendering task is bounded (2 pixels, 3 samples each).'),
 dict(id='C22', title='Texture coordinates, procedural textures and noise',
  statement='Mappings give each point its texture coordinates (affine in u and v or in the position along two axes, polar angle and azimuth or azimuth and height of the placed point, or the placed point itself) together with their differentials for one step on the image plane: the linear part, or the forward difference with the azimuth taken the short way round where it wraps. Constant, product, mixture, bilinear and coordinate textures are what their names say of their operands at the same point. Checks of unit width alternate; a filtered check mixes its two textures by the part of the filter box that lies in either kind of check. Dots have a disk of radius .35 per cell or none, as the noise of the cell tells, moved by noise without leaving the cell. Noise interpolates, by the quintic fade, the gradients of the permutation table at the eight corners of the cell, is nil at corners and continuous across cells; the permutation table holds each number below 256 once, twice over. Brownian motion and turbulence add up as many octaves as the differentials resolve, the last fading in by smooth_step; waves and marble are built on them.',
  quant='all points, differentials, parameters, operands and noise functions; any number of octaves (loops cut at invariants, no bound)',
  why='no reliable test evaluates a texture; a wrong differential or weight only shows as aliasing or as a wrong picture',
  files=['pytracer/texture/texturemap/__init__.py', 'pytracer/texture/texture/__init__.py', 'pytracer/texture/utility.py', 'pytracer/data/noise.py'],
  mech=[('mappings', 'pytracer/texture/texturemap/__init__.py'), ('procedural textures', 'pytracer/texture/texture/__init__.py'), ('noise, smooth_step, octaves', 'pytracer/texture/utility.py'), ('permutation table', 'pytracer/data/noise.py')], note=NOTE + 'Operands, mappings and, for the textures built on it, noise are arbitrary functions (noise has its own contracts).'),
 dict(id='C19', title='Image maps: pyramids, filtered look-ups, image textures',
  statement='A texel outside its level is the image repeated, black or the continued edge, as the map says. The map resamples images to sides that are powers of two (each new pixel is the weighted sum of the four nearest old ones, by a windowed sinc of half their distance, weights adding up to one) and then halves them level by level down to one texel, each texel the mean of the four below (two in a row or column), for numbers, colours and bytes. A look-up of width nil interpolates the finest level; other widths mix the interpolations of the two levels whose texels are nearest in width, or give the only texel of the coarsest. A look-up by two differentials takes their largest component as half the width (trilinear), or the mean of exactly the texels inside the ellipse they span, weighted by a Gaussian of the squared elliptical radius, on the two levels selected by the minor axis, which is lengthened until the ellipse is no more eccentric than allowed. Image textures evaluate the map at the mapped point; they share a map when file, filtering, wrapping, scale, exponent and stored type agree and only then, and the map is made of the picture scaled and raised to the exponent.',
  quant='all images of any size, contents, coordinates, widths, differentials, wrap modes and limits of eccentricity (loops over texels and levels cut at invariants, no bound)',
  why='no test builds an image map; an exchanged row and column, a wrong level or weight shows only as a blurred or sheared texture',
  files=['pytracer/texture/utility.py', 'pytracer/texture/texture/image.py'],
  mech=[('look-ups, pyramid, resampling', 'pytracer/texture/utility.py'), ('image textures', 'pytracer/texture/texture/image.py')], note=NOTE + 'Texels are arbitrary functions of level, row and column; log, exp and sin are abstract with their axioms. The entries of the Gaussian table and whole maps of concrete images are bounded checks. Reading picture files is C10.'),
 dict(id='C24', title='Materials, bump mapping and the geometry they shade',
  statement='A material gives each surface point a BSDF over the shading geometry, or over the bumped geometry where it has a bump map, with the geometric normal and index of refraction of the point, made of the components it stands for: matte a Lambertian, or Oren-Nayar with the roughness within 0 and 90 degrees; plastic a Lambertian and a glossy dielectric; mirror, metal, glass, uber, subsurface and measured likewise, with coefficients taken from their textures at that geometry without what is below nil, and specular (for uber: all) components left out where they are black. A mixture holds the components of the first material times the weight and those of the second times the rest to one. Subsurface materials hand over the medium by its scaled coefficients, or by those found for colour, mean free path and index. Bump mapping displaces the surface along its normal by the texture: tangents by finite differences over half the size of the pixel (a hundredth where that is nil), the normal theirs, on the side of the geometric normal. A copy of the geometry of a hit agrees in every field, differentials included, and shares no storage. Measured files give a sample per line, are read once and share only their own samples.',
  quant='all geometries with independent tangents, textures with any values, weights and roughness other than nil',
  why='no test evaluates a material; a dropped differential or a swapped coefficient shows only as a wrong picture',
  files=['pytracer/material/material.py', 'pytracer/geometry/diffgeom.py'],
  mech=[('materials, bump mapping', 'pytracer/material/material.py'), ('copies of the geometry of a hit', 'pytracer/geometry/diffgeom.py')], note=NOTE + 'Textures are arbitrary functions that check the geometry they are asked about; the components are those of C13/C14. Mixtures of more than 3 components each, and measured files, are bounded checks. The inversion of diffuse reflectance (subsurface_from_diffuse) is a stub in pyTracer and is taken by contract.'),
]
