"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["src/glimpse/" + f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [
            {"name": n, "meaning": m, "where": w} for n, m, w in state
        ]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


# ---------------------------------------------------------------- camera
prop(
    "C01",
    "World points project to the pixel the documented camera model predicts",
    "For every camera and every world point in front of it, the image coordinates returned by projection are those of the documented model: rotate by viewdir, perspective divide, radial and tangential distortion, focal length and principal point, with the optional earth-curvature and refraction correction applied to the point's elevation. Points behind the camera (in camera axes), and rays already behind it, come back as NaN and never as a plausible pixel, while directions project independently of camera position. The camera depth is returned on request and equals the point's signed distance along the optical axis.",
    ["inputs", "configurations"],
    "all camera parameter vectors (any viewdir incl. poles, any f/c/k/p, any correction), all world points and ray directions, scalar or batched",
    "Tests project a handful of points through a few cameras and mostly compare the code with itself (round trips); they cannot cover the space of orientations, distortion sets and corrections, nor compare with an independent model.",
    ["camera.py"],
    [("Camera.xyz_to_uv", "camera.py"), ("Camera._xyz_to_xy / _distort / _xy_to_uv", "camera.py"), ("Camera.R", "camera.py"), ("helpers.elevation_corrections", "helpers.py")],
    ["return values of Camera.xyz_to_uv, Camera.R, helpers.elevation_corrections"],
)
prop(
    "C02",
    "Inverse projection is the exact inverse of projection",
    "For every camera whose lens distortion is monotonic over the image and moderate enough for the documented solvers to converge, projecting a pixel out to a ray or to a point at a given depth and projecting it back returns the same pixel, and (without elevation correction) projecting a visible world point into the image and back out at its own depth returns the same point. This holds for every pixel of the frame, including the image centre, the centre row and column and the corners, for every combination of distortion coefficients, for one depth or one depth per pixel, for directions or positions.",
    ["inputs", "configurations"],
    "all cameras with invertible distortion, all pixels, all depths (scalar or per-point), both inverse modes",
    "Tests round-trip a coarse grid for fixed coefficients, at scalar depth; whether the inversion branch chosen for a coefficient pattern converges for every pixel is a property of the whole input space.",
    ["camera.py"],
    [("Camera.uv_to_xyz", "camera.py"), ("Camera._undistort and its per-pattern solvers (k1, oulu, lookup, regula falsi)", "camera.py"), ("Camera._xy_to_xyz", "camera.py")],
    ["return values of Camera.uv_to_xyz, Camera.xyz_to_uv"],
)
prop(
    "C03",
    "Camera state stays coherent through any history of edits",
    "After any sequence of attribute assignments, resizes, resets, idealizations and copies, a camera's derived quantities (metric focal length and principal point, sensor size, rotation matrix and its derivatives, original-state reset) agree with its current parameters, copies are fully independent of their source, and arguments passed in are never modified. Resizing scales pixel parameters in proportion, so a world point lands on the same relative image position, and a camera written to JSON and read back is equivalent to the original.",
    ["histories", "inputs"],
    "all sequences of set/resize/reset/copy/idealize/serialize operations over all constructor forms (pixel or metric units)",
    "Tests exercise each operation once from a fresh camera; stale caches and shared arrays only show after particular sequences of operations.",
    ["camera.py", "helpers.py"],
    [("Camera properties backed by one parameter vector", "camera.py"), ("Camera.resize/reset/copy/idealize", "camera.py"), ("Camera.from_json/to_json/to_dict", "camera.py")],
    ["public attributes of Camera after each operation"],
    [("original vector", "state restored by reset", "camera.py"), ("R cache", "rotation matrix cached per viewdir", "camera.py")],
)
prop(
    "C04",
    "Frame, visibility and image-grid queries agree with projection",
    "A point is reported in frame exactly when its image coordinates lie within the image, and a world point in front exactly when it lies ahead of the camera plane; the image grid, edges and view box enumerate pixel centres, pixel corners and the border exactly, and the viewing volume contains exactly what can be seen out to the given depth. Spherical and Cartesian view directions convert into one another consistently.",
    ["inputs", "configurations"],
    "all cameras, image sizes, grid steps, snap modes and points",
    "Tests check one camera and one step; off-by-half-pixel and border mistakes depend on image size, step and snapping combinations.",
    ["camera.py"],
    [("Camera.inframe/infront/grid/edges/viewbox", "camera.py"), ("Camera.xyz_to_spherical/spherical_to_xyz", "camera.py")],
    ["return values of these methods"],
)
prop(
    "C05",
    "Rasterizing to the image puts every visible point in its own pixel",
    "Rendering image points with values into the camera frame gives, for every pixel, the mean of exactly the values whose image coordinates fall in that pixel, NaN where none does, and ignores out-of-frame points; points on the right and bottom edges count as in frame. Projecting a gridded surface into the camera yields, at each pixel reached, the mean value of the selected cells (of the last tile, in the order drawn) that project into it, and nothing elsewhere, whatever the tiling, scale or multi-band value layout requested.",
    ["inputs", "configurations"],
    "all point sets (incl. on the frame border), values, aggregates, DEM tilings, scales and masks",
    "Tests never run the DEM projection and rasterize one point set strictly inside the frame.",
    ["camera.py", "helpers.py", "raster.py"],
    [("Camera.rasterize", "camera.py"), ("Camera.project_dem", "camera.py"), ("helpers.rasterize_points / groupby", "helpers.py")],
    ["return values of Camera.rasterize and Camera.project_dem"],
)
# ---------------------------------------------------------------- grid / raster
prop(
    "G01",
    "Grid geometry stays self-consistent through any history of edits",
    "After any sequence of constructions, limit or size changes, shifts, resizes, resamplings, crops and copies, a grid's limits, size, cell size, cell-centre coordinates, coordinate matrices, extent, bounds and min/max all describe the same grid. Cell centres are evenly spaced, lie half a cell inside the limits, follow the direction of the limits, and have as many entries as the size says.",
    ["histories", "inputs"],
    "all sequences of public grid operations with ascending or descending, integer or float limits, tuple or array inputs",
    "Tests check single operations on fresh grids; stale coordinate caches appear only after particular operation orders and input types.",
    ["raster.py"],
    [("Grid lazily cached x, X, y, Y, invalidated by setters", "raster.py"), ("Grid.shift/resize/crop_extent/tile_indices", "raster.py")],
    ["public attributes of Grid and Raster after every operation"],
    [("_x/_X/_y/_Y", "cached cell centres", "raster.py")],
)
prop(
    "G02",
    "World, pixel, row-column and flat-index coordinates interconvert exactly",
    "For every grid, world coordinates convert to grid (pixel) coordinates, rows and columns and flat indices and back without loss: every cell centre maps to its own cell and back, every point inside the grid maps to the cell that contains it, snapping moves a point to a cell centre or edge at most half a cell away, and points outside are reported out of bounds. Floating-point rounding in large projected coordinates never moves a cell centre to a neighbouring cell.",
    ["inputs", "configurations"],
    "all grids (any origin, cell size incl. non-dyadic, axis direction) and all points incl. cell centres, edges and corners",
    "Tests use small unit grids where arithmetic is exact; truncation errors appear only for particular cell sizes and origins.",
    ["raster.py"],
    [("Grid.xy_to_rowcol/rowcol_to_xy/rowcol_to_idx/idx_to_rowcol/snap_xy/inbounds", "raster.py")],
    ["return values of these methods"],
)
prop(
    "G03",
    "Rasters never share mutable state with their sources or derivatives",
    "Operating on one raster or grid (shifting, filling, cropping, resizing, editing values or limits) never changes another raster, the raster it was copied, sliced or derived from, or any array, list or tuple the caller supplied; queries (sampling, gradients, viewshed, data extent, crop extents) leave the raster's values and geometry exactly as they were. The only sharing is of values, as NumPy views do: a raster wraps the array it is given and slices or crops of a raster may be views of it; geometry and cached results are never shared.",
    ["histories", "inputs"],
    "all interleavings of operations on families of rasters derived from one another, with array, list or tuple arguments",
    "Aliasing bugs need two objects and a later mutation of one of them; tests mutate and inspect a single object.",
    ["raster.py", "helpers.py"],
    [("Raster.copy/__getitem__/Grid.copy/resample/resize/shift", "raster.py"), ("helpers.format_list", "helpers.py")],
    ["values and geometry of all live rasters before and after each operation"],
)
prop(
    "G04",
    "Cropping, slicing and tiling keep every value at its location",
    "Cropping, slicing, cropping to data and tiling select exactly the cells they promise and every retained cell keeps its value and its world coordinates. Tiles cover every cell of the grid, exactly once apart from the requested overlap, and never reach outside it; cropping to a box keeps every cell the box touches and raises an error rather than returning an empty raster when nothing intersects.",
    ["inputs", "histories"],
    "all rasters, axis directions, boxes (incl. on cell borders, outside, degenerate), value limits, index forms and tile sizes",
    "Tests crop a few aligned boxes; boundary alignment, descending axes and floating-point cell sizes multiply into cases no example set covers.",
    ["raster.py"],
    [("Grid.crop_extent/crop_extent_rowcol/tile_indices", "raster.py"), ("Raster.crop/__getitem__/crop_to_data/data_extent", "raster.py")],
    ["the resulting rasters"],
)
prop(
    "G05",
    "Sampling and resampling interpolate the raster's current values",
    "Sampling a raster at any set of points returns the nearest value, the bilinear interpolant, or the spline that passes through the cell values according to the requested order, at cell centres exactly the cell value for every order; out-of-bounds points raise or give the fill value as requested. Sampling on a grid and sampling the same points one by one agree, the order or direction of the query points does not matter, and the result always reflects the raster's values, limits and position at the time of the call, even after edits made through the raster that follow an earlier sample. Resizing or resampling a raster keeps its surface: constants stay constant, no value appears outside the range of its neighbours (orders 0 and 1), and nothing moves by more than a cell.",
    ["inputs", "histories"],
    "all rasters (ascending/descending, 1-D or constant, with missing data), query layouts, interpolation orders and edit-sample interleavings",
    "Tests sample fresh rasters at a few points; a stale cached interpolator, unsorted grid queries or NaN neighbourhoods need particular histories and inputs.",
    ["raster.py"],
    [("Raster.sample / Raster.Zf cached interpolator", "raster.py"), ("Raster.resample, Raster.resize", "raster.py")],
    ["return values of Raster.sample and the raster after Raster.resample"],
    [("Zf", "cached interpolator", "raster.py")],
)
prop(
    "G06",
    "Raster files round trip and windowed or cached reads never change the data",
    "A raster written to file and opened again has the same values, limits, orientation and data type, with missing data restored as NaN. Reading any window, with or without caching, returns the same values as slicing a full read, regardless of which windows were read before or of whether an earlier read was cached or failed.",
    ["inputs", "histories", "configurations"],
    "all arrays, dtypes, nodata values, axis orientations and all sequences of windowed, cached and uncached reads",
    "Tests read whole files or one window on a fresh object; the value returned by a read depends on the history of earlier reads.",
    ["raster.py", "helpers.py"],
    [("Raster.open/read/write, Grid.read", "raster.py"), ("helpers.write_raster", "helpers.py")],
    ["return values of reads and reopened files"],
    [("cached array", "array kept by a cached read", "raster.py")],
)
prop(
    "G07",
    "Viewsheds and horizons agree with line of sight",
    "A cell reported visible from an origin has an unobstructed line of sight over the terrain cells in between, and a cell clearly hidden behind higher terrain is reported hidden, under any orientation of a square-celled grid, origin height and curvature correction, for origins inside the grid. Horizon queries over the full circle return, per azimuth, the terrain point with the greatest elevation angle along that azimuth, work from any origin on or off the grid, and never return points outside the terrain.",
    ["inputs"],
    "all terrains, origins (inside, on the border, outside), heights, headings and corrections",
    "Tests check one tiny DEM; occlusion depends on all terrain along a sight line.",
    ["raster.py", "helpers.py"],
    [("Raster.viewshed", "raster.py"), ("Raster.horizon", "raster.py"), ("helpers.bresenham_line, elevation_corrections", "helpers.py")],
    ["return values of Raster.viewshed and Raster.horizon"],
)
prop(
    "G08",
    "Burning points and shapes into a raster touches exactly the right cells",
    "Rasterizing points gives each cell the mean of exactly the values of the points it contains, with cells without points marked missing; rasterizing polygons marks exactly the cells whose centre is inside a polygon and outside all holes; filling a circle on a square-celled grid changes every cell within the circle's radius (to the cell), symmetrically about its centre, and no others.",
    ["inputs", "configurations"],
    "all point sets, values, aggregates, polygons with holes, circle centres and radii (incl. partly outside)",
    "Tests rasterize single small examples; conservation (every point counted once) is a statement over all point sets.",
    ["raster.py", "helpers.py"],
    [("Raster.rasterize, Raster.rasterize_polygons", "raster.py"), ("Raster.fill_circle", "raster.py"), ("rasterize_points, polygons_to_mask, bresenham_circle", "helpers.py")],
    ["resulting arrays"],
)
prop(
    "G09",
    "Interpolating between rasters in time is exact at and linear between them",
    "An interpolated raster, on the grid of the first of the two sources (which may be rasters on other grids or numbers; missing where not covered), equals the source raster at a source position, lies between the two bracketing sources cell by cell and is linear in time between them, is chosen from the correct neighbours whatever order the sources were given in, and carries the propagated uncertainty; asking outside the covered range extrapolates only when allowed and otherwise raises an error. Reading sources from files, windows or at a coarser resolution does not change which area or time the result describes.",
    ["inputs", "configurations"],
    "all sequences of sources (numbers or datetimes, unsorted), query positions incl. exactly at sources, uncertainty and extrapolation settings",
    "Tests use two or three sources at fixed positions and mid points.",
    ["raster.py"],
    [("RasterInterpolant.nearest/__call__", "raster.py")],
    ["returned rasters and arrays"],
)
# ---------------------------------------------------------------- helpers
prop(
    "G10",
    "Terrain derivatives refer to world directions, not array directions",
    "The gradient of a raster is the derivative of its values with respect to world x and y, exact for planes everywhere and for quadratic surfaces at inner cells, and its hillshade is the Lambert brightness of the surface lit from the requested compass azimuth and altitude, for every cell size and whichever way the grid's axes run. Neither changes the raster.",
    ["inputs", "configurations"],
    "all rasters (any axis directions, cell sizes and aspect, integer or with missing cells), light directions and exaggerations",
    "Tests never compute a hillshade with a known answer and use one grid orientation; sign mistakes only show for particular axis directions and azimuths.",
    ["raster.py"],
    [("Raster.gradient", "raster.py"), ("Raster.hillshade", "raster.py")],
    ["return values of these methods"],
)
prop(
    "H01",
    "Ray, line and polyline geometry is exact for every configuration",
    "Ray-box intersections return the true entry and exit and report misses as misses in two and three dimensions; clipping a polyline to a box keeps exactly its part inside the box, including vertices on the boundary; rasterized lines and circles are connected, on the ideal curve to within half a cell and symmetric; line interpolation returns points on the line at the requested distances or coordinates whichever way the line runs.",
    ["inputs"],
    "all boxes, rays, polylines, cells, radii and query positions incl. degenerate, axis-parallel and boundary cases",
    "Tests use one or two hand-picked configurations per function.",
    ["helpers.py"],
    [("intersect_rays_box, clip_polyline_box, bresenham_line, bresenham_circle, interpolate_line, boolean_split, box_to_polygon, box_to_grid, grid_to_points", "helpers.py")],
    ["return values"],
)
prop(
    "H02",
    "Datetime selection and matching is exact in elapsed time",
    "Selecting, snapping and pairing datetimes depends only on elapsed time: a datetime is selected if and only if it lies within the requested bounds and snapping tolerance, each pairing reports the true time difference and never pairs beyond the allowed maximum, and ranges contain every step from start to end. The result does not depend on the computer's time zone or daylight-saving transitions, on input order where order is not documented to matter, or on how many datetimes there are.",
    ["inputs", "configurations"],
    "all sequences of datetimes, tolerances and snapping intervals, under every process time zone",
    "Tests run in one (UTC) time zone with a few datetimes; daylight-saving gaps only appear under other TZ settings.",
    ["helpers.py", "track/observer.py", "track/tracker.py"],
    [("select_datetimes, pairwise_distance_datetimes, datetime_range, sorted_nearest", "helpers.py"), ("Tracker.match_datetimes/parse_datetimes", "track/tracker.py")],
    ["return values in child processes with different TZ"],
)
prop(
    "H03",
    "Array filters and statistics honour masks, weights and missing values",
    "Normalizing, Gaussian smoothing, moving maximum, crevasse filling, cumulative distributions, distribution matching, pairwise distances and data type limits equal their documented statistic for every array and data type: excluded cells never leak into included cells and keep their value unless filled, filled cells take the statistic of the included cells within reach, cumulative distributions are monotonic, end at one and reconstruct the array, and matching maps each value to the reference value of the same probability. Inputs are not modified.",
    ["inputs"],
    "all arrays, dtypes, masks, weights and parameters",
    "Tests cover one array for each function and no random masks or dtypes.",
    ["helpers.py"],
    [("normalize, compute_cdf, match_cdf, gaussian_filter, maximum_filter, pairwise_distance, numpy_dtype_minmax, Raster.fill_crevasses", "helpers.py")],
    ["return values and arguments before/after"],
)
prop(
    "H04",
    "Stored data reads back as it was written",
    "Any value accepted by the JSON and pickle writers reads back equal, whatever indentation, separator, array-flattening, text or compression option was used; flattening puts arrays of scalars on a single line and changes nothing but whitespace; writing creates the folders it needs and overwrites completely. Stripping a path removes exactly the folder and the requested number of extensions, and numpy values convert to equal native values. Inputs are not modified.",
    ["inputs", "configurations"],
    "all nested structures, strings (incl. brackets, spaces, non-ASCII), options and target paths",
    "Tests round-trip a single small dictionary.",
    ["helpers.py"],
    [("write_json/read_json, write_pickle/read_pickle, strip_path, numpy_to_native", "helpers.py")],
    ["files and values read back"],
)
# ---------------------------------------------------------------- image
prop(
    "I01",
    "Image reads return the requested pixels whatever was read or cached before",
    "Reading an image, whole or windowed, cached or not, at the file's size or resized with its camera, returns exactly the pixels of that window of the (resized) image, independent of earlier reads and cache state. Camera and capture time default to the file's metadata, with explicit arguments taking precedence, and writing an image and reading it back preserves its pixels. Projecting an image into another camera at the same position gives, for every target pixel, the source image interpolated where the two rays coincide, and nothing outside the source image.",
    ["histories", "inputs"],
    "all interleavings of read(box, cache), camera resizes and copies, all boxes",
    "Tests read one window on a fresh object; results depend on read history and on camera size changes between reads.",
    ["image.py", "exif.py"],
    [("Image.read with cached array", "image.py"), ("Image.__init__ camera defaults from Exif", "image.py"), ("Image.write, Image.project, Image.set_plot_limits", "image.py")],
    ["return values of Image.read and Image attributes"],
    [("cached array", "pixels kept by a cached read", "image.py")],
)
prop(
    "I02",
    "Image metadata parses exactly and survives editing and re-insertion",
    "Every supported metadata quantity (image size, capture time to the microsecond, exposure, aperture, ISO, focal length, make, model, sensor size) parses to the value stored in the file, and is absent rather than wrong when missing. Editing tags and inserting them into an image changes only the metadata, leaves pixels untouched, and reads back exactly; invalid groups or tags are rejected without modifying the image.",
    ["inputs", "histories"],
    "all tag combinations and values representable in the format, present or missing",
    "Tests use the single sample photograph.",
    ["exif.py"],
    [("Exif.parse_tag and properties", "exif.py"), ("Exif.dump/insert", "exif.py")],
    ["Exif attributes and files"],
)
prop(
    "S01",
    "SVG annotations map to image coordinates exactly and round trip",
    "Coordinates read from an SVG are those of the drawn vertices after composing all enclosing transforms in document order semantics, relative to the upper-left corner of the (translated and scaled) image element and scaled to the requested image size, for every element type, path command (absolute or relative) and number format. Geometry written as an element and read back gives the same vertices.",
    ["inputs"],
    "all nestings of groups and transforms, path command sequences, number formats and image placements",
    "Tests read two files and a few doctest strings; the grammar of paths and nested transforms is unbounded.",
    ["svg.py"],
    [("read, Points.from_element/to_element/transform", "svg.py"), ("svg/g/image/path/write", "svg.py")],
    ["returned coordinates"],
)
# ---------------------------------------------------------------- track
prop(
    "T01",
    "Motion models move particles by their stated physics for any time step",
    "Every motion model initializes particles with the requested means and spreads on the given surface, and evolves them according to its stated velocity and acceleration in the model's time unit: the same elapsed time gives the same displacement whatever the unit or the number of steps it is cut into when there is no random acceleration, and reversing the time step reverses the motion. Particles always remain finite, tied to the surface where the model says so, and particle count never changes.",
    ["inputs", "configurations"],
    "all models, parameters (incl. zero speeds, zero spreads and scalar or raster surfaces), time units and time steps of either sign",
    "Tests only check that models construct and have the right shapes; the physics is a relation over all parameters and steps.",
    ["track/motion.py"],
    [("CartesianMotion, CylindricalMotion, TangentCartesianMotion, TangentCylindricalMotion: initialize_particles/evolve_particles/compute_log_likelihoods", "track/motion.py")],
    ["particle arrays before and after each step"],
)
prop(
    "T02",
    "Resampling keeps particles in proportion to their weights",
    "Every resampling method returns the same number of particles, all of them copies of existing particles paired with their own weights, never fails for any positive weights, and draws each particle with an expected count proportional to its weight (systematic and residual within one or at least the whole part of it). Weighted means, deviations and covariances equal direct evaluation, with the covariance diagonal the squared deviation.",
    ["inputs", "schedules"],
    "all positive weight vectors (uniform, near-degenerate, long), all methods, all random draws",
    "Tests never measure resampling frequencies; bias and rare index overflow are properties of the distribution over random draws.",
    ["track/tracker.py"],
    [("Tracker.resample_particles, particle_mean, particle_covariance, compute_particle_sigma, initialize_weights/update_weights", "track/tracker.py")],
    ["Tracker.particles and Tracker.weights before and after"],
)
prop(
    "T03",
    "Tracking recovers true motion from images and reports nothing it did not see",
    "Given images of a textured surface moving at a known velocity, tracks recover positions and velocities to within the filter's own uncertainty, forwards and backwards in time, with one or several observers, different start times and missing images. Particles are weighted by the image mismatch at their own projected position. States are reported only between the first and last matching image; times matching no image are dropped with a warning and non-monotonic or insufficient times are rejected.",
    ["inputs", "histories", "configurations"],
    "all scenes, observer sets, datetimes, matching tolerances, masks and filter settings",
    "Tests run the tracker on static data only to see that it runs; accuracy is a statistical property of image sequences with known truth.",
    ["track/tracker.py", "track/observer.py", "track/motion.py", "camera.py"],
    [("Tracker.track, match_datetimes, parse_datetimes, initialize_template, compute_observer_log_likelihoods, extract_tile", "track/tracker.py")],
    ["Tracks returned for synthetic image sequences"],
)
prop(
    "T04",
    "Tracks are isolated from one another and from how they are scheduled",
    "When several particle sets are tracked together, each track's result is what tracking it alone would give: serially, in parallel with any number of workers, with or without image caching, and whatever other tracks do. A track that fails reports its own error and missing states while all others complete and keep their order; a single failing track raises; random draws of parallel tracks are independent of each other.",
    ["schedules", "fault_sequences", "configurations"],
    "all numbers of tracks and workers, completion orders, injected failures and warnings in any subset of tracks, caching on or off",
    "Tests run one small parallel job without faults; isolation is a statement over interleavings and fault placements.",
    ["track/tracker.py", "track/tracks.py", "config.py"],
    [("Tracker.track process/reduce and the worker pool", "track/tracker.py"), ("error and warning capture", "track/tracker.py"), ("Tracks.success/errors/warnings", "track/tracks.py")],
    ["Tracks returned under injected delays and faults"],
)
prop(
    "T05",
    "Observers index, split, cache and sample their images faithfully",
    "An observer holds its images in time order and finds, subsets and splits them by index, image or time without losing, duplicating or confusing any; caching changes no result. Tiles are the requested size, inside the image, centred on the requested point to the pixel, and sampling or shifting a tile at subpixel offsets interpolates that tile at the right positions without modifying it; plotted and animated tiles show those tiles at those positions.",
    ["inputs", "histories"],
    "all image sequences (incl. identical-looking images), time selections, split counts, tile positions and sizes, interpolation orders, cache states",
    "Tests construct one observer of a few images; identity versus equality of images and rounding of split intervals need particular inputs.",
    ["track/observer.py"],
    [("Observer.index/subset/split/tile_box/extract_tile/sample_tile/shift_tile/cache_images/clear_images", "track/observer.py")],
    ["return values of these methods"],
)
prop(
    "T06",
    "Track accessors select and transform the recorded states faithfully",
    "Every view of a set of tracks (positions, velocities, their spreads, endpoints, first and last valid states, success) is the corresponding selection of the recorded means and uncertainties, in order, with missing states staying missing; the recorded states are the weighted means and spreads of the particles. Spreads equal the square root of the covariance diagonal whichever of the two was recorded, and plots and animations of tracks show exactly those values at those times.",
    ["inputs", "histories"],
    "all track sets (any number of tracks and times, any pattern of missing states, errors and warnings) and all selections of tracks",
    "Tests build one small Tracks object and check a few attributes.",
    ["track/tracks.py"],
    [("Tracks properties, endpoints, summaries and plotting accessors", "track/tracks.py")],
    ["Tracks attributes and the data of plotted artists"],
)
prop(
    "T07",
    "Particle weights are the documented likelihoods, used at every step",
    "The likelihood of each particle is the mean squared difference between the template of its observer and the image around the particle (band average, standardized, matched to the template's distribution of brightness, high-pass filtered), over twice the observer's variance; those of all observers of the track and of the motion model multiply, and images that cannot be compared (out of bounds, constant) say nothing. It does not depend on the order of bands, on monotonic changes of brightness, or on other observers. A track asks its motion model once for initial particles, then at each time to evolve exactly the particles it kept by exactly the elapsed time (and for likelihoods, where the model has them), and resamples by the chosen method at every time up to the last image, with templates of the chosen size from the first image of each observer.",
    ["inputs", "configurations", "histories"],
    "all images and bands, observers, template sizes, filter and interpolation settings, particle clouds (inside, partly and fully outside images), motion models with and without likelihoods, times with and without images, directions of time",
    "Tests only check that tracking runs; whether each weight is what is documented, for which image, template and observer, is not visible in summary statistics of one scene.",
    ["track/tracker.py", "track/motion.py"],
    [("Tracker.extract_tile/initialize_template/compute_observer_log_likelihoods/update_weights/track", "track/tracker.py"), ("Motion (interface required of motion models)", "track/motion.py")],
    ["calls received by a motion model, recorded particles and weights, values returned by the methods"],
)
# ---------------------------------------------------------------- optimize
prop(
    "O01",
    "Control observations stay paired through filtering, resizing and conversion",
    "Every control type (points, lines, matches, rotation matches in either form) predicts with the current camera exactly where its world or partner observations fall, so residuals vanish for the true cameras and equal predicted minus observed otherwise. Resizing cameras, subsetting by index, and filtering or converting matches keep image coordinates, world coordinates, partner coordinates and weights paired and in proportion, and never alter inputs.",
    ["inputs", "histories"],
    "all camera pairs, observations, index selections, filters and operation sequences",
    "Tests construct each type with two or three observations and compare shapes; pairing errors need several operations in sequence.",
    ["optimize.py"],
    [("Points, Lines, Matches, RotationMatches, RotationMatchesXY, RotationMatchesXYZ: observed/predicted/resize/filter/to_type", "optimize.py")],
    ["observed() and predicted() after each operation"],
)
prop(
    "O02",
    "Camera calibration maps parameters faithfully and recovers true cameras",
    "Fitting cameras to controls generated by known cameras recovers those cameras, for any choice of per-camera and per-group parameters, bounds, weights and scales; only the parameters named change, group parameters stay equal within their group, and bounds are respected. Evaluating residuals, errors or costs at trial parameters leaves all cameras untouched, and setting then reading parameters is lossless.",
    ["inputs", "configurations", "histories"],
    "all parameter selections (by name, index, list, with bounds), camera groups, control mixes, weights and solver settings",
    "Tests fit one or two cameras with one parameter choice.",
    ["optimize.py"],
    [("Cameras.parse_params, set_cameras, reset_cameras, residuals, fit", "optimize.py")],
    ["Camera vectors before, during and after"],
)
prop(
    "O03",
    "Relative camera orientation is recovered over an observer's image sequence",
    "Aligning a sequence of images to anchor images using pairwise matches recovers the true view directions of every connected image, leaves anchor images where they were (as firmly as the anchor weight asks), and its cost gradient agrees with the cost it minimizes. Evaluation and fitting leave the cameras as they were until the result is applied, and resetting restores them.",
    ["inputs", "histories"],
    "all rotation sequences, anchor choices, match sets and weights",
    "Tests fit one sequence of a few synthetic images or none.",
    ["optimize.py"],
    [("ObserverCameras.fit/set_cameras/reset_cameras", "optimize.py")],
    ["Camera view directions and returned results"],
)
prop(
    "O04",
    "Robust fitting returns a model and exactly its inliers",
    "Random-sample-consensus fitting returns a model, the indices of exactly those observations the model explains within the tolerance, and no others; it finds the consensus set when one exists that outvotes the outliers (of several acceptable ones, the one with the smallest mean error), raises an error when none has more than the minimum number of inliers besides its sample, and never draws the same sample twice. The caller's data and random state usage do not affect correctness.",
    ["inputs", "schedules"],
    "all data sets with outliers, sample sizes, tolerances, inlier thresholds, iteration limits and random draws",
    "Tests run one polynomial example with one seed.",
    ["optimize.py"],
    [("ransac, ransac_sample", "optimize.py"), ("Polynomial, Cameras as models", "optimize.py")],
    ["returned parameters and inlier indices"],
)
prop(
    "O05",
    "Keypoint matching covers the requested image pairs and its cache never lies",
    "Building matches produces, for exactly the requested pairs of images, the correct mutual matches that pass the ratio and distance limits, with the same result from memory, from the on-disk cache, serially or in parallel. Re-running, overwriting, clearing or dropping images never leaves stale, missing or mispaired keypoints or matches behind, nor does a build that was interrupted while writing its files, and match breaks and per-pair counts describe the matches actually held.",
    ["histories", "fault_sequences", "schedules", "configurations"],
    "all interleavings of build, overwrite, clear, drop and reload, interrupted builds, pair selections and match limits",
    "Tests build matches once from a few images; cache staleness appears only after sequences of operations.",
    ["optimize.py"],
    [("KeypointMatcher.build_keypoints/build_matches/_prepare_image_matches/clear/drop_images/match_breaks/filter_matches", "optimize.py"), ("match_keypoints, detect_keypoints", "optimize.py")],
    ["keypoints, matches and files after each operation"],
)
prop(
    "X01",
    "External camera models convert to and from this model without moving pixels",
    "Converting a camera to an external calibration format and back, or from it and back, projects every ray to the same pixel wherever the conversion is documented as exact, and otherwise to within the documented best fit, never worse than without optimization. The external model itself projects as its vendor's formulas say, and reading a vendor file yields the parameters written in it.",
    ["inputs", "configurations"],
    "all camera parameters, image sizes, coefficient patterns, optimized-parameter choices and report files",
    "Tests convert one calibration per format.",
    ["convert/converter.py", "convert/cameras/agisoft.py", "convert/cameras/matlab.py", "convert/cameras/opencv.py", "convert/cameras/photomodeler.py"],
    [("Converter.residuals/optimize_cam/optimize_xcam", "convert/converter.py"), ("from_camera/to_camera/from_xml/from_report", "convert/cameras/*.py")],
    ["projections of both cameras and parameters"],
)
prop(
    "N01",
    "No memory error or data race in native code",
    "No input makes the library read or write outside allocated memory, use freed memory or race between threads in compiled code.",
    ["inputs", "schedules"],
    "all inputs",
    "Not testable by value assertions.",
    ["__init__.py"],
    [("the library is pure Python; native code is only in third-party wheels", "setup")],
)

# ---------------------------------------------------------------- everything
prop(
    "P01",
    "Asking changes nothing, and answers depend only on visible state",
    "No public function, method, property or constructor of the package modifies its arguments (other than those documented to be updated), no query modifies the object it is asked of, and no call modifies any other camera, grid or raster than those the object it changes holds. The same question asked again, at once or after other questions, gives the same answer; an equal object without a past gives the same answer and undergoes the same change; arguments that are laid out differently in memory or read-only give the same answer; and what a query returned can be modified without changing the object or later answers (except where the stored array itself is documented to be returned).",
    ["inputs", "histories"],
    "all public calls, in all orders, on all objects and arguments reached by the workloads of every other property",
    "Tests call a function once on fresh objects; stale caches, shared arrays and in-place updates appear only in what is asked next.",
    ["camera.py", "raster.py", "helpers.py", "image.py", "exif.py", "svg.py", "optimize.py", "track/tracker.py", "track/observer.py", "track/tracks.py", "track/motion.py", "convert/converter.py"],
    [("every public function, method, property and constructor", "glimpse")],
    ["arguments, public attributes and return values before and after each outermost call"],
)
prop(
    "P02",
    "Calls leave nothing behind",
    "No public call leaves behind open files, child processes, threads, temporary files, figures (other than plots), changed settings of the process or of other libraries (working folder, environment, warning filters, floating point error handling, print options, plot parameters, signal handlers, numbers of threads), or consumed random numbers (other than motion models, trackers and ransac), whether it succeeds, raises or loses workers; and reading never adds, removes or modifies files.",
    ["inputs", "histories", "fault_sequences"],
    "all public calls of the workloads of every other property, including failing calls, failing and killed workers, and reads of damaged files",
    "Tests look at return values; leaked resources and changed settings show in the process, and only under faults or in whatever runs next.",
    ["camera.py", "raster.py", "helpers.py", "image.py", "exif.py", "svg.py", "optimize.py", "config.py", "track/tracker.py", "track/observer.py", "track/tracks.py", "convert/converter.py"],
    [("every public function, method, property and constructor", "glimpse")],
    ["/proc/self, settings of the process and libraries, folders of named files before and after each outermost call"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for d in P:
        fp.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
