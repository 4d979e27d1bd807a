P = {}
def d(i, how, oracle, reach, bounds): P[i] = (how, oracle, reach, bounds)
d("C01", "Generated operand pairs (rasters, Python and numpy scalars, arrays; every dtype; nulls in and out of the data; 1-4 bands; chunk layouts down to one cell) through every operator, reflected and in-place form, unary operator, ufunc with one and two outputs, shift, bandwise scalar lists and random expression chains; every evaluated cell, dtype, mask, null value, grid and CRS is judged online.",
  "numpy on the plain arrays (Python numbers as 64-bit numpy ones) plus mask union; chains are followed by a model that carries values and nulls separately.",
  "The library's own operator tests (tests/test_raster.py) cannot be collected here; null propagation for every operator x dtype x layout is never sampled by the rest.",
  "Operands of another grid and the broadcast of a 1-band against an N-band raster are excluded (undocumented).")
d("C02", "Every reduction, as method and through the numpy protocol, on rasters whose null cells hold junk, the null value, NaN or infinities; whole bands and whole chunks null, all null.",
  "numpy reduction over the valid cells of the generator's own arrays (exactly for integers and min/max/all/any; correctly rounded sum within a relative error for floats).",
  "Junk under the mask shows any read of a null cell at once.", "prod is judged where the exact product is representable.")
d("C03", "A structural monitor (gen.check_wellformed) watches every raster that any catalogued operation (harness/ops.py, every public operation) or random chain of 2-6 operations returns: dims, band labels, coordinate direction, mask dtype/shape/chunks, lazy vs computed dtype, burned null value, CRS, grid.",
  "The invariant itself; the monitor is also called by every other check.", "No test composes operations; the chains reach layouts and mask states that single calls do not.",
  "Booleans with null False and null_to_nan (documented to return NaN while reporting no burn) are exempt from the burn rule.")
d("C04", "The same cells are evaluated under a reference configuration and under other chunk layouts, the synchronous, threaded and process schedulers, and our own `Orderly` scheduler: random topological task orders, 1-4 worker threads, random delays before tasks, joint and repeated evaluation. Every task execution is logged (order fingerprint, concurrency, count); evidence reports distinct orders and the concurrency seen.",
  "Metamorphic: equality of everything observable (region labels up to renaming, float sums up to rounding).", "Interleavings and chunk layouts are varied together; races on shared state, order dependence in merging partitions and layout-dependent kernels become differences.",
  "A run is a sample of schedules, not all of them. to_polygons, get_chunk_rasters and random constructors depend on chunks by definition.")
d("C05", "Inputs are arrays whose every chunk read is logged, files whose pixel blocks have been overwritten with garbage (so any premature read raises) and feature partitions built by a logging function. The log is judged when the operation has been called (must be empty), after computing one output block (must be within the source blocks it depends on) and after load().",
  "Trace specification over the read log: no read event before the compute event; reads of a selective compute are a subset of the dependency footprint.", "No test observes reads.",
  "load, cost_distance (evaluates the surface when called), regions() without values (documented), extract_points_eager and Vector without known size are exempt; operations that rechunk automatically (local_stats, prediction, mosaic, stack) are not in the selective family.")
d("C06", "Everything a caller holds (source arrays, coordinates, attrs, rasters, masks, chunks, mappings, lists, frames, option dicts) is fingerprinted before and compared after building, after computing, and after a second call with the same argument objects, for every catalogued operation; histories of operations, in-place operators, loads and saves in which every raster ever made must still evaluate as it did first.",
  "Equality of fingerprints; model of which handles may change (in-place operators and load).", "Aliasing shows only when objects are reused or looked at again.",
  "get_raster() and stack_bands of one raster hand back their input (the latter is pinned by a test).")
d("C07", "Single calls and histories of set_null_value, set_null, replace_null, burn_mask, to_null_mask, astype, round with values present, out of range, NaN, None, on junk-under-mask rasters.",
  "A model with values and nulls kept apart.", "Histories of null changes are untested.", "astype(new_null_value=) on rasters without nulls is ignored by the code (documented); float to int conversions only for values in range.")
d("C08", "where with raster/scalar branches and every condition dtype; remap_range and reclassify with overlapping, unsorted, reused, None-target mappings whose range ends are values in the raster; mapping files; integers beyond 2^53.",
  "Cell rule applied in Python over the model.", "Boundary hits are generated on purpose.", "where: cells equal to the result's null become null (explicit in the code).")
d("C09", "Selections with repeats by index/label/list/slice, split, stack and concat of mixed dtypes and nulls, quadrants, chunk rasters and boxes; pieces are reassembled by coordinates.",
  "Multiset of (band, x, y, value, null) tuples conserved.", "All layouts incl. 1-wide chunks.", "Quadrants of rasters with one row or column excluded.")
d("C10", "Arrays, DataArrays and Datasets in every axis order and direction, files north-up and south-up, affine offsets, then random chains of grid-changing operations; xy()/index() over whole grids and random points.",
  "Independent formulas from the generator's origin and cell size.", "Non-square cells, flipped inputs.", "Descending/ascending inputs must be regular.")
d("C11", "Save through every driver, dtype, option, chunk layout, schedule with delays; read back with raster_tools and, independently, with rasterio; tiles; files of other origin; lazy chains file -> ops -> file; COG blocks and overviews (reduced levels read back through rasterio and judged against the level below); datasets of other origin opened raw (mask_and_scale=False), with fill values of any type and extra dimensions of size one.",
  "Cell-by-cell equality with the model, file header equality via rasterio.", "dtype x driver x null x schedule.", "ENVI/HFA only with a CRS and common dtypes; bool saved as uint8; (u)int64 with |null| > 2^53 stored as float64 by GDAL; valid cells equal to the null value excluded.")
d("C12", "Fault injection: a task at a random position raises, a source file read fails, the write fails (RLIMIT_FSIZE in a child process, damaged staging, failing wrapper), tile writes fail, target unwritable. Wrappers around rioxarray's to_raster and rasterio's copy log every error raised below the package, so an error raised below and not reported is a violation ('swallowed'). The directory is listed, and a second save must be complete.",
  "Trace rule: fault event => exception at the caller, no staging file, retry equals the model; tiles complete before the fault stay readable and correct.", "No test injects faults.", "All writes in scratch directories the check creates and removes. Two dependency limits are known findings.")
d("C13", "to_points and to_polygons on every dtype, null pattern, connectivity and layout down to single-cell chunks; the whole range of 32-bit integers and float64 values that float32 cannot hold.",
  "Bijection rows <-> valid cells; polygon area, disjointness (shapely) and rasterised cells.", "The tests' data file is missing here.", "Polygon values float32/int32-representable (GDAL polygonize); float16 refused by GDAL.")
d("C14", "Overlapping polygons, slivers, lines, points, empty and outside features in 1-5 partitions, with/without spatial index, every overlap rule and touch mode, mask mode, reused feature objects.",
  "shapely touch/centre predicates per cell and feature, then first/last/min/max; layouts compared with each other.", "Overlap order across partitions and chunks.", "Cells a feature only grazes go either way; spatial_shuffle reorders features, so only min/max are compared for it.")
d("C15", "clip, erase, mask, envelope, clip_box with random features (also in another CRS) and boxes.", "shapely predicates per cell located by coordinates in the input.", "Tests depend on missing data.", "Grazed cells either way.")
d("C16", "Every focal statistic and correlate/convolve mode with even, odd, lopsided, annular windows incl. larger than chunks.", "Independent numpy gather of exactly the window's valid cells.", "Chunk borders x nulls x dtypes.", "Even windows larger than the raster, float16 min/max (scipy) excluded; correlate with integer kernels keeps the raster dtype (pinned by a test).")
d("C17", "Spirals, combs, serpentines, diagonal chains, value lists; dilate/erode with every window.", "Union-find bijection; window gather.", "Components that reconnect through other chunks.", "Values beyond 2^53 excluded; at most 8 chunks per regions case for cost.")
d("C18", "aggregate and local_stats with every statistic/factor; one family of big windows (histogram path).", "numpy gather.", "Trimmed edges, nulls, dtype mix.", "-")
d("C19", "Every surface function on random, planar, flat, spiky elevation; all dtypes; non-square cells.", "Vectorised documented formulas in float64; geometric identities on planes; cells facing exactly north must be 0; northing/easting of angle rasters of every dtype; invalid annuli refused.", "No surface test runs here.", "aspect and surface_area only for square cells (documented).")
d("C20", "Zonal statistics over raster and vector zones in wide/long form with overlap handling; point extraction.", "Gather of each zone's valid cells; containing cell.", "Zones crossing/absent from chunks; dask array.chunk-size is shrunk so that automatic rechunking really splits.", "std/var use ddof=1 (pandas); empty zones skipped as documented.")
d("C21", "Cost surfaces with ties, zeros, barriers, mazes; sources, elevation, connectivity; direct numpy entry; random priority-queue histories.", "Relaxation fixpoint (Bellman-Ford in numpy), traceback walker, dictionary model of the heap.", "Optimality is universal.", "heights < 2^31; sources on impassable cells 0 or null.")
d("C22", "Target sets (rasters of one row or column included), every metric, maximum distances at/below/above cell distances.", "Brute force over all targets; proximity/allocation/direction must agree on one target that is nearest up to the documented search.", "Targets in other chunks.", "The two-sweep search's own error is bounded and pinned by 3 known fixed layouts.")
d("C23", "An instrumented user function logs every call with all its arguments; offline checker over the log.", "Exactly-once coverage; each argument equal to the block's true context; identity reproduces the raster.", "Every depth/boundary/layout.", "-")
d("C24", "mosaic (1-20 rasters), stack joins, pad, combine_grids on one lattice.", "Array placement model; sources of other resolutions and CRSs (mosaic first/last, stack): every cell holds the value of the right source cell within 0.13 cell, the grid has the requested resolution and covers the sources. Invalid arguments must be refused.", "Beyond the recursion threshold of 8; non-square cells; sources outside the destination.", "Source valid values never equal null values. With dst_crs but no resolution the first raster's resolution is used as a number in the new units (documented), so metres and degrees are not mixed there.")
d("C25", "reproject to grids/CRS/resolutions, aggregating and interpolating methods; (x, y) resolutions, grids with nothing in common, the source's own numbers in another CRS.", "pyproj transform of destination centres and source lookup (nearest), conservation/plane laws for the others, identity on the same grid.", "All pairs.", "Nearest ties within 0.13 cell across CRS (GDAL's approximating transformer); aggregated cells across the source border excluded.")
d("C26", "Constructors and predictions with models that log each row they receive; values as text, bands of any integer type, templates by keyword (deprecated name too), refusals.", "Model of the template; degenerate random distributions exact, others 8 sigma.", "Template dtype/mask/layout.", "-")
d("C27", "Line sets incl. many vertices (batching), weights.", "Bracket between inscribed 16-gon circle and the true circle (shapely); equality under splitting, order, partition, chunks.", "Batch merge.", "Closed self-crossing lines excluded.")
d("C28", "Random scripts over all commands, comments, cases; malformed lines.", "The same API calls made directly, plus numpy for arithmetic.", "Few batch tests exist.", "Negative SETNULL bounds are not in the grammar.")
d("C29", "Histories of vector operations and files, object-id names already taken among them.", "geopandas model row by row.", "Partitions x histories.", "Selecting from a selected Vector fails inside dask; file formats may change ring direction.")
d("C30", "Cases of the other checks that reach compiled kernels (focal, correlate, aggregation, local statistics, remapping, morphology, regions, surfaces, costs and the priority queue, proximity, vectorisation, rasterization, zones, line lengths, block mapping, mosaic, padding, prediction) run in worker processes started with numba's bounds checker on (NUMBA_BOUNDSCHECK=1: every indexed access of every kernel is checked) and glibc's MALLOC_PERTURB_ with four byte patterns (fresh memory is filled with the pattern). The set-up proves on a kernel of its own that both are armed; evidence lists the kernels compiled.",
  "An out-of-bounds access raises; a case whose own oracle fails only in the perturbed process (it is run again in a plain one) used memory nobody wrote.",
  "Kernels compiled without bounds checks read neighbouring memory silently; whether a value is then wrong depends on the heap. Chunks of one cell, windows larger than chunk or raster and 1-band rasters put every loop at its limits.",
  "Negative indices wrap as in numpy and are not reported. Blocks from numpy's small-block cache keep old contents instead of the pattern.")
d("C31", "Rasters built by every in-memory constructor (Raster(array), data_to_raster, data_to_raster_like, Raster(DataArray/Dataset), data_to_xr_raster(_ds)(_like), dataarray_to_xr_raster(_ds), dataarray_to_raster) from numpy and dask arrays of every dtype and 2-4 dims, with masks, null values, burn flags, coordinates in either direction, affines, templates, CRSs and differently chunked masks; DataArrays and Datasets in any axis order, with _FillValue/nodata attributes or an encoded null value (masked=True), band labels, lazily or not; inconsistent input.",
  "The generator's own cells at their coordinates; every view (data, xdata, mask, xmask, to_dataset, to_null_mask) must agree; null exactly where mask or null value says (NaN in bare floats).",
  "Every other check builds on these constructors; the tests use few combinations.", "Lazy Datasets may keep or replace their null value by the dtype's default.")
d("C32", "Functions called with their rasters and vectors as objects, path strings, Path objects, geopandas and dask-geopandas frames; methods beside the functions they stand for; parts (cda_*, pa_*, single pieces, wide and tall zonal tables, is_aspect) beside the whole; deprecated aliases; CRSs, dtypes, sequences and scalars in every accepted spelling; what is no raster, vector or path.",
  "All results of a case compared cell by cell (values, nulls, null value, dtype, grid, CRS; frames row by row); a refused input must be refused in every form.", "Entrance conversions and wrappers that the other checks use in one form only.", "zonal_stats and add_objectid_column take path text or Vector only (as documented); rasters with a side of one cell excluded (cell size unknown).")
