"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os

R = "raster_tools/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": [R + f for f in files],
         "mechanism": [{"name": n, "where": R + w} for n, w in mech]}
    if observe:
        a["observe_at"] = [observe]
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Cell-wise operators equal numpy and propagate nulls",
     "Every arithmetic, comparison, logical, bitwise and universal-function expression over rasters, scalars and arrays gives, at each cell that is valid in all raster operands, the value and dtype numpy gives for the same operands, plain Python numbers acting as 64-bit ones (bandwise operations pair the i-th scalar with the i-th band). "
     "A result cell is null exactly when some raster operand is null there (a unary operator keeps its operand's nulls), and in-place forms equal their out-of-place forms. "
     "The result lies on the operands' grid with the operands' CRS.",
     ["inputs", "configurations"],
     "for every operator/ufunc, operand dtype and order, null pattern, null value, number of bands and chunk layout",
     "Tests sample a few operators on a few rasters, and the whole of tests/test_raster.py (where operators live) cannot even be collected in this environment.",
     ["raster.py"],
     [("ufunc dispatch and mask propagation", "raster.py:_apply_ufunc"), ("bandwise adapter", "raster.py:_BandwiseOperationAdapter")])

prop("C02", "Reductions see exactly the valid cells",
     "A reduction of a raster (min, max, sum, prod, mean, std, var, all, any, for the raster and through the numpy reduction protocol) equals the numpy reduction over exactly the multiset of valid cells, never reading a null cell's stored value.",
     ["inputs", "configurations"],
     "for every dtype, null pattern (none, some, a whole band, a whole chunk), null value and chunk layout",
     "The reduction tests are among the tests that cannot run here, and a sampled test cannot show independence from the stored null values and from chunking.",
     ["raster.py", "stat_common.py"],
     [("reductions over unmasked cells", "raster.py:_ReductionsMixin/_reduce")])

prop("C03", "Every operation returns a well-formed raster",
     "The raster that any public operation returns has dimensions (band, y, x), band labels 1..N, strictly increasing x and strictly decreasing y, a boolean mask with the shape and chunks of its data, and single-band chunks. "
     "When it has a null value, every masked cell holds that null value; when it has none, no cell is masked. "
     "CRS and, for operations that do not change the grid, coordinates are those of the input.",
     ["programs", "inputs", "configurations"],
     "for every public operation and every chain of public operations over generated rasters, chunk layouts, dtypes and null values",
     "Tests check single operations; the invariant must survive any composition of operations, and no test composes them.",
     ["raster.py", "general.py", "focal.py", "surface.py", "zonal.py", "blocks.py", "clipping.py", "warp.py", "creation.py", "_stack.py", "_padding.py", "_mosaic.py"],
     [("construction of result datasets", "raster.py:make_raster_ds/dataarray_to_xr_raster_ds")])

prop("C04", "Results do not depend on chunking, scheduler or task order",
     "For every operation, the computed data, mask, null value, dtype and grid of the result are the same (region labels up to renaming, floating-point sums up to rounding) whatever chunk layout the inputs have, whichever dask scheduler and number of threads evaluates it, in whatever order and with whatever delays its tasks run, and however often it is evaluated.",
     ["schedules", "inputs", "configurations"],
     "for every public raster operation, every chunking of the inputs and every topological order and overlap of the resulting task graph",
     "A test runs one scheduler with one (lucky) order and a hand-picked chunk size; interleavings and chunk layouts are never varied together.",
     ["raster.py", "general.py", "focal.py", "surface.py", "zonal.py", "blocks.py", "distance/proximity.py", "rasterize.py"],
     [("chunk-mapped kernels and overlaps", "blocks.py:map_overlap, focal.py, general.py, surface.py, distance/proximity.py")])

prop("C05", "Operations are lazy and read only what a requested result needs",
     "Opening a raster, asking for its metadata and calling an operation (other than load, cost distance and regions() without values, which compute when called) build a deferred result without reading any pixel of the inputs; pixels are read only when the result is computed, loaded or saved. "
     "Computing one chunk of a cell-wise, neighbourhood or cropped result reads only the source chunks it depends on; loading a raster keeps its values, leaves the original deferred, and its result reads no source again.",
     ["inputs", "programs"],
     "for every lazily documented operation and chains of them, over rasters whose chunks record every read",
     "Tests compare values only; none observes when input blocks are read.",
     ["raster.py", "general.py", "focal.py", "surface.py", "zonal.py", "blocks.py"],
     [("dask graph construction", "raster.py, general.py, focal.py, surface.py, blocks.py")])

prop("C06", "Operations never modify their inputs",
     "No operation changes the data, mask, null value, CRS, coordinates or chunks of a raster passed to it, the arrays a raster was built from, the features passed to it, or the mappings, lists and option dictionaries passed as arguments; in particular an argument object can be reused for another call with the same effect as a fresh copy, and an operation's result is a new raster even when there is nothing to do (except get_raster() and stacking a single raster, which hand back their input). "
     "Only the explicitly in-place operators and loading act on the raster itself, and never on its copies.",
     ["inputs", "histories"],
     "for every public operation, called on in-memory or lazy rasters with reused argument objects, before and after computing the result",
     "Tests build fresh inputs for each call and do not look at them again afterwards.",
     ["raster.py", "general.py", "io.py", "vector.py", "_stack.py", "_mosaic.py"],
     [("argument normalisation and copies", "general.py:reclassify/remap_range; raster.py:to_polygons; io.py:open_dataset")])

prop("C07", "Null-management operations move nulls and keep valid data",
     "Setting or changing a null value makes null exactly the cells that were null or hold the new value; setting nulls from a mask raster adds exactly the cells that are true there; replacing nulls writes the given value, which becomes the null value, in the null cells; the null mask of a raster is its mask. "
     "Burning the mask writes the null value in the null cells, and changing the dtype or rounding converts the valid cells as numpy does, and none of these changes which cells are null nor any other valid cell's value.",
     ["inputs", "histories"],
     "for every dtype, null value (NaN, out-of-range, default, a value already present), null pattern, chunk layout and sequence of such operations",
     "Tests check single calls on a few values and most of them cannot be collected here; histories of null changes are not tested.",
     ["raster.py", "masking.py"],
     [("null operations", "raster.py:set_null_value, set_null, burn_mask, replace_null, to_null_mask, astype, round"),
      ("null value reconciliation", "masking.py:reconcile_nullvalue_with_dtype")])

prop("C08", "Conditional and remapping operations follow their cell rule",
     "where() takes at each cell the first argument where the condition is true and valid and the other where it is false, and is null where the condition or the value taken is null or the value equals the result's null value; reclassify() and remap_range() give each valid cell the value mapped to its class or to the first range containing it under the stated inclusivity, and otherwise leave it unchanged (or null when unmapped values are to be nulled or the mapped value is None). "
     "Null cells stay null and are never matched.",
     ["inputs", "configurations"],
     "for every mapping (overlapping, unsorted, reused, None targets), inclusivity, dtype, null pattern and chunk layout",
     "Tests use a few fixed mappings on a small raster; boundary values, dtype promotion and null interaction are not explored.",
     ["general.py", "raster.py"],
     [("remapping kernels", "general.py:remap_range, reclassify"), ("where", "general.py:where")])

prop("C09", "Bands and pieces partition and reassemble without loss",
     "Selecting, splitting, stacking and concatenating bands yields exactly the requested bands in the requested order, each with its data, nulls and grid; quadrants and chunk rasters partition the cells of the raster, each piece carrying the same cells at the same coordinates, and chunk bounding boxes are the footprints of those pieces.",
     ["inputs", "configurations"],
     "for every band count, selection with repeats, null pattern per band, chunk layout including single-row and single-column chunks, and mixed dtypes and null values",
     "Tests check a couple of shapes; the partition and round-trip laws over all layouts are not expressed.",
     ["raster.py", "general.py", "_stack.py"],
     [("bands and pieces", "raster.py:get_bands, split_bands, to_quadrants, get_chunk_rasters, get_chunk_bounding_boxes"),
      ("stacking", "_stack.py:stack_bands; general.py:band_concat")])

prop("C10", "Georeferencing stays consistent",
     "However its input is oriented, chunked or typed, a raster presents cells at their true coordinates, with bounds, resolution, affine and geobox that agree with the x and y coordinates. "
     "xy() and index() are inverse to each other over the whole grid and agree with the affine for every offset, and index() of any point is the cell that contains it.",
     ["inputs", "configurations"],
     "for every origin, resolution, non-square cell, orientation of input axes, shape and file or array source",
     "Tests use a single north-up square-cell grid for most operations.",
     ["raster.py", "io.py", "utils.py"],
     [("normalisation", "raster.py:normalize_xarray_data"), ("xy/index", "raster.py:xy, index")])

prop("C11", "Saving and reopening gives the same raster",
     "A raster saved to a file and reopened has the same cell values, null cells, null value, dtype, band order, grid and CRS, for every supported format, dtype and writer option that the format can represent (booleans are stored as uint8, and a reopened float raster takes NaN as null); saving in per-chunk tiles writes files that together hold every cell of every band exactly once at its place. "
     "Saving is the same whatever the chunking and evaluation order.",
     ["inputs", "configurations", "schedules"],
     "for every dtype, null value and pattern, band count, chunk layout, driver/extension, tiling and compression option, and thread schedule",
     "Tests round-trip a handful of dtype and driver pairs with one chunking.",
     ["io.py", "raster.py"],
     [("writers", "io.py:write_raster, open_raster_from_path"), ("save", "raster.py:save, save_chunks")])

prop("C12", "A failed save reports its error, leaves no staging file and can be repeated",
     "When a read, a task or the write itself fails at any point while a raster is being saved, the error reaches the caller, no temporary or staging file is left behind, and after the failed save has ended the raster can be saved again with a complete and correct result. "
     "Tiles that were already complete stay valid.",
     ["fault_sequences", "crash_points"],
     "for every chunk at which a failure is injected, every driver and scheduler",
     "Tests inject no faults into a save.",
     ["io.py", "raster.py"],
     [("staged writing", "io.py:write_raster")])

prop("C13", "Points and polygons carry exactly the valid cells",
     "Converting a raster to points yields exactly one point per valid cell and band, at that cell's centre, with that cell's value, band, row and column. "
     "Converting it to polygons yields disjoint polygons that cover exactly the valid cells' area, one (multi)polygon per band and value, holding that value.",
     ["inputs", "configurations"],
     "for every dtype, null pattern, value pattern, connectivity, band count and chunk layout",
     "Tests compare totals on one file that is missing here, so they do not run.",
     ["raster.py"],
     [("vectorisation", "raster.py:to_points, to_polygons, to_vector")])

prop("C14", "Rasterizing features burns the right feature in every cell",
     "Rasterizing vectors puts in each cell the value of the first, last, smallest or largest of the features that touch it (or contain its centre), as requested, and null where there is none; mask mode marks exactly the touched cells, or exactly the untouched ones when inverted. "
     "The result does not depend on how the features are partitioned, on spatial indexing, nor on the raster's chunks.",
     ["inputs", "configurations", "schedules"],
     "for every set of overlapping features, partitioning, spatial index, chunk layout, field dtype, overlap rule and touch mode",
     "Tests use a few fixed layers; overlap order across partitions and chunks is not enumerated.",
     ["rasterize.py"],
     [("overlap resolution", "rasterize.py:_resolve_*"), ("chunk/partition matching", "rasterize.py:_rasterize_spatial_aware")])

prop("C15", "Clipping and masking keep exactly the requested cells",
     "Clip, erase, mask and envelope keep, unchanged and at their coordinates, exactly the valid cells inside (erase and inverted mask: outside; envelope: in the bounding box of) the feature and make the others null; clip_box keeps exactly the rows and columns the box intersects (a box within a single row or column is first grown by up to two half cells). "
     "mask() keeps the raster's extent and the others crop to the feature's or the given bounds.",
     ["inputs", "configurations"],
     "for every feature, box, band count, dtype, null pattern, grid and chunk layout",
     "All clipping tests depend on missing data or an unavailable driver here, and each checks one fixed feature.",
     ["clipping.py"],
     [("clip", "clipping.py:_clip, clip_box")])

prop("C16", "Focal filters equal their window definition",
     "A focal statistic at a valid cell is the statistic of exactly the valid cells the window selects around it, and correlation and convolution are the kernel-weighted sums with the stated boundary treatment; null cells contribute nothing and stay null unless asked otherwise. "
     "Circle, annulus and rectangle windows have the documented cells.",
     ["inputs", "configurations"],
     "for every window shape (even, odd, asymmetric, larger than a chunk or the raster), statistic, boundary mode, dtype, null pattern and chunk layout",
     "Tests compare a few windows on one raster; boundaries between chunks, null patterns and dtypes are sampled once.",
     ["focal.py", "stat_common.py"],
     [("focal kernels", "focal.py:focal, correlate, convolve, get_focal_window")])

prop("C17", "Regions, dilation and erosion equal their definitions",
     "regions() gives two cells the same label exactly when they are valid non-zero (or matching) cells connected under the given neighbourhood, whatever the chunking, with labels numbered contiguously from 1 in each band and every other valid cell 0. "
     "dilate() and erode() give each cell the maximum or minimum of the valid cells in the window around it with the documented treatment of nulls.",
     ["inputs", "configurations"],
     "for every value and null pattern (spirals, combs, diagonal chains), neighbourhood, window size and chunk layout",
     "Tests use small fixed masks; shapes that reconnect through other chunks are not enumerated.",
     ["general.py"],
     [("regions", "general.py:regions"), ("morphology", "general.py:dilate, erode")])

prop("C18", "Aggregation and local statistics use exactly the right cells",
     "aggregate() gives each coarse cell the statistic of exactly the valid fine cells it covers, null when there are none, on the coarsened grid; local_stats() gives each cell the statistic of its valid values across bands, null when there are none. "
     "Null values never enter a statistic.",
     ["inputs", "configurations"],
     "for every factor, statistic, dtype, null pattern, shape not divisible by the factor, band count and chunk layout",
     "Tests check a few factors and statistics on one shape.",
     ["general.py", "stat_common.py"],
     [("aggregate", "general.py:aggregate"), ("local_stats", "general.py:local_stats"), ("statistics", "stat_common.py")])

prop("C19", "Terrain products equal the documented surface formulas",
     "Slope, aspect, northing, easting, hillshade, curvature, surface area and topographic position equal, at every interior cell whose neighbourhood is valid, the documented formula applied to the neighbouring elevations at the raster's cell size; border cells, null cells and cells whose neighbourhood holds a null are null as documented. "
     "Flat, planar and rescaled surfaces give the geometric values (aspect and surface area are defined for square cells, percent slope is the rise over run ratio).",
     ["inputs", "configurations"],
     "for every elevation surface, cell size, dtype, null pattern, band count and chunk layout",
     "Every surface test needs a data file that is missing here; none of this module's behaviour is tested in this environment.",
     ["surface.py"],
     [("surface kernels", "surface.py")])

prop("C20", "Zonal statistics and point extraction read the right cells",
     "Zonal statistics equal, for each zone and band, the statistic over exactly the valid data cells falling in valid cells of that zone, with one row per zone, whether zones come from a raster or from features. "
     "Extracting at points returns for each point and band the value of the cell that contains it, missing where the cell is null or the point is outside.",
     ["inputs", "configurations"],
     "for every zone pattern (crossing chunks, absent from chunks, fully null), statistic, dtype, band count, partitioning and chunk layout",
     "Tests compare against one reference data set with one chunking.",
     ["zonal.py"],
     [("zonal", "zonal.py:zonal_stats"), ("extraction", "zonal.py:extract_points_eager")])

prop("C21", "Cost distance is the least accumulated cost",
     "The cost distance of every cell is the least cost over all permitted paths from any source, with barriers and nulls impassable and unreachable cells null, at the raster's cell size, connectivity and with elevation when given. "
     "Following the traceback from any reached cell descends to a source, its moves adding up to the reported cost, and the allocation is the identifier of that source.",
     ["inputs", "configurations", "histories"],
     "for every cost surface (ties, zeros, barriers, mazes), source set, elevation, connectivity, dtype, null value and cell size, and every history of priority-queue operations",
     "Tests compare one small published example; optimality over all surfaces is a universal claim.",
     ["distance/cost_distance.py", "distance/_heap.py"],
     [("Dijkstra kernel", "distance/cost_distance.py:_cost_distance_analysis_core"), ("indexed heap", "distance/_heap.py")])

prop("C22", "Proximity finds the nearest target",
     "Proximity gives each cell the distance to its nearest target cell in the chosen metric, allocation that target's value and direction the bearing to it, all three agreeing on the same target (nearest up to the documented two-sweep search); targets have zero distance, and cells with no target within the maximum distance are null.",
     ["inputs", "configurations"],
     "for every target set, target value list, metric, maximum distance, cell size, null pattern and chunk layout",
     "Tests compare a few fixed target patterns; targets in other chunks and exact maximum distances are sampled once.",
     ["distance/proximity.py"],
     [("proximity scan", "distance/proximity.py")])

prop("C23", "Block mapping hands every block exactly its context",
     "map_blocks, map_overlap and their geo variants call the user function once per output block with the block's data, halo of the stated depth (the true neighbouring cells, and the stated boundary fill outside), mask and, for geo variants, the location and geobox of exactly the cells passed; results are assembled in place with the stated bands, dtype, mask and null value. "
     "An identity function reproduces the raster.",
     ["inputs", "configurations", "schedules"],
     "for every depth, boundary mode, chunk layout, number of input rasters and arguments, output band count, mask mode and dtype",
     "Tests check a few depths and boundaries; the context of every block under every layout is not checked.",
     ["blocks.py"],
     [("wrappers", "blocks.py:map_blocks, map_overlap, geo_map_blocks, geo_map_overlap")],
     observe="the user function passed in")

prop("C24", "Mosaic, padding and grid unions place cells correctly",
     "Mosaicking rasters on a common grid gives at each cell of the union extent the first, last, minimum, maximum or sum, as requested, of the valid source cells there (cells holding the null value of the result count as null), and null where there is none, however many rasters there are. "
     "Padding places the raster unchanged at its coordinates in the padded extent with the stated fill or null elsewhere, and stacking rasters with different extents aligns every cell to its coordinates.",
     ["inputs", "configurations"],
     "for every number of rasters (beyond the recursion threshold), overlap pattern, null pattern, dtype mix, offset and chunk layout",
     "Tests mosaic two or three rasters with fixed overlaps.",
     ["_mosaic.py", "_padding.py", "_stack.py", "_grids.py"],
     [("mosaic", "_mosaic.py:mosaic"), ("pad", "_padding.py:pad"), ("stack", "_stack.py:stack_bands"), ("grid union", "_grids.py:combine_grids")])

prop("C25", "Reprojection samples the right source cell",
     "Reprojecting onto a grid or CRS gives each destination cell the value of the source at the coordinates of its centre (nearest resampling: exactly the value of a nearest source cell; reprojection to the same grid: the same raster), null where the source is null or absent, on exactly the requested grid.",
     ["inputs", "configurations"],
     "for every source and destination grid, CRS pair, resampling method, dtype, null pattern, band count and chunk layout",
     "Tests compare against the same library call the code makes, on one raster.",
     ["warp.py"],
     [("warp", "warp.py:reproject")])

prop("C26", "Raster constructors and model prediction fill the right cells",
     "Constant, full, zeros, ones, empty and random rasters have the template's grid, the requested bands, dtype and value (and the template's nulls when asked to copy the mask). "
     "Model prediction gives every cell that is valid in every band the prediction the model makes for that cell's band vector, all other cells being null.",
     ["inputs", "configurations"],
     "for every template dtype, mask, band count, chunk layout, value, model output count",
     "Tests use one template and one model.",
     ["creation.py", "general.py"],
     [("creation", "creation.py"), ("prediction", "general.py:model_predict_raster, model_predict_vector")])

prop("C27", "Line length statistic measures the lines near each cell",
     "The line length raster holds at each cell the total length of the parts of all lines inside the circle of the given radius around the cell's centre (weighted when asked), independent of how lines are split into segments, ordered or partitioned and of the raster's chunks.",
     ["inputs", "configurations"],
     "for every set of lines, radius, weights, partitioning and chunk layout",
     "Tests compare with one precomputed raster.",
     ["line_stats.py"],
     [("length", "line_stats.py:length")])

prop("C28", "A batch script computes what the API calls it names compute",
     "Running a batch script gives for each named raster the same raster as the corresponding sequence of API calls, in script order and regardless of blank lines, comments and letter case of commands; saved outputs equal that result, and a malformed line is reported as an error, never silently skipped.",
     ["programs", "inputs"],
     "for every script over the supported commands and their arguments",
     "There are no tests for most batch commands.",
     ["batch.py"],
     [("parser", "batch.py:BatchScript")])

prop("C29", "Vector data survives opening, saving and selection",
     "Opening, saving, selecting, casting, reprojecting and tagging features keeps every feature once, in order, with its attributes and geometry; an object-id column is unique over all features and partitions; bounds and sizes equal those of the features.",
     ["inputs", "configurations"],
     "for every feature set, partitioning, column dtype, CRS and file format available offline",
     "Tests open one or two fixed files with one partitioning.",
     ["vector.py"],
     [("vector", "vector.py:Vector, add_objectid_column, open_vectors")])
prop("C30", "Kernels stay inside their arrays and read no unwritten memory",
     "No operation reads or writes outside of the arrays it works on, and no result cell depends on memory that nothing has written: with every array access checked no access is out of bounds, and the results are the same whatever freshly allocated memory contains.",
     ["inputs", "configurations"],
     "for every operation that runs compiled code, every dtype, null pattern, shape, window, chunk layout (down to single cells) and content of fresh memory",
     "Compiled kernels do not check their indices, so a stray access is silent unless it happens to change a sampled value; tests run without a bounds checker and with whatever memory holds.",
     ["focal.py", "general.py", "surface.py", "zonal.py", "stat_common.py", "line_stats.py", "distance/cost_distance.py", "distance/_heap.py", "distance/proximity.py"],
     [("compiled kernels", "focal.py:_focal_chunk, general.py:_coarsen_chunk, surface.py, distance/proximity.py, distance/cost_distance.py"),
      ("compiled statistics", "stat_common.py")])

prop("C31", "Rasters built from data in memory hold exactly that data",
     "A raster, or a standard DataArray or Dataset, made from arrays, DataArrays or Datasets (with a mask, a null value, burning, coordinates in either direction, an affine, a template or a CRS) holds exactly those cells at their coordinates, is null exactly where the mask or the null value says (NaN in bare float arrays), and all of its views agree; inconsistent input is refused.",
     ["inputs", "configurations"],
     "for every array type, dtype, band count, chunk layout of data and mask, axis order and direction, null value and CRS",
     "Every other function builds on these constructors; their tests use a few combinations of arguments.",
     ["raster.py"],
     [("constructors", "raster.py:data_to_raster, data_to_raster_like, data_to_xr_raster, data_to_xr_raster_ds, dataarray_to_raster, dataarray_to_xr_raster_ds, get_raster_ds"),
      ("normalisation", "raster.py:normalize_xarray_data, make_raster_ds, _dataset_to_raster_ds")])

prop("C32", "Every way to ask for the same thing gives the same result",
     "A function's result does not depend on how its inputs are spelled: rasters and vectors given as objects, paths or frames, a method instead of the function, deprecated names, one part asked for alone or with the others, a CRS as text, code or object, a dtype by name or type, sequences and numbers of any type. What one form refuses, every form refuses.",
     ["inputs", "configurations"],
     "for every public function with more than one accepted form of input, every raster, feature set and layout",
     "Tests call each function in one form, mostly with objects; the conversions at the entrance (get_raster, get_vector, CRS and dtype parsing, sequence handling) and the thin wrappers are not compared with one another.",
     ["raster.py", "vector.py", "general.py", "rasterize.py", "clipping.py", "zonal.py", "distance/__init__.py", "creation.py", "focal.py", "surface.py", "line_stats.py"],
     [("input conversion", "raster.py:get_raster, vector.py:get_vector, utils.py"),
      ("wrappers", "raster.py:Raster methods and deprecated properties, vector.py:Vector methods, distance/cost_distance.py:cda_*, distance/proximity.py:pa_*")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    import collections
    assert max(collections.Counter(p["id"] for p in P).values()) == 1
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
    print(len(P), "properties")
