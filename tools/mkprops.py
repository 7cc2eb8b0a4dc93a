"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
R = "raster_tools/"
def M(*p): return [dict(name=a, where=b) for a, b in p]
P = []
def prop(id, title, statement, over, q, why, files, mech, observe, state=None):
    a = dict(files=[R + f for f in files], mechanism=M(*mech), observe_at=observe, hook_needed=False)
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a))

prop("C01", "Nulls propagate cell by cell through every elementwise operation",
 "In the result of any elementwise operation (arithmetic, comparison, logical, bitwise, shift, unary or numpy ufunc, and their reflected, in-place and per-band forms) between rasters, scalars and arrays, a cell is null exactly when that cell is null in at least one raster operand. Every other cell holds exactly what numpy gives for the operands' values in the result's data type. A result has a null value exactly when some raster operand has one; null cells then hold that null value, which is the default one for the result's data type, and the grid and CRS are those of the operands.",
 ["inputs", "programs", "configurations"],
 "all expressions over rasters (masked or not, any dtype, any chunking, 1..n bands), scalars and arrays, with any mask pattern, including long chains of operations",
 "tests pick a handful of dtype/operator/mask combinations with mostly single operations; the guarantee is over all mask patterns, operand kinds and compositions",
 ["raster.py", "masking.py"], [("_apply_ufunc", R+"raster.py"), ("bandwise adapter", R+"raster.py"), ("default null values", R+"masking.py")],
 ["Raster.to_numpy()", "Raster.mask", "Raster.null_value", "Raster.dtype"],
 [("mask", "which cells are null", R+"raster.py"), ("null_value", "sentinel stored in null cells", R+"raster.py")])

prop("C02", "Null value, mask and data stay consistent through null management",
 "Setting, changing or clearing the null value, replacing nulls, nulling by a mask raster, burning the mask, extracting the null mask, casting, rounding and copying, in any order, produce exactly the documented set of null cells: changing the null value keeps existing nulls and adds cells equal to the new value, clearing it leaves no null cells and keeps the stored values, replacing nulls by a value makes that value the new null value, nulling by a mask raster adds its true valid cells, and every other operation keeps the set unchanged. Valid cells keep their values (apart from the cast or rounding asked for) and, in a raster with a null value, null cells hold that null value, which always fits the data type. Without a null value no cell is null.",
 ["histories", "inputs"],
 "all sequences of null-management operations on rasters of any dtype, mask pattern, band count and chunking",
 "unit tests apply one operation to one fixture; inconsistencies between data, mask and sentinel need particular sequences and particular dtypes",
 ["raster.py", "masking.py", "dtypes.py"], [("set_null_value / replace_null / set_null / burn_mask / to_null_mask / astype / round", R+"raster.py"), ("null value reconciliation", R+"masking.py"), ("dtype promotion", R+"dtypes.py")],
 ["Raster.to_numpy()", "Raster.mask", "Raster.null_value", "Raster.dtype"],
 [("raster", "data, mask and null value of one handle", R+"raster.py")])

prop("C03", "Operations never change their inputs",
 "No operation changes the values, null cells, null value, data type, georeference or chunk layout of any raster, table, array, list or mapping passed to it, whether the operation is lazy or computed, loaded or not, succeeds or raises. A raster obtained earlier keeps the same contents whatever is later done to rasters derived from it. In-place operators change only the raster object they are applied to.",
 ["histories", "programs"],
 "all sequences of library calls over a set of live rasters, vectors and containers, with loaded (numpy backed) and lazy data",
 "tests look at results, almost never at the operands afterwards, and aliasing only shows when the data is already in memory or an object is reused",
 ["raster.py", "general.py", "focal.py", "surface.py", "rasterize.py", "zonal.py", "clipping.py", "_stack.py", "_mosaic.py", "distance/cost_distance.py", "distance/proximity.py", "vector.py"],
 [("copy / in-place ufunc handling", R+"raster.py"), ("reclassify mapping", R+"general.py"), ("polygonisation of chunks", R+"raster.py")],
 ["operands re-read after every call"])

prop("C04", "Results do not depend on how the data is chunked or scheduled",
 "For every operation the values, null cells, null value, data type and grid of the result are the same for every chunking of the operands, every choice of lazy or loaded data and every scheduler. Two operands with different chunkings can be combined, with the same result. Point, polygon and table outputs contain the same rows irrespective of chunking, up to row order and polygon splitting at chunk borders.",
 ["configurations", "schedules", "inputs"],
 "all chunkings of all operands (uneven, one cell, whole array), lazy or loaded, threaded or synchronous execution",
 "tests fix one or two chunkings per operation; errors at chunk borders need a window, region, feature or block that crosses a particular border",
 ["raster.py", "general.py", "focal.py", "surface.py", "zonal.py", "rasterize.py", "_mosaic.py", "blocks.py", "distance/proximity.py", "clipping.py"],
 [("map_overlap / coarsen / reductions", R+"focal.py"), ("aggregate rechunking", R+"general.py"), ("mosaic push along chunks", R+"_mosaic.py")],
 ["results for several chunkings of the same input"])

prop("C05", "Bands are selected, split, stacked and concatenated exactly",
 "Selecting bands yields exactly the requested one-based bands in the requested order, with repeats, and rejects numbers out of range; splitting yields every band once, in order. Stacking or concatenating rasters yields the sum of their bands in the order given, each with its own values and null cells (in the common data type; a value equal to the result's null value counts as null) at the right place on the joined or intersected grid, cells outside an input being null in its bands. The bands of every result are numbered from 1.",
 ["inputs", "histories"],
 "all band counts, band lists (with repeats and any order), stacks of rasters with different dtypes, null values, extents and chunkings",
 "tests use a few fixed stacks; order, repeats, mixed dtypes and partially overlapping extents combine without bound",
 ["raster.py", "_stack.py", "general.py", "_grids.py"], [("get_bands / split_bands", R+"raster.py"), ("stack_bands", R+"_stack.py"), ("band_concat", R+"general.py")],
 ["Raster.to_numpy()", "Raster.mask", "Raster.band"])

prop("C06", "Conditional selection, remapping and reclassing give the documented cell",
 "A conditional selection takes each cell from the true branch where the condition is valid and true and from the false branch where it is valid and false, and is null where the condition or the chosen branch is null. A range remap assigns each valid cell the value of the first range containing it under the chosen inclusivity, or null for a null target, and leaves other cells and nulls alone (a value that becomes equal to the result's null value counts as null). A reclass assigns each valid cell the value its mapping gives, null for a null target, and otherwise leaves it (or nulls it when asked), for the same mapping used on any number of rasters.",
 ["inputs", "histories"],
 "all cell values at, inside and outside range bounds, all overlapping range lists, inclusivities, mappings, branch kinds (raster, scalar, null) and mask patterns",
 "tests check a few ranges and masks; boundary values, overlapping ranges, null targets and reuse of one mapping for several rasters multiply",
 ["general.py", "raster.py"], [("where / remap_range / reclassify", R+"general.py")],
 ["Raster.to_numpy()", "Raster.mask", "Raster.null_value"])

prop("C07", "A mosaic resolves each cell by its method over the valid overlapping inputs",
 "Each cell of a mosaic depends only on the inputs that are valid there: the first or last of them in input order, or their minimum, maximum or sum, according to the method, and it is null when there is none. The result covers the union (or intersection) of the input extents, or the grid asked for, at the aligned position of each input. A value equal to the result's null value counts as null. This holds for any number of inputs and bands, and does not depend on how the inputs are grouped while painting.",
 ["inputs", "configurations"],
 "all numbers, orders, offsets and overlaps of inputs (including more than eight), mask patterns, methods, joins, dtypes and chunkings",
 "tests mosaic a few rasters; order and grouping errors need many inputs with particular overlaps of nulls",
 ["_mosaic.py", "_grids.py"], [("_paint / recursive painting", R+"_mosaic.py"), ("combine_grids", R+"_grids.py")],
 ["mosaic result values and mask"])

prop("C08", "Rows and columns, coordinates and extents stay mutually consistent",
 "For every raster, coordinates, affine transform, resolution, bounds, shape and geobox describe the same grid; converting row and column to coordinates and back is the identity for every cell and offset inside it (rasters of one row or column built from bare coordinates have no cell size and are left aside). Chunk rasters, chunk bounding boxes and quadrants are disjoint pieces that together are exactly the raster, each georeferenced where it lies. Padding, box clipping, band selection, reprojection onto an aligned grid and every cellwise operation keep each cell at its coordinates.",
 ["inputs", "histories"],
 "all shapes (including odd and one-cell), resolutions, origins, chunkings, pad and box extents, and sequences of such operations",
 "tests use a few grids with regular chunks; off-by-one and half-cell errors need odd shapes, uneven chunks or non-square resolution",
 ["raster.py", "_grids.py", "_padding.py", "clipping.py", "warp.py", "utils.py"], [("xy / index", R+"raster.py"), ("pad", R+"_padding.py"), ("get_chunk_rasters / to_quadrants", R+"raster.py"), ("clip_box", R+"clipping.py")],
 ["Raster.x, y, affine, bounds, resolution, geobox"])

prop("C09", "Block mapping gives each block once with the right context",
 "Mapping a function over the blocks of one or more rasters calls it with matching, aligned blocks of every raster, with the masks, null values, block position and block geometry of exactly that block when it asks for them, and assembles its outputs at those positions and nowhere else. With overlap, each block carries the requested margins filled from neighbouring blocks, or with the boundary rule at the raster's edge, and the margins are trimmed from the result. The result's data type, band count, null cells and null value follow the documented rules: the null value is the one given, else the input's when a single input keeps its type, else the default of the type; null cells are those equal to it, or those the function's own mask names. The variants for georeferenced blocks give data arrays whose coordinates, CRS and null value are those of the cells shown, margins included, and refuse rasters on different grids.",
 ["inputs", "configurations", "schedules"],
 "all chunkings, numbers of inputs, depths (per axis, asymmetric), boundary rules, requested context arguments and mask-returning functions",
 "tests use small regular chunkings and one or two context arguments at a time",
 ["blocks.py"], [("map_blocks / map_overlap / geo_map_blocks / geo_map_overlap", R+"blocks.py")],
 ["arguments seen by the mapped function", "assembled result"])

prop("C10", "Block geometry arithmetic is exact",
 "A block's geometry gives its position, shape, bounds and coordinates on the raster's grid; the geometries of a raster's blocks tile the raster. Padding or cropping a block on any side and shifting it change it exactly as asked, leave the original alone, compose additively and are undone by their inverses; amounts that are no integers or would leave a negative size are refused. The coordinates a block reports, and gives to data wrapped with it, are those of the cells it covers, whatever the CRS.",
 ["inputs", "histories"],
 "all sequences of geometry operations on blocks of rasters of any shape, chunking, origin and resolution",
 "tests apply single operations to one grid; errors in composition or on asymmetric amounts need sequences",
 ["blocks.py"], [("GeoBlockInfo", R+"blocks.py")],
 ["GeoBlockInfo attributes"], [("block geometry", "position, shape and affine of a block", R+"blocks.py")])

prop("C11", "Focal statistics use exactly the valid cells of the window",
 "Each valid cell of a focal statistic is the named statistic (minimum, maximum, sum, mean, median, mode, variance, standard deviation, number of distinct values, angular second moment, entropy) of the valid cells of the window centred on it that lie inside the raster; the mode is the smallest of the most frequent values. Null cells remain null. Windows reaching farther than the raster itself may be refused. The window is the rectangle, circle or annulus asked for and each band is treated by itself.",
 ["inputs", "configurations"],
 "all statistics, window shapes and sizes, mask patterns, dtypes, raster shapes (smaller than the window too) and chunkings",
 "tests compare a few windows against scipy; null patterns at the edge and chunk borders multiply",
 ["focal.py", "stat_common.py"], [("focal", R+"focal.py"), ("statistics", R+"stat_common.py")], ["focal result values and mask"])

prop("C12", "Correlation and convolution apply the kernel at every cell",
 "Each cell of a correlation is the sum of the kernel weights times the cells they cover, and of a convolution the same with the kernel turned by 180 degrees; null cells contribute nothing to their neighbours and stay null. Outside the raster the chosen boundary mode and fill value supply the cells. Each band is treated by itself.",
 ["inputs", "configurations"],
 "all kernels (asymmetric, odd and even sizes), boundary modes, fill values, mask patterns, dtypes, shapes and chunkings",
 "tests compare fixed kernels with scipy on unmasked data or one mask",
 ["focal.py"], [("correlate / convolve", R+"focal.py")], ["result values and mask"])

prop("C13", "Dilation and erosion take the extreme valid value of the footprint",
 "Each cell of a dilation is the maximum of the valid cells covered by the footprint of the asked size centred on it, as far as it lies in the raster, and null only where the footprint covers no valid cell (features grow into null areas). An erosion takes the minimum, and in a raster with a null value a cell is null when its footprint covers a null cell or reaches over the edge (features shrink). The data type and null value are kept and each band is treated by itself. Footprints reaching farther than the raster may be refused.",
 ["inputs", "configurations"],
 "all footprint sizes (rectangular too), mask patterns, dtypes, values at the type's limits, shapes and chunkings",
 "tests compare a few sizes on one raster with scipy",
 ["general.py"], [("dilate / erode", R+"general.py")], ["result values and mask"])

prop("C14", "Aggregation summarises exactly the valid cells of each coarse cell",
 "Each cell of an aggregated raster is the asked statistic of the valid cells of its block of input cells, and is null exactly when that block has no valid cell. Incomplete blocks at the right and bottom edges are dropped. The output grid keeps the origin and multiplies the resolution by the block size.",
 ["inputs", "configurations"],
 "all block sizes, statistics, mask patterns, dtypes, shapes not divisible by the block size, and chunkings",
 "tests use a few sizes over one or two rasters", ["general.py", "stat_common.py"], [("aggregate", R+"general.py")], ["aggregate result"])

prop("C15", "Local statistics and reductions summarise exactly the valid cells",
 "Each cell of a local statistic is that statistic of the cell's valid values across the bands, null exactly when no band is valid there. A reduction of a raster to a number is the statistic of its valid cells only. Null cells never contribute, wherever they are.",
 ["inputs"], "all statistics, mask patterns (including first or last band null), dtypes and chunkings",
 "tests sample masks on a couple of rasters", ["general.py", "stat_common.py", "raster.py"], [("local_stats", R+"general.py"), ("reductions", R+"raster.py"), ("nan aware statistics", R+"stat_common.py")], ["local_stats result", "Raster.max() etc."])

prop("C16", "Zonal statistics use exactly the valid data cells of each zone",
 "Every zone present in the zone raster gets one row whose statistics (count, sum, mean, minimum, maximum, variance, standard deviation (both of the sample), median, mode, distinct count and the others offered) are those of the valid data cells lying in the zone, for every band. Cells whose zone is null, and null data cells, contribute to nothing. The table layout (wide or long, zone names) follows the options and does not depend on chunking.",
 ["inputs", "configurations"], "all zone layouts (zones crossing chunks, single cells, zones of only null data), mask patterns, bands, statistics and chunkings",
 "tests use one zone raster and compare a subset of statistics", ["zonal.py"], [("zonal_stats", R+"zonal.py")], ["zonal_stats table"])

prop("C17", "Point extraction and conversion read the cell under each point",
 "Extracting values at points yields, for every point and band, the value of the cell containing the point, and a missing value for nulls and for points outside, in point order. Converting a raster to points yields exactly one point per valid cell and band, at the cell centre with its value, band, row and column. Rasterising those points returns the original valid cells.",
 ["inputs", "histories"], "all point positions (cell interiors, outside), mask patterns, bands, partitions of the points and chunkings",
 "tests sample few points on one raster", ["zonal.py", "raster.py", "rasterize.py"], [("extract_points_eager", R+"zonal.py"), ("to_points", R+"raster.py")], ["tables returned"])

prop("C18", "Rasterising features resolves overlaps by the documented rule",
 "Each cell holds the value (or one-based number, or field) of the features covering it, resolved as asked: the first or last in feature order, or the smallest or largest value, and is null where no feature covers it. In mask mode it tells whether some feature covers the cell. A cell whose burnt value equals the fill value counts as not covered; cells whose centre lies on the very edge of a feature may fall on either side. The result is the same however the features are partitioned or the target is chunked.",
 ["inputs", "configurations", "schedules"], "all sets of overlapping features, value orders (negative and extreme values too), overlap rules, partitionings and chunkings",
 "tests rasterise one or two data sets; resolution across partitions needs particular overlap patterns",
 ["rasterize.py", "vector.py"], [("rasterize", R+"rasterize.py"), ("partition reduction", R+"rasterize.py")], ["rasterize result"])

prop("C19", "Clipping and masking by features keep exactly the cells asked for",
 "Clipping keeps the value of every valid cell a feature covers and nulls the others inside the features' (or the given) bounds; erasing does the opposite; masking does either without changing the extent; an envelope or box keeps every cell of the bounds (boxes of one row or column may be widened or refused). Cells keep their coordinates, and null cells stay null.",
 ["inputs"], "all feature layouts, bounds, mask patterns, bands, dtypes and chunkings",
 "tests use one feature set and raster", ["clipping.py", "rasterize.py"], [("clip / erase / mask / envelope / clip_box", R+"clipping.py")], ["results"])

prop("C20", "Cost distance is the exact least cost, with matching traceback and allocation",
 "The cost distance of every cell is the minimum over all allowed paths from any source of the summed step costs (mean of the two cells' costs times the step length, including elevation difference when given), zero at sources, and the cell is null in all outputs exactly when its cost is null or negative or no source reaches it (a source whose elevation alone is null keeps cost zero). Following the traceback from any reached cell leads to a source along a path of exactly that cost. The allocation is the value of the source so reached, and with four-connectivity no path uses a diagonal.",
 ["inputs", "histories"], "all cost surfaces, barriers, null patterns, sources (raster or index list), elevations, resolutions (non-square too), connectivities",
 "tests compare a few surfaces with stored results; optimality over all paths is a global property",
 ["distance/cost_distance.py", "distance/_heap.py"], [("Dijkstra core", R+"distance/cost_distance.py")], ["cost_distance_analysis outputs"],
 [("frontier", "cells discovered and their best cost so far", R+"distance/cost_distance.py")])

prop("C21", "The cost-distance frontier is an exact updatable priority queue",
 "After any sequence of insertions, key updates, decrease-only insertions and removals, the queue holds exactly the values inserted and not removed, each with its latest accepted key. Removal returns a value with the smallest key together with that key. Rejected values and empty removals change nothing (the value an empty removal returns is unspecified), and the return flags tell what happened.",
 ["histories", "inputs"], "all operation sequences, capacities, key ties and infinite keys, across growth and shrinkage of the structure",
 "tests run a fixed set of sequences; stale cross references need interleaved updates, removals and resizes",
 ["distance/_heap.py"], [("push / push_if_lower / pop", R+"distance/_heap.py")], ["returned values and flags"], [("queue", "map from value to key", R+"distance/_heap.py")])

prop("C22", "Proximity, allocation and direction agree with the nearest target",
 "Target cells have proximity zero; every other cell within the maximum distance has the distance to a nearest target under the chosen metric and cells farther away are null. The allocation of a cell is the value of a target at exactly that distance (a value equal to the result's null value counts as null), and the direction is the compass direction to such a target. Null, non-finite (and, without explicit targets, zero) cells are never targets.",
 ["inputs", "configurations"], "all target layouts, metrics, maximum distances, resolutions, mask patterns and chunkings",
 "tests compare a few layouts with brute force", ["distance/proximity.py"], [("line sweep", R+"distance/proximity.py")], ["proximity outputs"])

prop("C23", "Regions and polygons follow connected equal-valued cells",
 "Two valid cells of a band get the same region label exactly when they are joined by a path of equal-valued neighbouring cells (4 or 8 neighbours as asked); labels are positive, distinct between regions, and null or unselected cells get no label (zero). Polygons made from a raster cover exactly the valid cells, each with the value and band of the cells it covers (values within the documented range of the conversion).",
 ["inputs", "configurations"], "all value and mask patterns, neighbourhoods, value selections, bands and chunkings",
 "tests label one or two rasters", ["general.py", "raster.py"], [("regions", R+"general.py"), ("to_polygons", R+"raster.py")], ["labels", "polygons"])

prop("C24", "Saving and opening a raster preserves it",
 "A raster written to a file and opened again has the same values, null cells, null value, data type, shape, grid and CRS, for every supported driver option, up to the documented conversions of data type: bool rasters become u1, 64-bit integers whose null value no file can hold become f8, and float rasters without a null value come back with NaN as null value. Writing with an explicit null value or block size changes only that. A different null value rewrites the null cells and adds the cells equal to it. Saving per chunk writes files that together are exactly the raster.",
 ["inputs", "configurations"], "all dtypes, null values (none, NaN, sentinel), band counts, CRSs, compressions, block sizes, drivers and chunkings",
 "tests cover individual options one at a time", ["io.py", "raster.py"], [("write / open", R+"io.py"), ("save / save_chunks", R+"raster.py")], ["files reopened"])

prop("C25", "A batch script means what its statements say",
 "Each assignment of a batch script binds its name to the raster its function denotes applied to earlier names, files or numbers, comments and blank lines being ignored and later lines seeing earlier bindings. The final raster is that of the last assignment. Malformed lines, unknown functions or operators and bad arguments raise the documented error naming the line.",
 ["programs", "inputs"], "all scripts over the offered functions, with any nesting of names, rebinding, comments and argument lists",
 "tests exercise only one function of the script language", ["batch.py"], [("parse_batch_script", R+"batch.py")], ["BatchScript result"], [("bindings", "names to rasters", R+"batch.py")])

prop("C26", "Model prediction feeds each valid cell or row its own features",
 "Predicting over a raster gives every cell valid in all bands the model's outputs for the row of its own band values in band order, output k in band k, as float64; cells null in any band are null in all outputs. Predicting over a table passes the named columns in the order given, complete rows only, and adds the outputs as float64 columns (prefix and one-based number) to the same rows, missing for incomplete rows; everything else in the table stays.",
 ["inputs", "configurations"], "all mask patterns, band counts, output counts, dtypes and chunkings", "tests use simple models and few masks", ["general.py", "vector.py"], [("model_predict_raster / model_predict_vector", R+"general.py")], ["predictions"])

prop("C27", "Surface measures follow their formula at interior cells and are null elsewhere",
 "Slope, aspect, curvature, hillshade, northing and easting of each interior cell whose neighbourhood is valid follow the documented 3x3 formulas with the raster's cell size, and the outermost rows and columns and null cells are null. The topographic position index is the rounded difference between a cell and its annulus mean.",
 ["inputs", "configurations"], "all elevation patterns, resolutions, mask patterns, dtypes and chunkings", "tests compare one raster with a reference implementation", ["surface.py"], [("slope / aspect / curvature / hillshade / tpi", R+"surface.py")], ["results"])

prop("C28", "Rasters created from a template or raw data have exactly the asked content",
 "A constant, zeros, ones, empty or random raster made from a template has the template's grid, chunks and CRS, the asked bands, data type and value, and copies mask or null value exactly as documented (without an asked data type a copied null value may widen the type). Wrapping an array with coordinates or an affine, CRS and null value gives a raster with those values, in canonical orientation, whose null cells are exactly those equal to the null value.",
 ["inputs", "configurations"], "all templates (masked or not, several bands), dtypes, band counts, orientations of coordinates and null values", "tests cover some option combinations", ["creation.py", "raster.py"], [("creation functions", R+"creation.py"), ("data_to_raster", R+"raster.py")], ["results"])

prop("C29", "Vector operations keep every feature exactly once",
 "Adding object identifiers gives every feature its own identifier whatever the partitioning; copying, loading, making lazy, repartitioning, spatial shuffling, casting a field, reprojecting and selecting keep each feature once with its attributes and geometry. Length, bounds and field names describe those features.",
 ["inputs", "histories"], "all feature counts, partitionings and operation sequences", "tests use one data set with one partitioning", ["vector.py"], [("Vector", R+"vector.py")], ["tables"])

prop("C30", "Line length in a radius is additive over features and independent of batching",
 "The length raster equals, at every cell, the sum over features of the (weighted) length inside the circle around the cell's centre; it is zero where no line is near. Splitting features into parts, partitions, batches or chunks does not change it.",
 ["inputs", "configurations"], "all line sets, weights, radii, partitionings, batch thresholds and chunkings", "tests compare few line sets and thresholds", ["line_stats.py"], [("length", R+"line_stats.py")], ["result"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
