"""Source of properties.jsonl and MANIFEST.json (python tools/propdefs.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(pid, title, statement, over, qtext, why, files, mech, observe, tech, note):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(
        rec={
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
        }, tech=tech, note=note))


R = "raster_tools/"
INP, HIS, CFG, SCH = "inputs", "histories", "configurations", "schedules"

P("C01", "Results do not depend on chunking, scheduler or evaluation order",
  "For every raster operation, the values, null mask, null value, data type, grid and CRS of the computed result are the same however the inputs are split into chunks along rows and columns, and the same under the synchronous and the threaded scheduler. Computing the same lazy result again, or computing a part of it first, gives the same cells.",
  [INP, CFG, SCH],
  "All rasters, all row/column chunkings of them (irregular and one-cell chunks included), every lazily evaluated operation, both schedulers.",
  "The tests fix one or two chunkings per function; the number of chunkings and the positions where chunk seams fall relative to nulls and windows is unbounded.",
  [R + "raster.py", R + "general.py", R + "focal.py", R + "surface.py", R + "zonal.py", R + "blocks.py", R + "rasterize.py", R + "distance/proximity.py"],
  [("lazy block maps and overlaps", R + "blocks.py, focal.py, surface.py, general.py"), ("chunk-wise rasterization", R + "rasterize.py")],
  ["Raster.to_numpy", "Raster.mask", "Raster.null_value"],
  "metamorphic property-based testing: same operation on re-chunked input and other scheduler",
  "Generated rasters, chunkings and operations; compares whole results. Trusts single-chunk synchronous evaluation as the reference (its values are decided by the other properties).")

P("C02", "Operators and ufuncs act cellwise as NumPy does and propagate nulls",
  "Every supported unary or binary arithmetic, comparison, bitwise or other element-wise operation on a raster with a scalar, an array, or another raster on the same grid gives in each non-null cell exactly the value and data type NumPy gives for the corresponding operands, in the operand order written. A result cell is null exactly when the cell is null in any raster operand; null cells hold the result's null value, results of unmasked operands are unmasked, and the grid and CRS are kept.",
  [INP],
  "All supported element-wise functions, operand kinds and orders (scalar/array/raster on either side, in-place, per-band lists, two-output functions), all data types, null patterns and null values.",
  "Tests use two or three fixed rasters and mostly a single data type pair; the space of ufunc x dtype x operand order x null pattern is far larger.",
  [R + "raster.py"],
  [("ufunc dispatch", R + "raster.py: _apply_ufunc, __array_ufunc__"), ("mask merging", R + "utils.py: merge_masks"), ("per-band operands", R + "raster.py: BandwiseOperationAdapter")],
  ["operator results", "Raster.mask", "Raster.null_value"],
  "differential property-based testing against NumPy on the masked cells",
  "Exact comparison with NumPy per cell; trusts NumPy. Rasters up to 3 bands and about 12x12 cells.")

P("C03", "Operations never modify their inputs",
  "No operation on a raster or vector (other than the in-place operators) changes any input raster, array, data frame, mapping, list or other argument it is given: after the call and after computing the result, every input still has the same cells, mask, null value, data type, grid, CRS, chunks and contents. Later changes to a copy or a result do not show up in the raster it came from.",
  [INP, HIS],
  "All public operations and argument containers, with in-memory and lazy inputs, and sequences of operations reusing the same input.",
  "A unit test that checks a result does not look at the inputs afterwards; aliasing shows only when the same argument is used again.",
  [R + "raster.py", R + "general.py", R + "vector.py", R + "zonal.py", R + "_mosaic.py", R + "_stack.py", R + "_padding.py"],
  [("copying of inputs", R + "raster.py: get_raster_ds, Raster.copy"), ("functional operators", R + "general.py")],
  ["Raster.to_numpy", "Raster.mask", "argument contents after the call"],
  "property-based testing with before/after fingerprints of every argument, and stateful reuse",
  "Fingerprints of every argument before and after call and compute; generated operations and arguments.")

P("C04", "Rasters stay in normal form through any chain of operations",
  "Every raster obtained by any chain of operations has dimensions band, row, column with bands numbered 1..N and one band per chunk, strictly increasing x and strictly decreasing y, and a boolean null mask of the same shape, chunks and CRS as the data. Its declared shape, chunks and data type match what computing it yields; every null cell holds the null value; and a raster has null cells only if it has a null value.",
  [HIS, INP],
  "All finite sequences of public operations starting from arbitrary rasters.",
  "Tests apply one or two operations to a fresh raster; the invariant has to survive every composition, where one function's output is the next one's input.",
  [R + "raster.py", R + "general.py", R + "focal.py", R + "surface.py", R + "_stack.py", R + "_padding.py", R + "warp.py", R + "clipping.py", R + "creation.py"],
  [("normalization of rasters", R + "raster.py: normalize_xarray_data, make_raster_ds"), ("fast-path construction", R + "raster.py: Raster(_fast_path=True)")],
  ["Raster.xdata", "Raster.xmask", "Raster.band/x/y", "Raster.null_value"],
  "stateful (operation-sequence) property-based testing with invariant and cellwise model checks after each step",
  "Random chains of up to 8 operations with a NumPy model of data and mask stepped alongside; invariant checked after every step.")

P("C05", "Saving and reopening a raster gives back the same raster",
  "Saving a raster to a file and opening it gives the same valid cells, the same null cells, and the same shape, resolution, bounds, CRS and band order, with the same null value and data type whenever the format can store them. This holds for every supported data type, null value, chunking and save option that is lossless, for an explicit null value given at save time, and for saving each chunk to its own file, whose files together tile the raster exactly.",
  [INP, CFG],
  "All data types, null values, chunkings, band counts, grids, lossless creation options and tile sizes.",
  "Tests save one data file with a few options; precision and null handling differ per data type and null value.",
  [R + "io.py", R + "raster.py"],
  [("writing", R + "io.py: write_raster"), ("opening", R + "io.py: open_raster_from_path_or_url"), ("per-chunk files", R + "raster.py: Raster.save_chunks")],
  ["files on disk", "Raster(path)"],
  "round-trip property-based testing",
  "Round trips through GeoTIFF/COG/other lossless drivers in a scratch directory. Trusts GDAL.")

P("C06", "Cell values stay attached to their geographic positions",
  "Whatever orientation, dimension order or dimension names the input array data has, the raster built from it holds each value at the x/y position it had in the input. Row/column to x/y conversion and back are inverse to each other and agree with the coordinates, the bounds, the resolution, the affine transform and the grid box.",
  [INP],
  "All grids (ascending or descending axes, any origin and resolution, one-row or one-column rasters), dimension orders and names, and all cells and cell offsets.",
  "Tests use a handful of grids in one orientation; off-by-half-cell and flip errors depend on the grid.",
  [R + "raster.py", R + "_grids.py"],
  [("orientation normalization", R + "raster.py: normalize_xarray_data"), ("coordinate building", R + "_grids.py: build_coords"), ("xy/index", R + "raster.py: rowcol_to_xy, xy_to_rowcol")],
  ["Raster.x/y", "Raster.xy", "Raster.index", "Raster.bounds", "Raster.affine", "Raster.geobox"],
  "property-based testing: value-at-position invariant, inverse relations",
  "Generated grids and orientations; positions compared exactly or to float rounding.")

P("C07", "Null value changes keep valid cells and track nulls exactly",
  "Setting, replacing, clearing or converting null values keeps the value of every cell that stays valid and marks exactly the cells documented: setting a null value marks the previously null cells and the cells equal to that value, applying a mask raster adds exactly its true cells, clearing keeps the data and leaves no nulls, and the null mask raster is true exactly at null cells. The data type is widened only when the new null value does not fit, so that the stored null value always equals the one requested.",
  [INP, HIS],
  "All data types, present and new null values (NaN, out-of-range and fractional ones included), mask rasters and sequences of these calls.",
  "Tests check chosen dtype/null pairs; fitting rules differ for each pair of data type and value.",
  [R + "raster.py", R + "masking.py", R + "dtypes.py"],
  [("set_null_value and friends", R + "raster.py"), ("type promotion", R + "dtypes.py: get_common_dtype"), ("default nulls", R + "masking.py")],
  ["Raster.null_value", "Raster.mask", "Raster.to_numpy", "Raster.dtype"],
  "model-based property-based testing",
  "Cellwise model of value and null state, over generated dtypes, null values and call sequences.")

P("C08", "Type conversion keeps values, nulls and the null value's meaning",
  "Converting a raster to another data type gives in every valid cell what NumPy's cast gives and leaves the set of null cells unchanged. The result's null value is representable in the new type and stored in every null cell: it is the requested one if given, else the old one when it fits, else the default for the new type; rounding likewise changes only valid cells.",
  [INP],
  "All pairs of supported data types, null values and requested null values, and all decimals for rounding.",
  "The pair space is over 150 combinations before null values are considered; tests check a few.",
  [R + "raster.py", R + "masking.py", R + "dtypes.py"],
  [("astype", R + "raster.py: Raster.astype"), ("null reconciliation", R + "masking.py: reconcile_nullvalue_with_dtype")],
  ["Raster.astype", "Raster.round"],
  "differential property-based testing against NumPy casts",
  "Generated dtype pairs, null values and data in range; NumPy cast as oracle.")

P("C09", "Conditional selection and remapping follow their cellwise rules",
  "Conditional selection takes each cell from the first source where the condition holds and from the second elsewhere, null where the condition or the chosen source is null. Range remapping and reclassification give each valid cell the value of the first range (with the stated end-point inclusivity) or the exact entry that matches it, null where that entry says null, and otherwise leave it unchanged (or null, when unmapped cells are to be nulled); null cells stay null.",
  [INP],
  "All rasters, conditions, range lists (overlapping, touching, infinite bounds), mappings, inclusivity settings, scalar/raster/null sources and data types.",
  "Tests use fixed mappings on a small grid; end points, precedence and type promotion interact combinatorially.",
  [R + "general.py", R + "raster.py"],
  [("where", R + "general.py: where"), ("remap_range", R + "general.py: remap_range"), ("reclassify", R + "general.py: reclassify")],
  ["Raster.where", "Raster.remap_range", "Raster.reclassify"],
  "model-based property-based testing",
  "Per-cell Python model over generated mappings and conditions.")

P("C10", "Local statistics across bands match brute force on valid cells",
  "For each statistic, the local statistic at a cell equals that statistic of the values of the cell's non-null bands (extremes' positions reported as band positions, mode ties to the lowest value), and the cell is null exactly when all bands are null. The result has one band on the same grid.",
  [INP],
  "All band counts, data types, null patterns, statistics.",
  "Tests compare each statistic on one or two fixed stacks.",
  [R + "general.py", R + "stat_common.py"],
  [("local_stats", R + "general.py: local_stats"), ("statistics kernels", R + "stat_common.py")],
  ["raster_tools.general.local_stats"],
  "differential property-based testing against a brute-force model",
  "Pure-Python statistics per cell over generated stacks.")

P("C11", "Aggregation summarises exactly each block of cells",
  "Aggregating by an integer number of rows and columns gives one output cell per full block, equal to the statistic of the block's non-null cells and null exactly when the whole block is null. The output grid's cells cover exactly the blocks they summarise.",
  [INP, CFG],
  "All rasters, block sizes, statistics, null patterns and chunkings, sizes not divisible by the block included.",
  "Tests use one raster and few block sizes; chunk seams that do not align with blocks are hardly reached.",
  [R + "general.py", R + "stat_common.py"],
  [("aggregate", R + "general.py: aggregate")],
  ["raster_tools.general.aggregate"],
  "differential property-based testing against a brute-force model",
  "Brute-force blocks over generated rasters; georeference checked by block extents.")

P("C12", "Focal statistics match brute force over the window's valid cells",
  "For each focal statistic and each rectangular, circular or annular window, the value at a cell equals the statistic of the non-null cells inside the window centred there, with cells beyond the raster's edge treated as absent. Null cells of the input stay null, and the window built for a shape contains exactly the cells that shape covers.",
  [INP, CFG],
  "All rasters, window shapes and sizes (larger than the raster or its chunks included), statistics, null patterns.",
  "Tests fix a 5x5 raster and odd windows; seams, even-sized windows, all-null windows and windows larger than chunks are barely sampled.",
  [R + "focal.py", R + "stat_common.py"],
  [("focal", R + "focal.py: focal, _focal_chunk"), ("window shapes", R + "focal.py: get_focal_window, circle/annulus")],
  ["raster_tools.focal.focal", "raster_tools.focal.get_focal_window"],
  "differential property-based testing against a brute-force model",
  "Pure-Python windows over generated rasters.")

P("C13", "Correlation and convolution match the definition and honour nulls",
  "Correlating a raster with a kernel gives at every valid cell the weighted sum over the kernel centred there, ignoring null cells, with the chosen edge mode supplying cells beyond the edge; null cells stay null. Convolution equals correlation with the kernel flipped along both axes.",
  [INP, CFG],
  "All rasters, kernels (even-sized, asymmetric), edge modes, fill values and null patterns.",
  "Tests check a few square kernels without nulls near edges.",
  [R + "focal.py"],
  [("correlate/convolve", R + "focal.py")],
  ["raster_tools.focal.correlate", "raster_tools.focal.convolve"],
  "differential property-based testing against the definition, plus a flip relation",
  "Direct double-loop definition over generated rasters and kernels.")

P("C14", "Surface measures follow their formulas and need complete windows",
  "Slope, aspect, curvature, northing, easting, hillshade and 3-D surface area computed for a cell with a complete valid 3x3 neighbourhood equal their published formula for that neighbourhood and the raster's cell size, and every other cell is null. The results do not change when a constant is added to all elevations, and aspect turns with the terrain.",
  [INP],
  "All elevation rasters, cell sizes (non-square included), null patterns, sun positions and units.",
  "Tests compare one DEM with stored output, so cell sizes, orientation and null neighbourhoods are not varied.",
  [R + "surface.py"],
  [("surface kernels", R + "surface.py")],
  ["raster_tools.surface"],
  "differential and metamorphic property-based testing",
  "Independent NumPy formulas over generated DEMs; tolerance for float rounding.")

P("C15", "Zonal statistics equal brute force over each zone's valid cells",
  "For every zone and band, each statistic equals that statistic computed from all the non-null cells that the zone covers, whatever the zones' shape, order, overlap or position, and zones with no valid cells get null results. Every zone appears once per band with its own identifier, in the wide and in the long layout alike.",
  [INP, CFG],
  "All value rasters, zone rasters or features, statistics, layouts and chunkings.",
  "Tests use one vector file and one raster; zones split over several chunks with nulls are not varied.",
  [R + "zonal.py", R + "stat_common.py", R + "rasterize.py"],
  [("zonal aggregation", R + "zonal.py: zonal_stats")],
  ["raster_tools.zonal.zonal_stats"],
  "differential property-based testing against a brute-force model",
  "Brute-force grouping over generated rasters and zones.")

P("C16", "Point extraction reports the cell under each point",
  "Extracting at points gives, for each point and band, the value of the cell containing the point, and null for points on null cells or outside the raster. Each point keeps its identity and the result has one row per point and band.",
  [INP],
  "All rasters, point sets (outside, duplicate, in null cells), layouts and chunkings.",
  "Tests use a single file of points.",
  [R + "zonal.py"],
  [("extract_points_eager", R + "zonal.py")],
  ["raster_tools.zonal.extract_points_eager"],
  "differential property-based testing against direct indexing",
  "Direct index lookup over generated points.")

P("C17", "Dilation and erosion are window maximum and minimum over valid cells",
  "Dilating (eroding) by a window gives at each cell the maximum (minimum) of the valid cells under the window centred there. Null cells stay null, bands are independent, and the data type, grid and null value are kept.",
  [INP, CFG],
  "All rasters, window sizes, data types and null patterns.",
  "Tests check one size with a few nulls.",
  [R + "general.py"],
  [("dilate/erode", R + "general.py")],
  ["raster_tools.general.dilate", "raster_tools.general.erode"],
  "differential property-based testing against a brute-force model",
  "Pure-Python window extrema over generated rasters.")

P("C18", "Region labelling groups exactly the connected equal valued cells",
  "Two cells of a band receive the same region number exactly when a path of neighbouring (4- or 8-connected) cells of equal value joins them. Null cells and cells whose value is not among the requested ones get no region, and different regions get different numbers.",
  [INP, CFG],
  "All rasters, connectivities, value selections, null patterns and chunkings (regions crossing seams).",
  "Tests label small fixed patterns.",
  [R + "general.py"],
  [("regions", R + "general.py: regions")],
  ["raster_tools.general.regions"],
  "differential property-based testing against flood fill",
  "Union-find flood fill; compares partitions, not numbers.")

P("C19", "Band stacking, splitting and selection keep every band intact",
  "Splitting a raster into bands and stacking or concatenating them again, in any order, yields for each output band exactly the cells, nulls and position of the band selected, with bands renumbered from one. Stacking rasters on different grids first brings them to the stated common grid without changing the value at any cell position, leaving uncovered cells null.",
  [INP, HIS],
  "All band counts, orders, repeats, null values, data types and combinations of grids.",
  "Tests stack a few rasters with equal grids and null values.",
  [R + "_stack.py", R + "general.py", R + "raster.py"],
  [("stack/split", R + "_stack.py"), ("band_concat", R + "general.py"), ("get_bands", R + "raster.py")],
  ["raster_tools.stack_bands", "raster_tools.split_bands", "raster_tools.band_concat", "Raster.get_bands"],
  "round-trip and model-based property-based testing",
  "Cellwise model by coordinates over generated stacks.")

P("C20", "Mosaics place every source cell and resolve overlaps as asked",
  "A mosaic of rasters on aligned grids covers the union (or intersection) of their extents, and each cell holds the overlap rule's pick among the non-null source cells at that position (first, last, minimum, maximum, mean, sum or count), null where there are none. The order of sources matters only for the order-dependent rules.",
  [INP],
  "All sets of aligned source rasters, overlaps, null patterns, rules, data types and extents.",
  "Tests place two or three rasters.",
  [R + "_mosaic.py", R + "_grids.py"],
  [("mosaic", R + "_mosaic.py"), ("grid combination", R + "_grids.py: combine_grids")],
  ["raster_tools.mosaic"],
  "model-based and metamorphic property-based testing",
  "Coordinate-keyed cell model over generated tiles.")

P("C21", "Padding and box clipping change extent but never a cell's value",
  "Padding a raster to a larger extent and clipping it to a box keep every retained cell's value, null state and position on the same grid. Padding adds only null (or fill) cells and covers the requested target; clipping keeps exactly the cells inside the box.",
  [INP],
  "All rasters, pad targets, fill values and boxes.",
  "Tests use a few aligned boxes.",
  [R + "_padding.py", R + "clipping.py"],
  [("pad", R + "_padding.py"), ("clip_box", R + "clipping.py")],
  ["raster_tools.pad", "raster_tools.clipping.clip_box"],
  "property-based testing: cell-at-coordinate invariant",
  "Coordinate-keyed comparison over generated extents.")

P("C22", "Vector clip, mask, erase and envelope select the right cells",
  "Clipping or masking a raster by features keeps exactly the cells the features cover and nulls the rest, erasing does the opposite, and the envelope keeps the features' bounding box. Every kept cell has its original value and position, and already null cells stay null.",
  [INP],
  "All rasters, feature sets and bounds.",
  "Tests check counts on one vector file.",
  [R + "clipping.py", R + "rasterize.py"],
  [("clip/mask/erase/envelope", R + "clipping.py")],
  ["raster_tools.clipping"],
  "property-based testing against shapely cell/feature geometry",
  "Cell coverage decided by shapely for generated polygons in general position.")

P("C23", "Block mapping calls the function once per block with the right context",
  "Mapping a function over blocks, with or without overlap and geographic context, produces the same raster as applying the function to the whole arrays when the function is local, with the blocks, masks, null values, positions and edge padding it is handed being exactly those of the inputs at that place. The result has the reference raster's grid, the null value and band count the rules prescribe, and the mask the function returns when it returns one.",
  [INP, CFG],
  "All input rasters, chunkings, depths, boundaries, output types, band counts and null values.",
  "Tests exercise single configurations; the combinations of injected context, depth, boundary and chunking are many.",
  [R + "blocks.py"],
  [("map_blocks family", R + "blocks.py")],
  ["raster_tools.map_blocks", "raster_tools.map_overlap", "raster_tools.geo_map_blocks", "raster_tools.geo_map_overlap"],
  "differential property-based testing with probe functions",
  "Probe functions record and check what they are handed; whole-array application is the reference.")

P("C24", "A raster's pieces tile it exactly",
  "Splitting a raster into chunk rasters, chunk bounding boxes, block grid descriptions or quadrants yields pieces that are disjoint, together cover the raster, and carry exactly the cells, nulls, positions, resolution and CRS of their place in it. Chunked coordinate arrays match the raster's coordinates block by block.",
  [INP, CFG],
  "All rasters and chunkings, single-row and single-column chunks included.",
  "Tests use even chunkings.",
  [R + "raster.py", R + "blocks.py"],
  [("chunk pieces", R + "raster.py: get_chunk_rasters, get_chunk_bounding_boxes, to_quadrants"), ("block geo info", R + "blocks.py: geo_block_infos")],
  ["Raster.get_chunk_rasters", "Raster.get_chunk_bounding_boxes", "Raster.geo_block_infos", "Raster.to_quadrants", "Raster.get_chunked_coords"],
  "property-based testing: tiling invariant",
  "Pieces reassembled and compared with the raster.")

P("C25", "Cost distance, allocation and traceback solve the shortest-path problem",
  "The accumulated cost at each cell is the least cost of any path of allowed moves from a source, where a move costs its (elevation-aware) length times the mean of its end cells' costs, and is null exactly where no path of valid cells exists. Following the traceback from any reached cell leads to a source along such a least-cost path, whose source is the one reported by the allocation.",
  [INP],
  "All cost surfaces, sources, elevations, barriers, connectivities and cell sizes.",
  "Tests compare two stored surfaces.",
  [R + "distance/cost_distance.py", R + "distance/_heap.py"],
  [("Dijkstra core", R + "distance/cost_distance.py"), ("indexed heap", R + "distance/_heap.py")],
  ["raster_tools.distance.cost_distance_analysis"],
  "differential property-based testing against an independent shortest-path solver, plus certificate checks",
  "Independent Dijkstra plus path certificates; float tolerance.")

P("C26", "Proximity, direction and allocation refer to a nearest source cell",
  "The proximity of a cell is the distance in the chosen metric from its centre to a nearest source cell, its allocation is the value of such a cell and its direction the compass bearing to such a cell; source cells have proximity and direction zero. Cells farther than the maximum distance from every source are null, and null cells are never sources.",
  [INP, CFG],
  "All source rasters, target values, metrics, maximum distances and chunkings.",
  "Tests use a few fixed rasters.",
  [R + "distance/proximity.py"],
  [("proximity sweeps", R + "distance/proximity.py")],
  ["raster_tools.distance.pa_proximity", "pa_allocation", "pa_direction", "proximity_analysis"],
  "differential property-based testing against brute-force nearest search",
  "Brute-force nearest source with a tolerance for the documented sweep algorithm.")

P("C27", "Rasterized features burn exactly the cells they cover",
  "Rasterizing features gives each cell the value of the covering feature chosen by the overlap rule (first, last, minimum, maximum) or the mask value, and null where no feature covers the cell; covering means touching the cell or containing its centre, as requested. The result does not depend on how features are partitioned or rasters chunked, and lies on the template's grid.",
  [INP, CFG],
  "All feature sets, attribute types, overlap rules, partitionings, chunkings and templates.",
  "Tests use one or two vector files with one partition.",
  [R + "rasterize.py"],
  [("rasterize", R + "rasterize.py")],
  ["raster_tools.rasterize.rasterize", "Vector.to_raster"],
  "differential property-based testing against shapely coverage",
  "shapely coverage per cell for features in general position.")

P("C28", "Raster to vector conversion reports every valid cell once",
  "Converting a raster to points gives exactly one point per valid cell and band, at the cell's centre, with the cell's value, band, row and column. Converting to polygons gives shapes whose value and covered cells reproduce exactly the valid cells.",
  [INP, CFG],
  "All rasters, null patterns, band counts and chunkings.",
  "Tests check one raster.",
  [R + "raster.py"],
  [("vectorization", R + "raster.py: to_points, to_polygons, to_vector")],
  ["Raster.to_points", "Raster.to_polygons", "Raster.to_vector"],
  "round-trip property-based testing",
  "Points and polygons mapped back to cells and compared.")

P("C29", "Reprojection resamples onto the requested grid and keeps nulls null",
  "Reprojecting places the raster on exactly the requested grid or CRS and resolution, and with nearest resampling every valid output cell has the value of the input cell whose position is nearest, while cells outside the input or over null cells are null. Reprojecting onto the raster's own grid changes nothing.",
  [INP],
  "All rasters, target grids or CRSs, resolutions, resampling methods, null patterns and chunkings.",
  "Tests check shape and a few values.",
  [R + "warp.py", R + "_grids.py"],
  [("reproject", R + "warp.py")],
  ["raster_tools.reproject", "Raster.reproject"],
  "metamorphic and differential property-based testing",
  "Identity, nearest-cell and subset relations; trusts PROJ for coordinate transforms.")

P("C30", "Line length statistics equal the clipped line length around each cell",
  "The line length value of a cell is the total length of the parts of all lines within the given radius of the cell's centre, multiplied by the weighting field when one is named. The result lies on the template's grid and does not depend on chunking or on how the lines are partitioned or ordered.",
  [INP, CFG],
  "All line sets, radii, weights, templates and chunkings.",
  "Tests use one vector file.",
  [R + "line_stats.py"],
  [("length", R + "line_stats.py")],
  ["raster_tools.line_stats.length"],
  "differential property-based testing against shapely",
  "Direct shapely clipping; tolerance for the polygonal approximation of the circle.")

P("C31", "Reductions use exactly the valid cells",
  "Each whole-raster reduction (minimum, maximum, sum, product, mean, variance, standard deviation, any, all) over a raster equals the NumPy reduction of its valid cells over all bands, whatever the chunking. Null cells never contribute.",
  [INP, CFG],
  "All rasters, data types, null patterns and chunkings, with fully null chunks included.",
  "Tests check one raster; fully null chunks are not varied.",
  [R + "raster.py", R + "dask_utils.py"],
  [("reductions", R + "raster.py: _ReductionsMixin"), ("chunk-safe min/max", R + "dask_utils.py")],
  ["Raster.min/max/sum/...", "np.sum(raster)"],
  "differential property-based testing against NumPy",
  "NumPy on the valid cells.")

P("C32", "Rasters created from a template match its grid and the request",
  "Creating a raster from a template gives the requested constant, per-band values, or random draws within the distribution's support, the requested band count and data type, and the template's grid and CRS. When the template's mask is copied, exactly the template's null cells are null; otherwise no cell is.",
  [INP],
  "All templates, fills, band counts, data types, distributions and mask options.",
  "Tests check a few.",
  [R + "creation.py"],
  [("creation", R + "creation.py")],
  ["raster_tools.*_like", "raster_tools.constant_raster", "raster_tools.random_raster"],
  "model-based property-based testing",
  "Direct expectations on generated templates.")

P("C33", "Model prediction applies the model to exactly the valid samples",
  "Predicting a raster with a model gives each cell the model's output for that cell's band values and nulls exactly the cells where some band is null, with one band per output. Predicting a vector appends, for each feature, the model's outputs for its chosen attributes and leaves all else unchanged.",
  [INP, CFG],
  "All rasters, null patterns, chunkings, models (any row-wise function), output counts and attribute tables.",
  "Tests use one model and one null pattern.",
  [R + "general.py"],
  [("model_predict", R + "general.py: model_predict_raster, model_predict_vector")],
  ["Raster.model_predict", "Vector.model_predict"],
  "differential property-based testing with transparent models",
  "Models are explicit row-wise functions evaluated independently.")

P("C34", "Vector containers keep every feature, attribute and geometry",
  "Building a vector, copying it, partitioning it, casting a field, adding an id column, indexing a feature and saving and reopening it keep the number, order, geometry, attributes and CRS of the features, apart from the documented change. Added ids are unique, and the i-th feature is the i-th row.",
  [INP, HIS],
  "All feature tables, partitionings and call sequences.",
  "Tests use fixed files with one partition.",
  [R + "vector.py"],
  [("Vector", R + "vector.py")],
  ["Vector", "open_vectors", "Vector.save"],
  "model-based property-based testing",
  "geopandas frames as the model.")

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["rec"]) + "\n")
    checks, na = [], []
    for p in PROPS:
        pid = p["rec"]["id"]
        if os.path.exists(os.path.join(ROOT, "vt", "props", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": f"./run.sh {pid}",
                "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {pid}",
                "technique": p["tech"], "level": "exploration",
                "level_note": p["note"]})
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1,
                   "setup_cmd": "./setup.sh",
                   "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")
    print(len(PROPS), len(checks))
