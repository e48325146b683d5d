"""Which harness decides which property, and within which bounds."""
GEOMAP = ["src/geomap/cppmap.cxx"]
IMPEX = ["-lvigraimpex"]
COMMON_ASSUMPTIONS = [
    "the code is compiled with the project's release flags (NDEBUG) plus libstdc++ assertions, and a second time with AddressSanitizer (on a smaller part of the space); g++ 13, x86-64",
    "the reference model (harness/refmap.hpp, cellref.hpp, cellmodel.hpp or the definitions inside the harness) is trusted",
]
EXACT = "coordinates are dyadic rationals, so that the reference model's predicates are exact"
DEDUP = "histories that lead to the same state (labels, polylines, incidences and flags of the reference model, anchors of nodes and contours of the implementation) are continued from the first of them only"
def gm(part="", variant="fast", **kw):
    d = dict(harness="h_geomap.cpp", sources=GEOMAP, variant=variant, libs=IMPEX, part=part); d.update(kw); return d

PROPS = {}
for _p in ("P01", "P02", "P03", "P04", "P05", "P06", "P08", "P18"):
    PROPS[_p] = dict(jobs=[gm(), gm(variant="asan")])
for _p in ("P07", "P10", "P23"):
    PROPS[_p] = dict(jobs=[gm(harness="h_build.cpp"), gm(harness="h_build.cpp", variant="asan")])
UTILS = GEOMAP + ["src/geomap/cppmap_utils.cxx"]
PROPS["P09"] = dict(jobs=[gm(harness="h_bulk.cpp", sources=UTILS), gm(harness="h_bulk.cpp", sources=UTILS, variant="asan")])
for _p in ("P13", "P14", "P15"):
    PROPS[_p] = dict(jobs=[gm(harness="h_poly.cpp", sources=[]), gm(harness="h_poly.cpp", sources=[], variant="asan")])
for _p in ("P16", "P22"):
    PROPS[_p] = dict(jobs=[gm(harness="h_small.cpp", sources=[], libs=[]), gm(harness="h_small.cpp", sources=[], libs=[], variant="asan")])
CRACK = UTILS + ["src/geomap/crackedgemap.cxx"]
PROPS["P11"] = dict(jobs=[gm(harness="h_crack.cpp", sources=CRACK), gm(harness="h_crack.cpp", sources=CRACK, variant="asan")])
PROPS["P17"] = dict(jobs=[gm(harness="h_stats.cpp"), gm(harness="h_stats.cpp", variant="asan")])
CELL = ["src/cellimage/foureightsegmentation.cxx"]
for _p, _h in (("P19", "h_cell.cpp"), ("P20", "h_cell.cpp"), ("P21", "h_pyr.cpp")):
    PROPS[_p] = dict(jobs=[gm(harness=_h, sources=CELL), gm(harness=_h, sources=CELL, variant="asan")])
CSTAT = CELL + ["src/cellimage/cellstatistics.cxx"]
PROPS["P31"] = dict(jobs=[gm(harness="h_cstat.cpp", sources=CSTAT), gm(harness="h_cstat.cpp", sources=CSTAT, variant="asan")])
PROPS["P12"] = dict(jobs=[gm(harness="h_par.cpp"), gm(harness="h_par.cpp", variant="asan")])

PYSRC = ["cppmap.cxx", "cppmap_utils.cxx", "crackedgemap.cxx", "vectorconv.cxx", "pythondiff2d.cxx", "polygon.cxx", "statistics.cxx", "cppmapmodule_utils.cxx", "cppmapmodule_stats.cxx", "cppmapmodule.cxx", "geomapmodule.cxx", "subpixel_watersheds.cxx", "dsl.cxx"]
for _p in ("P24", "P25", "P26", "P27", "P28"):
    PROPS[_p] = dict(jobs=[dict(harness="h_py.py", sources=[], variant="py", part="", shards=32)])
for _p in ("P29", "P30"):
    PROPS[_p] = dict(jobs=[dict(harness="h_val.py", sources=[], variant="py", part="", shards=32)])

SCENES = "7 drawings (square with pendant path; nested squares with bridges; loops at one node; multiple edges; drawing sticking out of the image; rings; islands within islands) of 6-8 edges each"
OPS = "splitting at every segment (with and without a new point), merging edges at every node from either side, removing every bridge/edge/isolated node by either dart"
TECH = "explicit-state model checking of the implementation: all operation histories up to a depth, every transition compared with a reference model"
TECHIN = "bounded exhaustive exploration of all inputs, executed on the implementation and compared with a reference model"
LONG = "; two large maps (64 and 62 edges) under long histories: %d schedules each with and without splits, of up to 200 and 40 operations (the k-th step performs the (start + k * stride)-th enabled operation)"
def doc(p, technique, quick, thorough, note, assumptions=()):
    PROPS[p].update(technique=technique, bounds=dict(quick=quick, thorough=thorough), assumptions=list(assumptions), note=note)

doc("P01", TECH,
    "maps: all subsets of the edges of " + SCENES + ", all subsets of the 12 edges of a 3x3 grid; histories: " + OPS + "; depth 2 from all subsets (two direction patterns), 3 from the complete drawings, 1 from the grid subsets; all histories without splits of any length from the complete drawings; maps whose edge labels were used up to 49..52 and 100..102 by splitting and merging; similar drawings (scaled by 1/512 and 1/8192, rotated, shifted) to depth 2. AddressSanitizer: depth 1/2",
    "as quick with depth 4 from the complete drawings, 2 from the grid subsets, and histories of any length with at most 1 split",
    "Exhaustive within the bounds; larger maps are covered only as far as operations act locally.", [EXACT, DEDUP])
doc("P02", TECH,
    "as P01 with depth 2 (grid subsets: initial maps only); in every state all operations on all operands, including every operation whose precondition fails (must be rejected and change nothing)",
    "as P01 thorough", "Exhaustive within the bounds.", [EXACT, DEDUP])
doc("P03", TECH,
    "as P01 with depth 2 (grid subsets depth 1), additionally switching the label image off/on and moving nodes as operations; maps without label image from all subsets to depth 1; after every transition all pixels, pixel counts, freshly drawn label images and face look-ups on a quarter-pixel lattice (on the edges excluded)",
    "as P01 thorough with these operations", "Exhaustive within the bounds. Where a slanted edge passes a pixel corner closer than rounding can decide, both results are accepted.", [EXACT, DEDUP])
doc("P04", TECH,
    "as P01 with depth 2 for complete drawings in 16 patterns of which attributes are queried before and between the operations, depth 1 for all subsets; moving nodes included",
    "as quick with depth 3, subsets depth 2, grid subsets depth 1", "Exhaustive within the bounds.", [EXACT, DEDUP])
doc("P05", TECH,
    "as P01 with depth 1 for all subsets and 2 for complete drawings; for every operation every accept/refuse position of three callbacks per hook, plus the callbacks for nodes and pixels",
    "as quick with depth 2/3", "Exhaustive within the bounds; callbacks only record and accept/refuse.", [EXACT, DEDUP])
doc("P06", TECH,
    "as P01 with depth 1 for all subsets, 2 for complete drawings; in every state: copy, perform every operation on copy and on original, destroy either; copies of maps whose labels were used up (49..52, 100..102)",
    "as quick with depth 2/3 and grid subsets", "Exhaustive within the bounds.", [EXACT, DEDUP])
doc("P07", TECHIN,
    "all subsets of the edges of " + SCENES + ": with at most 4 edges all insertion orders x all directions x 6 kinds of construction (labels given or not, nodes shared or not, sorted insertion at given positions, ...) x label image on/off; larger subsets in order and reverse/rotated order (complete drawings in all directions); all subsets of the 3x3 grid; similar drawings (scaled, rotated, shifted); nested squares of nearly equal area (gaps down to 2^-17); grids of 49 and 60 edges; stars of up to 4 of 24 directions; all call sequences of depth 2 before initialization",
    "as quick with all orders of 5 edges, stars of 5, call sequences of depth 3", "Exhaustive within the bounds.", [EXACT])
doc("P08", TECH,
    "as P01 restricted to splits and merges: depth 1 from all subsets, 2 from complete drawings with 4 query patterns, any length with at most 1 split; a 6-edge chain in all 64 direction patterns to depth 3; every split followed by merging from either side",
    "depth 2/3, chain depth 4 with splits", "Exhaustive within the bounds.", [EXACT, DEDUP])
doc("P09", TECHIN,
    "6 drawings: all removal sets (3 list orders), all bulk operations x all sets of at most 2 protected edges or all x protection attached or not x kinds of flags x label image; all subsets as starting maps (two operations in sequence for up to 4 edges); all 3x3 grid subsets",
    "two operations in sequence for up to 6 edges, protection on grid subsets", "Exhaustive within the bounds; where the order of removal is free, any result of some order is accepted.", [EXACT])
doc("P10", TECH,
    "index: all histories of 7 insertions/removals of 6 points (two coinciding), 123 query positions x distance bounds; nodes: all histories of 6 additions/moves/removals; maps: all operation histories of depth 2 from 7 drawings, then moving every node",
    "depth 8/7/3", "Exhaustive within the bounds. Whether a point exactly at the maximal distance is found is left open.", [EXACT])
doc("P11", TECHIN,
    "all label images up to 3x3 with 3-4 labels, all two-label images up to 4x4, 5x3, 3x5 and framed ones; 4- and 8-connectivity; midcrack and threshold conversion",
    "additionally all 5x5 two-label images with one label at most 6 times, larger label counts", "Exhaustive within the bounds.", [])
doc("P12", TECHIN,
    "stars of 2-4 lattice paths (4- and 8-neighbour steps, length 2-4) from one node, identical edges, nets of 2-3 paths and loops between two nodes in a 4x3 box and 2 paths in a 4x4 box; all insertion orders and directions, supporting points, step lengths, small parallel offsets, edge preferences",
    "3 paths in 4x4 and 5x3 boxes, 2 paths in 5x4", "Exhaustive within the bounds. Excluded: an edge that is a proper initial part of another, stretches shared from both ends that overlap.", ["lattice paths with bounded parallel offsets; positions may move by the minimal distance"])
doc("P13", TECH, "all histories of 4 edits (3 for polygons without bounding box) from 4 polygons in up to 8 query states, queries in between", "all histories of 5 edits, 4 point values", "Exhaustive within the bounds.", [EXACT])
doc("P14", TECHIN,
    "all polylines of up to 3 points and closed polygons of 3 points on a 7x7 sub-pixel lattice, 4-point polygons on 5x5 and 4x4, 5-point polygons on 3x3 lattices, 3-point polygons on an 8x8 lattice; all cuts into two parts, restricted rows, clip offsets -1..1 for 3 image sizes",
    "4-point polygons on 7x7, 5 on 4x4, 6 on 3x3, all segments of a 29x29 lattice", "Exhaustive within the bounds; a slanted segment through a pixel corner may count either way.", [EXACT])
doc("P15", TECHIN,
    "all open/closed polygons of up to 7/6 points on a 3x3 lattice and 5 points on 4x4/4x3 lattices (smoothing: 5/4 points); simplification: 4 tolerances x 4 maximal steps; resampling: 4 step lengths; smoothing: 4 scales x 3 step lengths; 25-40 query positions each",
    "one point more", "Exhaustive within the bounds. Spline resampling (resamplePolygon, polygonSplineControlPoints) and simplifyPolygonDigitalLine are not covered: their boundary treatment has no definition to check against.", [EXACT])
doc("P16", TECH, "all sequences of up to 6 merges/appends/initializations on up to 5 (growing to 7) labels; all merge orders of 8 labels in 3 patterns", "7 operations on 6 labels; 9 labels", "Exhaustive within the bounds. Only representatives are merged, as the map does.", [])
doc("P17", TECH, "9 drawings (two with sub-pixel faces) x minimal sample counts 0,1,2,4,12,40 x grey/RGB images x histories of depth 3 (face merges, bridge/node removal, copies, detaching); all small and nearly complete sub-drawings; all histories of 4 drawings", "depth 5; all sub-drawings", "Exhaustive within the bounds; values compared with a floating point tolerance.", [DEDUP])
doc("P18", TECH, "all subsets of the 7 drawings (initially) and complete drawings after histories of depth 2: all injective relabellings of up to 4 faces (into n, max and max+1 labels), every operation afterwards, all kinds of invalid assignments", "depth 5, 5 faces", "Exhaustive within the bounds.", [EXACT, DEDUP])
doc("P19", TECHIN, "all binary images up to 5x4, 3x5 and 4x4 pixels (plus surrounding frame), both corner types", "all 4x5 and 5x5 images", "Exhaustive within the bounds.", [])
doc("P20", TECH, "all accepted images: 3x3 depth 3, 4x3/3x4/5x3/3x5 depth 2, 4x4 depth 1, all histories of images with at most 4 edges; every legal and illegal operation in every state", "depth 5/3/2, all histories up to 7 edges", "Exhaustive within the bounds.", ["histories with the same cell image are merged in the unbounded part"])
doc("P21", TECH, "all command sequences (operations, composites, navigation, checkpoints, cutting, failing operations) of depth 3 on 4 images x 2 corner types; long histories on all 3x3 images with >= 8 and 5x3 images with >= 12 edges with composites at 7 positions x 4 lengths, every level visited forwards, backwards and by jumps", "depth 4, all composite positions", "Exhaustive within the bounds.", [])
doc("P22", TECHIN, "all chain codes of up to 36 steps added at one end, of up to 15 added at both ends in every order, tangents at every position of all open chains of up to 14 and closed contours of up to 14 steps; all unsupported lines up to |4|", "48/17/16/16", "Exhaustive within the bounds; a stretch of a single code may be given up by the tangent search.", [])
doc("P23", TECH, "all subsets of the 7 drawings to depth 1, complete drawings to depth 3; removal of every set of visited cells during iteration; every dart walked to every arc length on a fine lattice, forwards and backwards; all filter patterns of images up to 9 pixels", "depth 4, 12 pixels", "Exhaustive within the bounds.", [EXACT, DEDUP])
for p_ in ("P01", "P02", "P03", "P04", "P05", "P06", "P08", "P18"):
    b = PROPS[p_]["bounds"]; b["quick"] += LONG % (1 if p_ == "P18" else 4); b["thorough"] += LONG % (6 if p_ == "P18" else 24)
NOT_APPLICABLE = {}

PYNOTE = ["the Python code is executed as converted by lib2to3 (as the project's test wrapper does), on CPython 3 with the extension module compiled from the working tree (NDEBUG, libstdc++ assertions)", "Python 2 special method names that the extension classes define (next, __nonzero__, ...) are also provided under their Python 3 names by the harness"]
PYSC = "5 drawings (square with pendant path, nested squares with bridges, loops at one node, multiple edges, rings) of 6-8 edges"
doc("P24", TECH,
    "maps: all edge subsets of " + PYSC + " in 3 phases (graph, sorted, initialized), dense and sparse labels; all histories of depth 2 (complete drawings, label image on/off), 1 (sparse labels, subsets of up to 3 edges), 0 (other subsets); in every state 3 pickle protocols, copy, deepcopy and every next operation on original and restored map; protection: all protected subsets of up to 3 edges; values: all polygons of up to 3 points on a 3x3 lattice, all boxes/rectangles with 3 coordinate values, digital lines with parameters -2..2, statistics of up to 3 segments",
    "depth 3 from complete drawings, 1 from all subsets", "Exhaustive within the bounds.", [DEDUP] + PYNOTE)
doc("P25", TECHIN,
    "all edge subsets of " + PYSC + " and of a window with an island (9 edges) for the neighbourhood functions and removeCruft, 3x3 grid subsets with at least 9 edges; all assignments of costs {none,1,2} to up to 4 edges, {1,2} to the complete drawings, all window subsets of at least 5 edges and the 3x3 grid; all seed assignments {none,0,1,7} (up to 3 seeds); all classifications {none,0,1,2} of maps of 4-5 edges and complete drawings; mergers: all face values from 2 values on drawings with at most one edge missing x protected edge; seeded growing: all sets of up to 3 seeds x 2 values x 3 modes; removeSmallRegions: all relevant thresholds x 3 cost measures x up to 2 protected edges",
    "costs from 3 values, all subsets, two edges missing for the mergers", "Exhaustive within the bounds. Ties may be resolved either way. The dynamic cost queue is not part of the extension module here; the harness provides one.", [EXACT] + PYNOTE)
doc("P26", TECH,
    "all sequences of two operations (elementary by either dart, or bulk: removing bridges, degree-2 nodes, isolated nodes, up to two edges, complete face merges), from all subsets of up to 3 edges of " + PYSC + " and the window x label image x at most one protected edge, 4-edge subsets and complete drawings of up to 7 edges without protection",
    "all subsets", "Exhaustive within the bounds. Removal of isolated nodes is not recorded by design.", [DEDUP] + PYNOTE)
doc("P27", TECH,
    "all edge subsets of " + PYSC + " as graph and as sorted map (2-4 direction patterns); initialized maps after all histories of depth 2 (complete), 1 (up to 4 edges), 0 (other); in every state: plain and transformed copy, all sets of omitted edges (up to 5 edges, else up to two omitted), copy into a non-empty map, copyMap, dual of all edges / one / two edges",
    "depth 3/2", "Exhaustive within the bounds.", [DEDUP] + PYNOTE)
doc("P28", TECH,
    "all histories of depth 2 with splits with and without an inserted point (marked points; 5 ways of marking) and depth 3 without (merged edges, costs with and without missing values, basins) from all subsets of up to 3 edges and the complete drawings of " + PYSC + " and the window; all sequences of up to 4 segments (4 values x 2 lengths), merged at every position",
    "depth 3/4 from all subsets, 5 segments", "Exhaustive within the bounds.", [DEDUP] + PYNOTE)
doc("P29", TECH,
    "sequences: all start contents of up to 3 points (2-3 values), all operation sequences of depth 2 (depth 3 from up to one point), after each all indices, slices and attributes, attributes queried before or not; meshes and rectangles of 0..3 x 0..3 pixels at 9 positions; scan lines of all triangles on a 4x3 lattice; iterators and orbits: all subsets of up to 4 edges and the complete drawings of " + PYSC + " and the window; callbacks: every operation on all subsets of up to 2 edges and the complete drawings x 9 behaviours (accept, veto, exception before/after, one hook only, disconnected, forgotten, two callbacks)",
    "depth 3, all subsets", "Exhaustive within the bounds.", PYNOTE)
doc("P30", TECH,
    "all histories of depth 2 (subsets of up to 3 edges) or 1 (up to 4 edges, complete drawings) of " + PYSC + " and the window, with references to every cell and dart that ever existed, derived values queried before or not; in every state every method of every reference, then again after the map was destroyed",
    "depth 3/2, all subsets", "Exhaustive within the bounds. Darts and iterators that outlive their map are excluded (they refer to it by design).", PYNOTE)
doc("P31", TECH,
    "all boundary images of 3x3 (depth 3), 4x3, 3x4 (2), 5x3 (1) pixels and all framed ones of 5x5 (3), 7x4 (2), 6x5 (1) pixels, corners as nodes or not; all sequences of legal operations by every dart; without and with three edgel images (one operation less, two thresholds) for automatic protection; in every state setting and clearing protection of every edge",
    "one operation more, 4x4 images", "Exhaustive within the bounds. Without rethinning of merged edges (doEdgeRethinning = false).", [])
