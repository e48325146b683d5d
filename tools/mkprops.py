#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

NOTEST = "No existing stable test touches the polygonal GeoMap at all; "
G = "src/geomap/"
p("P01", "A GeoMap stays a valid planar map under every operation history",
  "After building a map and after every sequence of edge splits, edge merges, bridge removals, face merges and node removals, the sigma/alpha/phi permutations, node orbits, face contours, cell counts and the Euler-Poincare relation are exactly those of the planar subdivision that the remaining edge polylines draw in the plane. Every finite face lists its enclosing contour first and its holes after it, each exactly once, every dart names the face lying to its left, and the map's own consistency check passes.",
  ["histories", "inputs"], "all sequences of Euler operations (with all operand darts) on all planar maps",
  NOTEST + "a unit test samples one map and one order of operations, while topology bugs need particular anchors, label signs, loop/bridge/hole constellations.",
  [G+"cppmap.cxx", G+"cppmap.hxx"],
  [("splitEdge/mergeEdges/removeBridge/mergeFaces", G+"cppmap.cxx Euler operations"), ("detachDart/insertSigmaPredecessor", G+"cppmap.cxx"), ("checkConsistency", G+"cppmap.cxx")],
  ["GeoMap::dart().nextSigma/nextPhi", "Face::contoursBegin", "GeoMap::checkConsistency"],
  [("sigma mapping", "dart permutation around nodes", G+"cppmap.hxx GeoMap::sigmaMapping_"), ("anchors", "one dart per contour of a face", G+"cppmap.hxx Face::anchors_")])
p("P02", "Each Euler operation changes exactly the cells it is specified to change",
  "Removing a bridge deletes one edge (and end nodes left isolated), merging faces deletes one edge and joins its two faces under the label of one of them - the infinite face always survives as face 0, otherwise the larger face - merging edges deletes one degree-2 node and joins its two edges, splitting adds one node and one edge. All other cells keep label, geometry, flags and incidences, and the surviving cell is returned. An operation whose precondition does not hold is rejected with an error and leaves the map unchanged.",
  ["histories", "inputs"], "all operations with all valid and invalid operands in all reachable maps",
  NOTEST + "frame conditions (nothing else changes) quantify over all cells and all reachable maps.",
  [G+"cppmap.cxx"], [("Euler operations", G+"cppmap.cxx removeIsolatedNode, mergeEdges, splitEdge, removeBridge, mergeFaces, removeEdge")])
p("P03", "The label image and pixel counts always mirror the map's geometry",
  "While a map maintains its label image, every pixel not crossed by any edge carries the label of the face whose region contains it, every crossed pixel carries minus the number of edges crossing it, and each face's pixel count equals the number of pixels carrying its label. Looking up the face at any position off the edges returns the face that geometrically contains it, with or without label image, and switching the label image off and on again reproduces the same image. This also holds after nodes were moved. A label image drawn from scratch shows the same faces, with the crossed pixels marked -1 or, on request, given the label of the face at their centre.",
  ["histories", "inputs"], "all operation histories, all pixels and query positions, label image on, off or toggled at any point",
  NOTEST + "incremental relabelling, look-up tables and edge pixel counts drift only after particular sequences.",
  [G+"cppmap.cxx", G+"cppmap.hxx", G+"cppmap_utils.hxx", G+"labellut.hxx", G+"polygon.hxx"],
  [("drawLabelImage", G+"cppmap_utils.hxx"), ("label image updates", G+"cppmap.cxx rawAddEdgeToLabelImage/markEdgeInLabelImage/removeEdgeFromLabelImage"), ("faceLabelLUT", G+"labellut.hxx"), ("setHasLabelImage/embedFaces", G+"cppmap.cxx"), ("faceAt/contains", G+"cppmap.cxx, cppmap.hxx")])
p("P04", "Geometric attributes of cells are always those of their current geometry",
  "At any point of any history, whether or not they were queried before, an edge's length, signed area contribution, bounding box and scanline coverage, and a face's area, bounding box, containment test, scanlines, contour length and contour polygon equal the values computed from scratch from the current edge polylines, also after a node and the adjacent edge ends were moved.",
  ["histories", "inputs"], "all interleavings of attribute queries and Euler operations",
  NOTEST + "stale caches show only when a query precedes a particular later modification.",
  [G+"cppmap.cxx", G+"cppmap.hxx", G+"polygon.hxx"],
  [("Face area/bounding box caches", G+"cppmap.hxx Face::area/boundingBox"), ("Edge::concatenate", G+"cppmap.cxx"), ("Polygon::split", G+"polygon.hxx")])
p("P05", "Operation hooks see every change, in order, and a veto changes nothing",
  "Every Euler operation first asks its pre-operation callbacks, in connection order and stopping at the first refusal; if one refuses, the operation returns nothing and the map - including the darts by which nodes and contours are represented - is unchanged. If all agree, the operation is performed and the post-operation callback is called exactly once with the surviving cell, node removals are announced through their own callback, and pixels that become part of a face are reported exactly once to that face.",
  ["histories", "configurations"], "all operations in all reachable maps, all accept/refuse patterns of the callbacks",
  NOTEST + "statistics and protection rely on callbacks for every operation/operand/veto combination.",
  [G+"cppmap.cxx", G+"cppmap.hxx"], [("signals with interruptable accumulator", G+"cppmap.hxx"), ("hook invocations", G+"cppmap.cxx Euler operations, associatePixels")])
p("P06", "A copied map is equal to and independent of its original",
  "Copying a map at any point of its history yields a map with identical nodes, edges, faces, labels, flags, orbits, attributes and label image. Afterwards the same operations have the same effects on both, and no operation on one is observable in the other, including after the other is destroyed.",
  ["histories"], "all maps, all copy points in all histories, all continuations on either side",
  NOTEST + "aliasing and missing members appear only for particular continuations after the copy.",
  [G+"cppmap.cxx", G+"cppmap.hxx"], [("copy constructors", G+"cppmap.cxx GeoMap::GeoMap(const GeoMap &), cppmap.hxx Node/Edge/Face copy constructors")])
p("P07", "Map construction yields the planar subdivision its polylines draw",
  "For every set of non-crossing polylines and nodes, in whatever order and direction they are added, sorting the edges and initializing the map yields the same subdivision: darts are in angular order around each node, there is one face per connected region of the plane, and each hole component is embedded in the face that surrounds it - independently of whether a label image is created, of the scale, position and orientation of the coordinates, and of whether darts were sorted by angle or inserted at given positions. Identical start angles and operations in the wrong phase are rejected with an error.",
  ["inputs"], "all planar sets of polylines, insertion orders, directions, label image on or off",
  NOTEST + "embedding depends on areas, containment and order for arbitrary nesting.",
  [G+"cppmap.cxx"], [("sortEdgesDirectly", G+"cppmap.cxx"), ("initContours/embedFaces", G+"cppmap.cxx"), ("addEdge/insertSigmaPredecessor", G+"cppmap.cxx")])
p("P08", "Splitting and merging edges are inverse and preserve the drawing",
  "Splitting an edge at any segment or inserted point yields two edges whose concatenation is the original polyline, with the face, flag and direction information of the original; merging them again from either side restores the polyline, whatever the directions of the two parts. Neither operation changes any face, and sequences of both keep the drawing of the map unchanged.",
  ["histories", "inputs"], "all split positions, both directions of both parts, all interleavings of splits and merges",
  NOTEST + "there are four concatenation cases, combined with loops, shared nodes and cached scanlines.",
  [G+"cppmap.cxx", G+"polygon.hxx"], [("splitEdge/mergeEdges/Edge::concatenate", G+"cppmap.cxx"), ("PointArray/Polygon::split", G+"polygon.hxx")])
p("P09", "Bulk simplification removes exactly what was asked and respects protection",
  "Removing a set of edges, all bridges, all isolated nodes, all degree-2 nodes, or the complete common boundary of two faces yields the map one gets by removing exactly those edges/nodes one at a time, reports the number of operations performed, and leaves a consistent map with no leftover markers on surviving edges. Edges carrying a protection flag are never removed while protection is attached, and edges with different flags are never joined.",
  ["inputs", "histories"], "all maps, all subsets of edges, all protection patterns",
  NOTEST + "result must be independent of the internal order for all subsets.",
  [G+"cppmap_utils.cxx", G+"cppmap_utils.hxx"], [("removeEdges/removeBridges/mergeFacesCompletely/mergeDegree2Nodes/removeIsolatedNodes", G+"cppmap_utils.cxx, cppmap_utils.hxx"), ("EdgeProtection", G+"cppmap_utils.hxx")])
p("P10", "Nearest-node lookup always finds the closest existing node",
  "At any time the nearest-node query returns an existing node of minimal distance to the query position, or nothing if no node lies within the given maximal squared distance; nodes that were added, moved or removed are taken into account immediately. The same holds for the underlying 2D point index for any insertion and removal history, including coinciding positions.",
  ["histories", "inputs"], "all histories of adding, moving and removing points, all queries and distance bounds",
  "No test exercises the 2D index; correctness depends on coordinate ties and pruning of the search range for every configuration.",
  [G+"vigra/map2d.hxx", G+"cppmap.cxx"], [("Map2D::nearest", G+"vigra/map2d.hxx"), ("nearestNode, Node::setPosition, Node::uninitialize", G+"cppmap.cxx, cppmap.hxx")])
p("P11", "Crack-edge maps represent every label image exactly",
  "For every label image the crack-edge map has exactly one finite face per connected region of equal label (4- or 8-connectivity as requested), whose boundary consists of exactly the pixel cracks between that region and others, whose area is the region's pixel count and whose label image shows that region. All nodes are junctions or unavoidable loop anchors, border edges are marked, the recorded source labels are those of the image, and the midcrack conversion visits exactly the crack midpoints (moved to the interpolated level crossing in the threshold variant) while junctions stay, with label image and scanlines following the new geometry. With 8-connectivity, the region with the higher label stays connected where two regions cross.",
  ["inputs"], "all label images (up to size bounds), both connectivities",
  "The existing crackConvert tests fail to run under the available Python; they would sample a handful of images anyway.",
  [G+"crackedgemap.cxx", G+"crackedgemap.hxx", G+"vigra/crackconnections.hxx"], [("CrackEdgeMapGenerator", G+"crackedgemap.hxx, crackedgemap.cxx"), ("crackConnectionImage", G+"vigra/crackconnections.hxx"), ("crackEdgesToMidcracks", G+"crackedgemap.cxx")])
p("P12", "Initially parallel edges are ordered by where they finally diverge",
  "Sorting edges that run in parallel initially (identically, or closer than the given minimal distance) orders them around their node as they leave the place where they diverge, reports edges that are identical to the end as unsortable (and nothing else), and agrees with direct angular sorting when all start angles differ. Splitting parallel edges then merges each shared stretch - up to one step before the divergence - into a single edge, keeping the preferred edge's geometry and uniting the flags, skips edges removed in the meantime, and leaves a consistent planar map drawing the same point set.",
  ["inputs"], "all sets of polylines leaving a node with shared prefixes, all directions and insertion orders",
  NOTEST + "recursion over groups of parallel darts has many orderings.",
  [G+"cppmap.cxx"], [("sortEdgesEventually/sortEdgesInternal/splitParallelEdges", G+"cppmap.cxx"), ("DartPosition::intersectCircle", G+"cppmap.hxx")])
p("P13", "A polygon's cached measures always match its points",
  "After any sequence of polygon edits (append, insert, erase, change, extend, reverse, swap, split, clear, copy), with measures queried at any time in between, length, signed area and bounding box equal those computed from the current points, and the point sequence is the one the edits describe.",
  ["histories"], "all edit/query sequences",
  "No existing test uses the polygon class; caches go stale only for particular edit-after-query sequences.",
  [G+"polygon.hxx"], [("Polygon/BBoxPolygon incremental updates", G+"polygon.hxx")])
p("P14", "Scan conversion covers exactly the pixels of a polygon",
  "For every polyline the scanline representation covers exactly the pixels whose area the line passes through; for every closed polygon, filling writes exactly the uncrossed pixels which the polygon winds around positively and drawing writes exactly the crossed ones, clipped to the image without touching anything outside. Merging, reversing and iterating scanlines preserve this coverage.",
  ["inputs"], "all polygons on a sub-pixel lattice, all clip offsets",
  "No existing test covers scan conversion; errors depend on direction changes, lattice alignment and clipping.",
  [G+"polygon.hxx"], [("scanPoly/Scanlines/fillScannedPoly/drawScannedPoly/ScanlinesIter", G+"polygon.hxx")])
p("P15", "Polygon algorithms satisfy their geometric definitions for every input",
  "For every polygon, the inside test agrees with the winding/parity definition off the boundary, the convex hull is the convex closed polygon of extreme points containing all points, simplification keeps the end points and a subsequence of the points such that no dropped point deviates more than the tolerance from the straight line between its kept neighbours (and kept neighbours are further apart than a given maximal step only if they were neighbours originally), and nearest-point, centroid, interpolation and arc-length resampling (linear, Gaussian and exponential) results equal their definitions.",
  ["inputs"], "all small point sequences on a lattice, including degenerate and collinear ones",
  "No existing test covers these functions; degenerate, collinear and duplicate points are where they fail.",
  [G+"polygon.hxx"], [("contains, nearestPoint, centroid, convexHull, simplifyPolygon, resamplePolygonLinearInterpolation/GaussianFilter/ExponentialFilter, arcLengthList", G+"polygon.hxx")])
p("P16", "The label look-up table is always the fold of all merges so far",
  "After any sequence of merges of one representative into another, each label looks up to the representative it was last merged into, and enumerating the labels merged into a representative yields exactly the labels that look up to it, each once; newly appended labels start on their own.",
  ["histories"], "all sequences of relabel/append/re-initialise operations",
  "No existing test uses the table; the circular lists break only under particular merge orders.",
  [G+"labellut.hxx"], [("LabelLUT::relabel/appendOne/initIdentity/mergedBegin", G+"labellut.hxx")])
p("P17", "Face colour statistics stay equal to recomputation from the pixels",
  "At every point of any history of face merges and bridge removals, each face's sample count, mean and variance equal those computed from scratch over the pixels owned by the face (and those of edges removed inside it), as do the differences reported between faces; detaching or destroying the statistics leaves the map usable, and copies are independent. (Faces with too few pixels are super-sampled; for them the values are those of the samples.)",
  ["histories", "inputs"], "all merge histories on all small maps and images",
  NOTEST + "incremental statistics drift only for particular merge orders and super-sampled faces.",
  [G+"facestatistics.hxx"], [("FaceColorStatistics hooks", G+"facestatistics.hxx")])
p("P18", "Relabelling faces is a pure renaming",
  "Renaming the faces of a map by any one-to-one assignment of labels changes labels only: every region, incidence, attribute, label-image entry and later operation is the same up to the renaming. Assignments that are incomplete, out of range or not one-to-one are rejected.",
  ["inputs", "histories"], "all injective and all invalid assignments, before and after merges",
  NOTEST + "the label image, table, faces and darts must be renamed consistently for every permutation.",
  [G+"cppmap.cxx"], [("changeFaceLabels", G+"cppmap.cxx")])
C = "src/cellimage/"
p("P19", "A cell image partitions every boundary image into nodes, edges and faces",
  "For every binary boundary image accepted, each pixel belongs to exactly one cell, faces are the connected components of background, nodes and edges partition the boundary pixels into connected components by their local configuration, and every dart orbit, cell extent, pixel count and node degree agrees with the pixels; images with over-wide boundaries or with nodes that enclose an edge are rejected with an error. Traversing from any dart around node, edge and face returns to the dart, and the Euler relation holds.",
  ["inputs"], "all binary images up to size bounds",
  "The stable Python tests check 7 images; the configuration table has 256 entries and orbits depend on the whole image.",
  [C+"foureightsegmentation.cxx", C+"foureightsegmentation.hxx", C+"cellconfigurations.hxx"], [("initCellImage/labelCells", C+"foureightsegmentation.cxx"), ("cellConfigurations", C+"cellconfigurations.hxx"), ("DartTraverser", C+"foureightsegmentation.hxx")])
p("P20", "Cell-image Euler operations keep pixels, cells and orbits consistent",
  "After every sequence of node removals, face merges, bridge removals and edge merges on a cell image, each pixel belongs to the cell that the operations imply (of two merged cells the one with the larger extent survives, face 0 always), cell extents, pixel counts and degrees match the pixels, removed cells are gone, the counts satisfy the Euler relation and all dart orbits are closed and consistent. Invalid operations are rejected, and a copy is equal and independent.",
  ["histories", "inputs"], "all operation sequences on all small boundary images",
  "No stable test performs Euler operations on cell images in C++.",
  [C+"foureightsegmentation.cxx", C+"foureightsegmentation.hxx"], [("removeIsolatedNode/mergeFaces/removeBridge/mergeEdges/deepCopy", C+"foureightsegmentation.cxx")])
p("P21", "Every pyramid level is reproducible from its history",
  "For every history of operations and composites recorded in a cell pyramid, going to any level - forwards, backwards, via checkpoints or in steps - yields exactly the segmentation and statistics obtained by performing that prefix of the history on the base level. Cutting the pyramid keeps exactly the lower levels, and a failing operation leaves history, checkpoints, statistics and top level as they were.",
  ["histories"], "all histories, all navigation sequences, all cut points",
  "No existing test uses the pyramid beyond construction.",
  [C+"cellpyramid.hxx"], [("CellPyramid::gotoLevel/approachLevel/cutAbove/Operation/Composite", C+"cellpyramid.hxx")])
p("P22", "Digital straight lines accept exactly the points of a straight segment",
  "Adding consecutive points at either end of a digital straight line succeeds exactly as long as some Euclidean line digitizes to all accepted points, and the line's parameters then contain every accepted point within its declared width with leaning points on its borders; a refused point leaves the line unchanged, and points outside the first octant are rejected with an error. The maximal straight stretch found around any position of a chain code is straight and symmetric.",
  ["inputs", "histories"], "all point/chain-code sequences up to a length",
  "No existing test covers it; the incremental recognition has eight octants and many remainders.",
  [G+"vigra/dsl.hxx"], [("DigitalStraightLine::addPoint", G+"vigra/dsl.hxx")])
p("P23", "Traversals visit every live element exactly once, even during changes",
  "Iterating nodes, edges and faces visits exactly the existing cells once in label order, also while the visited cell is being removed; walking a dart or contour yields the points of its polylines in order, each shared point once, in either direction; walking by arc length reaches exactly the position at that length on the dart.",
  ["histories", "inputs"], "all patterns of removed cells, all removals during iteration, all darts and arc lengths",
  NOTEST + "patterns of gaps and removals during iteration are unbounded.",
  [G+"filteriterator.hxx", G+"cppmap.hxx"], [("FilterIterator/SafeFilterIterator", G+"filteriterator.hxx"), ("DartPointIter/ContourPointIter/DartPosition", G+"cppmap.hxx")])
PB = "src/python_bindings/"; M = "python/maputils/"
p("P24", "Saving and restoring a map or value gives back an equal object",
  "Pickling (any protocol), copying or deep-copying a map at any point of its history - before sorting, sorted, initialized, with or without label image, after any operations, even without edges - and restoring it yields a map with the same cells, labels, geometry, dart order, flags, faces, label image and Python attributes; saving leaves the original unchanged, and every further operation has the same effect on both (labels of new cells aside). Edge protection saved together with a map protects the restored map. Polygons, boxes, rectangles, sizes, digital lines and edge statistics are restored to equal values.",
  ["histories", "inputs"], "all maps in all phases, all operation histories before saving, all next operations after restoring",
  "No stable test pickles anything; labels with gaps, face labels after merges and maps without edges need particular histories.",
  [PB+"cppmapmodule.cxx", PB+"polygon.cxx", PB+"pythondiff2d.cxx", PB+"statistics.cxx", PB+"cppmapmodule_utils.cxx", PB+"dsl.cxx"],
  [("GeoMapPickleSuite", PB+"cppmapmodule.cxx"), ("setSigmaMapping/changeFaceLabels", G+"cppmap.cxx"), ("pickle suites", PB+"polygon.cxx, pythondiff2d.cxx, statistics.cxx, dsl.cxx")],
  ["pickle.loads(pickle.dumps(geomap.GeoMap))", "copy.copy", "copy.deepcopy"])
p("P25", "Region merging and labelling algorithms deliver what they promise",
  "For every map and every cost or label assignment: minimumSpanningTree() keeps exactly a minimum spanning forest of the region adjacency graph; regionalMinima() labels exactly the faces adjacent to an edge that is minimal among its neighbours; seededRegionGrowingStatic() leaves seeds as they are and labels every other face like a seed that reaches it at minimal highest cost; waterfall() and applyFaceClassification() merge exactly the adjacent faces of equal label; the region mergers always perform the cheapest possible merge next, respect protected edges, stop at the given cost or step and go on until nothing is left to merge; seeded region growing assigns every reachable face to exactly one seed, cheapest candidate first and to its cheapest seed; removeSmallRegions() removes every small region that may be merged and no other; removeCruft() and the neighbourhood functions (contourDarts, neighborFaces, findCommonDart, holeComponent, pointInFace, mergeFacesByLabel) agree with the map. All leave a consistent map.",
  ["inputs", "configurations"], "all small maps, all cost/label/seed/protection assignments from small sets of values",
  "No stable test calls these algorithms; errors depend on ties, missing costs, holes, label 0 and obsolete queue entries.",
  [M+"maputils.py", PB+"cppmapmodule_utils.cxx", G+"cppmap_utils.cxx", G+"labellut.hxx"],
  [("minimumSpanningTree/regionalMinima/seededRegionGrowingStatic/waterfall", M+"maputils.py"), ("AutomaticRegionMerger/SeededRegionGrowing/thresholdMergeCost", M+"maputils.py"), ("removeSmallRegions/removeCruft/applyFaceClassification", M+"maputils.py")])
p("P26", "A recorded history replays to the same map",
  "A live history attached to a map records every edge merge, bridge removal and face merge that is really performed (vetoed ones are not recorded), whether called directly or by the bulk operations, in order; replaying it on a copy of the initial map - as operations or as commands - performs all of them and gives an identical map up to isolated nodes, a detached history records nothing, and the contraction kernel names for every original face the face it is now part of.",
  ["histories"], "all sequences of two elementary or bulk operations on all small maps, with and without protected edges",
  "The stable tests do not replay histories; composite operations and vetoes are order-sensitive.",
  [M+"maputils.py", PB+"cppmapmodule.cxx"], [("History/LiveHistory", M+"maputils.py"), ("extractContractionKernel", M+"maputils.py"), ("faceLabelLUT", G+"labellut.hxx")])
p("P27", "Copying map contents preserves structure under any transformation",
  "copyMapContents() adds to a new or existing map exactly the nodes and the selected edges of any map or graph, with (transformed) geometry, flags, end nodes and - for sorted maps - the same order of the remaining darts around every node, including self-loops; the returned tables map every node and edge to its image, labels of a new map are consecutive, and source and previous contents stay unchanged. copyMap() additionally yields the same faces with their flags, areas and pixel counts. dualMap() has one node per face and one equally labelled edge per selected edge, connecting its left and right face.",
  ["histories", "inputs"], "all small maps and graphs, all sets of omitted edges, all operation histories before copying",
  "No stable test copies map contents; the dart order depends on labels, loops and omitted neighbours.",
  [M+"maputils.py"], [("copyMapContents/copyMap/dualMap", M+"maputils.py"), ("addEdge with darts as anchors", G+"cppmap.cxx"), ("sigmaMapping/setSigmaMapping", PB+"cppmapmodule.cxx")])
p("P28", "Edge and basin attributes follow every merge and split",
  "Attributes attached to a map stay with the cells they describe through every history: merged-edge lists name exactly the original edges an edge consists of, static costs of merged edges are the length-weighted mean (or merging is refused without a way to combine costs), marked points (watershed saddles) stay at their positions on the edge or on its parts - in either direction - and pass values are the minimum over them, basin depths are the minimum over the merged faces, edges added later and border edges are respected. Statistics of values along edges have the mean, extrema and quantiles of all their segments, merged in any order.",
  ["histories", "inputs"], "all histories of two or three operations on all small maps, all sequences of segments",
  "The stable tests attach statistics to one map; index shifts depend on the direction of both merged edges and on the split position.",
  [M+"statistics.py", PB+"statistics.cxx"], [("MergedEdges/StaticEdgeCosts/DynamicEdgeIndices/WatershedStatistics/WatershedBasinStatistics", M+"statistics.py"), ("PolylineStatistics/QuantileStatistics", PB+"statistics.cxx")])
p("P29", "Sequences, iterators and callbacks behave in Python as Python's own do",
  "Polygons and point arrays behave like Python lists of points under every sequence of indexing (also negative), slicing, assignment, insertion, deletion, appending, extending (also by themselves), splitting, swapping and copying; indices out of range raise IndexError and change nothing, and length, arc lengths, bounding box and closedness always fit the points. Rectangles and mesh iterators contain and visit exactly their pixels, row by row, none if empty. Cell iterators, orbits and contour lists visit exactly the live elements in order, independently of each other. Every callback is called exactly once before and after the operation it belongs to, with the cells involved; returning false vetoes the operation and an exception is passed on to the caller, both leaving the map unchanged; a disconnected or forgotten callback is not called.",
  ["inputs", "histories", "configurations"], "all short operation sequences on small sequences, all rectangles, all maps, every operation x every callback behaviour",
  "The stable tests use a few valid calls; off-by-one and cache errors depend on negative indices, empty containers and the order of calls, and exceptions in callbacks are not tested.",
  [PB+"polygon.cxx", PB+"pythondiff2d.cxx", PB+"cppmapmodule.cxx", G+"vigra/polygon.hxx"],
  [("Array__getitem__/__getitem_slice__/insert/erase/split", PB+"polygon.cxx"), ("MeshGridIterator/Rect2D", PB+"pythondiff2d.cxx"), ("SimpleCallback/addMergeFacesCallbacks/...", PB+"cppmapmodule.cxx"), ("STLIterWrapper/RangeIterAdapter/iterators", PB+"cppmapmodule.cxx")],
  ["geomap.Polygon", "geomap.Vector2Array", "geomap.meshIter", "geomap.GeoMap.add*Callbacks"])
p("P30", "References to removed cells never reach into the map",
  "A Python reference to a node, edge or face stays valid through every history: while the cell exists it is the map's own cell with its current attributes; once the cell has been removed (by an operation or by being merged into another cell) or its map destroyed, the reference reports not being initialized, every method that would need the map raises an exception, no method crashes or changes the map, and darts of removed edges have no edge and raise when asked for incident cells.",
  ["histories"], "all histories with references held to every cell and dart that ever existed, every method of each, then again after destroying the map",
  "No stable test uses a cell after its removal; which references dangle depends on the survivor of each merge.",
  [G+"cppmap.hxx", G+"cppmap.cxx", PB+"cppmapmodule.cxx"],
  [("initialized()/uninitialize() and preconditions of Node/Edge/Face", G+"cppmap.hxx"), ("crack/holder types, CELL_PTR", PB+"cppmapmodule.cxx"), ("GeoMap::~GeoMap", G+"cppmap.cxx")],
  ["geomap.GeoMap.node/edge/face/dart and all their methods"])
p("P31", "Statistics and protection of cell-image cells follow every merge",
  "Without rethinning, after every sequence of Euler operations on a cell image the attached statistics are exact: a face's count, sum and square sum are those of its initial pixels and of all faces and edges merged into it, an edge's mean is that of its own pixels and of the edges and nodes merged into it (the maximal value for edges at the outer face), the chain of merged edges names exactly the original edges it consists of, setting or clearing a protection flag reaches all of them and reports whether anything changed, an edge counts as protected if any part is, automatic protection follows the fraction of edgels, and the region of last changes contains every changed pixel. Copies are equal and independent.",
  ["histories", "inputs"], "all operation sequences on all small boundary images, all protection settings",
  "No stable test uses the cell statistics; chains of merged edges and the survivor of a merge depend on the history.",
  [C+"cellstatistics.hxx", C+"cellstatistics.cxx", C+"statisticfunctor.hxx"], [("CellStatistics::pre/postMergeFaces/MergeEdges/RemoveBridge", C+"cellstatistics.hxx"), ("protectEdge/edgeProtected/initAutoProtection", C+"cellstatistics.hxx"), ("StatisticFunctor", C+"statisticfunctor.hxx")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
