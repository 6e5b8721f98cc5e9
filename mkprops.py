#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that wording lives in one place).
import json
B='include/boost/polygon/'; D=B+'detail/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A Manhattan polygon set always denotes the region its history describes",
 "After any sequence of inserts, boolean operators (object, geometry, container and lazily evaluated operands, plain and assigning), self operations, resizes, transforms, filters, interaction, copies, assignments, clears and queries, every Manhattan polygon set denotes exactly the set of points obtained by applying the same sequence to plain point sets, whatever the scanline orientation of the objects involved. Every way of reading it (rectangles in either orientation, polygons with or without holes, area, extents, emptiness, equality, equivalence) reports that region exactly once, in well-formed non-overlapping pieces. A query never changes the region, and asking again or in another order gives the same answer.",
 ["histories","schedules","inputs","configurations"],
 "all histories of operations on any number of polygon_90_set_data objects of either orientation, interleaved between clients that own them, over all coordinates and heap states",
 "The unit tests run a few short fixed sequences on one or two objects, almost always horizontal and never interleaving queries with mutation; the lazily cleaned state (dirty/unsorted/orientation) makes the result depend on the history, and the number of histories is unbounded.",
 [B+"polygon_90_set_data.hpp",B+"polygon_90_set_concept.hpp",B+"polygon_90_set_traits.hpp",D+"polygon_90_set_view.hpp",D+"boolean_op.hpp",D+"polygon_formation.hpp",D+"rectangle_formation.hpp",D+"max_cover.hpp",D+"iterator_geometry_to_set.hpp",D+"polygon_90_touch.hpp"],
 [("lazy clean()/sort() before every query",B+"polygon_90_set_data.hpp"),("scanline boolean",D+"boolean_op.hpp"),("orientation reconciliation between operands",B+"polygon_90_set_concept.hpp"),("lazy operator view",D+"polygon_90_set_view.hpp")],
 [("orient_, data_, dirty_, unsorted_","scan orientation, vertex edges and whether they are merged / sorted",B+"polygon_90_set_data.hpp"),("output_, evaluated_","lazily computed operator result",D+"polygon_90_set_view.hpp")],
 ["get","get_polygons","get_rectangles","get_max_rectangles","area","extents","empty","equivalence","operator=="])
p("C02","A 45-degree polygon set always denotes the region its history describes",
 "After any sequence of inserts, boolean operators (including lazy expressions and mixed Manhattan and 45-degree operands), resizes, transforms, interaction, self operations, copies, clears and queries, every 45-degree polygon set denotes the set of points obtained by applying the same sequence to plain point sets: exactly when all edges meet at integer points, and otherwise everywhere except within a few units of an edge. Reading it as polygons, polygons with holes or trapezoids, and its area, extents, emptiness, equality and equivalence, agree with that region. The Manhattan fast path is an optimisation only: no history can make it give another answer than the general path.",
 ["histories","schedules","inputs","configurations"],
 "all histories on any number of polygon_45_set_data objects interleaved between the clients that own them, mixing Manhattan and 45-degree content",
 "The tests use fixed examples; whether an object takes the Manhattan fast path depends on a cached flag that every mutation must maintain, and only long mixed histories bring flag and content out of step.",
 [B+"polygon_45_set_data.hpp",B+"polygon_45_set_concept.hpp",B+"polygon_45_set_traits.hpp",D+"polygon_45_set_view.hpp",D+"boolean_op_45.hpp",D+"polygon_45_formation.hpp",D+"polygon_45_touch.hpp"],
 [("lazy clean()/sort()",B+"polygon_45_set_data.hpp"),("is_manhattan_ fast path",B+"polygon_45_set_data.hpp"),("lazy operator view",D+"polygon_45_set_view.hpp"),("45-degree scanline",D+"boolean_op_45.hpp")],
 [("data_, error_data_, dirty_, unsorted_, is_manhattan_","edges, recorded non-integer intersections, lazy flags, fast path flag",B+"polygon_45_set_data.hpp")],
 ["get","get_polygons","get_polygons_with_holes","get_trapezoids","area","extents","empty","equivalence"])
p("C03","An arbitrary-angle polygon set always denotes the region its history describes",
 "After any sequence of inserts, boolean operators (including lazy expressions and Manhattan or 45-degree operands), transforms, filters, interaction, copies, clears and queries, an arbitrary-angle polygon set denotes the set of points obtained by applying the same sequence to plain point sets: for coordinates in the range where the default arithmetic is exact, the answer is right at every point when all edges meet at integer points, and otherwise everywhere except within a few units of an edge. Reading it as polygons, polygons with holes or trapezoids, and its area, extents, emptiness and equivalence, agree with that region. Queries and lazily evaluated expressions never change an operand.",
 ["histories","schedules","inputs","configurations"],
 "all histories on any number of polygon_set_data objects interleaved between the clients that own them, over integer coordinates in the supported range",
 "The tests sample fixed random seeds of single boolean calls; the lazy flags, the 45-degree downcast and the rounding of intersections interact with every preceding operation.",
 [B+"polygon_set_data.hpp",B+"polygon_set_concept.hpp",B+"polygon_set_traits.hpp",D+"polygon_set_view.hpp",D+"scan_arbitrary.hpp",D+"polygon_arbitrary_formation.hpp",D+"polygon_sort_adaptor.hpp"],
 [("lazy clean()/sort()",B+"polygon_set_data.hpp"),("is_45_ downcast",B+"polygon_set_data.hpp"),("line intersection and snap rounding",D+"scan_arbitrary.hpp"),("lazy operator view",D+"polygon_set_view.hpp")],
 [("data_, dirty_, unsorted_, is_45_","edges and lazy flags",B+"polygon_set_data.hpp")],
 ["get","get_trapezoids","area","extents","empty","operator==","equivalence"])
p("C04","A query or expression that fails part way changes nothing and can be retried",
 "When a query on a polygon set, or the evaluation of a boolean expression over polygon sets, is cut short because memory runs out or because the caller's output container refuses an element, the failure is reported to the caller, no operand's region changes, and no memory is leaked or corrupted. Repeating the same query, or re-reading the same lazily evaluated expression, once the fault has gone gives the complete correct answer.",
 ["fault_sequences","histories","schedules"],
 "every allocation and every output-container insertion inside every query and expression on Manhattan, 45-degree and arbitrary-angle sets, in every object state, with other clients interleaved",
 "No existing test injects a failure at all; the queries are const but normalise and cache internally, so a fault in the middle meets half-updated hidden state.",
 [D+"boolean_op.hpp",D+"boolean_op_45.hpp",D+"polygon_90_set_view.hpp",D+"polygon_45_set_view.hpp",D+"polygon_set_view.hpp",B+"polygon_90_set_data.hpp",B+"polygon_45_set_data.hpp",B+"polygon_set_data.hpp",D+"polygon_formation.hpp",D+"scan_arbitrary.hpp"],
 [("lazy clean on const objects",B+"polygon_90_set_data.hpp"),("evaluated_ flag of views",D+"polygon_set_view.hpp"),("merge into temporaries, then swap",D+"boolean_op.hpp")],
 [("data_, dirty_, unsorted_ (mutable)","normalised lazily inside const queries",B+"polygon_set_data.hpp"),("evaluated_, output_","memoised expression value",D+"polygon_set_view.hpp")],
 ["any query after a failed query","value of a view after a failed evaluation"])
p("C05","A mutation that fails part way harms nothing but its target, which stays usable",
 "When an insert, assignment, compound operator, resize, transform or other mutation of a polygon set is cut short because memory runs out or because the caller's input range fails, the failure is reported to the caller, nothing is leaked or corrupted, and every other object, including the other operands, keeps exactly its region. The target can still be copied, destroyed, cleared or assigned, and after clearing or assigning it behaves exactly like a fresh object.",
 ["fault_sequences","histories","schedules"],
 "every allocation and every read of the caller's input range inside every mutator of the three polygon set families, in every object state, with other clients interleaved",
 "No existing test injects a failure; recovery depends on the flags and buffers left behind at each of many possible failure points.",
 [B+"polygon_90_set_data.hpp",B+"polygon_45_set_data.hpp",B+"polygon_set_data.hpp",B+"polygon_90_set_concept.hpp",B+"polygon_45_set_concept.hpp",B+"polygon_set_concept.hpp",D+"boolean_op.hpp",D+"boolean_op_45.hpp",D+"scan_arbitrary.hpp"],
 [("value semantics, containers own all memory",B+"polygon_90_set_data.hpp"),("clear()/assignment reset every flag",B+"polygon_45_set_data.hpp")],
 None,["queries on the target and on all other objects after the failure"])
p("C06","Property merge partitions the plane by label set, whatever the insertion history",
 "For any set of labelled regions (Manhattan, 45-degree or arbitrary-angle), property merge yields, for every set of labels, the region covered by precisely those labels: the pieces are disjoint and together cover the union. When edges meet only at integer points the regions are exact and none is empty, and otherwise they are right everywhere except within a few units of an edge. The order and grouping of the insertions, interleaved use of other merges, and the state of the heap do not affect the result. A merge cut short by memory exhaustion reports it, leaks nothing, and merging again, with the same object, a copy or a fresh one, is complete and correct.",
 ["histories","schedules","inputs","fault_sequences"],
 "all insertion histories of labelled geometry into property_merge_90, property_merge_45 and property_merge, all interleavings of several merges, and all allocation failure points",
 "The tests merge two or three fixed rectangles or triangles in one order.",
 [D+"property_merge.hpp",D+"property_merge_45.hpp",D+"scan_arbitrary.hpp",B+"polygon_90_set_concept.hpp",B+"polygon_45_set_concept.hpp",B+"polygon_set_concept.hpp",B+"polygon_90_set_data.hpp",B+"polygon_45_set_data.hpp",B+"polygon_set_data.hpp"],
 [("property scanline over sorted vertex/property pairs",D+"property_merge.hpp")],
 [("pmd_","accumulated labelled edges",B+"polygon_90_set_concept.hpp")],
 ["merge result map"])
p("C07","Connectivity extraction reports exactly the touching pairs, whatever the history",
 "Connectivity extraction numbers the inserted regions consecutively from zero and produces a symmetric graph with an edge between two regions exactly when they share at least one point (for Manhattan and 45-degree regions and for arbitrary-angle regions), never linking a region to itself. Insertion order only renames nodes, edges already in the graph are kept, and extracting twice adds nothing. An extraction cut short by memory exhaustion reports it, leaks nothing, and extracting again, with the same object, a copy or a fresh one, is correct.",
 ["histories","schedules","inputs","fault_sequences"],
 "all insertion histories of regions into connectivity_extraction_90, _45 and connectivity_extraction, all interleavings of several extractions, and all allocation failure points",
 "The tests extract a handful of fixed layouts.",
 [D+"polygon_90_touch.hpp",D+"polygon_45_touch.hpp",D+"scan_arbitrary.hpp",D+"property_merge.hpp",B+"polygon_90_set_concept.hpp",B+"polygon_45_set_concept.hpp",B+"polygon_set_concept.hpp"],
 [("touch scanline",D+"polygon_90_touch.hpp")],
 [("nodeCount_, tou_/od_ accumulators","ids handed out and accumulated edges",B+"polygon_90_set_concept.hpp")],
 ["extracted graph"])
p("C08","A Voronoi builder gives the correct diagram on every use of its life",
 "For any history of point and segment insertions, constructions and clears on a Voronoi builder (segments sharing at most end points), each construction yields a structurally consistent diagram: twin, next, previous, incident-edge and cell links are mutually inverse, every inserted site owns its cell with the right source index and category, and edge and vertex counts match a planar subdivision. Every vertex is equidistant from its adjacent sites and no site is strictly nearer, to within the documented relative precision (except where two sweep events are too close to be told apart), and point-site diagrams are then combinatorially the Delaunay dual of the input. The result depends only on the sites inserted since the last clear, not on earlier use of the builder or diagram, the order of insertion (up to cell numbering), or the state of the heap.",
 ["histories","schedules","inputs"],
 "all histories of insert/construct/clear on voronoi_builder and construct/clear/copy/colouring on voronoi_diagram, with several builders interleaved, over all 32-bit integer site sets",
 "The tests use fresh builders on fixed or fixed-seed inputs; reuse after construct, partial fills and interleavings are not exercised.",
 [B+"voronoi_builder.hpp",B+"voronoi_diagram.hpp",B+"voronoi.hpp",D+"voronoi_structures.hpp",D+"voronoi_predicates.hpp",D+"voronoi_robust_fpt.hpp",D+"voronoi_ctypes.hpp"],
 [("sweepline with beach line map and circle event queue",B+"voronoi_builder.hpp"),("lazy exact predicates",D+"voronoi_predicates.hpp"),("DCEL assembly _insert_new_edge/_build",B+"voronoi_diagram.hpp")],
 [("site_events_, end_points_, beach_line_, circle_events_, index_","builder state that survives a construction",B+"voronoi_builder.hpp")],
 ["voronoi_diagram cells/edges/vertices"])
p("C09","A failed Voronoi construction leaves the builder recoverable and leaks nothing",
 "When inserting sites into a Voronoi builder or constructing a diagram is cut short by memory exhaustion or by the caller's input range, the failure is reported, nothing is leaked or corrupted, and other builders and diagrams are unaffected. After clearing the diagram and constructing again, or clearing both, inserting sites again and constructing, the result is the same correct diagram that fresh objects give.",
 ["fault_sequences","histories","schedules"],
 "every allocation inside insert/construct/clear of voronoi_builder and voronoi_diagram and every read of the caller's site range, with several builders interleaved",
 "No test injects a failure; a construction that dies midway leaves queue, beach line and end points populated.",
 [B+"voronoi_builder.hpp",B+"voronoi_diagram.hpp",B+"voronoi.hpp",D+"voronoi_structures.hpp"],
 [("clear()/init of all sweepline state",B+"voronoi_builder.hpp")],
 [("beach_line_, circle_events_, end_points_","left populated by an interrupted construction",B+"voronoi_builder.hpp")],
 ["diagram constructed after a failed one"])
p("C10","Results depend only on a client's own calls, not on heap, stack or other clients",
 "The exact output (vertex sequences, rectangle lists, merge maps, graphs, diagrams) a caller obtains from a sequence of library calls is a function of those calls alone. Interleaving other clients at any point inside any call, other heap addresses, recycled or uninitialised memory contents, or a previous failure elsewhere never change a single coordinate of it.",
 ["schedules","configurations","histories"],
 "all interleavings, at library-step granularity, of clients that share no mutable object; all heap placements and initial memory contents",
 "A test runs alone, in one heap layout; hidden shared state or dependence on addresses or indeterminate bytes shows only when the same calls run in another environment.",
 [D+"polygon_formation.hpp",D+"max_cover.hpp",D+"boolean_op_45.hpp",D+"polygon_45_formation.hpp",D+"scan_arbitrary.hpp",D+"polygon_arbitrary_formation.hpp",D+"property_merge.hpp",B+"voronoi_builder.hpp",D+"voronoi_structures.hpp",B+"polygon_90_set_data.hpp"],
 [("no global mutable state; comparators on coordinates, not addresses",D+"polygon_formation.hpp")],
 None,["raw output of every query"])
p("C11","A normalised polygon set can be read by many clients at once",
 "Once a polygon set has been brought to its normal form (sorted and merged), any number of clients may run queries, copies and boolean expressions on that same object with their calls interleaved at any point. Each gets the answer it would get alone, and the object is left byte for byte as it was.",
 ["schedules","histories"],
 "all interleavings, at library-step granularity, of read-only operations of several clients on shared normalised polygon_90_set_data, polygon_45_set_data and polygon_set_data objects, including after allocation failures in some of the readers",
 "Const queries write to mutable members when the object is not normal; no test runs two readers, let alone interleaves them.",
 [B+"polygon_90_set_data.hpp",B+"polygon_45_set_data.hpp",B+"polygon_set_data.hpp",B+"polygon_90_set_traits.hpp",B+"polygon_45_set_traits.hpp",B+"polygon_set_traits.hpp",D+"polygon_90_set_view.hpp",D+"polygon_45_set_view.hpp",D+"polygon_set_view.hpp"],
 [("clean()/sort() return at once on a normal object",B+"polygon_90_set_data.hpp")],
 [("data_, dirty_, unsorted_ (mutable)","must not be written on a normal object",B+"polygon_90_set_data.hpp")],
 ["results of all readers; object bytes before and after"])
# ---- properties this technique cannot address (pure functions of their input)
def n(id,title,statement,files,mech):
    p(id,title,statement,["inputs"],"all argument values in the supported coordinate range","A test samples a few values of an unbounded input space.",files,mech,None,None)
n("C12","Extended-range integers and robust floats respect their stated arithmetic",
 "Multi-precision integer arithmetic is exact and its conversions monotone, and the tracked relative error of robust floating-point values bounds their true error.",
 [D+"voronoi_ctypes.hpp",D+"voronoi_robust_fpt.hpp"],[("extended_int, extended_exponent_fpt, robust_fpt",D+"voronoi_ctypes.hpp")])
n("C13","Voronoi geometric predicates agree with exact arithmetic",
 "Site comparison, distance and circle-formation predicates return the exact mathematical answer, or a value within the stated error, for every 32-bit integer input.",
 [D+"voronoi_predicates.hpp"],[("lazy evaluation with exact fall-back",D+"voronoi_predicates.hpp")])
n("C14","Point, interval, rectangle, segment and transform algebra is consistent",
 "Construction, containment, intersection, join, distance and transformation of points, intervals, rectangles and segments satisfy their set-theoretic and group laws for every representable value.",
 [B+"point_concept.hpp",B+"interval_concept.hpp",B+"rectangle_concept.hpp",B+"segment_concept.hpp",B+"transform.hpp",B+"isotropy.hpp"],[("concept functions over user types",B+"rectangle_concept.hpp")])
n("C15","Polygon measures agree with the polygon's region",
 "Area, perimeter, winding, extents, center and point containment of polygons with and without holes equal the values defined by the region the vertices enclose, for every polygon type including user-defined ones.",
 [B+"polygon_traits.hpp",B+"polygon_data.hpp",B+"polygon_90_data.hpp",B+"polygon_45_data.hpp"],[("generic polygon traits",B+"polygon_traits.hpp")])
p("C16","Segment splitting yields exactly the crossing-free pieces, every time",
 "Splitting a range of segments at their crossings appends to the result the pieces of every segment, in each case a path from one of its ends to the other (within a couple of units of it where a crossing has to be rounded), such that no two pieces meet anywhere but at end points, each piece carrying the index of the segment it came from; where all crossings are integer points the pieces are exactly those between consecutive points shared with other segments, and splitting them again changes nothing. Segments may touch, overlap, repeat, be reversed or have no length. The envelope is the smallest rectangle around all segments. Results gathered earlier, and the input, are never changed; when memory runs out, or the caller's iterator or container throws, the call reports it, leaks nothing, and repeating it gives the full answer.",
 ["histories","schedules","inputs","fault_sequences"],
 "all lists of integer segments in the range where the default arithmetic is exact, all sequences of calls on accumulating results interleaved between clients, and all failure points of allocator, input iterators and output container",
 "The tests split three or four fixed lists of a few segments; rounding, overlaps and the division of the scan into horizontal bands (which starts at larger inputs) make the answer depend on every segment of the list.",
 [B+"segment_utils.hpp",D+"scan_arbitrary.hpp"],
 [("line intersection scan in bands",D+"scan_arbitrary.hpp"),("appending overloads",B+"segment_utils.hpp")],
 [("result container","pieces gathered by earlier calls, kept as a prefix",B+"segment_utils.hpp")],
 ["result container","envelope rectangle"])
p("C17","Resized and Minkowski-summed sets are the region geometry defines",
 "Resizing an arbitrary-angle polygon set with rounded corners by a positive amount gives the points within that distance of the region, and by a negative amount the points that far inside it, up to the flattening of the circle into the requested number of segments and a few units of rounding. Resizing with mitred corners moves every edge of the set's polygons by the amount, joins them by mitres, and gives the union. The Minkowski sum of two sets is the set of all sums of a point of one and a point of the other. The free functions and the operators with a number agree with the member function. The answer does not depend on how the set was built, read, copied or resized before; operands and copies are not changed, the result is a well-formed set, and an operation cut short by memory exhaustion reports it and can be repeated with the right answer.",
 ["histories","schedules","inputs","fault_sequences"],
 "all histories of arbitrary-angle sets in the supported coordinate range, resized by any amount and segment count, interleaved between clients, and all allocation failure points",
 "The tests check one or two fixed shapes; resizing rebuilds the set from its lazily formed polygons, so history, holes, contact between pieces, collapsing edges and failure in the middle all matter.",
 [B+"polygon_set_data.hpp",B+"polygon_set_concept.hpp",D+"minkowski.hpp",D+"scan_arbitrary.hpp",D+"polygon_arbitrary_formation.hpp"],
 [("convolution of edges",D+"minkowski.hpp"),("mitred offset of each polygon",B+"polygon_set_data.hpp"),("resizing operators",B+"polygon_set_concept.hpp")],
 [("data_, dirty_, unsorted_","edges and lazy flags of operand and result",B+"polygon_set_data.hpp")],
 ["get","area","operands read again"])
with open('properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
