#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

DOM = "scenes of 1 to a few thousand finite primitives of ordinary scale (coordinates up to about a hundred units, boxes padded by the library itself)"

p("C01", "Single-ray BVH traversal never loses a hit",
  "For every scene, whichever of the three builders made the tree and whatever leaf size was asked for, traversing the BVH with a ray offers every primitive that the ray really hits between the ray's minimum and current distance. Consequently the nearest hit found through the tree, with the caller shortening the ray as hits are found, is the nearest hit of an exhaustive test of all primitives. The direction may point into any octant, have zero components of either sign, and need not be normalised.",
  ["inputs", "configurations"], "all " + DOM + ", all rays (origin, direction, minimum and maximum distance), all three builders, with or without supplied boxes, any leaf size",
  "The unit tests only build one teapot and check root bounds and that every index is referenced; no test compares any traversal with an exhaustive search, and a lost hit depends on the combination of scene, split decisions and ray.",
  ["src/iter.rs", "src/iter_indices.rs", "src/bvh_node.rs", "src/aabb.rs", "src/builders/binned_sah.rs", "src/builders/spatial_sah.rs", "src/builders/locb.rs"],
  [("BVH iterators and their node stack", "src/iter.rs, src/iter_indices.rs"), ("child ordering", "src/bvh_node.rs sort_nodes"), ("slab test", "src/aabb.rs intersect"), ("child boxes chosen by each builder", "src/builders/*.rs")],
  [("nodes / prim_indices", "the tree and its leaf index list", "src/bvh.rs Bvh")], ["ids yielded by iteration", "final ray distance"])

p("C02", "Single-ray MBVH traversal never loses a hit",
  "For every scene and builder, traversing the four-wide MBVH derived from the tree with a single ray offers every primitive that the ray really hits between its minimum and current distance. The nearest hit found, with the caller shortening the ray as hits are found, is the nearest hit of an exhaustive test of all primitives.",
  ["inputs", "configurations"], "all " + DOM + ", all rays, all three builders, any leaf size, trees of any depth",
  "No test traverses an MBVH in the library; the FFI test traverses one made of two triangles with one ray.",
  ["src/mbvh_node.rs", "src/bvh.rs", "src/iter.rs", "src/iter_indices.rs"],
  [("four-wide slab test and slot ordering", "src/mbvh_node.rs intersect"), ("collapse of two BVH levels into one quad node", "src/mbvh_node.rs merge_nodes"), ("MBVH iterators", "src/iter.rs, src/iter_indices.rs")],
  [("quad nodes", "children, counts and boxes of four slots", "src/mbvh_node.rs MbvhNode")], ["ids yielded by iteration", "final ray distance"])

p("C03", "BVH packet traversal never loses a hit for any ray of the packet",
  "For every scene and builder, traversing the BVH with a packet of four rays offers every primitive that at least one of the four rays really hits between zero and that ray's current distance, however different the four rays are and whatever their individual distance limits. Each lane's nearest hit is therefore the nearest hit that ray would have on its own.",
  ["inputs", "configurations"], "all " + DOM + ", all packets of four independent finite rays with their own limits (coherent, divergent, partly missing everything, partly already terminated), all three builders",
  "No test ever traverses with a packet.",
  ["src/aabb.rs", "src/bvh_node.rs", "src/iter.rs", "src/iter_indices.rs", "src/ray.rs"],
  [("four-lane slab test on one box", "src/aabb.rs intersect4"), ("child ordering for packets", "src/bvh_node.rs sort_nodes4"), ("packet iterators", "src/iter.rs, src/iter_indices.rs")],
  [("packet t", "per-lane current distance", "src/ray.rs RayPacket4")], ["ids yielded by iteration", "final per-lane distances"])

p("C04", "MBVH packet traversal never loses a hit for any ray of the packet",
  "For every scene and builder, traversing the four-wide MBVH with a packet of four rays offers every primitive that at least one of the four rays really hits between zero and that ray's current distance, however different the four rays are. Each lane's nearest hit is therefore the nearest hit that ray would have on its own.",
  ["inputs", "configurations"], "all " + DOM + ", all packets of four independent finite rays with their own limits, all three builders",
  "No test ever traverses with a packet.",
  ["src/mbvh_node.rs", "src/iter.rs", "src/iter_indices.rs", "src/ray.rs"],
  [("four rays against four boxes", "src/mbvh_node.rs intersect4"), ("packet iterators", "src/iter.rs, src/iter_indices.rs")],
  [("packet t", "per-lane current distance", "src/ray.rs RayPacket4")], ["ids yielded by iteration", "final per-lane distances"])

p("C05", "Every build yields a well-formed tree that references every primitive",
  "Every successful build yields a tree in which each node is reached exactly once from the root, every inner node has two children and every leaf designates a non-empty in-range run of the index list disjoint from every other leaf's. Every primitive is referenced by some leaf and no index names a primitive that does not exist; with binned SAH and clustering each primitive is referenced exactly once, and with spatial splits the total number of references never exceeds 1.75 times the number of primitives. The build never panics, and the library's own validation accepts the result.",
  ["inputs", "configurations"], "all scenes from one primitive to several thousand (coincident, degenerate, nested, flat, clustered, exponentially distributed), all three builders, all leaf sizes, supplied or computed boxes",
  "Tests validate one teapot per builder; degenerate or adversarial distributions, parallel builds over 1024 primitives and the fallback split paths are not reached.",
  ["src/builders/binned_sah.rs", "src/builders/spatial_sah.rs", "src/builders/locb.rs", "src/builders/mod.rs", "src/utils.rs"],
  [("node allocation", "src/builders/mod.rs AtomicNodeStack"), ("primitive partition", "src/utils.rs partition"), ("reference splitting", "src/builders/spatial_sah.rs apply_spatial_split, allocate_children"), ("bottom-up merging", "src/builders/locb.rs cluster"), ("task spawning", "src/utils.rs TaskSpawner")],
  [("nodes / prim_indices", "the tree and its leaf index list", "src/bvh.rs Bvh")], ["nodes()", "indices()", "validate()"])

p("C06", "Node boxes enclose all geometry below them and are not needlessly large",
  "In every built tree the box of each node contains all the geometry of the primitives referenced beneath it; with spatial splits, where a triangle may be shared by several leaves, every point of the triangle lies in some leaf that references it and in the boxes of all its ancestors. The tree's overall bounds contain the whole scene. No box extends beyond the boxes of the primitives beneath it by more than a small constant padding (about a thousandth of a unit).",
  ["inputs", "configurations"], "all " + DOM + ", all three builders, all leaf sizes, supplied or computed boxes (tight or conservatively larger)",
  "Tests check only that the root box of one teapot contains its vertices; inner boxes are never examined.",
  ["src/builders/binned_sah.rs", "src/builders/spatial_sah.rs", "src/builders/locb.rs", "src/bvh.rs", "src/aabb.rs"],
  [("bin boxes to child boxes", "src/builders/binned_sah.rs run"), ("sweep and split boxes", "src/builders/spatial_sah.rs find_object_split, apply_spatial_split"), ("union on merge", "src/builders/locb.rs cluster"), ("padding", "offset_by / with_offset"), ("scene bounds", "src/bvh.rs Bounds")],
  [("node bounds", "box of each node", "src/bvh_node.rs")], ["nodes()", "bounds()"])

p("C07", "SAH builders honour the requested maximum leaf size",
  "With either SAH builder no leaf holds more primitives than the requested maximum (one when none is requested), whatever the distribution of the primitives, including primitives that coincide or whose centres are indistinguishable; the only exception is a leaf at the builders' depth limit of 64 levels. The clustering builder makes one-primitive leaves, except that a scene of at most two primitives becomes a single leaf.",
  ["inputs", "configurations"], "all scenes and all leaf-size limits 1..n, all three builders",
  "One test builds five triangles with limits 1..10 and checks nothing about leaves.",
  ["src/builders/binned_sah.rs", "src/builders/spatial_sah.rs", "src/builders/locb.rs", "src/bvh.rs"],
  [("leaf decision and fallback split", "src/builders/binned_sah.rs run, src/builders/spatial_sah.rs run")],
  [("max_leaf_size", "limit given by the caller", "builders")], ["nodes()"])

p("C08", "Bad build input is refused, and omitted boxes mean the primitives' own",
  "Building from no primitives, or with a number of supplied boxes different from the number of primitives, is refused by all three builders with the matching error, whose value and message both carry the two actual counts (having no primitives takes precedence). Every other finite input whose boxes have representable areas builds successfully. Omitting the boxes gives the same tree as supplying, in order, the box each primitive reports.",
  ["inputs", "configurations"], "all pairs of primitive list and optional box list (empty, shorter, longer, equal), all three builders, scenes large enough to be processed in parallel",
  "One test tries three inputs on one builder; box computation runs in parallel so that its order is only wrong on larger scenes and some schedules.",
  ["src/bvh.rs"],
  [("input validation and box computation", "src/bvh.rs Builder::construct_*")],
  [("BuildError", "the two refusals", "src/bvh.rs")], ["Result of construct_*", "nodes()", "indices()"])

p("C09", "Builds are deterministic whatever the thread schedule",
  "Building the same scene with the same builder and settings always yields the same hierarchy: the same nesting of the same boxes around the same primitives. This holds regardless of the number of processors available and of how the parallel build tasks are scheduled (only the numbering of nodes and index slots may differ).",
  ["inputs", "schedules", "configurations"], "all scenes (especially above the 1024-primitive threshold at which tasks get their own threads), all three builders, all processor counts and schedules",
  "No test builds a scene twice, let alone under different thread counts.",
  ["src/utils.rs", "src/builders/mod.rs", "src/builders/locb.rs", "src/builders/spatial_sah.rs", "src/builders/binned_sah.rs", "src/morton.rs"],
  [("task spawning", "src/utils.rs TaskSpawner"), ("shared slices", "src/utils.rs UnsafeSliceWrapper"), ("chunked neighbour search by processor count", "src/builders/locb.rs cluster"), ("stable parallel sort by Morton code", "src/morton.rs get_sorted_indices")],
  [("node counter / reference counter", "atomic allocation", "src/builders/mod.rs, src/builders/spatial_sah.rs")], ["nodes()", "indices()"])

p("C10", "Conversion to a four-wide MBVH preserves the tree's content",
  "Converting a BVH to an MBVH, by any of the conversion routes (from a reference, by value, or from exported raw nodes and indices), keeps exactly the same leaves: each leaf run of the BVH appears in exactly one slot of exactly one reachable quad node and nothing else does, and unused slots are marked as such. The box stored in each slot contains all geometry reachable through that slot and is never larger than the box of the tree region it was made from. The index list, the underlying nodes and the overall bounds are carried over unchanged, and an empty BVH converts to an empty MBVH.",
  ["inputs", "configurations"], "all trees from the three builders (one node, two leaves, unbalanced, deep), also after refitting, and all three conversion routes",
  "A test converts ten five-triangle trees and looks at nothing.",
  ["src/bvh.rs", "src/mbvh_node.rs"],
  [("node collapsing", "src/mbvh_node.rs merge_nodes"), ("construction", "src/bvh.rs Mbvh::construct, construct_from_raw, From<Bvh>")],
  [("quad nodes", "children, counts and boxes of four slots", "src/mbvh_node.rs")], ["quad_nodes()", "nodes()", "indices()", "bounds()", "into_raw*()"])

p("C11", "Refitting keeps the tree and makes it correct for the moved geometry",
  "Refitting a tree with new boxes, any number of times, leaves its structure and leaf contents unchanged and makes every node's box contain the new boxes of all primitives beneath it, with no more than a small padding per level. Traversal of the refitted tree, and of an MBVH converted from it, then finds every hit on the moved geometry.",
  ["inputs", "histories"], "all trees of all three builders, all sequences of refits with arbitrary new boxes (moved, grown, shrunk, scattered)",
  "No test calls refit.",
  ["src/bvh.rs"],
  [("bottom-up refit", "src/bvh.rs Bvh::refit")],
  [("node bounds", "box, child link and count share one record", "src/bvh_node.rs")], ["nodes()", "indices()", "bounds()", "ids yielded by iteration"])

p("C12", "Traversal is total and safe for any ray and any tree",
  "Iterating any tree that the library produced, whatever its depth or shape and including empty ones, with any ray or packet, including zero, infinite or NaN components and any distance limits, terminates without panicking or touching memory out of bounds. It yields only indices of existing primitives and yields each leaf entry at most once, and an iterator that has ended stays ended when asked again; primitives missing from the slice passed by the caller are skipped. A BVH queried with a ray or packet having a NaN origin or direction component yields nothing, as does any empty structure.",
  ["inputs", "configurations"], "all trees (also hundreds of levels deep, single leaf, default-constructed), all float bit patterns in rays and packets, structures stored at any suitably aligned address, primitive slices shorter than the scene",
  "Traversal uses unchecked indexing and a fixed stack; tests traverse only two-triangle trees with one ray.",
  ["src/iter.rs", "src/iter_indices.rs", "src/bvh_node.rs", "src/mbvh_node.rs"],
  [("node stack", "stack/stack_ptr in the eight iterators"), ("emptiness and NaN guards", "iterator constructors"), ("SIMD loads", "src/mbvh_node.rs points")],
  [("stack", "pending nodes", "src/iter.rs, src/iter_indices.rs")], ["next()"])

p("C13", "Traversal culls what the ray cannot touch",
  "A traversal offers a primitive only if the ray, or at least one ray of the packet, passes (up to rounding) through the box of every node on the path from below the root to the primitive's leaf; for the MBVH the boxes are those stored in the slots on the path. Single-ray BVH traversal also skips boxes lying entirely before the ray's minimum distance, and packet and MBVH traversal skip boxes whose entry lies beyond the current distance at the time the box is tested.",
  ["inputs", "configurations"], "all scenes, rays and packets as in C01-C04, all three builders",
  "No test looks at which primitives a traversal offers; offering everything would pass every existing test.",
  ["src/aabb.rs", "src/mbvh_node.rs", "src/iter.rs", "src/iter_indices.rs", "src/bvh_node.rs"],
  [("slab tests", "src/aabb.rs intersect, intersect4; src/mbvh_node.rs intersect, intersect4"), ("conditional push", "src/bvh_node.rs sort_nodes, sort_nodes4; MBVH iterators")],
  [], ["ids yielded by iteration"])

p("C14", "All traversal entry points agree and leave the ray to the caller",
  "For the same structure and query, the primitive-yielding and index-yielding traversals, the inherent methods, the trait entry points and the traversals over exported raw slices all offer the same primitives in the same order, for BVH and MBVH and for single rays and packets. Traversal itself never changes the query; changes the caller makes to the distance between steps are seen by the rest of the traversal and are left in the caller's ray or packet at the end.",
  ["inputs", "histories"], "all trees, rays and packets, and all patterns of shortening the ray during iteration",
  "There are eight near-identical iterators and up to three ways to obtain each; no test compares any two.",
  ["src/iter.rs", "src/iter_indices.rs", "src/bvh.rs"],
  [("eight iterators", "src/iter.rs, src/iter_indices.rs"), ("entry points", "src/bvh.rs traverse_iter*, IntoRayIterator etc.")],
  [], ["ids yielded by iteration", "the ray after iteration"])

p("C15", "Ray-box tests give the geometrically correct verdict",
  "For any valid box and any ray, single or in a packet, the box tests report a hit whenever the ray clearly passes through the box in front of its start (after its minimum distance for the single-ray distance query, before each lane's current distance for packets) and report no hit whenever it clearly misses; flat boxes, rays starting inside, axis-parallel rays and negative zero components included. For a packet the verdict is positive exactly when some lane hits, and the returned per-lane values are the lanes' entry distances. The single-ray distance returned is the distance at which the ray leaves the box.",
  ["inputs"], "all valid boxes (also flat in one axis) and all finite rays with non-zero direction, up to a rounding margin",
  "No unit test exercises any box test.",
  ["src/aabb.rs", "src/bvh_node.rs"],
  [("slab tests", "src/aabb.rs intersect, intersects, intersect4; src/bvh_node.rs intersect, intersect4")],
  [], ["return values"])

p("C16", "Ray-triangle tests give the geometrically correct verdict",
  "For any non-degenerate triangle, the single-ray test reports a hit exactly when the ray crosses the triangle after its minimum and before its current distance, then shortens the ray to the true hit distance, and otherwise leaves it untouched. The packet test does the same for each of the four lanes independently with the given per-lane minimum distances, reporting which lanes were shortened. Triangle orientation does not matter.",
  ["inputs"], "all triangles whose crossing is not nearly parallel to the ray and all rays and packets, up to a rounding margin at edges and limits",
  "Only one FFI test, with its own copy of the routine, hits one triangle with one ray.",
  ["src/builders/spatial_sah.rs"],
  [("Moeller-Trumbore single and packet versions", "src/builders/spatial_sah.rs SpatialTriangle::intersect, intersect4")],
  [("ray t", "current distance", "src/ray.rs")], ["return values", "ray distance"])

p("C17", "Splitting a triangle yields tight boxes that together cover it",
  "Splitting a triangle by an axis-aligned plane returns a box for each side that contains the whole part of the triangle lying on that side and is no larger than the bounding box of that part, up to rounding. If the triangle lies entirely on one side the other box is empty.",
  ["inputs"], "all finite triangles, all three axes, all plane positions (through the interior, at vertices, outside)",
  "No test calls the split; the teapot build survives arbitrarily wrong fragment boxes because tests look only at the root.",
  ["src/builders/spatial_sah.rs"],
  [("clip", "src/builders/spatial_sah.rs SpatialTriangle::split")],
  [], ["return values"])

p("C18", "Box algebra is that of point sets",
  "Growing, uniting, intersecting, shrinking, padding and transforming boxes agree with the corresponding operation on the sets of points they denote: a union contains exactly what the smallest enclosing box contains (uniting a whole list may add tiny padding), an intersection exactly the common points, a box from points contains them all with only tiny padding, and a transformed box contains the image of every contained point and no more than the image's bounding box plus tiny padding. The empty box is neutral for union and the full box for intersection. Measures (centre, lengths, area, half area, volume, longest axis, corners, validity, point containment) agree with their definitions.",
  ["inputs"], "all valid boxes, point sets and affine transforms of ordinary scale",
  "No unit test covers the box type beyond its use in builds.",
  ["src/aabb.rs"],
  [("box operations", "src/aabb.rs")],
  [], ["return values"])

p("C19", "Rays and packets carry exactly the rays they were made from",
  "A packet made from four origins and four directions consists, lane by lane, of exactly those rays, and extracting a lane gives a ray that behaves in every box query and traversal like one constructed directly from that origin and direction, with the lane's current distance. New rays and packets start with the documented default limits and resetting restores the default maximum distance while changing nothing else. A ray counts as valid (something was hit) exactly when its distance lies below 1e33, so a new or reset ray does not. Points along a ray, conversions between a ray and its origin/direction pair, and reflection about a normal follow their definitions, and a reflected ray behaves like one constructed directly.",
  ["inputs"], "all finite origins, directions (any signs, zero components of either sign), normals and distances",
  "No unit test constructs a packet or reflects a ray.",
  ["src/ray.rs"],
  [("construction and cached reciprocal/sign data", "src/ray.rs Ray::new, From, reflect, RayPacket4::new, ray")],
  [("inv_direction, signs", "cached per-ray data used by slab tests", "src/ray.rs")], ["fields", "box queries on the result"])

p("C20", "Morton codes interleave bits and order primitives spatially",
  "Encoding three grid coordinates of up to ten bits interleaves their bits so that the coordinates can be recovered, and the bit-spreading step places bit i of its argument at bit 3i. Encoding a point quantises it to its cell in the grid spanning the given box, clamping points outside, so the code is monotone along each axis. Sorting primitives returns a permutation of all of them ordered by the code of their centres, with equal codes in input order, together with each primitive's code.",
  ["inputs"], "all ten-bit coordinate triples, all boxes and points, all primitive lists (with many equal codes, large enough to be sorted in parallel)",
  "The one test checks four powers of two.",
  ["src/morton.rs", "src/utils.rs"],
  [("bit spreading and quantisation", "src/morton.rs morton_split, MortonEncoder")],
  [("grid transform", "world_to_grid, grid_offset", "src/morton.rs")], ["return values"])

p("C21", "The C interface builds and queries like the library itself",
  "For any buffers with the documented layout (box arrays, centre arrays of 12- or 16-byte stride, vertex arrays with any vertex and triangle stride, optional boxes), the C functions build structures that reference every primitive, and single-ray and packet queries on them call back for every primitive that is really hit and write back the distance the callback established. Omitting boxes for a triangle build means the triangles' own boxes, and caller buffers need only the natural alignment of their C element types. Stopping early from the callback stops the query, and NaN rays are reported as such without any callback.",
  ["inputs", "configurations"], "all scenes, buffer layouts, strides, alignments, leaf sizes, builders, rays and packets",
  "The FFI tests build 27 and 2 triangles with tight buffers and shoot one ray; the triangle build, the packet queries and other layouts are never called.",
  ["rtbvh_ffi/src/lib.rs"],
  [("buffer views", "rtbvh_ffi/src/lib.rs RTTriangleWrapper, Vector3, Vector4"), ("queries over raw slices", "rtbvh_ffi/src/lib.rs intersect, intersect_packet, intersect_mbvh, intersect_mbvh_packet")],
  [("RTBvh / RTMbvh", "handle with raw node and index pointers", "rtbvh_ffi/src/lib.rs")], ["result codes", "callbacks", "t out-parameters", "raw node arrays"])

p("C22", "C interface handles stay valid and independent until freed",
  "Across any sequence of create, convert, refit, query and free calls, from one thread or several, each live handle keeps describing its own structure: its identifier is unique, its node and index pointers stay valid, and operations on other handles never change its answers. Refitting a BVH updates what its handle answers but not an MBVH converted earlier. Null pointers to create, convert and refit and unknown identifiers to convert and refit are reported as errors, empty input and failed builds are reported with their own code and leave the result untouched.",
  ["histories", "inputs", "schedules"], "all sequences of C calls on many handles (including freed and unknown identifiers), interleaved across threads",
  "The FFI tests perform one create-convert-free sequence.",
  ["rtbvh_ffi/src/lib.rs"],
  [("handle table", "rtbvh_ffi/src/lib.rs StructureManager"), ("argument checks", "rtbvh_ffi/src/lib.rs create_bvh, create_mbvh, refit")],
  [("structures / m_structures", "handle tables behind locks", "rtbvh_ffi/src/lib.rs")], ["result codes", "handles", "queries on every live handle"])

p("C23", "Serialised structures come back equal",
  "With serialisation enabled, storing any BVH, MBVH, box, node, ray or packet and loading it back gives a value with the same content, so that every query on the loaded structure gives exactly the answers of the original; this includes structures after refitting, empty structures and queries with infinite cached values.",
  ["inputs", "configurations"], "all structures from all builders, all rays and packets, in a binary format and (for finite values) a text format",
  "The feature is only type-checked; no test serialises anything.",
  ["src/bvh.rs", "src/bvh_node.rs", "src/mbvh_node.rs", "src/aabb.rs", "src/ray.rs"],
  [("derived serialisation", "cfg_attr(feature = \"serde\") derives")],
  [], ["round-tripped values", "queries on them"])

p("C24", "Validation accepts a tree exactly when it references every primitive",
  "Asking a BVH to validate itself for a given number of primitives answers yes exactly when every primitive below that number is referenced by a leaf reachable from the root. It answers yes for every built tree and its own primitive count, and no when some primitive's references are missing or when more primitives are claimed than exist; an empty tree is valid for no primitives only. (Asking about fewer primitives than the tree references is the caller's error.)",
  ["inputs"], "all built trees, trees with references removed or redirected, and all claimed counts not below the referenced indices",
  "Tests only ever see the answer yes on well-formed trees.",
  ["src/bvh.rs"],
  [("reference walk", "src/bvh.rs validate, traverse_check")],
  [], ["return value"])

p("C25", "Exported nodes and indices are the structure, in the documented layout",
  "The nodes and indices a BVH or MBVH hands out, by reference or by value, are exactly the structure that answers its queries. A BVH node is eight four-byte words (box minimum, primitive count, box maximum, first child or first index; a negative count marks an inner node), a quad node is six rows of four box coordinates (minimum and maximum x, then y, then z) followed by four children and four counts. Setters and getters agree with these words for every value, and nodes rebuilt from them answer every query identically.",
  ["inputs"], "all built, refitted and converted structures and all hand-made nodes with counts and references below 2^31",
  "Only the node sizes are tested, by the C interface's tests; no test sets or reads a node.",
  ["src/bvh_node.rs", "src/mbvh_node.rs", "src/aabb.rs", "src/bvh.rs"],
  [("node words and accessors", "src/bvh_node.rs set_/get_/with_ functions"), ("quad node rows", "src/mbvh_node.rs set_bounds, points"), ("raw export", "src/bvh.rs into_raw, nodes, indices")],
  [], ["words of exported nodes", "accessor results", "queries over rebuilt nodes"])

p("C26", "Structures and traversals in use at the same time do not interfere",
  "Building, converting, copying and querying any number of structures from several threads at once gives every caller exactly the result it would get alone. Any number of traversals of the same or different structures may be in progress at once in one thread, advanced in any order and abandoned at any point, and each offers exactly what it offers on its own. Refitting a structure never changes a copy of it or an MBVH converted from it before, nor the reverse.",
  ["inputs", "schedules", "histories"], "all scenes, queries, interleavings of traversal steps and thread schedules",
  "No test starts a second traversal while one is in progress, or shares a structure between threads.",
  ["src/iter.rs", "src/iter_indices.rs", "src/utils.rs", "src/builders/mod.rs", "src/bvh.rs"],
  [("traversal stacks owned by each iterator", "src/iter.rs, src/utils.rs TraversalStack"), ("build tasks and node allocator of each build", "src/utils.rs TaskSpawner, src/builders/mod.rs AtomicNodeStack")],
  [], ["primitives offered", "trees built"])
p("C27", "Every build yields a tree that accelerates queries",
  "On spread-out scenes of a few hundred to many thousands of primitives (scattered, elongated, clustered, on surfaces, of mixed sizes, overlapping, in any order and position) every builder's tree is an efficient one. Its surface-area cost (areas of inner nodes plus areas of leaves times their primitives, over the root's area) stays close to that of the plain greedy surface-area build over the same boxes and leaf size: within 3 % for spatial splits, 12 % for binned (20 % beyond 26000 primitives, 35 % for clusters and height fields), 40 % for clustering (a factor of 2 on elongated scenes, of 3 along a line). It is at most 2 log2(n) + 2 levels deep. Conversion to an MBVH merges two levels into one, so that it is at most half as deep and costs clearly fewer node visits (at most 85 %).",
  ["inputs"], "spread-out scenes of all sizes, shapes, scales and orders, builders, leaf sizes",
  "Tests check that some hit is found; a tree that finds every hit but degenerates into a list passes them all.",
  ["src/builders/binned_sah.rs", "src/builders/spatial_sah.rs", "src/builders/locb.rs", "src/morton.rs", "src/mbvh_node.rs"],
  [("SAH split search and bins", "src/builders/binned_sah.rs find_split, run"), ("object split sweep", "src/builders/spatial_sah.rs find_object_split"), ("nearest-neighbour merging over Morton order", "src/builders/locb.rs cluster, src/morton.rs"), ("merging of two levels", "src/mbvh_node.rs merge_nodes")],
  [], ["nodes()", "quad_nodes()"])

p("C28", "Images rendered through a tree show the nearest triangle of every pixel",
  "The camera that the demo programs share sends, for every pixel, a new ray (default limits, unit direction) from its position through the pixel's place in its view: rows run from left to right and top to bottom in even steps and the middle of the view is the viewing direction; a packet made for any four pixels consists of the four single rays. Turning keeps the position and the view's size; moving shifts the origin of every ray and turns none. The shared triangle reports its vertices, tight box, centroid and right-handed unit normal, and the shared timer the time since its creation or last reset. An image rendered through any tree of such triangles or its MBVH, with single rays or packets, shows at every pixel the nearest triangle.",
  ["inputs", "histories"], "all scenes of shared triangles, camera positions, directions not straight up or down, fields of view, image sizes, pixels, sequences of moves and turns",
  "No test touches the shared crate; the demo programs show a window or print timings and compare nothing.",
  ["shared/src/lib.rs", "src/builders/spatial_sah.rs", "src/iter.rs", "src/ray.rs"],
  [("rays and packets of pixels", "shared/src/lib.rs CameraView3D::generate_ray, generate_ray4"), ("turning and moving", "shared/src/lib.rs CameraView3D::translate_target, translate"), ("shared triangle and timer", "shared/src/lib.rs Triangle, Timer"), ("generic traversal entry points", "src/iter.rs IntoRayIterator, IntoPacketIterator")],
  [], ["rays and packets generated", "distance at each pixel", "camera fields"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
