T = "contract-based deductive verification (contracts on the real C++ functions; verification conditions generated from the LLVM IR of /repo's current sources; SMT and polynomial back ends)"
FP = "Every obligation is discharged over IEEE-754 binary32 for all finite inputs, no bound."
REAL = "Every obligation is discharged for all inputs, with float arithmetic read as exact real arithmetic; the native bounded run of the same contracts complements it and never counts as proof."
CLAIMS = {
 "C01": (T, "proof", FP),
 "C02": (T, "proof", FP + " Sequences of vertices are handled with a loop invariant, so for any length."),
 "C03": (T, "proof", "Proved for any tree by structural induction: query by box, by point and by an entry list (the recursive call is checked against the same contract); boxes by the C01/C02 contracts, any finite coordinates. The walk for one entry is proved at depths 1 to 4. Bounded: native random indices."),
 "C04": (T, "proof", "The recursive step of the pass is proved for nodes of one to three entries against an overlap list of zero to two, with the recursive calls taken through the contract; the whole pass is proved for indices of up to three entries (all box values, all tree shapes reached); larger node sizes: bounded native stand-in."),
 "C05": (T, "proof", "Every structural operation (rotations, refit, add, extract, size, height, delete, iteration) is proved on its neighbourhood with arbitrary subtrees, refit for depths 0 to 3, choice of position for up to three entries; public operations composed on one and two entries; longer histories: bounded native stand-in against a reference map."),
 "C06": (T, "proof", REAL),
 "C07": (T, "proof", "1x1 and 2x2 solvers: " + REAL + " 3x3 (Gram-Schmidt QR) solver: bounded stand-in, labelled as such; one known finding (binary32 singularity)."),
 "C08": (T, "proof", REAL + " The projected Gauss-Seidel fixed point for three one-sided variables is a bounded stand-in."),
 "C09": (T, "proof", REAL),
 "C10": (T, "proof", REAL),
 "C11": (T, "proof", REAL + " The vertex loop of the mass integrals is cut by inferred prefix-sum invariants, so the equality with Green's theorem holds for any number of vertices; Polygon itself (vertex order, orientation) is proved vertex by vertex for 3 to 8 vertices."),
 "C12": (T, "proof", REAL + " Any number of vertices: the edge walk and the support query are loops cut by invariants."),
 "C14": (T, "proof", REAL),
 "C15": (T, "proof", REAL),
 "C16": (T, "proof", REAL + " Bodies of up to three colliders, each edit starting from an arbitrary motion and place: the contract of one edit carries a sequence of any length, the number of colliders is bounded by three. The spatial index and the box of a shape enter by their contracts (C05, C02), the mass of one shape is arbitrary (C11, C14)."),
 "C17": (T, "proof", REAL),
 "C18": (T, "proof", REAL + " The 3x3 effective-mass solve is used through the contract of the linear solver (checked under C07)."),
 "C19": (T, "proof", REAL),
 "C20": (T, "proof", REAL),
 "C21": (T, "proof", REAL + " The two-contact solve uses the complementarity solver through its contract (C08), the frame of the manifold through C22."),
 "C22": (T, "proof", REAL + " Shapes of three and four vertices in any position; the penetration vector is arbitrary (its contract is C13). That a whole update finds exactly the overlapping pairs is a bounded stand-in on random convex polygons against the separating axes."),
 "C23": (T, "proof", REAL),
 "C24": (T, "proof", REAL),
 "C25": (T, "proof", REAL + " The world-level contracts fix the arrangement (three bodies, far apart) and prove it for every motion, gravity, region and step length; the force on any number of colliders follows from the one- and two-collider contracts by induction."),
 "C26": (T, "proof", FP),
 "C27": (T, "proof", "Integers are exact; a pointer is an object and an offset, live objects occupying disjoint address ranges. Blocks of any size with up to three free ranges (one per block with two blocks) anywhere, element types of several sizes and alignments (1 to 64), any count; std::align by its contract; n * sizeof(T) representable. One operation from an arbitrary such state carries any history; longer free lists only in bounded random histories."),
 "C28": (T, "proof", "Every obligation is discharged for all inputs: clamp over all finite binary32 values and integers; the partition for sequences of any length and any predicate (one arbitrary followed element, loop invariant); views over ranges of any length, redirected views element by element for fixed lengths; both configurations of View (standard and fallback)."),
 "C29": (T, "proof", REAL + " Worlds of two or three bodies with one or two colliders, their constraints, contacts and a force field; every subset of them dies, by kill or by condition; boxes move arbitrarily during the step, so the step's contract carries a history of any length, the number of objects is bounded. Islands are replaced by an arbitrary motion (C30, C21), the index insertion by its contract (C05), unordered_map runs with one bucket."),
 "C30": (T, "proof", REAL + " All graphs of one or two bodies with up to two constraints or contacts, the chain and the ring of three bodies, each with every combination of active, structural, resting and sleeping and any impulses; a constraint is abstract (only its interface is used). Larger graphs are a bounded stand-in: random graphs of up to eight bodies and twelve constraints run natively against reachability."),
 "C31": (T, "proof", REAL),
 "C32": (T, "proof", REAL),
}
NA = {
 "C13": "GJK/EPA iterate on a simplex whose termination and exactness rest on comparisons with rounding tolerances: no loop invariant over the reals expresses 'this support search ended for the right reason', and over exact reals the degenerate branches that decide the answer in binary32 are not reachable; its result enters C22 as an arbitrary penetration vector. The support function it is built on is proved under C12, the closest-point queries under C10.",
}
# how each property is decided (DESIGN.md)
DESIGN = {
 "C01": "`Interval::overlaps/contains`, `BoundingBox::overlaps/isValid` against the definition (a common point exists iff max of minima <= min of maxima in every axis), for all finite binary32 bounds.",
 "C02": "`combined`, `contains`, `operator==`, the vertex-sequence constructor: least upper bound laws (encloses, least, commutative, associative, idempotent); the constructor's loop is cut by an inductive invariant over an array of any length.",
 "C03": "`RTree::forEachIn/forEachAt/forEachOverlapping`: a node with two arbitrary subtrees whose own visits are given by the contract (each subtree carries a ghost entry that is visited exactly once iff its box overlaps, never when the node's box does not); the body is checked for root, inner node, leaf and empty index (structural induction). Queries by an entry climb from the entry: proved at depths 1 to 4 in several positions; queries by a list of entries proved by induction on the tree with lists of two.",
 "C04": "`RTree::updateAndCollide`: the step that splits a node's entries is checked with its recursive calls replaced by their own contract (each distinct overlapping pair inside once, each pair of an inside entry with a listed one once, nothing else, all boxes refreshed before any report, the result is a well-formed subtree on the same entries); the whole public pass on 0 to 3 entries with the real recursion.",
 "C05": "`RTree` structure: well-formedness (parent links, bounds of a node = union of its children, leaf/inner split) is the invariant; `checkRotations`, `refit`, `addLeafTo`, `extract`, `size`, `height`, `deleteNode`, iterator `++`, `first entry` each preserve or use it, with unknown subtrees as opaque ghosts; `insert`, `erase`, `update`, `clear`, move, swap composed on one and two entries; iterator validity = node addresses and values framed.",
 "C06": "Every operator of `Matrix`/`Vector` (27 contracts over the shapes used by the physics), element by element against the definition, operands framed.",
 "C07": "`Solver<float,n>`, `solve`, `invert`, `original`: residual A x = b as polynomial identity modulo det != 0; singular => invalid and throws.",
 "C08": "`LcpSolver`, `solveLcp`, `solveInequalities` (loop cut at its header by its own exit condition: postcondition = projected fixed point within epsilon).",
 "C09": "`Rotation`, `Translation`, `Transform` with axiomatised sin/cos: isometry, orientation, composition, inverse, about-a-point, read-back.",
 "C10": "`LineBarycentric`, `TriangleBarycentric`: variational inequality (Q-c).(X-c)<=0 at the vertices (lemma: this is optimality over the whole convex hull), weights identities, both windings.",
 "C11": "`GeometricProperties` against the boundary integrals of Green's theorem (area, centroid, second moment about the centroid) for a chain of any number of vertices (both loops replaced by prefix sums, equality by symbolic summation); degenerate exactly when the area is zero; independence of start and winding and behaviour under translation as lemmas; `Polygon` keeps exactly the given vertices in positive orientation; `Polygon::box`.",
 "C12": "`Edges::Iterator`, `next`, `previous` over a chain of any number of vertices: the i-th step visits the i-th edge, n edges, cyclic and mutually inverse; `furthestVertexInDirection` (loop invariant: no earlier vertex lies further; last selected vertex); `orientation`; outward normals and sides.",
 "C14": "`MassProperties` constructor and `operator+`: sums, weighted centroid, parallel axis, associativity, splitting.",
 "C15": "`Body::applyImpulse/applyForce/step/toLocal/toWorld`: exact effect and frame (nothing else changes).",
 "C16": "`Body::addCollider/removeCollider/~Body`, `Colliders::add/remove/update`, `MassProperties operator+` under `World`: from a body with 0..3 colliders at any place and motion, each edit is checked for the whole postcondition (mass, centroid and inertia recomputed from the definition, bounds, index contents, velocity at the new centroid, frame); a refused collider is the identity.",
 "C17": "For each constraint function: d/dt of `eval` along an arbitrary rigid velocity (dual numbers: derivative obtained by evaluating `eval` on displaced states and differentiating the resulting polynomial/trigonometric term) equals `jacobian` times velocity.",
 "C18": "`EqualityConstraintSolver` for an arbitrary constraint function of dimension 1..3: post-velocity J v = target, impulse in the span of M^-1 J^T, untouched when satisfied, position correction J dx = -error; lemma: that is the least kinetic energy change.",
 "C19": "Columns of every Jacobian: linear parts opposite, moments balance; `applyImpulse` of solver base adds exactly M^-1 J^T lambda.",
 "C20": "`Bodies`/`Proxies`/solver with structural body: bitwise unchanged state (also in binary32); sharing by dominance times inverse mass.",
 "C22": "`frameManifold` (contacts and normal carried rigidly, normal out of the second body), `computeContactEdge` (edge at the furthest vertex whose unit normal is closest to the direction; faces it at a convex corner), `Edge::clipInside`, `computeContacts` (at most two distinct contacts, at least one when the incident edge reaches behind the reference edge; incident point on its edge and behind the reference edge, reference point the closest of the reference edge), `update` modularly over those contracts; the whole of `update` executed on random convex pairs against the separating-axis oracle (bounded).",
 "C23": "`MotorFunctionBase::clampLambda`, controls, specs and a full velocity iteration of both motors from any admissible accumulated impulse.",
 "C21": "`ContactConstraint`: Jacobians are the relative point velocities, restitution, one velocity iteration (signs, cone, non-penetration, complementarity, momentum), friction optimality, warm start, manifold changes, position correction; with one and two contacts, free and structural bodies.",
 "C24": "`LimitsSolver` for an arbitrary one-dimensional constraint function (none / lower / upper / both / coinciding limits): activity, accepted combinations, velocity and position iteration, warm start; `DistanceConstraint` constructors.",
 "C25": "`Gravity::apply`, `LinearField::apply` for one collider, two colliders against their union (induction step) and the whole body; `World::step` (applyForces, islands, integration) on a world of three bodies with arbitrary motion, fields, region and dt.",
 "C26": "`CombinableProperty`, all pairs of modes and values, binary32.",
 "C27": "`Block::allocate / deallocate / isEmpty` and `FreeListAllocator::allocate / deallocate / ==` run from an arbitrary free list (ordered, disjoint, merged ranges); one arbitrary byte of the block is followed: it stops being free exactly when it is in what was allocated and becomes free exactly when it is in what was released. Alignment, bounds, merging, refusal only when no free range fits, foreign pointers refused, blocks released when wholly free.",
 "C28": "`clamp` over binary32; `booleanSort` with an iterator whose elements only move through their own operations, one arbitrary element being followed (invariant: it lies before `end` / not before `begin` by its predicate); `makeView` in both build configurations (View.inl.hpp included); `Callable` concepts decided by the compiler.",
 "C29": "`World::step` (cleanup, hooks, updateBodies, makeContactConstraint), `makeBody/makeConstraint/makeForceField`, `setContactFactory`, `clear`, `removeCollider`, `~Body` on worlds whose objects are ghost subclasses counting every hook and release: exactly the dying ones leave, once, told before anything is released; contacts after a step compared with the overlap of arbitrary boxes, for no, plain and contact-disabling constraints, with and without an earlier contact.",
 "C30": "`Island::init`, `addBody`, `addConstraint`, `refreshProxies`, `endSolve` and `solveIslands` over constraint graphs given by ghost constraints that count every call: membership = reachability over active constraints through non-structural bodies, each constraint initialised, warmed and solved once per iteration in order, the proxies' motion copied back, sleep flags.",
 "C31": "`Camera` mapping, round trip, setters, refusals.",
 "C32": "`Profiler::Entry` statistics with ghost history sums, `ScopedTimer` moves.",
}
SEEN = {
 "allocation_drops_small_tail": "Caught by C27_allocate_*.",
 "big_allocation_forgets_alignment": "Caught by C27_obtain_*.",
 "merge_with_next_only": "Caught by C27_release_2 and C27_release_3.",
 "close_parts_add_inertia": "Caught by C14_union and C14_inertia_stays_positive.",
 "small_polygons_are_degenerate": "Caught by C11_polygon_* and C11_box.",
 "small_projection_is_skipped": "Caught by C07_solve_function_3x3 and C07_original_3x3.",
 "small_rotations_linearized": "Caught by C09_rigid_*.",
 "tiny_turns_are_dropped": "Caught by C15_advance.",
 "removed_collider_leaves_others_behind": "Caught by C16_remove_* (colliders stand where the body is).",
 "removed_collider_keeps_second_contacts": "Caught by C29_collider_removed.",
 "disabling_constraint_one_way": "Caught by C29_contact_*_disabled.",
 "spinning_body_separates": "First missed: the graphs of C30 had bodies that do not spin and the oracle asked only for linear rest. Now caught by C30_acts_structural (the definition of acting as structural, constraint by constraint) and C30_island_contacts.",
 "camera_accepts_half_valid_dimensions": "Caught by C31 (refused dimensions).",
 "combine_modes_by_bits": "Caught by C26.",
 "combined_misses_nested": "Caught by C02.",
 "contact_edge_by_length": "Caught by C22_contact_edge_*.",
 "contact_solver_ignores_second_friction": "Caught by C21_velocity_two* (friction cone).",
 "field_lever_not_rotated": "Caught by C25_linear_*.",
 "hinge_lever_from_position": "Caught by C17_* (Jacobian = derivative).",
 "lcp_first_axis_not_checked": "Caught by C08.",
 "line_weights_beyond_end": "Caught by C10.",
 "list_query_keeps_left_filter": "Caught by C03_several_*.",
 "motor_clamp_both_ways": "Caught by C23.",
 "pass_skips_touching_parts": "Caught by C04_step_* and C04_pass_*.",
 "profiler_maximum_of_last_two": "Caught by C32.",
 "stale_jacobian_in_position_solve": "Caught by C18_position_*.",
 "support_ignores_small_gains": "Caught by C12_polygon_*; first without a failing input, then the native run was given tiny shapes.",
 "update_in_place_when_inside": "Caught by C05_public_two and C05_random_histories.",
 "walk_stops_when_covered": "Caught by C03_overlapping_entry_*.",
 "warmstart_other_limit": "Caught by C24_warm_both.",
}
