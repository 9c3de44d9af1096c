T["C07"] = ("flow-sensitive polymorphic dimension (unit) inference over the type-checked AST", "other",
            "Sound for the unit discipline: a result that does not scale with the unit of time needs two quantities of different time dimension to meet (added, compared, or passed to exp/log/pow), and every such meeting in every function reachable from the library API is an obligation. Assumes real arithmetic (no overflow/rounding) and the declared dimensions of the public parameters.")
T["C08"] = ("flow-sensitive polymorphic dimension (unit) inference over the type-checked AST", "other",
            "As C07, for the unit of charge.")
VGT = "value-graph (gated-SSA, global value numbering) dataflow over the type-checked AST with loop closed forms; obligations decided by comparing normal forms"
T["C03"] = (VGT, "other", "Every state variable of every trap-manager class is enumerated from the class records; store/restore/reset are evaluated symbol-free as state transformers in normal form and compared. No bound on sizes. Loops without a closed form are reported as undecided in the evidence, not as held.")
T["C10"] = (VGT + "; the forward model is an opaque function", "other", "C++ and Python removal loops as recurrences; real arithmetic.")
T["C11"] = (VGT + "; sign proved from path conditions", "other", "Every write to the image inside clocking and the image after every removal iteration. One known finding (Python removal clamps only after its first iteration).")
T["C13"] = (VGT + "; event order and booking algebra of the clocking loop with trap managers opaque", "other", "Booking in the clocking loop for every species and guard; per-species ledgers (what a species returns against what its occupancy lost) by abstract interpretation over segmented level arrays, symbolic sums and linear facts, on every exit of every manager, for any number of levels.")
T["C17"] = (VGT + "; presence guards per field of the manager of managers", "other", "All accesses to data of each species type, all guards; every present type shown to be prepared, used, saved, restored, emptied, pruned.")
T["C01"] = (VGT + "; per-iteration dependence test on every parallel region (private, disjoint, or read-only)", "other", "Every datum written in every OpenMP region, through the whole call graph, is shown private to the iteration, disjoint by the iteration's own index, or not shared; state carried from one column to the next must be rebuilt or emptied first whenever the loop runs in parallel.")
T["C02"] = (VGT + "; abstract provenance of trap occupancy at column boundaries", "other", "Which image elements each column reads and writes, and that occupancy is emptied between columns; all windows and image sizes.")
T["C04"] = ("interprocedural write-effect, upward-exposed-read, definite-assignment and taint dataflow over the type-checked AST; Python alias/mutation analysis", "other", "All library functions. Carried state = globals, statics, class-level and default objects, reference members, tables in the caller's objects read before being rebuilt, uninitialised locals, clock/thread/random values.")
T["C05"] = ("interprocedural access-path write effects (C++) and flow-sensitive alias/mutation analysis (Python, Cython) mapped to the caller's arguments", "other", "Every write reachable from the entry points; virtual calls to all overriders. The FITS header argument is exempt.")
T["C12"] = ("control-dependence (guard implication) and taint (non-interference) dataflow over C++ and Python call graphs", "other", "Every output site reachable from the entry points must be guarded by verbosity >= 1 on every call path; values derived from verbosity reach printing only.")
T["C09"] = (VGT + "; clocking and transpose opaque", "other", "Every path of the add_cti top level for every presence combination: the serial pass is compared, argument by argument, with the parallel pass on the transposed image; defaults of both groups agree.")
T["C06"] = ("value graphs of the Python, Cython and C interface layers composed by argument position, compared with C++ constructors field by field", "other", "Every field of every ROE, CCD phase, CCD and trap object that reaches the core, for all three ROE types and all four trap species, and every scalar argument; values assumed unchanged by numpy dtype conversion.")
T["C15"] = ("disjunctive path typestate (live / released / handed on) of every allocator result over the type-checked AST, with call summaries", "other", "Every allocation, open and constructor-new of the sources on every returning path of every function; conditions on the pointer and on flags derived from it are kept apart.")
T["C16"] = ("status-flow analysis (failure codes of every fallible call propagated path-sensitively through variables, conditions, helpers and return values); path conditions of refusals from value graphs", "other", "Every GSL integration/root-finding call, stdio open/read/write and system() in the sources, and every documented invalid model argument.")
T["C26"] = (VGT + "; linear bounds of every subscript from loop ranges and guards", "other", "Every image element and manager touched by the clocking loop; any readout, window and size. Sizes of the clock-sequence tables themselves are C19's and C22's.")
T["C23"] = ("constant propagation with path splitting over main and everything it calls, once per option sequence; option tables and help text compared entry by entry", "other", "Every documented option in short and long form, alone, repeated and in all ordered pairs, plus unknown options and missing values.")
NA = {"C18": "Equality of two long algorithms that shift, merge and rewrite arrays of occupancy levels at value-dependent indices, with deliberately different release laws between them. Comparing the siblings by form alarms as soon as one is refactored without changing what it does; proving them equivalent needs relational loop invariants over array segments that no abstract domain in reach infers (or solver-explored paths, another family); comparing numbers is testing. What holds of each sibling alone is decided in C03, C13, C14 and C20."}
T["C24"] = ("name and definite-binding resolution, attribute typestate by inferred class, and signature matching of every call, over the Python ASTs and the Cython wrapper's definitions", "other",
            "Every name, every attribute of a value of known type and every call of a package or wrapper function in every module; values from outside the package (unannotated arguments, NumPy, astropy) are not judged.")
T["C21"] = ("stencil extraction (linear combinations of pixels at fixed relative positions, per kind of pixel) from value graphs; affine-relation analysis (Karr's domain) of the Python separation", "other",
            "Every pixel kind (3 x 3 kinds of row and column), every neighbour read and every pass of the compiled routine, for all image sizes from 2x2; every return of the separating method. Real arithmetic.")
T["C22"] = (VGT + "; coordinates, loops and shapes of every copy compared", "other",
            "Every copy between an image of rows, a flat buffer and a text stream, for all shapes; the sizes the Cython wrapper hands on. Copies of whole rows are reported as undecided.")
T["C25"] = ("path-wise abstract interpretation of the Python package and the Cython wrapper over (memory order, element type, identity, length) of arrays, against the extents C++ reads, derived from value graphs", "other",
            "Every path of every public function to every buffer handed to C++; lengths as linear combinations of the lengths of what the caller passed, under the equalities the constructors enforce. Attributes changed after construction are not judged.")
T["C19"] = ("path-wise abstract interpretation of the table builders and the clocking routine over linear facts and array lengths (exact Farkas test); violations carry numbers that satisfy the path", "other",
            "every path of the three express-table builders and the three saving-table builders: each subscript, slice and mask inside its array, table size = passes * rows; every look-up at pass * n + row with the n of the builder call. Not decided: the number of nonzero multipliers the trap-pumping builder selects")
T["C20"] = (VGT + "; both bounds proved on every branch (Farkas over the branch conditions, corners of polynomials in exp and pow terms); a violation carries parameters that leave [0, 1]", "other",
            "The cloud volume, the two direct and three tabulated fill fractions, every probability stored by set_fill_probabilities, and the integrands of the tables, for all times, charges and valid parameters. Real arithmetic; that integrals of (density x fraction) are at most one is assumed.")
T["C14"] = ("path-wise abstract interpretation of one transfer of each trap manager over linear facts and array lengths (exact Farkas test), of construction and setup, and of the clocking up to the construction of the managers; violations carry numbers that satisfy the path", "other",
            "every path of one release-and-capture step, of pruning and of the read-only totals of the four managers, from any number of levels that leaves room for one transfer; array sizes; transfers for trap pumping or not, traps emptied or kept. Assumed: the saving table resumes rows not clocked before")
