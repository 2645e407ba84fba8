NOTES = "Every check amalgamates /repo/src at run time, compiles it with goto-cc and decides it with CBMC; see DESIGN.md."
NOT_APPLICABLE = {}
PROPS = [
 dict(id="P01", title="Problem index and (function, dimension, instance) are a bijection",
  statement="In every suite, the index of a problem and its triple of function, dimension and instance positions determine each other, indices run from 0 to the number of problems minus 1 and are ordered by dimension, then function, then instance. The number, dimension and instance reported for a position are those of the suite. An index outside the suite is reported and never leads outside the suite.",
  over=["inputs", "configurations"], for_all="all suites, all position triples, all indices, all (small) suite sizes",
  why="tests look up a few indices of the default suites; a mix-up of sizes shows only for particular combinations of positions",
  files=["src/coco_suite.c"], state=["coco_suite_t.functions/dimensions/instances"],
  mech=[("encode", "src/coco_suite.c:coco_suite_encode_problem_index"), ("decode", "src/coco_suite.c:coco_suite_decode_problem_index")],
  observe=["coco_suite_encode_problem_index", "coco_suite_decode_problem_index", "coco_suite_get_*_from_*_index"],
  level_note="exhaustive for the real suites' sizes; suites of any size up to 5x4x6"),
 dict(id="P02", title="Suite iteration visits each selected problem exactly once, in order",
  statement="Iterating over a suite yields every selected problem exactly once, instances varying fastest, then functions, then dimensions, whatever was filtered out, and then ends; each problem knows its suite, index, function and instance. Requesting a problem by index or by (function, dimension, instance) yields that problem, or nothing exactly when it was filtered out. Only the current problem is kept alive and everything is released with the suite.",
  over=["histories", "configurations"], for_all="all subsets of functions, dimensions and instances filtered out, the whole iteration",
  why="tests use a handful of filters, mostly contiguous ones that keep the first item",
  files=["src/coco_suite.c"], state=["current_function_idx", "current_dimension_idx", "current_instance_idx", "current_problem"],
  mech=[("iteration", "src/coco_suite.c:coco_suite_get_next_problem"), ("lookup", "src/coco_suite.c:coco_suite_get_problem_by_function_dimension_instance")],
  observe=["coco_suite_get_next_problem", "coco_suite_get_problem", "coco_suite_get_problem_by_function_dimension_instance"],
  level_note="all filters on suites of up to 3x2x2, 2x2x3 (thorough 4x3x3)"),
 dict(id="P03", title="Suite selection strings select exactly what they say",
  statement="A range string denotes the increasing list of numbers it spells, with open ends completed by the given limits and malformed strings rejected; suite options keep exactly the named dimensions, functions and instances. Of conflicting keys, the first given wins; a year selects that year's instances, and a suite without a valid selection is not returned.",
  over=["inputs", "configurations"], for_all="all numbers in range strings of each listed shape; all option combinations listed",
  why="tests try about twenty fixed strings; the numbers and the combinations are unbounded",
  files=["src/coco_string.c", "src/coco_suite.c", "src/coco_utilities.c", "src/suite_bbob.c"],
  mech=[("ranges", "src/coco_utilities.c:coco_string_parse_ranges"), ("suite options", "src/coco_suite.c:coco_suite")],
  observe=["coco_suite", "coco_string_parse_ranges"],
  level_note="string shapes are concrete, the numbers in them symbolic"),
 dict(id="P04", title="Evaluation bookkeeping is exact",
  statement="After any sequence of evaluations, the function and constraint evaluation counts equal the numbers of calls, the best observed value is the smallest value returned for a feasible solution, and the final target is reported hit exactly when that value reaches the optimum plus the target precision. Internal feasibility checks are not counted. The values returned are those of the underlying function and the solution is left unchanged.",
  over=["histories", "inputs"], for_all="all sequences of evaluations up to the bound, all solutions and all values returned, including infinite ones and NaN",
  why="tests evaluate few points and never check the counters against an arbitrary history",
  files=["src/coco_problem.c"], state=["evaluations", "evaluations_constraints", "best_observed_fvalue", "best_observed_evaluation"],
  mech=[("evaluation", "src/coco_problem.c:coco_evaluate_function"), ("constraints", "src/coco_problem.c:coco_evaluate_constraint"), ("final target", "src/coco_problem.c:coco_problem_final_target_hit")],
  observe=["coco_problem_get_evaluations", "coco_problem_get_best_observed_fvalue1", "coco_problem_final_target_hit"],
  level_note="histories of 3 evaluations (thorough: 6)"),
 dict(id="P05", title="Infinite and NaN solutions give infinite and NaN values",
  statement="Evaluating objectives or constraints at a solution with an infinite coordinate gives plus infinity in every component, at a solution with NaN and no infinite coordinate gives NaN in every component, and neither changes the evaluation counts or the best observed value nor reaches the underlying function.",
  over=["inputs"], for_all="all positions and signs of the non-finite coordinates, any number of objectives, constraints and wrappers within the bounds",
  why="tests place one NaN in one coordinate of two-dimensional problems",
  files=["src/coco_problem.c", "src/coco_utilities.c"],
  mech=[("evaluation guard", "src/coco_problem.c:coco_evaluate_function"), ("constraint guard", "src/coco_problem.c:coco_evaluate_constraint_optional_update")],
  observe=["coco_evaluate_function", "coco_evaluate_constraint", "coco_is_feasible"],
  level_note="up to 3 variables, 2 objectives, 3 constraints"),

 dict(id="P06", title="Variable transformations compute their documented map and keep the optimum",
  statement="A problem wrapped in a variable transformation evaluates the wrapped problem, its constraints and its gradient exactly once at the documented image of the solution and returns what it returns. The optimal solution it reports is mapped onto the wrapped problem's optimal solution, or is declared unknown. The solution passed in is not modified and freeing the wrapper releases everything exactly once.",
  over=["inputs", "configurations"], for_all="all solutions, parameters and inner optima within the stated grids, for shift, scaling, affine, oscillation, asymmetry, conditioning, Bueche-Rastrigin scaling, sign and z transformations, rounding, permutation, block rotation and the box",
  why="tests only compare a few values of whole functions; a wrong index, sign or order shows for particular dimensions and signs only",
  files=["src/transform_vars_shift.c", "src/transform_vars_affine.c", "src/transform_vars_oscillate.c", "src/transform_vars_asymmetric.c", "src/transform_vars_conditioning.c", "src/transform_vars_brs.c", "src/transform_vars_scale.c", "src/transform_vars_x_hat.c", "src/transform_vars_z_hat.c", "src/transform_vars_round_step.c", "src/transform_vars_permutation.c", "src/transform_vars_blockrotation.c", "src/transform_vars_enforce_box.c"],
  mech=[("wrapping", "src/coco_problem.c:coco_problem_transformed_allocate"), ("maps", "src/transform_vars_*.c")],
  observe=["coco_evaluate_function", "coco_evaluate_constraint", "coco_problem_get_best_parameter"],
  level_note="1 to 4 variables, up to 2 constraints; libm results restricted to a few values for the non-linear maps"),
 dict(id="P07", title="Objective transformations compute their documented map and keep the optimum",
  statement="A problem wrapped in an objective transformation returns, for every objective, the documented function of the wrapped problem's value, and reports as optimal value the image of the wrapped problem's optimal value at the same optimal solution. Constraint values pass unchanged, gradients are scaled accordingly, and freeing the wrapper releases everything exactly once.",
  over=["inputs", "configurations"], for_all="all values, offsets, factors, boxes and solutions within the stated grids, for offset, factor, power, oscillation, boundary penalty and normalisation by the dimension",
  why="tests only compare a few values of whole functions, with one objective and without constraints",
  files=["src/transform_obj_shift.c", "src/transform_obj_scale.c", "src/transform_obj_power.c", "src/transform_obj_oscillate.c", "src/transform_obj_penalize.c", "src/transform_obj_norm_by_dim.c"],
  mech=[("maps", "src/transform_obj_*.c")],
  observe=["coco_evaluate_function", "coco_problem_get_best_value"],
  level_note="2 variables (80 for the normalisation), 1 or 2 objectives, up to 1 constraint"),
 dict(id="P08", title="The reported optimum of a function is its optimum",
  statement="For every single-objective test function and instance, the reported optimal value is the value of the instance, the reported optimal solution lies in the region of interest, evaluates to that value and reaches the final target. No solution has a better value.",
  over=["inputs", "configurations"], for_all="all locations of the optimum, optimal values and solutions within the stated grids, for 22 of the 24 functions in the unconstrained and the boxed suite",
  why="the optimum depends on pseudo-random instance data; tests evaluate a few instances at a few points and cannot rule out better values",
  files=["src/suite_bbob.c", "src/suite_sbox_cost.c", "src/f_sphere.c", "src/f_ellipsoid.c", "src/f_rastrigin.c", "src/f_bueche_rastrigin.c", "src/f_linear_slope.c", "src/f_attractive_sector.c", "src/f_step_ellipsoid.c", "src/f_rosenbrock.c", "src/f_discus.c", "src/f_bent_cigar.c", "src/f_sharp_ridge.c", "src/f_different_powers.c", "src/f_weierstrass.c", "src/f_schaffers.c", "src/f_griewank_rosenbrock.c", "src/f_schwefel.c", "src/f_katsuura.c", "src/f_lunacek_bi_rastrigin.c"],
  mech=[("construction of the problems", "src/suite_bbob.c:coco_get_bbob_problem")],
  observe=["coco_problem_get_best_value", "coco_problem_get_best_parameter", "coco_evaluate_function", "coco_problem_final_target_hit"],
  level_note="2 variables (thorough: 3); the lower bound for 19 functions, not for the two Gallagher functions"),
 dict(id="P09", title="Every test function follows its published definition",
  statement="The value of every function of the unconstrained suite is the one its published definition gives for the instance's optimum, rotations, signs and offset, inside and outside of the region of interest. The boxed suite has the same values inside its box and plus infinity outside.",
  over=["inputs", "configurations"], for_all="all solutions and optima in small grids, with elementary functions replaced by arbitrary functions of their arguments, for 21 of the 24 functions",
  why="the reference values of the functions are not part of the test suite that runs; a wrong constant, exponent, rotation or transformation order changes values slightly and in some places only",
  files=["src/suite_bbob.c", "src/suite_sbox_cost.c", "src/f_ellipsoid.c", "src/f_rastrigin.c", "src/f_schwefel.c", "src/f_katsuura.c", "src/f_lunacek_bi_rastrigin.c", "src/transform_vars_oscillate.c", "src/transform_vars_asymmetric.c"],
  mech=[("construction of the problems", "src/suite_bbob.c:coco_get_bbob_problem"), ("functions", "src/f_*.c")],
  observe=["coco_evaluate_function"],
  level_note="2 variables (thorough: 3 for some), few values per coordinate, libm results restricted to +-{1/2,1,2,4}"),
 dict(id="P10", title="Logging happens exactly at the documented evaluations and targets",
  statement="An evaluation triggers a line exactly when its number is the integer part of a power of ten on the documented logarithmic grid, or the dimension times a base evaluation times a power of ten. A value triggers a line exactly when it is the first to reach a target of the logarithmic (below the precision: linear) target grid that no earlier value reached, also for negative values.",
  over=["histories", "inputs", "configurations"], for_all="all evaluation numbers, dimensions and base evaluations up to the bounds; all short sequences of values from a grid over eleven decades of both signs",
  why="tests check a few fixed sequences; a trigger skipped or repeated shows only for particular numbers or after particular jumps over several targets",
  files=["src/coco_observer.c", "src/coco_utilities.c"], state=["value", "next_value", "exponent"],
  mech=[("evaluation triggers", "src/coco_observer.c:coco_observer_evaluations_trigger"), ("targets", "src/coco_observer.c:coco_observer_targets_trigger")],
  observe=["coco_observer_evaluations_trigger", "coco_observer_targets_trigger"],
  level_note="evaluations 1..60 with any dimension up to 31 (or 1..40 with any base); 3 or 4 values"),
 dict(id="P11", title="The data written for a run is the true record of its evaluations",
  statement="For every run of a single-objective problem, the written files hold, for each evaluation that reaches a new target or is on the evaluation grid, the right evaluation counts, best difference to the optimum, value, best value, constraint violation digits and solution, and always a line for the last evaluation. The index file names function, dimension, instance, number of evaluations and final value of each run in the right group, every file belongs to its run, and recommendations are recorded without counting as evaluations. Nothing is written for a run without evaluations, and everything is flushed and released when the problem is freed.",
  over=["histories", "inputs", "configurations"], for_all="all short sequences of evaluations, recommendations and restarts with arbitrary values, optima and constraint violations; two successive runs with any instances",
  why="tests only check that the code runs; a wrong column, a missing last line or a line in the wrong file shows for particular histories only",
  files=["src/logger_bbob.c", "src/coco_observer.c", "src/coco_utilities.c", "src/observer_bbob.c"], state=["best_solution_value", "last_logged_eval_dat", "last_logged_eval_tdat", "number_of_evaluations"],
  mech=[("rows", "src/logger_bbob.c:logger_bbob_output"), ("evaluation", "src/logger_bbob.c:logger_bbob_evaluate"), ("last rows", "src/logger_bbob.c:logger_bbob_free"), ("index file", "src/logger_bbob.c:logger_bbob_openIndexFile"), ("recommendation", "src/logger_bbob.c:logger_bbob_recommend")],
  observe=["contents of the .info, .dat, .tdat, .rdat and .mdat files"],
  level_note="2 or 3 evaluations of a 2-dimensional problem, up to 2 constraints, 2 targets per decade, against an in-memory file system"),
 dict(id="P12", title="The sorted set of solutions stays a correct ordered set",
  statement="After any insertion or deletion, the search tree that holds the solutions of a bi-objective archive contains exactly the items inserted and not deleted, in order in both directions, found by search, counted rightly and balanced. Duplicates are refused, searching for an absent item finds its predecessor, and each deleted item is released exactly once.",
  over=["histories", "inputs"], for_all="all balanced trees of up to 7 items and all positions of an insertion, deletion or search in them",
  why="which rotations happen depends on the history; tests insert a few random numbers and look at the order only",
  files=["src/mo_avl_tree.c"], state=["links, counts and depths of the nodes"],
  mech=[("insertion", "src/mo_avl_tree.c:avl_item_insert"), ("deletion", "src/mo_avl_tree.c:avl_node_unlink"), ("rotations", "src/mo_avl_tree.c:avl_rebalance"), ("search", "src/mo_avl_tree.c:avl_item_search_right")],
  observe=["avl_item_insert", "avl_item_delete", "avl_item_search_right", "walk along head/next and tail/prev"],
  level_note="inductive step: one operation on any balanced tree of up to 7 items in 3 levels"),
 dict(id="P13", title="The bi-objective archive is the set of non-dominated solutions",
  statement="After adding any solutions in any order, the archive holds exactly the ones no other is at least as good as, always with both extremes; adding reports whether the solution was taken. The hypervolume equals the area of the region of interest dominated by the solutions added, and the texts come out extremes first and then in the order of the second objective, each once.",
  over=["histories", "inputs"], for_all="all sequences of up to 3 solutions on a grid in and around the region of interest, including solutions equal, dominated and as good as the extremes",
  why="tests add one fixed list of solutions; removal of several dominated solutions, ties and solutions outside of the region of interest depend on the order of addition",
  files=["src/coco_archive.c", "src/mo_utilities.c"], state=["tree", "number_of_solutions", "hypervolume"],
  mech=[("addition", "src/coco_archive.c:coco_archive_add_solution"), ("indicator", "src/coco_archive.c:coco_archive_update"), ("dominance", "src/mo_utilities.c:mo_get_dominance")],
  observe=["coco_archive_add_solution", "coco_archive_get_number_of_solutions", "coco_archive_get_hypervolume", "coco_archive_get_next_solution_text"],
  level_note="2 or 3 solutions on a 6x6 grid; the sorted set itself is replaced by a table (P12 decides the tree)"),
]
