/* Test double of suite_toy.c: a suite whose size is given by the harness, with function and dimension
 * positions filtered out symbolically; its problems are plain one-variable problems that carry their
 * identity. The suite machinery itself (coco_suite.c) is the real one. */
#include "coco_problem.c"
#include "f_bueche_rastrigin.c"
#include "f_ellipsoid.c"
#include "f_linear_slope.c"
#include "f_rastrigin.c"
#include "f_rosenbrock.c"
#include "f_sphere.c"
static coco_suite_t *coco_suite_allocate(const char *suite_name, const size_t number_of_functions,
                                         const size_t number_of_dimensions, const size_t *dimensions,
                                         const char *default_instances, const int known_optima);
static coco_suite_t *vp_suite; /* the one suite of the harness */
static size_t vp_built, vp_freed;
static size_t vp_functions[TOY_NF], vp_dimensions[TOY_ND];
static void toy_eval(coco_problem_t *problem, const double *x, double *y) { (void)problem; y[0] = x[0]; }
static void toy_free(coco_problem_t *problem);
static double vp_best[1];
static coco_problem_t vp_pool = {.evaluate_function = toy_eval, .problem_free_function = toy_free, .number_of_objectives = 1, .best_value = vp_best}; /* all problems share one block: the pointer stays concrete for the solver */
static void toy_free(coco_problem_t *problem) {
  VP_CHECK(problem == &vp_pool && vp_freed + 1 == vp_built, "a problem of the suite is freed twice");
  vp_freed++;
}
static coco_suite_t *suite_toy_initialize(void) {
  coco_suite_t *suite;
  const size_t dimensions[] = {2, 3, 5, 10, 20, 40};
  size_t i;
  suite = coco_suite_allocate("toy", TOY_NF, TOY_ND, dimensions, TOY_INSTANCES, 1);
  for (i = 0; i < TOY_NF; i++) { if (in_bool()) suite->functions[i] = 0; vp_functions[i] = suite->functions[i]; }
  for (i = 0; i < TOY_ND; i++) { if (in_bool()) suite->dimensions[i] = 0; vp_dimensions[i] = suite->dimensions[i]; }
  vp_suite = suite;
  return suite;
}
static coco_problem_t *suite_toy_get_problem(coco_suite_t *suite, const size_t function_idx, const size_t dimension_idx,
                                             const size_t instance_idx) {
  coco_problem_t *problem = &vp_pool;
  VP_CHECK(vp_freed == vp_built, "the previous problem of the suite is still alive");
  problem->suite_dep_function = suite->functions[function_idx];
  problem->suite_dep_instance = suite->instances[instance_idx];
  problem->suite_dep_index = coco_suite_encode_problem_index(suite, function_idx, dimension_idx, instance_idx);
  problem->best_value[0] = (double)suite->dimensions[dimension_idx];
  vp_built++;
  return problem;
}
