/* P05: non-finite solutions */
//VP function defs=PN=3,PM=1 unwind=40 bound="3 variables, every double including NaN and infinities, one objective"
//VP function defs=PN=2,PM=2 unwind=40 bound="2 variables, every double, two objectives"
//VP constraints defs=PN=2,PC=2 unwind=40 bound="2 variables, every double, two constraints"
//VP constraints defs=PN=2,PC=3,WRAP unwind=60 bound="2 variables, every double, three constraints, through a wrapper"
//VP function defs=PN=2,PM=1,WRAP unwind=60 bound="2 variables, every double, through a wrapper"
//VP chain defs=PN=2,PC=2 unwind=60 bound="2 variables, every double, shifted and scaled constrained problem"
#include "vp.h"
#include "coco_amalg.c"
#include "vp_probe.h"
static double probe_value(void) { return in_finite(); }
static coco_problem_t *make(void) {
  coco_problem_t *p = probe_problem();
#ifdef WRAP
  p = coco_problem_transformed_allocate(p, NULL, NULL, "wrapper");
#endif
  return p;
}
static int kind(const double *x) { /* 2: some infinity, 1: some NaN and no infinity, 0: finite */
  size_t i; int nan = 0, inf = 0;
  for (i = 0; i < PN; i++) { nan |= vp_isnan(x[i]); inf |= vp_isinf(x[i]); }
  return inf ? 2 : nan ? 1 : 0;
}
void function(void) {
  coco_problem_t *p = make();
  double x[PN], y[PM];
  size_t i, k;
  int what;
  for (i = 0; i < PN; i++) x[i] = in_double();
  what = kind(x);
  coco_evaluate_function(p, x, y);
  for (k = 0; k < PM; k++) {
    if (what == 2) VP_CHECK(y[k] == INFINITY, "an infinite coordinate gives +infinity in every objective");
    if (what == 1) VP_CHECK(vp_isnan(y[k]), "a NaN coordinate gives NaN in every objective");
    if (what == 0) VP_CHECK(y[k] == probe_y[k], "a finite solution gives the value of the function");
  }
  VP_CHECK(probe_calls == (what == 0), "the function is only called with finite solutions");
  VP_CHECK(coco_problem_get_evaluations(p) == (what == 0), "only evaluations of the function are counted");
  if (what != 0) VP_CHECK(coco_problem_get_best_observed_fvalue1(p) == DBL_MAX && p->best_observed_evaluation[0] == 0, "a non-finite solution never becomes the best observed");
  VP_REACH("function");
  coco_problem_free(p);
}
#if PC > 0
static void check_constraints(coco_problem_t *p) {
  double x[PN], z[PC + 1];
  size_t i, k;
  int what;
  for (i = 0; i < PN; i++) x[i] = in_double();
  for (k = 0; k < PC; k++) { probe_z[k] = in_finite(); z[k] = 77.0; }
  z[PC] = 55.0;
  what = kind(x);
  coco_evaluate_constraint(p, x, z);
  for (k = 0; k < PC; k++) {
    if (what == 2) VP_CHECK(z[k] == INFINITY, "an infinite coordinate gives +infinity in every constraint");
    if (what == 1) VP_CHECK(vp_isnan(z[k]), "a NaN coordinate gives NaN in every constraint");
    if (what == 0) VP_CHECK(z[k] == probe_z[k] , "a finite solution gives the values of the constraints");
  }
  VP_CHECK(z[PC] == 55.0, "nothing is written beyond the constraint vector");
  VP_CHECK(coco_problem_get_evaluations_constraints(p) == (what == 0), "only evaluations of the constraints are counted");
  if (what != 0) VP_CHECK(!coco_is_feasible(p, x, NULL), "a non-finite solution is not feasible");
  VP_REACH("constraints");
}
void constraints(void) {
  coco_problem_t *p = make();
  check_constraints(p);
  coco_problem_free(p);
}
void chain(void) {
  double off[PN] = {0.0, 0.0};
  coco_problem_t *p = transform_obj_shift(transform_vars_shift(probe_problem(), off, 0), 1.0);
  check_constraints(p);
  coco_problem_free(p);
}
#endif
