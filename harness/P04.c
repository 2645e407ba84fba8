/* P04: evaluation bookkeeping */
//VP history defs=PN=2,WRAP=0 unwind=40 bound="3 evaluations of a 2-variable problem, any finite solutions, any objective values (including NaN and infinities)"
//VP history defs=PN=2,WRAP=1 unwind=60 bound="3 evaluations through a wrapper, any finite solutions, any objective values"
//VP history tier=thorough defs=PN=3,STEPS=6,WRAP=1 unwind=60 timeout=1500 bound="6 evaluations through a wrapper"
//VP history_constrained defs=PN=2,PC=2,WRAP=0 unwind=40 bound="3 evaluations, 2 constraints with any values, constraint evaluations interleaved"
//VP history_constrained defs=PN=2,PC=2,WRAP=1 unwind=60 bound="3 evaluations through a wrapper, 2 constraints with any values"
//VP history_constrained tier=thorough defs=PN=2,PC=3,WRAP=1,STEPS=5 unwind=60 timeout=1500 bound="5 evaluations through a wrapper, 3 constraints"
//VP fresh defs=PN=2 unwind=40 bound="a problem without evaluations, any optimum value and target precision"
//VP multiobjective defs=PN=2,PM=2 unwind=40 bound="2 evaluations of a 2-objective problem"
#include "vp.h"
#include "coco_amalg.c"
#include "vp_probe.h"
#ifndef STEPS
#define STEPS 3
#endif
#ifndef WRAP
#define WRAP 0
#endif
static double probe_value(void) { return in_double(); }

static coco_problem_t *make(void) {
  coco_problem_t *p = probe_problem();
  p->best_value[0] = in_finite();
  p->final_target_delta[0] = in_range(0, 1e10);
  if (WRAP) p = coco_problem_transformed_allocate(p, NULL, NULL, "wrapper");
  return p;
}
void history(void) {
  coco_problem_t *p = make();
  double x[PN], x0[PN], y[1], best = DBL_MAX;
  size_t i, k, best_at = 0;
  for (k = 1; k <= STEPS; k++) {
    for (i = 0; i < PN; i++) x[i] = x0[i] = in_finite();
    coco_evaluate_function(p, x, y);
    VP_CHECK(probe_calls == k, "every evaluation calls the function once");
    for (i = 0; i < PN; i++) VP_CHECK(x[i] == x0[i] && probe_x[i] == x0[i], "the function sees the solution, which stays unchanged");
    VP_CHECK(vp_same(y[0], probe_y[0]), "the returned value is that of the function");
    if (probe_y[0] < best) { best = probe_y[0]; best_at = k; }
    VP_CHECK(coco_problem_get_evaluations(p) == k, "evaluations are counted");
    VP_CHECK(coco_problem_get_evaluations_constraints(p) == 0, "function evaluations do not count as constraint evaluations");
    VP_CHECK(coco_problem_get_best_observed_fvalue1(p) == best, "the best observed value is the smallest value returned so far");
    VP_CHECK(p->best_observed_evaluation[0] == best_at, "the best observed evaluation is the first with the best value");
    VP_CHECK(coco_problem_final_target_hit(p) == (best <= p->best_value[0] + p->final_target_delta[0]), "the final target is hit exactly when the best observed value reaches optimum + precision");
    VP_CHECK(coco_problem_get_final_target_fvalue1(p) == p->best_value[0] + p->final_target_delta[0], "final target value");
  }
  VP_REACH("history");
  coco_problem_free(p);
  VP_CHECK(probe_freed == 1 && vp_live_blocks == 0, "freeing releases everything once");
}
#if PC > 0
void history_constrained(void) {
  coco_problem_t *p = make();
  double x[PN], y[1], z[PC], best = DBL_MAX;
  size_t i, k, best_at = 0, cons = 0, feasible;
  for (k = 1; k <= STEPS; k++) {
    feasible = 1;
    for (i = 0; i < PN; i++) x[i] = in_finite();
    for (i = 0; i < PC; i++) { probe_z[i] = in_double(); VP_ASSUME(probe_z[i] == probe_z[i]); if (probe_z[i] > 0.0) feasible = 0; }
    if (in_bool()) {
      coco_evaluate_constraint(p, x, z);
      cons++;
      for (i = 0; i < PC; i++) VP_CHECK(z[i] == probe_z[i], "the constraint values are those of the constraint function");
    }
    coco_evaluate_function(p, x, y);
    VP_CHECK(vp_same(y[0], probe_y[0]), "the returned value is that of the function");
    if (feasible && probe_y[0] < best) { best = probe_y[0]; best_at = k; }
    VP_CHECK(coco_problem_get_evaluations(p) == k, "evaluations are counted");
    VP_CHECK(coco_problem_get_evaluations_constraints(p) == cons, "constraint evaluations are counted separately");
    VP_CHECK(coco_problem_get_best_observed_fvalue1(p) == best, "only feasible solutions become the best observed");
    VP_CHECK(p->best_observed_evaluation[0] == best_at, "the best observed evaluation is the first feasible with the best value");
    VP_CHECK(coco_problem_final_target_hit(p) == (best <= p->best_value[0] + p->final_target_delta[0]), "an infeasible solution never hits the final target");
  }
  VP_CHECK(probe_cons_counted == cons, "internal feasibility checks are not counted as constraint evaluations of the inner problem");
  VP_REACH("history");
  coco_problem_free(p);
  VP_CHECK(probe_freed == 1 && vp_live_blocks == 0, "freeing releases everything once");
}
#endif
void fresh(void) {
  coco_problem_t *p = make();
  VP_CHECK(coco_problem_get_evaluations(p) == 0 && coco_problem_get_evaluations_constraints(p) == 0, "a new problem has no evaluations");
  VP_CHECK(coco_problem_final_target_hit(p) == 0, "without evaluations the final target is not hit");
  VP_CHECK(coco_problem_get_best_observed_fvalue1(p) == DBL_MAX, "nothing observed yet");
  VP_REACH("fresh");
  coco_problem_free(p);
  VP_CHECK(vp_live_blocks == 0, "nothing leaks");
}
#if PM == 2
void multiobjective(void) {
  coco_problem_t *p = make();
  double x[PN], y[2];
  size_t i, k;
  for (k = 1; k <= 2; k++) {
    for (i = 0; i < PN; i++) x[i] = in_finite();
    coco_evaluate_function(p, x, y);
    VP_CHECK(vp_same(y[0], probe_y[0]) && vp_same(y[1], probe_y[1]), "both objective values are returned");
    VP_CHECK(coco_problem_get_evaluations(p) == k, "evaluations are counted once per solution, not per objective");
    VP_CHECK(coco_problem_final_target_hit(p) == 0, "the single-objective target does not apply");
  }
  VP_REACH("multiobjective");
  coco_problem_free(p);
  VP_CHECK(vp_live_blocks == 0, "nothing leaks");
}
#endif
