/* P08: optimal solution and value of the single-objective functions */
//VP optimum defs=FUN=1,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=2,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=4,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=5,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=6,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=7,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=8,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=9,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=10,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=11,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=12,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=13,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=14,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=15,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=16,VP_EXACT_CONSTANTS,VP_POW3,VP_COS_PI doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=17,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=18,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=19,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=20,VP_EXACT_CONSTANTS,VP_FACT_SCHWEFEL doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=24,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum in [-4,4] and offset in [-16,16] (multiples of 1/16)"
//VP optimum defs=FUN=23,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables, any optimum and offset"
//VP never_below defs=FUN=1,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=2,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=4,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=5,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=6,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=7,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=8,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=9,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=10,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=11,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=12,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=13,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=14,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=15,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=17,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=18,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=19,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP never_below defs=FUN=24,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in [-8,8], any optimum and offset"
//VP optimum defs=FUN=1,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=2,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=4,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=5,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=6,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=7,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=8,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=9,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=10,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=11,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=12,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=13,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=14,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=17,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=18,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=19,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="boxed suite, 2 variables"
//VP optimum defs=FUN=3,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=thorough bound="boxed suite, 2 variables"
//VP optimum defs=FUN=15,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=thorough bound="boxed suite, 2 variables"
//VP optimum defs=FUN=16,BOXED,VP_EXACT_CONSTANTS,VP_POW3,VP_COS_PI doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=thorough bound="boxed suite, 2 variables"
//VP optimum defs=FUN=23,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=thorough bound="boxed suite, 2 variables"
//VP optimum defs=FUN=24,BOXED,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=thorough bound="boxed suite, 2 variables"
//VP optimum defs=FUN=1,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP optimum defs=FUN=2,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP optimum defs=FUN=3,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP optimum defs=FUN=5,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP optimum defs=FUN=7,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP optimum defs=FUN=8,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP optimum defs=FUN=9,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP optimum defs=FUN=10,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP optimum defs=FUN=11,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP optimum defs=FUN=12,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP optimum defs=FUN=13,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP optimum defs=FUN=14,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP optimum defs=FUN=24,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables"
//VP never_below defs=FUN=1,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in [-8,8]"
//VP never_below defs=FUN=2,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in [-8,8]"
//VP never_below defs=FUN=5,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in [-8,8]"
//VP never_below defs=FUN=7,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in [-8,8]"
//VP never_below defs=FUN=8,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in [-8,8]"
//VP never_below defs=FUN=9,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in [-8,8]"
//VP never_below defs=FUN=10,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in [-8,8]"
//VP never_below defs=FUN=11,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in [-8,8]"
//VP never_below defs=FUN=12,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in [-8,8]"
//VP never_below defs=FUN=13,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in [-8,8]"
//VP never_below defs=FUN=14,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in [-8,8]"
//VP never_below defs=FUN=24,PN=3,VP_EXACT_CONSTANTS doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in [-8,8]"
//ASSUMES the pseudo-random ingredients (optimum, rotations, offsets) come from a double: the rotations are signed permutations
//ASSUMES the Gallagher functions (21, 22) are not covered (solver out of reach)
#include "vp.h"
#include "coco_amalg.c"
#ifndef PN
#define PN 2
#endif
#ifndef LIMIT
#define LIMIT 63
#endif
#ifdef BOXED
#define SUITE coco_get_bbob_boxed_problem
#else
#define SUITE coco_get_bbob_problem
#endif
static coco_problem_t *instance(void) {
  size_t i;
  for (i = 0; i < PN; i++) { vp_leg_xopt[i] = in_sixteenth(-LIMIT, LIMIT); VP_ASSUME(vp_leg_xopt[i] != 0.0); vp_leg_unif[i] = in_bool() ? 0.25 : 0.75; }
  vp_leg_fopt = in_sixteenth(-255, 255);
#ifdef FIXED
  vp_leg_fixed = 1;
#endif
  return SUITE(FUN, PN, 1);
}
/* Schwefel's optimum is known to 9 digits only */
static int same(double a, double b) { return FUN == 20 ? fabs(a - b) <= 1e-8 : vp_close(a, b); }
void optimum(void) {
  coco_problem_t *p = instance();
  double y[1];
  size_t i;
  VP_CHECK(same(coco_problem_get_best_value(p), vp_leg_fopt), "the optimal value is the one of the instance");
  for (i = 0; i < PN; i++) VP_CHECK(p->best_parameter[i] >= -5.0 && p->best_parameter[i] <= 5.0, "the optimal solution lies in the region of interest");
  coco_evaluate_function(p, p->best_parameter, y);
  VP_CHECK(same(y[0], vp_leg_fopt), "the optimal solution has the optimal value");
  VP_CHECK(coco_problem_final_target_hit(p), "the optimal solution hits the final target");
  VP_REACH("optimum");
  coco_problem_free(p);
  VP_CHECK(vp_live_blocks == 0, "nothing leaks");
}
void never_below(void) {
  coco_problem_t *p = instance();
  double x[PN], y[1];
  size_t i;
  for (i = 0; i < PN; i++) x[i] = in_sixteenth(-127, 127);
  coco_evaluate_function(p, x, y);
  VP_CHECK(y[0] >= coco_problem_get_best_value(p), "no solution is better than the optimum");
  VP_REACH("evaluated");
}
