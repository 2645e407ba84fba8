/* P07: transformations of the objective value */
//VP objective defs=T_SHIFT,PN=2 unwind=40 bound="2 variables, any solution, value, optimum and offset (multiples of 1/16 in [-64,64])"
//VP objective defs=T_SHIFT,PN=2,PC=1 unwind=40 bound="the same with a constraint"
//VP objective defs=T_SHIFT,PN=2,PM=2 unwind=40 bound="the same with 2 objectives"
//VP objective defs=T_SCALE,PN=2 unwind=40 bound="any factor 2^-8..2^8"
//VP objective defs=T_SCALE,PN=2,PC=1 unwind=40 bound="the same with a constraint"
//VP objective defs=T_SCALE,PN=2,PM=2 unwind=40 bound="the same with 2 objectives"
//VP objective defs=T_POWER,PN=2 unwind=40 bound="any non-negative value, exponent 0.9"
//VP objective defs=T_OSC,VP_COARSE_LIBM,VP_TINY_LIBM,PN=2 unwind=40 timeout=500 bound="any value k/16 in [-64,64]"
//VP objective defs=T_PENALIZE,PN=2 unwind=40 timeout=500 bound="2 variables, any integer box around the optimum in [-3,3] and solution in [-7,7]"
//VP objective defs=T_NORM,PN=2 unwind=100 bound="2 variables: values unchanged"
//VP objective defs=T_NORM,PN=80 unwind=180 bound="80 variables: values halved"
//VP gradient defs=T_SHIFT,PN=2 unwind=40 bound="2 variables, any inner gradient"
//VP gradient defs=T_SCALE,PN=2 unwind=40 bound="2 variables, any inner gradient (multiples of 1/16), any factor 2^-8..2^8"
//ASSUMES for the oscillation the results of libm calls are limited to signed powers of two
#include "vp.h"
#include "coco_amalg.c"
#include "vp_probe.h"
static double inner_best_value; static int at_construction = 1;
static double probe_value(void) {
  if (at_construction) return inner_best_value;
#ifdef T_POWER
  { double v = in_finite(); VP_ASSUME(v >= 0); return v; }
#else
#if defined(T_PENALIZE) || defined(T_NORM)
  return in_sixteenth(-31, 31);
#else
  return in_sixteenth(-1023, 1023);
#endif
#endif
}
static double par, lo[PN], hi[PN];
static double power_of_two(void) {
  union { uint64_t b; double d; } v;
  unsigned k = (unsigned)in_size(0, 16);
  v.b = (uint64_t)(1015 + k) << 52;
  return v.d;
}
static double image(const double *x, double v) {
#if defined(T_SHIFT)
  return v + par;
#elif defined(T_SCALE)
  return v * par;
#elif defined(T_POWER)
  return pow(v, 0.9);
#elif defined(T_OSC)
  double l;
  if (v == 0) return v;
  l = log(fabs(v)) / 0.1;
  if (v > 0) return pow(exp(l + 0.49 * (sin(l) + sin(0.79 * l))), 0.1);
  return -pow(exp(l + 0.49 * (sin(0.55 * l) + sin(0.31 * l))), 0.1);
#elif defined(T_PENALIZE)
  double s = 0; size_t i;
  for (i = 0; i < PN; i++) { if (x[i] > hi[i]) s += (x[i] - hi[i]) * (x[i] - hi[i]); else if (x[i] < lo[i]) s += (lo[i] - x[i]) * (lo[i] - x[i]); }
  return v + 100.0 * s;
#elif defined(T_NORM)
  return PN <= 40 ? v : v * (40.0 / PN);
#endif
}
static coco_problem_t *build(coco_problem_t *inner) {
  size_t i;
  inner_best_value = 0;
#if defined(T_SHIFT) || defined(T_SCALE)
  inner_best_value = in_sixteenth(-1023, 1023);
#elif defined(T_POWER)
  inner_best_value = in_bool() ? 1.0 : 0.0;
#endif
  for (i = 0; i < PM; i++) inner->best_value[i] = inner_best_value;
#if defined(T_SHIFT)
  par = in_sixteenth(-1023, 1023);
  return transform_obj_shift(inner, par);
#elif defined(T_SCALE)
  par = power_of_two();
  return transform_obj_scale(inner, par);
#elif defined(T_POWER)
  return transform_obj_power(inner, 0.9);
#elif defined(T_OSC)
  return transform_obj_oscillate(inner);
#elif defined(T_PENALIZE)
  for (i = 0; i < PN; i++) { inner->smallest_values_of_interest[i] = lo[i] = (double)in_int(-3, 3); inner->largest_values_of_interest[i] = hi[i] = (double)in_int(-3, 3); VP_ASSUME(lo[i] < hi[i] && lo[i] <= 0 && hi[i] >= 0); }
  return transform_obj_penalize(inner, 100.0);
#elif defined(T_NORM)
  return transform_obj_norm_by_dim(inner);
#endif
}
void objective(void) {
  coco_problem_t *inner = probe_problem(), *p;
  double x[PN], x0[PN], y[PM], c[PC + 1];
  size_t i, before;
  p = build(inner);
  at_construction = 0;
  before = probe_calls;
  for (i = 0; i < PM; i++) VP_CHECK(vp_close(p->best_value[i], image(p->best_parameter ? p->best_parameter : x, inner_best_value)) || p->best_parameter == NULL, "the optimal value is transformed like every other value");
  VP_CHECK(coco_problem_get_evaluations(p) == 0, "building a transformation is not an evaluation of it");
  for (i = 0; i < PN; i++) {
    if (PM == 1) VP_CHECK(p->best_parameter[i] == inner->best_parameter[i], "a transformation of the objective keeps the optimal solution");
#ifdef T_PENALIZE
    x[i] = x0[i] = (double)in_int(-7, 7);
#else
    x[i] = x0[i] = i < 4 ? in_finite() : 0.0;
#endif
  }
  for (i = 0; i < PC; i++) { probe_z[i] = in_double(); VP_ASSUME(probe_z[i] == probe_z[i]); }
  coco_evaluate_function(p, x, y);
  VP_CHECK(probe_calls == before + 1, "the inner function is evaluated once");
  for (i = 0; i < PN; i++) VP_CHECK(x[i] == x0[i] && probe_x[i] == x0[i], "the inner function is evaluated at the solution itself");
  for (i = 0; i < PM; i++) VP_CHECK(vp_close(y[i], image(x0, probe_y[i])), "every objective value is transformed by the documented formula");
#if PC > 0
  coco_evaluate_constraint(p, x, c);
  for (i = 0; i < PC; i++) VP_CHECK(c[i] == probe_z[i], "a transformation of the objective keeps the constraint values");
  VP_CHECK(coco_problem_get_evaluations_constraints(p) == 1 && probe_cons_counted == 1, "one constraint evaluation");
#endif
  (void)c;
  VP_CHECK(coco_problem_get_evaluations(p) == 1, "one evaluation");
  VP_REACH("evaluated");
  coco_problem_free(p);
  VP_CHECK(probe_freed == 1, "freeing the transformation frees the inner problem once");
  VP_CHECK(vp_live_blocks == 0, "freeing the transformation releases everything");
}
#if defined(T_SHIFT) || defined(T_SCALE)
void gradient(void) {
  coco_problem_t *inner = probe_problem(), *p;
  double x[PN], g[PN];
  size_t i;
  p = build(inner);
  for (i = 0; i < PN; i++) { x[i] = in_finite(); probe_g[i] = in_sixteenth(-255, 255); }
  bbob_evaluate_gradient(p, x, g);
  for (i = 0; i < PN; i++) {
    VP_CHECK(probe_gx[i] == x[i], "the inner gradient is taken at the solution");
#ifdef T_SHIFT
    VP_CHECK(g[i] == probe_g[i], "a constant offset does not change the gradient");
#else
    VP_CHECK(vp_close(g[i], probe_g[i] * par), "the gradient is scaled like the objective");
#endif
  }
  VP_REACH("gradient");
  coco_problem_free(p);
  VP_CHECK(vp_live_blocks == 0, "nothing leaks");
}
#endif
