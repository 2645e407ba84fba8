/* P06: variable transformations */
//VP transformation defs=T_SHIFT,PN=2 unwind=40 bound="2 variables, any solution, offset and inner optimum in [-16,16] (multiples of 1/16)"
//VP transformation defs=T_SHIFT,PN=2,PC=2 unwind=40 bound="the same with 2 constraints"
//VP transformation defs=T_SHIFT_CONS,PN=2,PC=2 unwind=40 bound="shift of the constraints only"
//VP transformation defs=T_SCALE,PN=2 unwind=40 bound="2 variables, factors 2^-4..2^4 with either sign"
//VP transformation defs=T_AFFINE,PN=2 unwind=40 timeout=500 bound="2 variables, one generic (non-orthogonal) matrix"
//VP transformation defs=T_AFFINE,PN=3,NICE,GRID=15 unwind=40 timeout=500 bound="3 variables, a rotation with reflection, any translation and inner optimum"
//VP transformation defs=T_AFFINE,PN=2,PC=2,NICE,GRID=31 unwind=40 timeout=500 bound="2 variables, 2 constraints, a rotation, any translation and inner optimum"
//VP transformation defs=T_OSZ,VP_COARSE_LIBM,VP_TINY_LIBM,PN=2,GRID=63 unwind=40 bound="2 variables in [-16,16]"
//VP transformation defs=T_OSZ,VP_COARSE_LIBM,VP_TINY_LIBM,PN=1,PC=1,GRID=63 unwind=40 bound="1 variable in [-16,16], 1 constraint"
//VP transformation defs=T_ASY,PN=3 unwind=40 bound="3 variables in [-16,16]"
//VP transformation defs=T_ASY,PN=3,PC=1 unwind=40 bound="3 variables in [-16,16], 1 constraint"
//VP transformation defs=T_COND,VP_COARSE_LIBM,PN=3 unwind=40 bound="3 variables in [-16,16]"
//VP transformation defs=T_BRS,VP_COARSE_LIBM,PN=3 unwind=40 bound="3 variables in [-16,16]"
//VP transformation defs=T_XHAT,PN=3 doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c unwind=40 bound="3 variables, any random signs"
//VP transformation defs=T_XHATG,PN=3 unwind=40 bound="3 variables, any signs"
//VP transformation defs=T_ZHAT,PN=3,GRID=15 unwind=40 bound="3 variables in [-16,16]"
//VP transformation defs=T_ROUND,PN=2 unwind=40 timeout=500 bound="2 variables in [-16,16], alpha 10"
//VP transformation defs=T_PERM,PN=4 unwind=40 bound="4 variables, every permutation"
//VP transformation defs=T_INVPERM,PN=4 unwind=40 bound="4 variables, every permutation"
//VP transformation defs=T_BLOCK,PN=3,BS1=1,BS2=2 unwind=40 bound="3 variables, blocks of sizes 1 and 2, every signed permutation in the blocks"
//VP transformation defs=T_BLOCK,PN=3,BS1=2,BS2=1 unwind=40 bound="3 variables, blocks of sizes 2 and 1, every signed permutation in the blocks"
//VP transformation defs=T_BOX,PN=2 unwind=40 bound="2 variables, any solution, any box"
//VP transformation defs=T_BOX,PN=2,PC=1 unwind=40 bound="2 variables, any solution, any box, 1 constraint"
//ASSUMES for the oscillation, conditioning and Bueche-Rastrigin transformations the results of libm calls are limited to signed powers of two (VP_COARSE_LIBM); arguments are unrestricted
//VP gradient defs=T_SHIFT,PN=2 unwind=40 bound="2 variables, any solution and inner gradient (multiples of 1/16 in [-16,16])"
//VP gradient defs=T_AFFINE,PN=2,GRID=31 unwind=40 timeout=400 bound="2 variables, one generic matrix, any solution and inner gradient"
//VP gradient defs=T_COND,VP_COARSE_LIBM,PN=3 unwind=40 timeout=400 bound="3 variables, any solution and inner gradient"
#include "vp.h"
#include "coco_amalg.c"
#include "vp_probe.h"
static double probe_value(void) { return in_double(); }

static double p0[PN], p1[PN], inner_best[PN];
static double factor;
static size_t P[PN];
#ifndef GRID
#define GRID 255
#endif
static double grid(void) { return in_sixteenth(-GRID, GRID); }
static size_t signs_or_zero; /* the transformation knows the optimum only if the inner one is zero */

#if defined(T_AFFINE) || defined(T_BLOCK)
static double M[PN][PN];
static void signed_permutation(size_t from, size_t to) {
  size_t i, j, n;
  for (i = from; i < to; i++)
    for (j = from; j < to; j++) {
      int s = in_int(-1, 1);
      M[i][j] = (double)s;
    }
  for (i = from; i < to; i++) {
    n = 0; for (j = from; j < to; j++) n += M[i][j] != 0; VP_ASSUME(n == 1);
    n = 0; for (j = from; j < to; j++) n += M[j][i] != 0; VP_ASSUME(n == 1);
  }
}
#endif
#if defined(T_PERM) || defined(T_INVPERM)
static void any_permutation(void) {
  size_t i, j;
  for (i = 0; i < PN; i++) P[i] = in_size(0, PN - 1);
  for (i = 0; i < PN; i++) for (j = 0; j < i; j++) VP_ASSUME(P[i] != P[j]);
}
#endif
static double osz(double x) {
  double t;
  if (x > 0) { t = log(x) / 0.1; return pow(exp(t + 0.49 * (sin(t) + sin(0.79 * t))), 0.1); }
  if (x < 0) { t = log(-x) / 0.1; return -pow(exp(t + 0.49 * (sin(0.55 * t) + sin(0.31 * t))), 0.1); }
  return 0;
}

/* builds the transformation around the probe */
static coco_problem_t *build(coco_problem_t *inner) {
  size_t i;
  (void)i;
#if defined(T_SHIFT) || defined(T_SHIFT_CONS)
  coco_problem_t *p;
  double offset[PN];
  for (i = 0; i < PN; i++) { offset[i] = p0[i] = grid(); inner->best_parameter[i] = grid(); }
#ifdef T_SHIFT_CONS
  p = transform_vars_shift(inner, offset, 1);
#else
  p = transform_vars_shift(inner, offset, 0);
#endif
  for (i = 0; i < PN; i++) offset[i] = 777; /* the transformation keeps a copy */
  return p;
#elif defined(T_SCALE)
  int e = in_int(-4, 4);
  factor = 1;
  for (i = 0; i < 4; i++) if ((int)i < (e < 0 ? -e : e)) factor = e < 0 ? factor / 2 : factor * 2;
  if (in_bool()) factor = -factor;
  for (i = 0; i < PN; i++) inner->best_parameter[i] = grid();
  return transform_vars_scale(inner, factor);
#elif defined(T_AFFINE)
  double m[PN * PN], b[PN];
  size_t j;
#ifdef NICE  /* orthogonal, not symmetric */
#if PN == 2
  static const double nice[PN][PN] = {{0, -1}, {1, 0}};
#else
  static const double nice[PN][PN] = {{0, -1, 0}, {0, 0, 1}, {1, 0, 0}};
#endif
  for (i = 0; i < PN; i++) { b[i] = p0[i] = grid(); inner->best_parameter[i] = grid(); }
#else
  static const double nice[PN][PN] = {{2, -0.5}, {3, 8}};
  for (i = 0; i < PN; i++) { b[i] = p0[i] = 0; inner->best_parameter[i] = 0; }
#endif
  for (i = 0; i < PN; i++) for (j = 0; j < PN; j++) M[i][j] = nice[i][j];
  for (i = 0; i < PN; i++) for (j = 0; j < PN; j++) m[i * PN + j] = M[i][j];
  return transform_vars_affine(inner, m, b, PN);
#elif defined(T_OSZ)
  return transform_vars_oscillate(inner);
#elif defined(T_ASY)
  factor = 0.5;
  return transform_vars_asymmetric(inner, 0.5);
#elif defined(T_COND)
  factor = 100;
  return transform_vars_conditioning(inner, 100.);
#elif defined(T_BRS)
  return transform_vars_brs(inner);
#elif defined(T_XHAT)
  for (i = 0; i < PN; i++) inner->best_parameter[i] = grid();
  { coco_problem_t *p; vp_legacy_unif(p0, PN); p = transform_vars_x_hat(inner, 12345); return p; }
#elif defined(T_XHATG)
  { static f_lunacek_bi_rastrigin_versatile_data_t vd; static double xh[PN];
    vd.x_hat = xh;
    for (i = 0; i < PN; i++) p0[i] = in_bool() ? 1.0 : -1.0;
    inner->versatile_data = &vd;
    return transform_vars_x_hat_generic(inner, p0); }
#elif defined(T_ZHAT)
  for (i = 0; i < PN; i++) p0[i] = grid();
  return transform_vars_z_hat(inner, p0);
#elif defined(T_ROUND)
  { static f_step_ellipsoid_versatile_data_t vd; inner->versatile_data = &vd; }
  for (i = 0; i < PN; i++) inner->best_parameter[i] = (double)in_int(-60, 60);
  return transform_vars_round_step(inner, 10.);
#elif defined(T_PERM)
  any_permutation();
  return transform_vars_permutation(inner, P, PN);
#elif defined(T_INVPERM)
  any_permutation();
  return transform_vars_inverse_permutation(inner, P, PN);
#elif defined(T_BLOCK)
  { double r[PN][PN]; const double *rows[PN]; size_t sizes[2] = {BS1, BS2}, j;
    coco_problem_t *p;
    signed_permutation(0, BS1); signed_permutation(BS1, PN);
    for (i = 0; i < PN; i++) {
      for (j = 0; j < PN; j++) r[i][j] = 777;
      if (i < BS1) for (j = 0; j < BS1; j++) r[i][j] = M[i][j];
      else for (j = BS1; j < PN; j++) r[i][j - BS1] = M[i][j];
      rows[i] = r[i];
    }
    p = transform_vars_blockrotation(inner, rows, PN, sizes, 2);
    return p; }
#elif defined(T_BOX)
  for (i = 0; i < PN; i++) {
    inner->smallest_values_of_interest[i] = p0[i] = in_finite();
    inner->largest_values_of_interest[i] = p1[i] = in_finite();
  }
  return transform_vars_enforce_box(inner);
#endif
}

/* the documented formula */
static void image(const double *x, double *z) {
  size_t i;
  for (i = 0; i < PN; i++) {
#if defined(T_SHIFT) || defined(T_SHIFT_CONS)
    z[i] = x[i] - p0[i];
#elif defined(T_SCALE)
    z[i] = factor * x[i];
#elif defined(T_AFFINE) || defined(T_BLOCK)
    size_t j;
    z[i] = p0[i];
    for (j = 0; j < PN; j++) z[i] += x[j] * M[i][j];
#elif defined(T_OSZ)
    z[i] = osz(x[i]);
#elif defined(T_ASY)
    z[i] = x[i] > 0 ? pow(x[i], 1.0 + ((factor * (double)i) / ((double)PN - 1.0)) * sqrt(x[i])) : x[i];
#elif defined(T_COND)
    z[i] = pow(factor, 0.5 * (double)i / ((double)PN - 1.0)) * x[i];
#elif defined(T_BRS)
    double f = pow(sqrt(10.0), (double)i / ((double)PN - 1.0));
    if (x[i] > 0 && i % 2 == 0) f *= 10.0;
    z[i] = f * x[i];
#elif defined(T_XHAT)
    z[i] = p0[i] < 0.5 ? -x[i] : x[i];
#elif defined(T_XHATG)
    z[i] = 2.0 * p0[i] * x[i];
#elif defined(T_ZHAT)
    z[i] = i == 0 ? x[0] : x[i] + 0.25 * (x[i - 1] - 2.0 * (p0[i - 1] < 0 ? -p0[i - 1] : p0[i - 1]));
#elif defined(T_ROUND)
    z[i] = fabs(x[i]) > 0.5 ? floor(x[i] + 0.5) : floor(10.0 * x[i] + 0.5) / 10.0;
#elif defined(T_PERM)
    z[i] = x[P[i]];
#elif defined(T_INVPERM)
    z[P[i]] = x[i];
#elif defined(T_BOX)
    z[i] = x[i];
#endif
  }
}

void transformation(void) {
  coco_problem_t *inner = probe_problem(), *p;
  double x[PN], x0[PN], z[PN], y[1], c[PC + 1], bp[PN];
  size_t i;
#ifdef T_SHIFT_CONS
  const int objective = 0;
#else
  const int objective = 1;
#endif
  int inside = 1;
  inner->best_value[0] = in_finite();
  p = build(inner);
  VP_CHECK(p != NULL && p != inner, "the transformation is a new problem");
  VP_CHECK(coco_problem_get_dimension(p) == PN && coco_problem_get_number_of_objectives(p) == 1 && coco_problem_get_number_of_constraints(p) == PC, "a transformation keeps the numbers of variables, objectives and constraints");
  VP_CHECK(coco_problem_get_best_value(p) == inner->best_value[0], "a transformation of the variables keeps the optimal value");
  for (i = 0; i < PN; i++) {
    VP_CHECK(coco_problem_get_smallest_values_of_interest(p)[i] == inner->smallest_values_of_interest[i] && coco_problem_get_largest_values_of_interest(p)[i] == inner->largest_values_of_interest[i], "a transformation keeps the region of interest");
#ifdef T_BOX
    x[i] = x0[i] = in_finite();
    if (x[i] < p0[i] || x[i] > p1[i]) inside = 0;
#else
    x[i] = x0[i] = grid();
#endif
  }
  image(x, z);
  coco_evaluate_function(p, x, y);
  for (i = 0; i < PN; i++) VP_CHECK(x[i] == x0[i], "a transformation does not change the solution");
  if (inside) {
    VP_CHECK(probe_calls == 1, "the inner function is evaluated once");
    VP_CHECK(vp_same(y[0], probe_y[0]), "a transformation of the variables passes the inner value through");
    for (i = 0; i < PN; i++) VP_CHECK(vp_close(objective ? probe_x[i] : x0[i], objective ? z[i] : x0[i]), "the inner function is evaluated at the transformed solution");
    if (!objective) for (i = 0; i < PN; i++) VP_CHECK(probe_x[i] == x0[i], "the objective is not transformed when only the constraints are");
    VP_REACH("inner");
  } else {
    VP_CHECK(probe_calls == 0 && y[0] > DBL_MAX, "outside the box the value is plus infinity");
#ifdef T_BOX
    VP_REACH("outside");
#endif
  }
  VP_CHECK(coco_problem_get_evaluations(p) == 1, "one evaluation");
#if PC > 0
  coco_evaluate_constraint(p, x, c);
  for (i = 0; i < PC; i++) VP_CHECK(vp_same(c[i], probe_z[i]), "the constraint values are passed through");
  for (i = 0; i < PN; i++) {
    VP_CHECK(x[i] == x0[i], "a transformation does not change the solution");
    VP_CHECK(vp_close(probe_cx[i], z[i]), "the constraints are evaluated at the transformed solution");
  }
  VP_CHECK(coco_problem_get_evaluations_constraints(p) == 1 && probe_cons_counted == 1, "one constraint evaluation");
#endif
#if !defined(T_ZHAT) && !defined(T_SHIFT_CONS) && !defined(T_BOX)
  for (i = 0; i < PN; i++) { inner_best[i] = inner->best_parameter[i]; bp[i] = p->best_parameter[i]; }
  image(bp, z);
  for (i = 0; i < PN; i++) VP_CHECK(vp_isnan(bp[i]) || vp_close(z[i], inner_best[i]), "the optimal solution is transformed into the inner optimal solution");
#endif
  (void)bp; (void)c;
  coco_problem_free(p);
  VP_CHECK(probe_freed == 1 && vp_live_blocks == 0, "freeing the transformation releases everything once");
}

#if defined(T_SHIFT) || defined(T_AFFINE) || defined(T_COND)
void gradient(void) {
  coco_problem_t *inner = probe_problem(), *p;
  double x[PN], x0[PN], z[PN], g[PN], want[PN];
  size_t i, j;
  p = build(inner);
  for (i = 0; i < PN; i++) { x[i] = x0[i] = grid(); probe_g[i] = grid(); }
  image(x, z);
  bbob_evaluate_gradient(p, x, g);
  for (i = 0; i < PN; i++) {
    VP_CHECK(x[i] == x0[i], "a gradient evaluation does not change the solution");
    VP_CHECK(vp_close(probe_gx[i], z[i]), "the inner gradient is taken at the transformed solution");
#if defined(T_SHIFT)
    want[i] = probe_g[i];
#elif defined(T_COND)
    want[i] = pow(factor, 0.5 * (double)i / ((double)PN - 1.0)) * probe_g[i];
#else
    want[i] = 0;
    for (j = 0; j < PN; j++) want[i] += probe_g[j] * M[j][i];
#endif
    VP_CHECK(vp_close(g[i], want[i]), "the gradient follows the chain rule");
  }
  (void)j;
  VP_CHECK(coco_problem_get_evaluations(p) == 0 && probe_calls == 0, "a gradient is not a function evaluation");
  VP_REACH("gradient");
  coco_problem_free(p);
  VP_CHECK(vp_live_blocks == 0, "nothing leaks");
}
#endif
