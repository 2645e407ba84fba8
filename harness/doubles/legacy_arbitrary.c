/* Test double of suite_bbob_legacy_code.c: the pseudo-random ingredients of the bbob functions (uniform numbers,
 * location of the optimum, optimal value, rotations) are chosen by the harness instead of computed from the seed: the
 * functions must be right whatever they are. Rotations are signed permutation matrices, different for different seeds. */
#include <math.h>
#include <stdio.h>
#include <assert.h>
#include "coco.h"
#ifndef VP_LEG_N
#define VP_LEG_N 8
#endif
static double vp_leg_unif[VP_LEG_N], vp_leg_xopt[VP_LEG_N], vp_leg_fopt;
static size_t vp_leg_boxed;
static void vp_legacy_unif(double *copy, size_t n) {
  size_t i;
  for (i = 0; i < n; i++) { vp_leg_unif[i] = in_double(); VP_ASSUME(vp_leg_unif[i] > 0.0 && vp_leg_unif[i] < 1.0); copy[i] = vp_leg_unif[i]; }
}
static double bbob2009_fmin(double a, double b) { return (a < b) ? a : b; }
static double bbob2009_fmax(double a, double b) { return (a > b) ? a : b; }
static double bbob2009_round(double x) { return floor(x + 0.5); }
static double **bbob2009_allocate_matrix(const size_t n, const size_t m) {
  double **matrix = (double **)coco_allocate_memory(sizeof(double *) * n);
  size_t i;
  for (i = 0; i < n; ++i) matrix[i] = coco_allocate_vector(m);
  return matrix;
}
static void bbob2009_free_matrix(double **matrix, const size_t n) {
  size_t i;
  for (i = 0; i < n; ++i) coco_free_memory(matrix[i]);
  coco_free_memory(matrix);
}
static int vp_leg_fixed; /* 1: fixed, pairwise different numbers */
static void bbob2009_unif(double *r, size_t N, long inseed) {
  size_t i;
  (void)inseed;
  for (i = 0; i < N; i++) r[i] = vp_leg_fixed ? (double)((i * 37 + 90) % 257) / 257.0 : vp_leg_unif[i % VP_LEG_N];
}
static void bbob2009_gauss(double *g, const size_t N, const long seed) { size_t i; (void)seed; for (i = 0; i < N; i++) g[i] = vp_leg_unif[i % VP_LEG_N]; }
static void bbob2009_compute_rotation(double **B, const long seed, const size_t DIM) {
  size_t i, j;
  for (i = 0; i < DIM; i++)
    for (j = 0; j < DIM; j++)
      B[i][j] = seed >= 1000000 ? (j == (i + 1) % DIM ? (i == 0 ? -1.0 : 1.0) : 0.0) : (j == DIM - 1 - i ? 1.0 : 0.0);
}
static void bbob2009_copy_rotation_matrix(double **rot, double *M, double *b, const size_t DIM) {
  size_t row, column;
  for (row = 0; row < DIM; ++row) {
    for (column = 0; column < DIM; ++column) M[row * DIM + column] = rot[row][column];
    b[row] = 0.0;
  }
}
static void bbob2009_compute_xopt(double *xopt, const long seed, const size_t DIM) { size_t i; (void)seed; for (i = 0; i < DIM; i++) xopt[i] = vp_leg_xopt[i % VP_LEG_N]; }
static void sbox_cost_compute_xopt(double *xopt, const long seed, const size_t DIM) { size_t i; (void)seed; vp_leg_boxed++; for (i = 0; i < DIM; i++) xopt[i] = vp_leg_xopt[i % VP_LEG_N]; }
static double bbob2009_compute_fopt(const size_t function, const size_t instance) { (void)function; (void)instance; return vp_leg_fopt; }
