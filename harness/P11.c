/* P11: what the bbob logger writes */
//VP history defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,LEN=3 redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="3 evaluations, any values fopt + {0,1/16..8}, any optimum -4..3, restarts anywhere"
//VP history defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,LEN=2,PC=1,GEVALS=1 redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="2 evaluations with a constraint of any size, one constraint evaluation before each, restarts anywhere"
//VP history defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,LEN=2,PC=2,GEVALS=0 redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="2 evaluations with two constraints of any size, restarts anywhere"
//VP history defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,LEN=3,UNKNOWN redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="3 evaluations of a problem with unknown optimum"
//VP history defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,LEN=2,UNKNOWN,PC=1,GEVALS=0 redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="2 evaluations of a constrained problem with unknown optimum"
//VP history defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,LEN=2,NONFINITE redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="2 evaluations, values may be NaN or infinite"
//VP history defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,LEN=2,NOISY redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="2 evaluations of a noisy problem: the noise-free value is logged"
//VP history defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,LEN=2,INTEGERS redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="2 evaluations of a mixed-integer problem, integers logged as integers"
//VP recommendations defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,LEN=3,SEQ=6 redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="an evaluation and two recommendations, any values"
//VP recommendations defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,LEN=3,SEQ=5 redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="a recommendation, an evaluation, a recommendation, any values"
//VP recommendations defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,LEN=1,SEQ=1 redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="a recommendation and no evaluation"
//VP two_runs defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,FUN2=7,DIM2=2 redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="two runs one after the other: function 7 dimension 2, then function 7 dimension 2, any instances and values"
//VP two_runs defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,FUN2=7,DIM2=1 redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="two runs one after the other: function 7 dimension 2, then function 7 dimension 1, any instances and values"
//VP two_runs defs=VP_RECORD_FILES,VP_TEN_TABLE,VP_TEN_N=102,FUN2=9,DIM2=2 redefine=COCO_PATH_MAX:80 unwind=260 checks=user bound="two runs one after the other: function 7 dimension 2, then function 9 dimension 2, any instances and values"
#include "vp.h"
#include "coco_amalg.c"
#include "vp_probe.h"
#ifndef LEN
#define LEN 3
#endif
#define NT 2
#ifdef INTEGERS
#define INTS 1
#else
#define INTS 0
#endif
#ifdef UNKNOWN
#define LIN 0.25
#define KNOWN 0
#else
#define LIN 4096.0
#define KNOWN 1
#endif
static double fopt;
static double next_y;                 /* the value of the next evaluation */
#ifdef NOISY
static double probe_value(void) { return next_y + 0.5; }
#else
static double probe_value(void) { return next_y; }
#endif
static size_t logged_d, logged_t, logged_r, logged_m;
/* the row every data file may get now: numbers of evaluations, best - fopt, value, best, constraint digits, x */
static size_t row_f, row_g;
static double row_gap, row_value, row_best, row_c[PC + 1], row_x[PN];
static int row_final;
static size_t info_function, info_dim, info_instance, info_evals; static double info_best; static int info_heads, info_tails;
#ifdef FUN2
static vp_file_t *seq_file[40], *dat_of[8]; static char seq_kind[40]; static uint64_t seq_u[40]; static double seq_d[40]; static size_t seq_line[40], nseq;
#endif
static int digit_of(double c) {
  return c <= 0 ? 0 : c <= 1e-7 ? 1 : c <= 1e-6 ? 2 : c <= 1e-5 ? 3 : c <= 1e-4 ? 4 : c <= 1e-3 ? 5 : c <= 1e-2 ? 6 : c <= 1e-1 ? 7 : c <= 1 ? 8 : 9;
}
static void vp_on_value(vp_file_t *f, char kind, double d, uint64_t u, const char *s) {
  (void)s;
#ifdef FUN2
  if (f->kind == 'i') { seq_file[nseq] = f; seq_kind[nseq] = kind; seq_u[nseq] = u; seq_d[nseq] = d; seq_line[nseq] = f->line; nseq++; }
  return;
#endif
  if (f->kind == 'i') {
    if (f->line == 0 && kind == 'u' && f->col == 1) VP_CHECK(u == info_function, "the index file names the function");
    if (f->line == 0 && kind == 'u' && f->col == 2) VP_CHECK(u == info_dim, "the index file names the dimension");
    if (f->line == 2 && f->col == 1) VP_CHECK(kind == 'u' && u == info_instance, "the index file names the instance");
    if (f->line == 2 && f->col == 2) VP_CHECK(kind == 'u' && u == info_evals, "the index file tells the number of evaluations");
    if (f->line == 2 && f->col == 3) { VP_CHECK(kind == 'd' && d == info_best, "the index file tells the distance of the best value to the optimum"); info_tails++; }
    return;
  }
  if (f->col == 0) VP_CHECK(kind == 'u' && u == row_f, "a line tells the number of evaluations");
  else if (f->col == 1) VP_CHECK(kind == 'u' && u == row_g, "a line tells the number of constraint evaluations");
  else if (f->col == 2) VP_CHECK(kind == 'd' && vp_close(d, row_gap), "a line tells the distance of the best value so far to the optimum");
  else if (f->col == 3) VP_CHECK(kind == 'd' && vp_close(d, row_value), "a line tells the value of this evaluation");
  else {
    size_t c = f->col - 4;
    if (PC > 0 && !row_final) {
      if (c < PC) { VP_CHECK(kind == 'u' && (int)u == digit_of(row_c[c]), "a line tells the size of every constraint value"); return; }
      c -= PC;
    } else {
      if (c == 0) { VP_CHECK(kind == 'd' && vp_close(d, row_best), "a line tells the best value so far"); return; }
      c -= 1;
    }
#ifdef INTEGERS
    if (c == 0) { VP_CHECK(kind == 'u' && (double)(int)u == row_x[0], "an integer variable is logged as this integer"); return; }
#endif
    VP_CHECK(c < PN && kind == 'd' && d == row_x[c < PN ? c : 0], "a line tells the solution");
  }
}
static void vp_on_line(vp_file_t *f) {
#ifdef FUN2
  if (f->kind == 'd') dat_of[logged_d++] = f;
  return;
#endif
  if (f->kind == 'i') return;
  VP_CHECK(f->col == 4 + PN + (PC > 0 && !row_final ? PC : 1), "a line is complete");
  if (f->kind == 'd') logged_d++;
  else if (f->kind == 't') logged_t++;
  else if (f->kind == 'r') logged_r++;
  else if (f->kind == 'm') logged_m++;
  else VP_CHECK(0, "no line is written to another file");
}
#ifdef INTEGERS
#define XVAL(i, k) ((k) == 0 ? (double)(3 - 5 * (i)) : 0.25 * (double)((i) + 1) - 3.0)
#else
#define XVAL(i, k) (0.25 * (double)((i) + 1) - 3.0 * (double)(k))
#endif
static coco_suite_t the_suite;
static coco_observer_t *observer(void) {
  coco_observer_t *o;
  coco_option_keys_t *keys = NULL;
  o = coco_observer_allocate("res", "bbob", "ALG", "", NT, 1e-8, LIN, 20, "1,2,5", 8, 15, 3, INTS);
  observer_bbob(o, "", &keys);
  coco_option_keys_free(keys);
  return o;
}
#ifdef UNKNOWN
/* the smallest multiple of the precision not below the value */
static int64_t targets_left(double v) {
  int64_t s = (int64_t)(v * 16.0);
  return s >= 0 ? (s + 3) / 4 : -((-s) / 4);
}
#else
/* the number of targets 10^(k/n), 0 not reached by a value */
static int targets_left(double v) {
  int k, top = 1;
  if (v == 0) return 0;
  for (k = -8 * NT; k <= 22 * NT; k++, top++) if (v <= vp_ten_power[k - VP_TEN_LOW]) return top;
  return top;
}
#endif
#ifdef UNKNOWN
#define TARGETS int64_t
#else
#define TARGETS int
#endif
void history(void) {
  coco_observer_t *o = observer();
  coco_problem_t *inner = probe_problem(), *p;
  coco_observer_evaluations_t *twin;
  double x[PN], y[PM], c[PC + 1], best = 0, sofar[LEN];
  int restart = 0, i;
  size_t g = 0, k, last_d = 0, last_t = 0, nd = 0;
  static size_t was_logged[LEN];
  fopt = (double)in_int(-4, 3);
  the_suite.suite_name = (char *)"toy"; the_suite.known_optima = KNOWN;
  inner->best_value[0] = fopt;
  inner->suite = &the_suite; inner->suite_dep_function = info_function = 7; inner->suite_dep_instance = info_instance = 3; info_dim = PN;
  inner->is_opt_known = KNOWN;
#ifdef NOISY
  inner->is_noisy = 1;
#endif
#ifdef INTEGERS
  inner->number_of_integer_variables = 1;
#endif
  p = coco_problem_add_observer(inner, o);
  VP_CHECK(p != inner, "the observed problem is a new problem");
  twin = coco_observer_evaluations("1,2,5", PN);
  for (i = 0; i < LEN; i++) {
    double sum = 0, m, t = vp_ten_value[in_size(0, 7)], d = in_bool() ? 0.0 : t, logged, before = best;
    int fire_t, better, restarted = in_bool();
    size_t d0 = logged_d, t0 = logged_t, r0 = logged_r;
    for (k = 0; k < PN; k++) x[k] = row_x[k] = XVAL(i, k);
    for (k = 0; k < PC; k++) { probe_z[k] = row_c[k] = k > 0 ? (in_bool() ? -8.0 : 0.0) : in_bool() ? -t : in_bool() ? 0.0 : t; if (row_c[k] > 0) sum += row_c[k]; }
#if PC > 0
    for (k = 0; k < GEVALS; k++) { coco_evaluate_constraint(p, x, c); g++; VP_CHECK(logged_d == d0 && logged_t == t0 && logged_r == r0, "a constraint evaluation writes nothing"); }
#endif
    if (restarted) { coco_observer_signal_restart(o, p); if (i > 0) restart = 1; }
    next_y = sum > 0 && in_bool() ? fopt - d : fopt + d; /* infeasible solutions may have values below the optimum */
#ifdef UNKNOWN
    if (in_bool()) next_y = fopt - d;                    /* the reference value may be beaten */
#endif
    logged = next_y;
#ifdef NONFINITE
    if (in_bool()) { next_y = in_bool() ? NAN : in_bool() ? INFINITY : -INFINITY; logged = next_y != next_y ? 2e21 : 3e21; }
#endif
#ifdef NOISY
    inner->last_noise_free_values[0] = next_y;
#endif
    if (KNOWN) m = (logged > fopt ? logged : fopt) + sum;
    else m = sum > 0 ? 1e10 + sum : logged;
    better = i == 0 || m < best;
    if (better) best = m;
    row_f = (size_t)i + 1; row_g = g; row_gap = best - fopt; row_value = logged; row_best = best;
    fire_t = coco_observer_evaluations_trigger(twin, row_f + row_g);
    coco_evaluate_function(p, x, y);
    VP_CHECK(vp_same(y[0], probe_y[0]), "the logger does not change the value");
    VP_CHECK(logged_d - d0 <= 1 && logged_t - t0 <= 1 && logged_r - r0 <= 1, "an evaluation writes at most one line to each file");
    if (i == 0) VP_CHECK(logged_d == d0 + 1, "the first evaluation is logged");
    else {
      int j, dup = 0;
      if (!better) VP_CHECK(logged_d == d0, "an evaluation which is no improvement is not logged by target");
      else if (targets_left(best - fopt) < targets_left(before - fopt)) VP_CHECK(logged_d == d0 + 1, "an evaluation which reaches a new target is logged");
      for (j = 1; j < i; j++) if (was_logged[j] && targets_left(sofar[j] - fopt) == targets_left(best - fopt)) dup = 1;
      if (dup) VP_CHECK(logged_d == d0, "a target is logged once");
    }
    was_logged[i] = logged_d - d0; sofar[i] = best;
    if (logged_d > d0) last_d = row_f;
    VP_CHECK((int)(logged_t - t0) == (fire_t != 0), "exactly the evaluations selected by their number are logged in the tdat file");
    if (fire_t) last_t = row_f;
    VP_CHECK((int)(logged_r - r0) == restart, "exactly the first evaluation after a restart is logged in the rdat file");
    restart = 0;
    if (better) { for (k = 0; k < PN; k++) probe_gx[k] = x[k]; } /* the best solution */
  }
  VP_CHECK(coco_problem_get_evaluations(p) == LEN && coco_problem_get_evaluations_constraints(p) == g, "evaluations are counted once");
  VP_REACH("history");
  /* the end of the run: a last line with the best solution unless the last evaluation is there already */
  row_final = 1; row_value = best; for (k = 0; k < PN; k++) row_x[k] = probe_gx[k];
  info_evals = LEN; info_best = best - fopt;
  nd = logged_d; k = logged_t;
  p = coco_problem_remove_observer(p, o);
  VP_CHECK(p == inner, "removing the observer gives the problem back");
  VP_CHECK(logged_d == nd + (last_d != LEN) && logged_t == k + (last_t != LEN), "the last evaluation is always in the dat and tdat files");
  VP_CHECK(logged_m == 0, "evaluations do not write to the mdat file");
  VP_CHECK(vp_open_files == 0, "all files are closed");
  VP_CHECK(info_tails == 1, "the run is in the index file");
  coco_observer_evaluations_free(twin);
  coco_observer_free(o);
  coco_problem_free(inner);
  VP_CHECK(vp_live_blocks == 0, "observer and logger release everything");
}

#ifdef SEQ
/* bit i of SEQ: step i is a recommendation */
void recommendations(void) {
  coco_observer_t *o = observer();
  coco_problem_t *inner = probe_problem(), *p;
  double x[PN], y[PM], best = 0, rec = 0;
  int i, evals = 0, recs = 0, last_m = 0;
  size_t k, last_d = 0, last_t = 0;
  fopt = 1.0;
  the_suite.suite_name = (char *)"toy"; the_suite.known_optima = 1;
  inner->best_value[0] = fopt;
  inner->suite = &the_suite; inner->suite_dep_function = info_function = 7; inner->suite_dep_instance = info_instance = 3; info_dim = PN;
  p = coco_problem_add_observer(inner, o);
  for (i = 0; i < LEN; i++) {
    size_t d0 = logged_d, t0 = logged_t, m0 = logged_m;
    double t = vp_ten_value[in_size(0, 7)], d = in_bool() ? 0.0 : t;
    for (k = 0; k < PN; k++) x[k] = row_x[k] = XVAL(i, k);
    next_y = row_value = fopt + d;
    if (SEQ >> i & 1) {
      int better = recs == 0 || next_y < rec, target = recs == 0 || targets_left(next_y - fopt) < targets_left(rec - fopt);
      if (better) rec = next_y;
      row_f = (size_t)evals; row_gap = rec - fopt; row_best = rec;
      coco_recommend_solution(p, x);
      VP_CHECK(logged_d == d0 && logged_t == t0, "a recommendation is not logged as an evaluation");
      VP_CHECK((int)(logged_m - m0) == target, "exactly the recommendations which reach a new target are logged in the mdat file");
      if (logged_m > m0) last_m = evals;
      if (better) for (k = 0; k < PN; k++) probe_gx[k] = x[k];
      recs++;
    } else {
      if (evals == 0 || next_y < best) { best = next_y; for (k = 0; k < PN; k++) probe_g[k] = x[k]; }
      evals++;
      row_f = (size_t)evals; row_gap = best - fopt; row_best = best;
      coco_evaluate_function(p, x, y);
      VP_CHECK(logged_m == m0, "an evaluation is not logged as a recommendation");
      VP_CHECK(y[0] == next_y, "the value is returned");
      if (logged_d > d0) last_d = row_f;
      if (logged_t > t0) last_t = row_f;
    }
    VP_CHECK(coco_problem_get_evaluations(p) == (size_t)evals, "a recommendation is not counted as an evaluation");
  }
  VP_REACH("steps");
  row_final = 1;
  info_evals = (size_t)evals; info_best = best - fopt;
  if (evals == 0) {
    size_t d0 = logged_d, t0 = logged_t;
    info_best = DBL_MAX - fopt;
    p = coco_problem_remove_observer(p, o);
    VP_CHECK(logged_d == d0 && logged_t == t0, "without an evaluation nothing is logged in the dat and tdat files");
  } else {
    size_t d0 = logged_d, t0 = logged_t, m0 = logged_m;
    int m_final = last_m != 0 && last_m != evals;
    (void)m_final;
    row_f = (size_t)evals; row_value = row_best = best; row_gap = best - fopt;
    for (k = 0; k < PN; k++) row_x[k] = probe_g[k];
    p = coco_problem_remove_observer(p, o);
    VP_CHECK(logged_d == d0 + (last_d != (size_t)evals) && logged_t == t0 + (last_t != (size_t)evals), "the last evaluation is in the dat and tdat files");
    VP_CHECK(logged_m == m0, "nothing is added to the recommendations");
  }
  VP_CHECK(vp_open_files == 0, "all files are closed");
  VP_CHECK(info_tails == 1, "the run is in the index file");
  coco_observer_free(o);
  coco_problem_free(inner);
  VP_CHECK(vp_live_blocks == 0, "observer and logger release everything");
}
#endif

#ifdef FUN2
static void one_run(coco_observer_t *o, size_t dim, size_t fun, size_t inst, double gap) {
  coco_problem_t *inner = probe_problem(), *p;
  double x[PN] = {1.0, 2.0}, y[1];
  inner->number_of_variables = dim;
  inner->best_value[0] = 2.0; next_y = 2.0 + gap;
  inner->suite = &the_suite; inner->suite_dep_function = fun; inner->suite_dep_instance = inst;
  p = coco_problem_add_observer(inner, o);
  coco_evaluate_function(p, x, y);
  p = coco_problem_remove_observer(p, o);
  coco_problem_free(p);
}
static size_t run_at(size_t at, int new_line, size_t fun, size_t dim, size_t inst, double gap) {
  if (new_line) {
    VP_CHECK(seq_kind[at] == 's' && seq_kind[at + 1] == 'u' && seq_u[at + 1] == fun && seq_kind[at + 2] == 'u' && seq_u[at + 2] == dim, "a new entry of the index names function and dimension");
    at += 9;
    VP_CHECK(seq_kind[at - 1] == 's' && seq_line[at - 1] == seq_line[at - 2] + 2, "a new entry of the index names the data file");
  }
  VP_CHECK(seq_line[at] == seq_line[at - 1 + (at == 0)], "a run is added to the entry of its function and dimension");
  VP_CHECK(seq_kind[at] == 'u' && seq_u[at] == inst && seq_kind[at + 1] == 'u' && seq_u[at + 1] == 1 && seq_kind[at + 2] == 'd' && seq_d[at + 2] == gap, "every run is in the index with instance, evaluations and final distance to the optimum");
  return at + 3;
}
void two_runs(void) {
  coco_observer_t *o = observer();
  size_t i1 = in_size(1, 63), i2 = in_size(1, 63), at;
  double g1 = vp_ten_value[in_size(0, 7)], g2 = vp_ten_value[in_size(0, 7)];
  the_suite.suite_name = (char *)"toy"; the_suite.known_optima = 1;
  one_run(o, 2, 7, i1, g1);
  VP_CHECK(nseq == 12, "one run in the index");
  one_run(o, DIM2, FUN2, i2, g2);
  at = run_at(0, 1, 7, 2, i1, g1);
  if (FUN2 == 7 && DIM2 == 2) {
    VP_CHECK(nseq == 15, "runs on the same function and dimension share an entry");
    run_at(at, 0, 7, 2, i2, g2);
    VP_CHECK(vp_nfiles == 5 && dat_of[0] == dat_of[1], "runs on the same function and dimension share the files");
  } else {
    VP_CHECK(nseq == 24, "a run on another function or dimension starts a new entry");
    run_at(at, 1, FUN2, DIM2, i2, g2);
    VP_CHECK((seq_file[0] == seq_file[at]) == (FUN2 == 7), "there is one index file for each function");
    if (FUN2 == 7) VP_CHECK(seq_line[at] > seq_line[at - 1], "entries are separated");
    VP_CHECK(dat_of[0] != dat_of[1], "there is one data file for each function and dimension");
  }
  VP_REACH("two runs");
  VP_CHECK(vp_open_files == 0, "all files are closed");
  coco_observer_free(o);
  VP_CHECK(vp_live_blocks == 0, "observer and logger release everything");
}
#endif
