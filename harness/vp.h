/* vp.h - common prelude of every harness.
 *
 * The same harness source is built twice:
 *   -DVP_CBMC    goto-cc/cbmc: inputs are symbolic, VP_CHECK is an assertion for the solver;
 *   -DVP_REPLAY  gcc + ASan/UBSan + the real libc/libm: inputs are read from a recorded
 *                counterexample, VP_CHECK ends the process with status 10.
 * It is followed by the amalgamated real sources of /repo/src ("coco_amalg.c").
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <ctype.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <errno.h>

static int vp_error_allowed;      /* 1: coco_error() is a legal outcome (the path ends there) */
static size_t vp_errors, vp_warnings, vp_live_blocks;

#ifdef VP_CBMC
double nondet_double(void);
uint64_t nondet_u64(void);
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_CHECK(c, msg) __CPROVER_assert((c), "VP: " msg)
#define VP_REACH(msg) __CPROVER_assert(0, "VPREACH: " msg)
static double in_double(void) { double vp_input = nondet_double(); return vp_input; }
static uint64_t in_u64(void) { uint64_t vp_input = nondet_u64(); return vp_input; }
static void vp_stop(void) { __CPROVER_assume(0); }
#else
static FILE *vp_replay_fd;
static const char *vp_entry_name;
static uint64_t in_u64(void) {
  unsigned long long v;
  if (!vp_replay_fd || fscanf(vp_replay_fd, "%llx", &v) != 1) { fprintf(stderr, "vp: recorded input exhausted\n"); _Exit(3); }
  return (uint64_t)v;
}
static double in_double(void) { uint64_t v = in_u64(); double d; memcpy(&d, &v, sizeof d); return d; }
static void vp_fail(const char *msg, const char *file, int line) {
  fflush(stdout);
  fprintf(stderr, "VP-CHECK-FAILED %s [%s:%d]\n", msg, file, line);
  _Exit(10);
}
#define VP_ASSUME(c) do { if (!(c)) { fprintf(stderr, "vp: assumption not met (%s:%d)\n", __FILE__, __LINE__); _Exit(4); } } while (0)
#define VP_CHECK(c, msg) do { if (!(c)) vp_fail(msg, __FILE__, __LINE__); } while (0)
#define VP_REACH(msg) do { } while (0)
static void vp_stop(void) { _Exit(0); }
#endif

/* the mask keeps the high bits constant for the solver */
static uint64_t vp_mask(uint64_t hi) { uint64_t m = 1; while (m < hi) m = m * 2 + 1; return hi == 0 ? 0 : m; }
static size_t in_size(size_t lo, size_t hi) { size_t v = (size_t)(in_u64() & vp_mask(hi)); VP_ASSUME(v >= lo && v <= hi); return v; }
static int in_int(int lo, int hi) { int v = (int)(in_u64() & vp_mask((uint64_t)((int64_t)hi - lo))) + lo; VP_ASSUME(v >= lo && v <= hi); return v; }
static int in_bool(void) { return (int)(in_u64() & 1); }
static char in_char(void) { return (char)(unsigned char)(in_u64() & 0xff); }
/* a finite double in [lo, hi] */
static double in_range(double lo, double hi) { double v = in_double(); VP_ASSUME(v >= lo && v <= hi); return v; }
static double in_finite(void) { double v = in_double(); VP_ASSUME(v >= -DBL_MAX && v <= DBL_MAX); return v; }
/* k/16 with k in [lo, hi]: every operation on such values is cheap for the solver and exact */
static double in_sixteenth(int lo, int hi) {
  unsigned m = (unsigned)(in_u64() & vp_mask((uint64_t)(-lo > hi ? -lo : hi)));
  int neg = lo < 0 ? in_bool() : 0;
  double r = (double)m * 0.0625;
  VP_ASSUME(neg ? m > 0 && (int)m <= -lo : (int)m <= hi);
  return neg ? -r : r;
}
static int vp_same(double a, double b) { return a == b || (a != a && b != b); }
/* the solver demands equality; a replay only reports what rounding in a different order cannot explain */
#ifdef VP_CBMC
#define vp_close(a, b) vp_same(a, b)
#else
static int vp_close(double a, double b) { return vp_same(a, b) || fabs(a - b) <= 1e-9 * (1.0 + fabs(b)); }
#endif
static int vp_isnan(double a) { return a != a; }
static int vp_isinf(double a) { return a > DBL_MAX || a < -DBL_MAX; }

/* ---- assertions inside the library -------------------------------------------------------------- */
#ifdef assert
#undef assert
#endif
#if defined(VP_CODE_ASSERTS)
#define assert(c) VP_CHECK((c), "assertion of the library: " #c)
#else
#define assert(c) ((void)0) /* as in the release (NDEBUG) build */
#endif

#define VP_STR1(x) #x
#define VP_STR(x) VP_STR1(x)

#include "vp_math.h"
#include "vp_io.h"
#include "vp_str.h"

#endif
