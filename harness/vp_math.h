/* libm. For the solver: uninterpreted (hence deterministic) functions constrained by facts that
 * hold for every conforming libm; in a replay: the real libm. */
#ifdef VP_TEN_TABLE
#include "vp_ten_data.h"
#endif
#ifdef VP_CBMC
#ifdef VP_COARSE_LIBM
/* the results are arbitrary anyway: no facts but the sign */
#define VP_FACT(c) ((void)0)
#define VP_SIGN(c) __CPROVER_assume(c)
/* Arithmetic on arbitrary 53-bit results is out of the solver's reach: with VP_COARSE_LIBM the (still arbitrary,
 * argument-dependent) results of libm are limited to the powers of two 2^-7..2^8 with either sign. */
static double vp_coarse(unsigned u) {
  union { uint64_t b; double d; } v;
#ifdef VP_TINY_LIBM /* only 1/2, 1, 2, 4 and their negatives */
  v.b = ((uint64_t)(1022 + (u & 3)) << 52) | ((uint64_t)((u >> 4) & 1) << 63);
  return v.d;
#endif
  v.b = ((uint64_t)(1016 + (u & 15)) << 52) | ((uint64_t)((u >> 4) & 1) << 63);
  return v.d;
}
unsigned __CPROVER_uninterpreted_cpow(double, double);
unsigned __CPROVER_uninterpreted_cexp(double);
unsigned __CPROVER_uninterpreted_clog(double);
unsigned __CPROVER_uninterpreted_clog10(double);
unsigned __CPROVER_uninterpreted_csin(double);
unsigned __CPROVER_uninterpreted_ccos(double);
unsigned __CPROVER_uninterpreted_csqrt(double);
#define VP_LIBM1(f, x) vp_coarse(__CPROVER_uninterpreted_c##f(x))
#define VP_LIBM2(f, x, y) vp_coarse(__CPROVER_uninterpreted_c##f(x, y))
#else
#define VP_FACT(c) __CPROVER_assume(c)
#define VP_SIGN(c) __CPROVER_assume(c)
#define VP_LIBM1(f, x) __CPROVER_uninterpreted_##f(x)
#define VP_LIBM2(f, x, y) __CPROVER_uninterpreted_##f(x, y)
#endif
double __CPROVER_uninterpreted_pow(double, double);
double __CPROVER_uninterpreted_exp(double);
double __CPROVER_uninterpreted_log(double);
double __CPROVER_uninterpreted_log10(double);
double __CPROVER_uninterpreted_sin(double);
double __CPROVER_uninterpreted_cos(double);
double __CPROVER_uninterpreted_sqrt(double);
double __CPROVER_uninterpreted_tan(double);

/* exactly representable results of pow and (correctly rounded) square roots of some constants */
static double vp_sqrt_const(double x) {
  if (x == 2.0) return 1.4142135623730951;
  if (x == 3.0) return 1.7320508075688772;
  if (x == 4.0) return 2.0;
  if (x == 5.0) return 2.23606797749979;
  if (x == 6.0) return 2.449489742783178;
  if (x == 8.0) return 2.8284271247461903;
  if (x == 9.0) return 3.0;
  if (x == 10.0) return 3.1622776601683795;
  if (x == 16.0) return 4.0;
  if (x == 20.0) return 4.47213595499958;
  if (x == 22.0) return 4.69041575982343;
  if (x == 23.0) return 4.795831523312719;
  if (x == 24.0) return 4.898979485566356;
  if (x == 25.0) return 5.0;
  if (x == 30.0) return 5.477225575051661;
  if (x == 40.0) return 6.324555320336759;
  if (x == 100.0) return 10.0;
  if (x == 1000.0) return 31.622776601683793;
  if (x == 10000.0) return 100.0;
  if (x == 1000000.0) return 1000.0;
  return -1.0;
}
static double vp_pow_const(double x, double y) {
  union { uint64_t b; double d; } v;
  unsigned n, i;
  double p = 1.0;
  if (!(y >= 1.0 && y <= 40.0)) return -1.0;
  n = (unsigned)y;
  if ((double)n != y) return -1.0;
  if (x == 2.0) { v.b = (uint64_t)(1023 + n) << 52; return v.d; }
  if (x == 0.5) { v.b = (uint64_t)(1023 - n) << 52; return v.d; }
#ifdef VP_POW3
  if (x == 3.0 && n <= 30) { for (i = 0; i < n; i++) p = p * 3.0; return p; }
#endif
  (void)i; (void)p;
  return -1.0;
}
#ifdef VP_TEN_TABLE
#include "vp_ten.h"
#endif
static double vp_pow(double x, double y) {
  double r;
  if (y == 0.0) return 1.0;
#ifdef VP_TEN_TABLE
  if (x == 10.0) return vp_pow10(y);
#endif
#ifdef VP_EXACT_CONSTANTS
  r = vp_pow_const(x, y);
  if (r > 0.0) return r;
#endif
  if (x == 1.0) return 1.0;
  if (x != x || y != y) return NAN;
  if (y == 1.0) return x;
  if (x == 0.0 && y > 0.0) { r = 0.0; return r; } /* sign of odd powers of -0.0 is not modelled */
  r = VP_LIBM2(pow, x, y);
  if (x >= 0.0 || y == 2.0) VP_SIGN(r >= 0.0);
  if (y == 2.0 && x >= -1.0 && x <= 1.0) VP_FACT(r <= 1.0);
  if (x > 1.0 && y > 0.0) VP_FACT(r >= 1.0);
  if (x > 1.0 && y < 0.0) VP_FACT(r <= 1.0);
  if (x > 0.0 && x < 1.0 && y > 0.0) VP_FACT(r <= 1.0);
  if (x >= 0.0 && x <= 1e3 && y > 0.0 && y <= 50.0) VP_FACT(r <= 1e150);
  if (x >= 0.0 && x <= 1e2 && y > 0.0 && y <= 20.0) VP_FACT(r <= 1.01e40);
  if (x >= 1.0 && y > 0.0 && y <= 1.0) VP_FACT(r <= x);
  if (x >= 1.0 && y >= 1.0) VP_FACT(r >= x);
  return r;
}
static double vp_exp(double x) {
  double r;
  if (x != x) return x;
  if (x == 0.0) return 1.0;
  r = VP_LIBM1(exp, x);
  VP_SIGN(r >= 0.0);
  if (x > 0.0) VP_FACT(r >= 1.0);
  if (x < 0.0) VP_FACT(r <= 1.0);
  if (x <= 700.0) VP_FACT(r <= 1.1e304);
  if (x <= 20.0) VP_FACT(r <= 4.9e8);
  return r;
}
static double vp_log(double x) {
  double r;
  if (x != x || x < 0.0) return NAN;
  if (x == 0.0) return -INFINITY;
  if (x == 1.0) return 0.0;
  if (x > DBL_MAX) return x;
  r = VP_LIBM1(log, x);
  VP_FACT(r >= -746.0 && r <= 710.0);
  if (x <= 1e6) VP_FACT(r <= 13.9);
  if (x > 1.0) VP_FACT(r > 0.0);
  if (x < 1.0) VP_FACT(r < 0.0);
  return r;
}
static double vp_log10(double x) {
  double r;
#ifdef VP_TEN_TABLE
  return vp_log10_table(x);
#endif
  if (x != x || x < 0.0) return NAN;
  if (x == 0.0) return -INFINITY;
  if (x == 1.0) return 0.0;
  if (x > DBL_MAX) return x;
  r = VP_LIBM1(log10, x);
  VP_FACT(r >= -324.0 && r <= 309.0);
  if (x > 1.0) VP_FACT(r > 0.0);
  if (x < 1.0) VP_FACT(r < 0.0);
  return r;
}
static double vp_sin(double x) {
  double r;
  if (x != x || x > DBL_MAX || x < -DBL_MAX) return NAN;
  if (x == 0.0) return x;
  r = VP_LIBM1(sin, x);
  VP_FACT(r >= -1.0 && r <= 1.0);
#ifdef VP_FACT_SCHWEFEL /* |cos| <= 0.11 between 20.50 and 20.53 */
  if (x >= 20.50 && x <= 20.53) { double d = fabs(x - 20.517522909211042) * 0.11 + 1e-15; VP_FACT(r >= 0.9952826449115785 - d && r <= 0.9952826449115785 + d); }
#endif
  return r;
}
static double vp_cos(double x) {
  double r;
  if (x != x || x > DBL_MAX || x < -DBL_MAX) return NAN;
  if (x == 0.0) return 1.0;
#ifdef VP_COS_PI /* odd multiples of pi: the error of the argument is far below what the result can show */
  if (x == 3.141592653589793) return -1.0;
  if (x == 9.42477796076938) return -1.0;
  if (x == 28.274333882308138) return -1.0;
  if (x == 84.82300164692441) return -1.0;
  if (x == 254.46900494077323) return -1.0;
  if (x == 763.4070148223198) return -1.0;
  if (x == 2290.221044466959) return -1.0;
  if (x == 6870.663133400878) return -1.0;
  if (x == 20611.989400202634) return -1.0;
  if (x == 61835.968200607895) return -1.0;
  if (x == 185507.90460182368) return -1.0;
  if (x == 556523.7138054711) return -1.0;
#endif
  r = VP_LIBM1(cos, x);
  VP_FACT(r >= -1.0 && r <= 1.0);
  return r;
}
static double vp_sqrt(double x) {
  double r;
  if (x != x || x < 0.0) return NAN;
  if (x == 0.0 || x == 1.0 || x > DBL_MAX) return x;
#ifdef VP_EXACT_CONSTANTS
  r = vp_sqrt_const(x);
  if (r > 0.0) return r;
#endif
  r = VP_LIBM1(sqrt, x);
  VP_SIGN(r > 0.0 && r <= DBL_MAX);
#ifdef VP_FACT_SCHWEFEL /* the slope of the square root is below 0.025 between 420.5 and 421.5 */
  if (x >= 420.5 && x <= 421.5) { double d = fabs(x - 420.96874633) * 0.025 + 1e-14; VP_FACT(r >= 20.517522909211042 - d && r <= 20.517522909211042 + d); }
#endif
  if (x > 1.0) VP_FACT(r >= 1.0 && r <= x);
  if (x < 1.0) VP_FACT(r <= 1.0 && r >= x);
  return r;
}
static double vp_tan(double x) { return __CPROVER_uninterpreted_tan(x); }
#define pow vp_pow
#define exp vp_exp
#define log vp_log
#define log10 vp_log10
#define sin vp_sin
#define cos vp_cos
#define sqrt vp_sqrt
#define tan vp_tan
#endif
