/* P09: the bbob functions follow their published definition (value for value) */
//VP value defs=FUN=1,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=2,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=5,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=6,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=7,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=8,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=9,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=10,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=11,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=12,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=13,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=14,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=17,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=18,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=19,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=3,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW,ONE=1 doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=400 tier=both bound="2 variables, one of them in {-3,1/4,5/4,13/2}"
//VP value defs=FUN=4,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW,ONE=1 doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=400 tier=both bound="2 variables, one of them in {-3,1/4,5/4,13/2}"
//VP value defs=FUN=15,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW,ONE=1 doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=400 tier=both bound="2 variables, one of them in {-3,1/4,5/4,13/2}"
//VP value defs=FUN=20,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW,ONE=1 doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=400 tier=both bound="2 variables, one of them in {-3,1/4,5/4,13/2}"
//VP value defs=FUN=23,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW,ONE=1 doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=400 tier=both bound="2 variables, one of them in {-3,1/4,5/4,13/2}"
//VP value defs=FUN=24,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW,ONE=1 doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=400 tier=both bound="2 variables, one of them in {-3,1/4,5/4,13/2}"
//VP value defs=FUN=1,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=5,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=7,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=8,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=9,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=12,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=13,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=14,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=17,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=18,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=19,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=300 tier=both bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=2,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=6,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=10,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=11,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=3,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=4,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=15,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=23,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=24,BOXED,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum, boxed suite"
//VP value defs=FUN=1,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=2,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=3,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=5,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=6,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=7,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=8,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=9,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=10,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=11,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=13,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=14,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=15,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=17,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=18,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=19,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-7,-5,..,7}, 4 locations of the optimum"
//VP value defs=FUN=4,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=12,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=15,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=23,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=24,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="2 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=1,PN=3,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=5,PN=3,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=8,PN=3,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=9,PN=3,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=13,PN=3,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//VP value defs=FUN=14,PN=3,VP_EXACT_CONSTANTS,VP_COARSE_LIBM,VP_TINY_LIBM,FEW doubles=suite_bbob_legacy_code.c:legacy_arbitrary.c checks=user unwind=260 timeout=1500 tier=thorough bound="3 variables in {-3,1/4,5/4,13/2}, 4 locations of the optimum"
//ASSUMES libm results are limited to {1/2,1,2,4} and their negatives but otherwise arbitrary functions of the arguments; square roots and powers of some constants are exact
//ASSUMES the pseudo-random ingredients (optimum, rotations, offsets) come from a double: the rotations are signed permutations
//ASSUMES the Weierstrass and Gallagher functions (16, 21, 22) are not covered here (solver out of reach); their optimum is covered by P08
#include "vp.h"
#include "coco_amalg.c"
#ifndef PN
#define PN 2
#endif
#ifdef FEW
static double any_x(void) { return in_bool() ? in_bool() ? 6.5 : 1.25 : in_bool() ? 0.25 : -3.0; }
#else
static double any_x(void) { unsigned k = (unsigned)(in_u64() & 7); return (double)k * 2.0 - 7.0; }
#endif
static double any_o(void) { return in_bool() ? 1.5 : -2.5; }
#define GX any_x()
#define OX any_o()
#define FX 12.5
#ifdef BOXED
#define SUITE coco_get_bbob_boxed_problem
#else
#define SUITE coco_get_bbob_problem
#endif
#define PI 3.14159265358979323846264338327950288
typedef double vec[PN];
#define LEG(i) ((double)(((i) * 37 + 90) % 257) / 257.0) /* the fixed numbers of legacy_arbitrary.c */
/* the rotations of the double legacy_arbitrary.c: R belongs to the seed + 1000000, Q to the seed itself */
static void R(const vec x, vec z) { size_t i; vec t; for (i = 0; i < PN; i++) t[i] = i == 0 ? -x[1 % PN] : x[(i + 1) % PN]; for (i = 0; i < PN; i++) z[i] = t[i]; }
static void Q(const vec x, vec z) { size_t i; vec t; for (i = 0; i < PN; i++) t[i] = x[PN - 1 - i]; for (i = 0; i < PN; i++) z[i] = t[i]; }
static double frac(size_t i) { return (double)i / (PN - 1.0); }
static void lambda(double a, vec z) { size_t i; for (i = 0; i < PN; i++) z[i] = pow(sqrt(a), frac(i)) * z[i]; }
static void lambda2(double a, vec z) { size_t i; for (i = 0; i < PN; i++) z[i] = pow(a, 0.5 * (double)i / (PN - 1.0)) * z[i]; }
static double osz1(double v) {
  double l;
  if (v == 0.0) return 0.0;
  l = log(fabs(v)) / 0.1;
  if (v > 0.0) return pow(exp(l + 0.49 * (sin(l) + sin(0.79 * l))), 0.1);
  return -pow(exp(l + 0.49 * (sin(0.55 * l) + sin(0.31 * l))), 0.1);
}
static void osz(vec z) { size_t i; for (i = 0; i < PN; i++) z[i] = osz1(z[i]); }
static void asy(double b, vec z) { size_t i; for (i = 0; i < PN; i++) if (z[i] > 0.0) z[i] = pow(z[i], 1.0 + ((b * (double)i) / (PN - 1.0)) * sqrt(z[i])); }
static void shift(const vec x, const vec o, vec z) { size_t i; for (i = 0; i < PN; i++) z[i] = x[i] - o[i]; }
static double pen(const vec x) { double s = 0; size_t i; for (i = 0; i < PN; i++) if (fabs(x[i]) > 5.0) s += (fabs(x[i]) - 5.0) * (fabs(x[i]) - 5.0); return s; }
static double rastrigin(const vec z) { double c = 0, s = 0; size_t i; for (i = 0; i < PN; i++) { c += cos(2.0 * PI * z[i]); s += z[i] * z[i]; } return 10.0 * (PN - c) + s; }
static double rnd(double v) { return floor(v + 0.5); }

static double definition(const vec x, const vec xopt, const vec u) {
  vec z, o;
  double s = 0, t, m;
  size_t i;
  (void)u; (void)t; (void)m;
  shift(x, xopt, z);
#if FUN == 1
  for (i = 0; i < PN; i++) s += z[i] * z[i];
#elif FUN == 2
  osz(z);
  for (i = 0; i < PN; i++) s += pow(1e6, frac(i)) * z[i] * z[i];
#elif FUN == 3
  osz(z); asy(0.2, z); lambda2(10.0, z);
  s = rastrigin(z);
#elif FUN == 4
  for (i = 0; i < PN; i++) o[i] = i % 2 == 0 ? fabs(xopt[i]) : xopt[i];
  shift(x, o, z); osz(z);
  for (i = 0; i < PN; i++) { t = pow(sqrt(10.0), frac(i)); if (z[i] > 0.0 && i % 2 == 0) t *= 10.0; z[i] = t * z[i]; }
  return rastrigin(z) + vp_leg_fopt + 100.0 * pen(x);
#elif FUN == 5
  for (i = 0; i < PN; i++) { t = pow(sqrt(100.0), frac(i)); o[i] = xopt[i] > 0.0 ? 5.0 : -5.0; if (xopt[i] < 0.0) t = -t; s += 5.0 * fabs(t) - t * (o[i] * x[i] < 25.0 ? x[i] : o[i]); }
#elif FUN == 6
  Q(z, z); lambda(10.0, z); R(z, z);
  for (i = 0; i < PN; i++) s += (xopt[i] * z[i] > 0.0 ? 1e4 : 1.0) * z[i] * z[i];
  s = pow(osz1(s), 0.9);
#elif FUN == 7
  Q(z, z);
  for (i = 0; i < PN; i++) z[i] = sqrt(pow(10.0, frac(i))) * z[i];
  t = fabs(z[0]) * 1e-4;
  for (i = 0; i < PN; i++) z[i] = fabs(z[i]) > 0.5 ? rnd(z[i]) : rnd(10.0 * z[i]) / 10.0;
  R(z, z);
  for (i = 0; i < PN; i++) s += pow(100.0, frac(i)) * z[i] * z[i];
  s = 0.1 * (t > s ? t : s) + pen(x);
#elif FUN == 8
  for (i = 0; i < PN; i++) z[i] = (x[i] - 0.75 * xopt[i]) + 1.0;
  for (i = 0; i + 1 < PN; i++) s += 100.0 * (z[i] * z[i] - z[i + 1]) * (z[i] * z[i] - z[i + 1]) + (z[i] - 1.0) * (z[i] - 1.0);
#elif FUN == 9 || FUN == 19
  Q(x, z);
  for (i = 0; i < PN; i++) z[i] += 0.5;
#if FUN == 9
  for (i = 0; i + 1 < PN; i++) s += 100.0 * (z[i] * z[i] - z[i + 1]) * (z[i] * z[i] - z[i + 1]) + (z[i] - 1.0) * (z[i] - 1.0);
#else
  for (i = 0; i + 1 < PN; i++) { t = 100.0 * (z[i] * z[i] - z[i + 1]) * (z[i] * z[i] - z[i + 1]) + (z[i] - 1.0) * (z[i] - 1.0); s += t / 4000.0 - cos(t); }
  s = 10.0 + 10.0 * s / (PN - 1.0);
#endif
#elif FUN == 10
  R(z, z); osz(z);
  for (i = 0; i < PN; i++) s += pow(1e6, frac(i)) * z[i] * z[i];
#elif FUN == 11
  R(z, z); osz(z);
  for (i = 0; i < PN; i++) s += (i == 0 ? 1e6 : 1.0) * z[i] * z[i];
#elif FUN == 12
  R(z, z); asy(0.5, z); R(z, z);
  for (i = 0; i < PN; i++) s += (i == 0 ? 1.0 : 1e6) * z[i] * z[i];
#elif FUN == 13
  Q(z, z); lambda(10.0, z); R(z, z);
  for (i = 1; i < PN; i++) s += z[i] * z[i];
  s = 100.0 * sqrt(s) + z[0] * z[0];
#elif FUN == 14
  R(z, z);
  for (i = 0; i < PN; i++) s += pow(fabs(z[i]), 2.0 + 4.0 * (double)i / (PN - 1.0));
  s = sqrt(s);
#elif FUN == 15
  R(z, z); osz(z); asy(0.2, z); Q(z, z); lambda(10.0, z); R(z, z);
  s = rastrigin(z);
#elif FUN == 17 || FUN == 18
  R(z, z); asy(0.5, z); Q(z, z); lambda(FUN == 17 ? 10.0 : 1000.0, z);
  for (i = 0; i + 1 < PN; i++) { t = z[i] * z[i] + z[i + 1] * z[i + 1]; s += pow(t, 0.25) * (1.0 + pow(sin(50.0 * pow(t, 0.1)), 2.0)); }
  return pow(s / (PN - 1.0), 2.0) + vp_leg_fopt + 10.0 * pen(x);
#elif FUN == 16
  { double f0 = 0, ak, bk; size_t k;
    R(z, z); osz(z); Q(z, z);
    for (i = 0; i < PN; i++) z[i] = pow(1.0 / sqrt(100.0), frac(i)) * z[i];
    R(z, z);
    for (k = 0; k < 12; k++) f0 += pow(0.5, (double)k) * cos(2.0 * PI * pow(3.0, (double)k) * 0.5);
    for (i = 0; i < PN; i++) for (k = 0; k < 12; k++) { ak = pow(0.5, (double)k); bk = pow(3.0, (double)k); s += cos(2.0 * PI * (z[i] + 0.5) * bk) * ak; }
    return 10.0 * pow(s / PN - f0, 3.0) + vp_leg_fopt + 10.0 / PN * pen(x); }
#elif FUN == 20
  { vec h; double p = 0;
    for (i = 0; i < PN; i++) h[i] = 2.0 * (u[i] < 0.5 ? -x[i] : x[i]);
    for (i = 0; i < PN; i++) z[i] = i == 0 ? h[0] : h[i] + 0.25 * (h[i - 1] - 4.2096874637);
    for (i = 0; i < PN; i++) z[i] = 100.0 * (pow(10.0, 0.5 * frac(i)) * (z[i] - 4.2096874637) + 4.2096874637);
    for (i = 0; i < PN; i++) { if (fabs(z[i]) > 500.0) p += (fabs(z[i]) - 500.0) * (fabs(z[i]) - 500.0); s += z[i] * sin(sqrt(fabs(z[i]))); }
    s = 0.01 * (p + 418.9828872724339 - s / PN); }
#elif FUN == 22
  { static const double big = 1000.0; size_t k, rank; double best = 0, d; vec c, q, al;
    /* peak k: location from the random numbers, rotated; its conditioning is ranked by the random numbers */
    Q(x, q);
    for (k = 0; k < 21; k++) {
      rank = 0;
      if (k > 0) { size_t n, l; for (l = 0; l < 20; l++) { n = 0; for (i = 0; i < 20; i++) n += LEG(i) < LEG(l); if (n == k - 1) rank = l; } }
      d = 0;
      for (i = 0; i < PN; i++) { c[i] = 9.8 * LEG(k * PN + i) - 4.9; }
      Q(c, c);
      for (i = 0; i < PN; i++) if (k == 0) c[i] *= 0.8;
      for (i = 0; i < PN; i++) { size_t n = 0, l, who = 0; for (l = 0; l < PN; l++) { size_t r2 = 0; for (n = 0; n < PN; n++) r2 += LEG(n) < LEG(l); if (r2 == i) who = l; }
        al[i] = pow(k == 0 ? big : pow(big, (double)rank / 19.0), (double)who / (PN - 1.0) - 0.5); }
      for (i = 0; i < PN; i++) d += al[i] * (q[i] - c[i]) * (q[i] - c[i]);
      t = (k == 0 ? 10.0 : (double)(k - 1) / 19.0 * (9.1 - 1.1) + 1.1) * exp(-0.5 / PN * d);
      if (t > best) best = t;
    }
    s = osz1(10.0 - best); s = s * s + pen(x); }
#elif FUN == 23
  { double pr = 1.0, w; size_t j;
    Q(z, z); lambda(100.0, z); R(z, z);
    for (i = 0; i < PN; i++) { t = 0; for (j = 1; j <= 32; j++) { w = pow(2.0, (double)j); t += fabs(w * z[i] - rnd(w * z[i])) / w; } pr *= pow(1.0 + (double)(i + 1) * t, 10.0 / pow((double)PN, 1.2)); }
    return 10.0 / PN / PN * (pr - 1.0) + vp_leg_fopt + pen(x); }
#elif FUN == 24
  { double sg, mu1, a = 0, b = 0, c = 0; vec h;
    sg = 1.0 - 0.5 / (sqrt((double)(PN + 20)) - 4.1); mu1 = -sqrt((2.5 * 2.5 - 1.0) / sg);
    for (i = 0; i < PN; i++) { h[i] = 2.0 * x[i]; if (u[i] < 0.0) h[i] = -h[i]; z[i] = h[i] - 2.5; a += (h[i] - 2.5) * (h[i] - 2.5); b += (h[i] - mu1) * (h[i] - mu1); }
    Q(z, z); lambda(100.0, z); R(z, z);
    for (i = 0; i < PN; i++) c += cos(2.0 * PI * z[i]);
    b = 1.0 * PN + sg * b;
    s = (a < b ? a : b) + 10.0 * (PN - c) + 1e4 * pen(x); }
#endif
  return s + vp_leg_fopt;
}
void value(void) {
  coco_problem_t *p;
  vec x, xopt, u;
  double y[1];
  size_t i;
  for (i = 0; i < PN; i++) {
#ifdef ONE /* only one coordinate is symbolic */
    vp_leg_xopt[i] = xopt[i] = i == 0 ? 1.5 : -2.5;
#else
    vp_leg_xopt[i] = xopt[i] = OX;
#endif
    vp_leg_unif[i] = u[i] = in_bool() ? 0.25 : FUN == 24 ? -0.75 : 0.75;
#ifdef ONE
    x[i] = i == ONE ? GX : 1.25;
#else
    x[i] = GX;
#endif
  }
  vp_leg_fopt = FX;
#ifdef FIXED
  vp_leg_fixed = 1;
#endif
  p = SUITE(FUN, PN, 1);
  coco_evaluate_function(p, x, y);
#ifdef BOXED
  { int inside = 1; for (i = 0; i < PN; i++) inside &= x[i] >= -5.0 && x[i] <= 5.0;
    if (!inside) { VP_CHECK(y[0] > DBL_MAX, "outside of the box the value is infinite"); return; } }
#endif
  VP_CHECK(vp_close(y[0], definition(x, xopt, u)), "the value is the one of the published definition");
  VP_REACH("evaluated");
}
