/* libm's powers of ten and decimal logarithms at the arguments a harness needs, as glibc computes them
 * (correctly rounded at powers of ten). Any other argument ends the path with a failed check. */
static double vp_pow10(double y) {
  unsigned k;
#if VP_TEN_N == 102
  for (k = 0; k < 39; k++) if (y == vp_ten_20th[k]) return vp_ten_20th_power[k];
#endif
  if (y == 1.0) return 10.0;
  if (y == 2.0) return 100.0;
  if (y == 3.0) return 1000.0;
  for (k = 0; k <= VP_TEN_POWERS; k++) if (y == vp_ten_exponent[k]) return vp_ten_power[k];
  VP_CHECK(0, "power of ten outside the table");
  VP_ASSUME(0);
  return 0;
}
static double vp_log10_table(double x) {
  unsigned k;
  for (k = 0; k < VP_TEN_LOGS; k++) if (x == vp_ten_value[k]) return vp_ten_log[k];
  VP_CHECK(0, "logarithm outside the table");
  VP_ASSUME(0);
  return 0;
}
