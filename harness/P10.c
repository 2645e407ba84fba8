/* P10: when something is logged */
//VP evaluations defs=VP_TEN_TABLE,VP_TEN_N=20,VP_SYMBOLIC_NUMBERS,STEPS=60,MAXDIM=31 redefine=COCO_MAX_EVALS_TO_LOG:4 unwind=70 checks=user bound="evaluations 1..60, any dimension up to 31, the base evaluations 1,2,5"
//VP evaluations defs=VP_TEN_TABLE,VP_TEN_N=20,VP_SYMBOLIC_NUMBERS,BASES,STEPS=40,MAXDIM=3 redefine=COCO_MAX_EVALS_TO_LOG:4 unwind=70 checks=user bound="evaluations 1..40, any dimension up to 3, any two base evaluations a<b<10a up to 7"
//VP log_targets defs=VP_TEN_TABLE,VP_TEN_N=2,LEN=4 unwind=60 checks=user bound="any 4 values of {1,2,5}*10^e and their negatives and 0, e from -9 to 2; 2 targets per decade, precision 1e-8"
//VP log_targets defs=VP_TEN_TABLE,VP_TEN_N=5,LEN=3 unwind=90 checks=user bound="any 3 values of {1,2,3}*10^e and their negatives and 0, e from -9 to 2; 5 targets per decade, precision 1e-8"
//VP lin_targets defs=LEN=4 unwind=60 checks=user bound="any 4 multiples of 1/16 in [-64,64], precision 1/4"
#include "vp.h"
#include "coco_amalg.c"
#ifdef VP_SYMBOLIC_NUMBERS
void evaluations(void) {
  size_t e, k, j, p, dim = in_size(1, MAXDIM), base[3], nb, lines = 0;
  coco_observer_evaluations_t *t;
  char *s;
#ifdef BASES
  vp_numbers[1] = base[0] = in_size(1, 7); vp_numbers[2] = base[1] = in_size(1, 7); nb = 2;
  VP_ASSUME(base[0] < base[1] && base[1] < 10 * base[0]);
  s = vp_render("1,2");
#else
  vp_numbers[1] = base[0] = 1; vp_numbers[2] = base[1] = 2; vp_numbers[3] = base[2] = 5; nb = 3;
  s = vp_render("1,2,3");
#endif
  t = coco_observer_evaluations(s, dim);
  for (e = 1; e <= STEPS; e++) {
    int want = 0;
    for (k = 0; k <= VP_TEN_POWERS; k++) if (e == (size_t)vp_ten_power[k]) want = 1;
    for (p = 1; p <= 1000; p *= 10) for (j = 0; j < nb; j++) if (e == dim * base[j] * p) want = 1;
    VP_CHECK((coco_observer_evaluations_trigger(t, e) != 0) == want, "an evaluation is logged exactly when its number is floor(10^(k/20)) or dimension * base * 10^k");
    lines += (size_t)want;
  }
  VP_CHECK(lines > 10, "many evaluations are logged");
  VP_REACH("all evaluations");
  coco_observer_evaluations_free(t);
  VP_CHECK(vp_live_blocks == 0, "the triggers are released");
}
#endif
#if defined(VP_TEN_TABLE) && defined(LEN)
/* the number of targets 10^(k/n), 0, -10^(k/n) which a value has not reached yet, counted from the lowest one */
static int targets_left(double v) {
  int k, top = 0;
  /* negative targets, from -10^3 up to -1e-8 */
  for (k = 3 * VP_TEN_N; k >= -8 * VP_TEN_N; k--, top++) if (v <= -vp_ten_power[k - VP_TEN_LOW] || (k == -8 * VP_TEN_N && v < 0)) return top;
  if (v == 0) return top;
  top++;
  for (k = -8 * VP_TEN_N; k <= 3 * VP_TEN_N; k++, top++) if (v <= vp_ten_power[k - VP_TEN_LOW]) return top;
  return top;
}
static double any_value(void) {
  double v = vp_ten_value[in_size(0, VP_TEN_LOGS - 1)];
  if (in_bool()) return 0.0;
  return in_bool() ? -v : v;
}
void log_targets(void) {
  coco_observer_targets_t *t = coco_observer_targets(1, 1.0, VP_TEN_N, 1e-8);
  coco_observer_log_targets_t *lt = t->log_targets;
  int i, best = 100000;
  for (i = 0; i < LEN; i++) {
    double v = any_value();
    int left = targets_left(v), fired;
    fired = coco_observer_log_targets_trigger(lt, v);
    VP_CHECK((fired != 0) == (left < best), "a value is logged exactly when it reaches a target not reached before");
    if (left < best) best = left;
    if (fired) {
      VP_CHECK(targets_left(lt->value) == left, "the target reported is the one reached");
      VP_CHECK(lt->value >= v || (v > -1e-8 && v < 1e-8), "the target reported is not below the value");
    }
  }
  VP_REACH("values seen");
  coco_observer_targets_free(t);
  VP_CHECK(vp_live_blocks == 0, "the triggers are released");
}
#endif
#ifndef VP_TEN_TABLE
void lin_targets(void) {
  int known = in_bool();
  coco_observer_targets_t *t = coco_observer_targets(known, 0.25, known ? 0 : 10, 1e-8);
  int i, best = 100000;
  for (i = 0; i < LEN; i++) {
    double v = in_sixteenth(-1023, 1023), last;
    int s = (int)(v * 16.0), q, fired; /* q: the smallest integer with q/4 >= v */
    q = s >= 0 ? (s + 3) / 4 : -((-s) / 4);
    fired = coco_observer_targets_trigger(t, v);
    VP_CHECK((fired != 0) == (q < best), "a value is logged exactly when it reaches a multiple of the precision not reached before");
    if (q < best) best = q;
    last = coco_observer_targets_get_last_target(t);
    VP_CHECK(last == (double)best * 0.25, "the last target is the smallest multiple of the precision reached");
  }
  VP_REACH("values seen");
  coco_observer_targets_free(t);
  VP_CHECK(vp_live_blocks == 0, "the triggers are released");
}
#endif
