/* P03: range strings and suite filters */
//VP ranges unwind=40 timeout=400 checks=user solver=cadical defs=VP_SYMBOLIC_NUMBERS,CASE=0 bound="range strings n / n-m / -n / n- / - / n,m with any numbers and bounds up to 31, at most 4 results"
//VP ranges unwind=40 timeout=400 checks=user solver=cadical defs=VP_SYMBOLIC_NUMBERS,CASE=1 bound="range strings n-m,k / n,m-k, numbers and bounds up to 31"
//VP ranges unwind=40 timeout=400 checks=user solver=cadical defs=VP_SYMBOLIC_NUMBERS,CASE=3 bound="range strings -n,m-k / n,,m / ,n, numbers and bounds up to 31"
//VP ranges unwind=40 timeout=400 checks=user solver=cadical defs=VP_SYMBOLIC_NUMBERS,CASE=2 bound="8 malformed range strings, numbers and bounds up to 31"
//VP ranges tier=thorough unwind=40 timeout=3000 checks=user solver=cadical defs=VP_SYMBOLIC_NUMBERS,CASE=4 bound="range string n-m,k-l,j, numbers and bounds up to 31"
//VP ranges tier=thorough unwind=40 timeout=3000 checks=user solver=cadical defs=VP_SYMBOLIC_NUMBERS,CASE=0,LIM=0xffffffff bound="simple range strings, 32 bit numbers and bounds"
//VP filter_functions unwind=40 timeout=400 checks=user redefine=COCO_MAX_INSTANCES:8 defs=VP_SYMBOLIC_NUMBERS,NUMBERS=9 bound="function_indices n-m and instance_indices n,m with any numbers up to 9"
//VP filter_dimensions unwind=40 timeout=400 checks=user redefine=COCO_MAX_INSTANCES:8 defs=VP_SYMBOLIC_NUMBERS,NUMBERS=31 bound="dimensions n,m with any numbers up to 31"
//VP filter_dimension_indices unwind=40 timeout=400 checks=user redefine=COCO_MAX_INSTANCES:8 defs=VP_SYMBOLIC_NUMBERS,NUMBERS=9 bound="dimension_indices n-m,k with any numbers up to 9"
//VP filter_precedence unwind=60 timeout=400 checks=user redefine=COCO_MAX_INSTANCES:8 defs=VP_SYMBOLIC_NUMBERS,NUMBERS=9,ORDER=0 bound="dimensions before dimension_indices, any numbers up to 9"
//VP filter_precedence unwind=60 timeout=400 checks=user redefine=COCO_MAX_INSTANCES:8 defs=VP_SYMBOLIC_NUMBERS,NUMBERS=9,ORDER=1 bound="dimension_indices before dimensions, any numbers up to 9"
//VP instance_precedence unwind=60 timeout=400 checks=user defs=ORDER=0 bound="year before instances"
//VP instance_precedence unwind=60 timeout=400 checks=user defs=ORDER=1 bound="instances before year"
//VP instance_years unwind=60 timeout=400 checks=user bound="every year of int"
#include "vp.h"
#include "coco_amalg.c"

#define MAXC 4
#ifdef VP_SYMBOLIC_NUMBERS
#ifndef LIM
#define LIM 31
#endif
/* the documented meaning of a range string, as an independent parser over the template (digit = number) */
static size_t reference(const char *s, size_t min, size_t max, size_t *out) {
  size_t n = 0, i = 0, total = 0;
  for (i = 0; s[i] != '\0'; i++) if (!((s[i] >= '0' && s[i] <= '9') || s[i] == '-' || s[i] == ',')) return 0;
  total = i;
  if (total == 0 || (max > 0 && min > max)) return 0;
  i = 0;
  while (i < total) {
    size_t lo = 0, hi = 0, dashes = 0, before = 0, after = 0, v;
    if (s[i] == ',') { i++; continue; }
    for (; i < total && s[i] != ','; i++) {
      if (s[i] == '-') dashes++;
      else if (dashes == 0) { lo = vp_numbers[s[i] - '0']; before = 1; }
      else { hi = vp_numbers[s[i] - '0']; after = 1; }
    }
    if (dashes > 1) return n;                          /* not a range: parsing stops */
    if (dashes == 0) hi = lo;
    else {
      if (before == 0) { if (min == 0) return n; lo = min; }
      if (after == 0) { if (max == 0) return n; hi = max; }
    }
    if (min > 0 && lo < min) lo = min;
    if (max > 0 && hi > max) hi = max;
    if (lo > hi) return n;
    for (v = 0; v < MAXC; v++) if (v <= hi - lo && n < MAXC) out[n++] = lo + v;
  }
  return n;
}
static void one(const char *tmpl, size_t min, size_t max) {
  size_t i, n, want[MAXC + 1], *got;
  char *s = vp_render(tmpl);
  got = coco_string_parse_ranges(s, min, max, "n", MAXC);
  n = reference(tmpl, min, max, want);
  VP_CHECK((got != NULL) == (n > 0), "a range string gives numbers exactly when a valid range precedes the first error");
  if (got != NULL) {
    for (i = 0; i < MAXC; i++) if (i < n) VP_CHECK(got[i] == want[i], "the numbers are those the ranges name, in order");
    VP_CHECK(got[n] == 0, "the list of numbers ends with 0");
    VP_REACH("numbers");
  }
}
#ifdef CASE
void ranges(void) {
  size_t i, min, max;
  for (i = 0; i < 10; i++) vp_numbers[i] = in_size(0, LIM);
  min = in_size(0, LIM); max = in_size(0, LIM);
#if CASE == 0
  one("1", min, max); one("1-2", min, max); one("-2", min, max); one("2-", min, max); one("-", min, max); one("1,2", min, max);
#elif CASE == 1
  one("1-2,3", min, max); one("1,2-3", min, max);
#elif CASE == 3
  one("-1,3-4", min, max); one("1,,2", min, max); one(",1", min, max);
#elif CASE == 4
  one("1-2,3-4,5", min, max);
#else
  one("", min, max); one("1-2-3", min, max); one("1,2--3", min, max); one("1x", min, max); one("x", min, max); one("1 2", min, max); one("1,2-3-,4", min, max); one(",", min, max);
#endif
}
#endif

/* 1 if value is one of the numbers the template names within [min, max] */
static int named(const char *tmpl, size_t min, size_t max, size_t value) {
  size_t i = 0, total = strlen(tmpl), any = 0, hit = 0;
  while (i < total) {
    size_t lo = 0, hi = 0, dashes = 0;
    if (tmpl[i] == ',') { i++; continue; }
    for (; i < total && tmpl[i] != ','; i++) {
      if (tmpl[i] == '-') dashes++;
      else if (dashes == 0) lo = vp_numbers[tmpl[i] - '0'];
      else hi = vp_numbers[tmpl[i] - '0'];
    }
    if (dashes == 0) hi = lo;
    if (lo < min) lo = min;
    if (hi > max) hi = max;
    if (lo > hi) break;
    any = 1;
    if (value >= lo && value <= hi) hit = 1;
  }
  return any ? (int)hit : 2; /* 2: no number at all, the option is ignored */
}
#ifdef NUMBERS
static void numbers(void) {
  size_t i;
  for (i = 1; i < 6; i++) vp_numbers[i] = in_size(0, NUMBERS);
  vp_numbers[6] = 3; vp_numbers[7] = 5;
}
static const size_t toy_dimensions[] = {2, 3, 5, 10, 20};
void filter_functions(void) {
  coco_suite_t *suite;
  size_t i;
  numbers();
  suite = coco_suite("toy", vp_render("instances: 6-7"), vp_render("function_indices: 1-2 instance_indices: 3,4"));
  VP_CHECK(suite != NULL && suite->number_of_functions == 6 && suite->number_of_instances == 3 && suite->number_of_dimensions == 5, "a filter never changes the positions in the suite");
  for (i = 0; i < 6; i++)
    VP_CHECK(coco_suite_get_function_from_function_index(suite, i) == (named("1-2", 1, 6, i + 1) ? i + 1 : 0), "function_indices keeps exactly the named functions");
  for (i = 0; i < 3; i++)
    VP_CHECK(coco_suite_get_instance_from_instance_index(suite, i) == (named("3,4", 1, 3, i + 1) ? i + 3 : 0), "instance_indices keeps exactly the named instances");
  for (i = 0; i < 5; i++)
    VP_CHECK(coco_suite_get_dimension_from_dimension_index(suite, i) == toy_dimensions[i], "function and instance filters leave the dimensions alone");
  VP_REACH("filtered");
}
static void dims(const char *options, const char *by_number, const char *by_index) {
  coco_suite_t *suite;
  size_t i, keep[5], any = 0;
  for (i = 0; i < 5; i++) {
    keep[i] = (size_t)(by_number ? named(by_number, 2, 20, toy_dimensions[i]) : named(by_index, 1, 5, i + 1));
    any |= keep[i];
  }
  suite = coco_suite("toy", vp_render("instances: 6-7"), options);
  VP_CHECK((suite != NULL) == (any != 0), "a suite is returned exactly when a dimension is left");
  if (suite == NULL) return;
  for (i = 0; i < 5; i++)
    VP_CHECK(suite->dimensions[i] == (keep[i] ? toy_dimensions[i] : 0), "the dimension filter keeps exactly the named dimensions");
  for (i = 0; i < 6; i++)
    VP_CHECK(suite->functions[i] == i + 1, "the dimension filter leaves the functions alone");
  VP_REACH("filtered");
}
void filter_dimensions(void) { numbers(); dims(vp_render("dimensions: 1,2"), "1,2", NULL); }
void filter_dimension_indices(void) { numbers(); dims(vp_render("dimension_indices: 1-2,3"), NULL, "1-2,3"); }
#ifdef ORDER
void filter_precedence(void) {
  numbers();
  if (ORDER == 0) dims(vp_render("dimensions: 1,2 dimension_indices: 3"), "1,2", NULL);
  else dims(vp_render("dimension_indices: 3 dimensions: 1,2"), NULL, "3");
}
#endif
#endif
#else
#ifdef ORDER
void instance_precedence(void) {
  coco_suite_t *suite = coco_suite("bbob", ORDER == 0 ? "year: 2012 instances: 7-8" : "instances: 7-8 year: 2012", NULL);
  size_t i = in_size(0, 14);
  if (ORDER == 0) VP_CHECK(suite->number_of_instances == 15 && suite->instances[i] == (i < 5 ? i + 1 : i + 16), "the first of year and instances counts");
  else VP_CHECK(suite->number_of_instances == 2 && suite->instances[i & 1] == 7 + (i & 1), "the first of instances and year counts");
  coco_suite_free(suite);
  VP_CHECK(vp_live_blocks == 0, "nothing leaks");
  VP_REACH("suite");
}
#endif
static int years(const char *name, int year, const char *want) {
  coco_suite_t suite;
  memset(&suite, 0, sizeof suite);
  suite.suite_name = (char *)name;
  vp_error_allowed = want == NULL;
  return strcmp(coco_suite_get_instances_by_year(&suite, year), want == NULL ? "an error" : want) == 0;
}
#define Y(lo, hi, want) if (year >= (lo) && year <= (hi)) VP_CHECK(years(NAME, year, want), "a year selects the instances of that year")
void instance_years(void) {
  int year = in_int(2009, 2100);
#define NAME "bbob"
  Y(2023, 2100, "1-5,101-110"); Y(2021, 2022, "1-5,91-100"); Y(2018, 2020, "1-5,71-80"); Y(2017, 2017, "1-5,61-70"); Y(2016, 2016, "1-5,51-60");
  Y(2015, 2015, "1-5,41-50"); Y(2013, 2014, "1-5,31-40"); Y(2012, 2012, "1-5,21-30"); Y(2010, 2011, "1-15"); Y(2009, 2009, "1-5,1-5,1-5");
#undef NAME
#define NAME "bbob-largescale"
  Y(2009, 2100, "1-15");
#undef NAME
#define NAME "bbob-constrained"
  Y(2009, 2100, "1-15");
#undef NAME
#define NAME "bbob-biobj"
  Y(2016, 2016, "1-10"); Y(2017, 2100, "1-15");
#undef NAME
#define NAME "bbob-biobj-ext"
  Y(2016, 2016, "1-10"); Y(2017, 2100, "1-15");
#undef NAME
#define NAME "bbob-mixint"
  Y(2009, 2100, "1-15");
#undef NAME
#define NAME "bbob-biobj-mixint"
  Y(2009, 2100, "1-15");
#undef NAME
#define NAME "bbob-boxed"
  Y(2023, 2023, "1-5,101-110");
#undef NAME
#define NAME "bbob-noisy"
  Y(2009, 2009, "1-15");
  VP_REACH("years");
}
#endif
