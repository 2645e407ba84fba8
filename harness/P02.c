/* P02: iterating over a suite */
//VP iteration defs=TOY_NF=3,TOY_ND=2,TOY_NI=2 doubles=suite_toy.c:suite_toy_symbolic.c unwind=30 timeout=500 bound="3 functions x 2 dimensions x 2 instances, every subset filtered out"
//VP iteration defs=TOY_NF=2,TOY_ND=2,TOY_NI=3 doubles=suite_toy.c:suite_toy_symbolic.c unwind=30 timeout=500 bound="2 functions x 2 dimensions x 3 instances, every subset filtered out"
//VP iteration tier=thorough defs=TOY_NF=4,TOY_ND=3,TOY_NI=3 doubles=suite_toy.c:suite_toy_symbolic.c unwind=60 timeout=3000 bound="4 functions x 3 dimensions x 3 instances, every subset filtered out"
//VP by_triple defs=TRIPLES,TOY_NF=3,TOY_ND=2,TOY_NI=3 doubles=suite_toy.c:suite_toy_symbolic.c unwind=30 timeout=400 bound="3 functions x 2 dimensions x 3 instances, every subset filtered out, any function/dimension/instance numbers"
//VP by_index defs=TRIPLES,TOY_NF=3,TOY_ND=2,TOY_NI=3 doubles=suite_toy.c:suite_toy_symbolic.c unwind=30 timeout=400 bound="3 functions x 2 dimensions x 3 instances, every subset filtered out, every index"
//ASSUMES iteration is decided on a suite double with small sizes whose problems are minimal; the iteration code is the real one
#include "vp.h"
#if defined(TRIPLES)
#define TOY_INSTANCES "instances:4,2,9"
#elif TOY_NI == 2
#define TOY_INSTANCES "instances:1-2"
#else
#define TOY_INSTANCES "instances:3,7-8"
#endif
#include "coco_amalg.c"

static const char *instances_of_toy = TOY_INSTANCES;

static size_t vp_instances[TOY_NI];
static coco_suite_t *suite_with_any_filter(void) {
  coco_suite_t *suite;
  size_t i, nf = 0, nd = 0, ni = 0;
  vp_error_allowed = 1;               /* an empty selection is rejected */
  suite = coco_suite("toy", instances_of_toy, NULL);
  for (i = 0; i < TOY_NF; i++) nf += vp_functions[i] != 0;
  for (i = 0; i < TOY_ND; i++) nd += vp_dimensions[i] != 0;
  VP_ASSUME(nf > 0 && nd > 0);
  VP_CHECK(suite == vp_suite, "a suite with a non-empty selection is returned");
  for (i = 0; i < TOY_NI; i++) {
    vp_instances[i] = vp_suite->instances[i];
    if (in_bool()) vp_suite->instances[i] = vp_instances[i] = 0;
    ni += vp_instances[i] != 0;
  }
  VP_ASSUME(ni > 0);
  vp_error_allowed = 0;
  return vp_suite; /* the same pointer, without the NULL alternative */
}

void iteration(void) {
  coco_suite_t *suite = suite_with_any_filter();
  size_t d, f, i, n = 0, k, want_f[TOY_NF * TOY_ND * TOY_NI], want_d[TOY_NF * TOY_ND * TOY_NI], want_i[TOY_NF * TOY_ND * TOY_NI];
  coco_problem_t *p;
  VP_CHECK(suite->number_of_instances == TOY_NI, "all instances of the instance string are in the suite");
  for (d = 0; d < TOY_ND; d++)      /* the documented order: instances, then functions, then dimensions */
    for (f = 0; f < TOY_NF; f++)
      for (i = 0; i < TOY_NI; i++)
        if (vp_dimensions[d] != 0 && vp_functions[f] != 0 && vp_instances[i] != 0) { want_f[n] = f; want_d[n] = d; want_i[n] = i; n++; }
  for (k = 0; k < TOY_NF * TOY_ND * TOY_NI; k++) {
    if (k > 0 && k >= n) continue;  /* n > 0 */
    p = coco_suite_get_next_problem(suite, NULL);
    VP_CHECK(p == &vp_pool, "the iteration ended before every selected problem was visited");
    VP_CHECK(suite->current_problem == p, "the suite keeps track of the current problem");
    suite->current_problem = &vp_pool; /* no change; keeps the pointer concrete for the solver */
    VP_CHECK(coco_problem_get_suite_dep_function(&vp_pool) == want_f[k] + 1, "problems come in the documented order: function");
    VP_CHECK(coco_problem_get_suite_dep_instance(&vp_pool) == suite->instances[want_i[k]], "problems come in the documented order: instance");
    VP_CHECK(vp_pool.best_value[0] == (double)vp_dimensions[want_d[k]], "problems come in the documented order: dimension");
    VP_CHECK(coco_problem_get_suite_dep_index(&vp_pool) == coco_suite_encode_problem_index(suite, want_f[k], want_d[k], want_i[k]), "a problem knows its index in the suite");
    VP_CHECK(coco_problem_get_suite(&vp_pool) == suite, "a problem knows its suite");
    VP_CHECK(vp_built == k + 1 && vp_freed == k, "only the current problem of the iteration is alive");
  }
  p = coco_suite_get_next_problem(suite, NULL);
  VP_CHECK(p == NULL, "the iteration must end after the last selected problem");
  VP_CHECK(vp_built == n, "no problem is built after the last one");
  VP_ASSUME(suite->current_problem == &vp_pool); /* the last problem is kept until the suite is freed */
  suite->current_problem = &vp_pool;
  VP_REACH("iterated");
  coco_suite_free(suite);
  VP_CHECK(vp_built == vp_freed, "every problem of the iteration is freed exactly once");
  VP_CHECK(vp_live_blocks == 0, "freeing the suite releases all its memory");
}

void by_triple(void) {
  coco_suite_t *suite = suite_with_any_filter();
  size_t f = in_size(0, 7), d = in_size(0, 63), i = in_size(0, 15), a, b = 0, want = 1, seen;
  coco_problem_t *p;
  VP_ASSUME(f > 0 && d > 0 && i > 0);
  seen = 0; for (a = 0; a < TOY_NF; a++) seen |= vp_functions[a] == f;
  want &= seen;
  seen = 0; for (a = 0; a < TOY_ND; a++) seen |= vp_dimensions[a] == d;
  want &= seen;
  seen = 0; for (a = 0; a < TOY_NI; a++) seen |= vp_instances[a] == i;
  want &= seen;
  (void)b;
  p = coco_suite_get_problem_by_function_dimension_instance(suite, f, d, i);
  VP_CHECK((p != NULL) == (want != 0), "a function/dimension/instance triple is found exactly when it is selected in the suite");
  if (p != NULL) {
    VP_CHECK(coco_problem_get_suite_dep_function(p) == f && coco_problem_get_suite_dep_instance(p) == i && p->best_value[0] == (double)d, "the problem of a triple has that function, dimension and instance");
    VP_REACH("found");
    coco_problem_free(p);
  } else VP_REACH("not found");
  coco_suite_free(suite);
  VP_CHECK(vp_live_blocks == 0, "nothing leaks");
}

void by_index(void) {
  coco_suite_t *suite = suite_with_any_filter();
  size_t idx = in_size(0, TOY_NF * TOY_ND * TOY_NI - 1), f = 0, d = 0, i = 0;
  coco_problem_t *p;
  coco_suite_decode_problem_index(suite, idx, &f, &d, &i);
  p = coco_suite_get_problem(suite, idx);
  VP_CHECK((p != NULL) == (vp_functions[f] != 0 && vp_dimensions[d] != 0 && vp_instances[i] != 0), "the problem of an index is NULL exactly when it was filtered out");
  if (p != NULL) {
    VP_CHECK(coco_problem_get_suite_dep_index(p) == idx, "the problem of an index has that index");
    VP_CHECK(coco_problem_get_suite_dep_function(p) == vp_functions[f] && p->best_value[0] == (double)vp_dimensions[d] && coco_problem_get_suite_dep_instance(p) == suite->instances[i], "the problem of an index is the one its positions name");
    coco_problem_free(p);
    VP_REACH("found");
  }
  coco_suite_free(suite);
  VP_CHECK(vp_live_blocks == 0, "nothing leaks");
}
