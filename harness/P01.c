/* P01: problem index <-> (function, dimension, instance) positions */
//VP index_roundtrip defs=SUITE=bbob,NF=24,ND=6,NI=15,F0=1 unwind=120 timeout=400 bound="suite bbob: every position triple, every index below the number of problems"
//VP index_roundtrip defs=SUITE=bbob-boxed,NF=24,ND=6,NI=15,F0=1 unwind=120 timeout=400 bound="suite bbob-boxed: every position triple and index"
//VP index_roundtrip defs=SUITE=bbob-biobj,NF=55,ND=6,NI=15,F0=1 unwind=120 timeout=400 bound="suite bbob-biobj: every position triple and index"
//VP index_roundtrip defs=SUITE=bbob-biobj-ext,NF=92,ND=6,NI=15,F0=1 unwind=120 timeout=400 bound="suite bbob-biobj-ext: every position triple and index"
//VP index_roundtrip defs=SUITE=bbob-largescale,NF=24,ND=6,NI=15,F0=1 unwind=120 timeout=400 bound="suite bbob-largescale: every position triple and index"
//VP index_roundtrip defs=SUITE=bbob-constrained,NF=54,ND=6,NI=15,F0=1 unwind=120 timeout=400 bound="suite bbob-constrained: every position triple and index"
//VP index_roundtrip defs=SUITE=bbob-mixint,NF=24,ND=6,NI=15,F0=1 unwind=120 timeout=400 bound="suite bbob-mixint: every position triple and index"
//VP index_roundtrip defs=SUITE=bbob-biobj-mixint,NF=92,ND=6,NI=15,F0=1 unwind=120 timeout=400 bound="suite bbob-biobj-mixint: every position triple and index"
//VP index_roundtrip defs=SUITE=bbob-noisy,NF=30,ND=6,NI=15,F0=101 unwind=120 timeout=400 bound="suite bbob-noisy: every position triple and index"
//VP index_roundtrip defs=SUITE=toy,NF=6,ND=5,NI=1,F0=1 unwind=120 timeout=400 bound="suite toy: every position triple and index"
//VP index_any_size unwind=10 timeout=400 bound="any suite with at most 5 functions, 4 dimensions, 6 instances (sizes symbolic)"
//VP index_out_of_range unwind=10 bound="any index at or beyond the number of problems (sizes at most 5 x 4 x 6)"
#include "vp.h"
#include "coco_amalg.c"

#ifdef SUITE
void index_roundtrip(void) {
  coco_suite_t *suite = coco_suite(VP_STR(SUITE), NULL, NULL);
  size_t f, d, i, f2 = 99, d2 = 99, i2 = 99, idx, n;
  n = coco_suite_get_number_of_problems(suite);
  VP_CHECK(n == (size_t)NF * ND * NI, "number of problems is not functions x dimensions x instances");
  f = in_size(0, NF - 1); d = in_size(0, ND - 1); i = in_size(0, NI - 1);
  idx = coco_suite_encode_problem_index(suite, f, d, i);
  VP_CHECK(idx < n, "the index of a valid triple lies in the suite");
  coco_suite_decode_problem_index(suite, idx, &f2, &d2, &i2);
  VP_CHECK(f2 == f && d2 == d && i2 == i, "decoding an encoded triple gives the triple back");
  VP_CHECK(coco_suite_get_function_from_function_index(suite, f) == F0 + f, "function number of a function position");
  VP_CHECK(coco_suite_get_instance_from_instance_index(suite, i) == suite->instances[i], "instance number of an instance position");
  VP_CHECK(coco_suite_get_dimension_from_dimension_index(suite, d) == suite->dimensions[d], "dimension of a dimension position");
  VP_CHECK(d == 0 || suite->dimensions[d] > suite->dimensions[d - 1], "dimensions of the unfiltered suite increase");
  { /* instances vary fastest, then functions, then dimensions */
    size_t g = in_size(0, NF - 1), e = in_size(0, ND - 1), j = in_size(0, NI - 1), idy;
    idy = coco_suite_encode_problem_index(suite, g, e, j);
    VP_CHECK((idx < idy) == (d < e || (d == e && (f < g || (f == g && i < j)))), "indices are ordered by dimension, function, instance");
  }
  VP_REACH("round trip");
  coco_suite_free(suite);
}
#else
static void sizes(coco_suite_t *s) {
  memset(s, 0, sizeof(*s));
  s->number_of_functions = in_size(1, 5);
  s->number_of_dimensions = in_size(1, 4);
  s->number_of_instances = in_size(1, 6);
}
void index_any_size(void) {
  coco_suite_t s;
  size_t f2 = 99, d2 = 99, i2 = 99, idx;
  sizes(&s);
  idx = in_size(0, 119);
  VP_ASSUME(idx < coco_suite_get_number_of_problems(&s));
  coco_suite_decode_problem_index(&s, idx, &f2, &d2, &i2);
  VP_CHECK(f2 < s.number_of_functions && d2 < s.number_of_dimensions && i2 < s.number_of_instances, "decoded positions lie in the suite");
  VP_CHECK(coco_suite_encode_problem_index(&s, f2, d2, i2) == idx, "encoding a decoded index gives the index back");
  VP_REACH("any size");
}
void index_out_of_range(void) {
  coco_suite_t s;
  size_t f2 = in_size(0, 9), d2 = in_size(0, 9), i2 = in_size(0, 9), idx;
  sizes(&s);
  idx = in_u64();
  VP_ASSUME(idx >= s.number_of_functions * s.number_of_dimensions * s.number_of_instances);
  coco_suite_decode_problem_index(&s, idx, &f2, &d2, &i2);
  VP_CHECK(vp_warnings > 0, "an index beyond the suite is reported");
  VP_CHECK(f2 < s.number_of_functions && d2 < s.number_of_dimensions && i2 < s.number_of_instances, "an index beyond the suite never decodes to positions outside the suite");
  VP_REACH("out of range");
}
#endif
