static const char *suite_biobj_best_values_hyp[] = { "none 1.0" };
