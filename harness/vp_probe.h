/* A leaf problem whose objective and constraint values are arbitrary (symbolic) and which records how it
 * was called. Include after coco_amalg.c. */
#ifndef PN
#define PN 2   /* variables */
#endif
#ifndef PM
#define PM 1   /* objectives */
#endif
#ifndef PC
#define PC 0   /* constraints */
#endif
static double probe_x[PN], probe_cx[PN], probe_y[PM], probe_z[PC + 1], probe_gx[PN], probe_g[PN];
static size_t probe_calls, probe_cons_calls, probe_cons_counted, probe_freed;
static double probe_value(void); /* how a value is chosen: given by the harness */

static void probe_eval(coco_problem_t *problem, const double *x, double *y) {
  size_t i;
  (void)problem;
  for (i = 0; i < PN; i++) probe_x[i] = x[i];
  for (i = 0; i < PM; i++) y[i] = probe_y[i] = probe_value();
  probe_calls++;
}
static void probe_cons(coco_problem_t *problem, const double *x, double *y, int update_counter) {
  size_t i;
  (void)problem;
  for (i = 0; i < PN; i++) probe_cx[i] = x[i];
  for (i = 0; i < PC; i++) y[i] = probe_z[i];
  probe_cons_calls++;
  if (update_counter) probe_cons_counted++;
}
static void probe_gradient(coco_problem_t *problem, const double *x, double *y) {
  size_t i;
  (void)problem;
  for (i = 0; i < PN; i++) { probe_gx[i] = x[i]; y[i] = probe_g[i]; }
}
static void probe_free(coco_problem_t *problem) {
  probe_freed++;
  problem->problem_free_function = NULL;
  coco_problem_free(problem);
}
static coco_problem_t *probe_problem(void) {
  size_t i;
  coco_problem_t *p = coco_problem_allocate(PN, PM, PC);
  coco_problem_set_name(p, "probe");
  coco_problem_set_id(p, "%s_d%02lu", "probe", (unsigned long)PN);
  coco_problem_set_type(p, "probe");
  for (i = 0; i < PN; i++) {
    p->smallest_values_of_interest[i] = -5.0;
    p->largest_values_of_interest[i] = 5.0;
    if (PM == 1) p->best_parameter[i] = 0.0;
  }
  for (i = 0; i < PM; i++) p->best_value[i] = 0.0;
  if (PM > 1) for (i = 0; i < PM; i++) p->nadir_value[i] = 1.0;
  p->evaluate_function = probe_eval;
  if (PC > 0) p->evaluate_constraint = probe_cons;
  p->evaluate_gradient = probe_gradient;
  p->problem_free_function = probe_free;
  return p;
}
