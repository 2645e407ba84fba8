/* P13: the archive of bi-objective solutions */
//VP archive defs=LEN=2,HYPERVOLUME doubles=mo_avl_tree.c:avl_list.c unwind=6 hunwind=12 checks=user bound="the extremes and any 2 solutions on a 6x6 grid in and around the region of interest: members and hypervolume"
//VP archive defs=LEN=2,TEXTS doubles=mo_avl_tree.c:avl_list.c unwind=6 hunwind=12 checks=user bound="the extremes and any 2 solutions on a 6x6 grid: members and their texts in order"
//VP archive defs=LEN=3 doubles=mo_avl_tree.c:avl_list.c unwind=6 hunwind=12 checks=user bound="the extremes and any 3 solutions on a 6x6 grid: members"
//VP archive tier=thorough defs=LEN=3,HYPERVOLUME,TEXTS doubles=mo_avl_tree.c:avl_list.c unwind=7 hunwind=12 checks=user timeout=3000 bound="the extremes and any 3 solutions on a 6x6 grid: members, hypervolume and texts"
//VP archive tier=thorough defs=LEN=4,TOP=4 doubles=mo_avl_tree.c:avl_list.c unwind=7 hunwind=12 checks=user timeout=3000 bound="the extremes and any 4 solutions on a 5x5 grid: members"
//VP relations unwind=6 checks=user bound="any two points of a 7x7 grid with step 1/4: dominance, region of interest, distance to it"
#include "vp.h"
#include "coco_amalg.c"
#ifndef LEN
#define LEN 2
#endif
#ifndef TOP
#define TOP 5
#endif
#ifndef ALWAYS
#define ALWAYS 0
#endif
#define ALL (LEN + 2)
static size_t c1[ALL], c2[ALL];                 /* coordinates in quarters of the region of interest */
static int in_archive[ALL];
static const char *const name[6] = {"a", "b", "c", "d", "e", "f"};
static int better(size_t i, size_t j) { return c1[i] <= c1[j] && c2[i] <= c2[j]; }
static int add(coco_archive_t *a, size_t i) { return coco_archive_add_solution(a, -1.0 + (double)c1[i], 2.0 + (double)c2[i] / 2, name[i]); }
static void check(coco_archive_t *a, size_t n) {
  size_t i, x, y, count = 0, cells = 0;
  double area;
  for (i = 0; i < n; i++) if (in_archive[i]) count++;
  VP_CHECK(coco_archive_get_number_of_solutions(a) == count, "the archive holds as many solutions as are not dominated");
#ifdef HYPERVOLUME
  for (x = 0; x < 4; x++) for (y = 0; y < 4; y++) {
    int covered = 0;
    for (i = 0; i < n; i++) if (c1[i] <= x && c2[i] <= y) covered = 1;
    cells += (size_t)covered;
  }
  area = coco_archive_get_hypervolume(a) - (double)cells / 16;
  VP_CHECK(area < 1e-9 && area > -1e-9, "the hypervolume is the area covered by the solutions added");
#else
  (void)x; (void)y; (void)cells; (void)area;
#endif
}
void archive(void) {
  coco_archive_t *a = coco_archive_allocate();
  size_t i, j, k;
  const char *text;
  a->ideal = coco_allocate_vector(2); a->nadir = coco_allocate_vector(2);
  a->ideal[0] = -1; a->nadir[0] = 3; a->ideal[1] = 2; a->nadir[1] = 4;
  c1[0] = 4; c2[0] = 0; c1[1] = 0; c2[1] = 4;
  VP_CHECK(add(a, 0) == 1 && add(a, 1) == 1, "the extremes are added");
  in_archive[0] = in_archive[1] = 1;
  a->extreme1 = a->tree->head; a->extreme2 = a->tree->tail;
  if (ALWAYS) check(a, 2);
  for (i = 2; i < ALL; i++) {
    int dominated = 0, update;
    c1[i] = in_size(0, TOP); c2[i] = in_size(0, TOP);
    update = add(a, i);
    /* a solution as good as an extreme in one objective is taken to be no better in the other one */
    if (c1[i] == 0 && c2[i] < 4) c2[i] = 4;
    if (c2[i] == 0 && c1[i] < 4) c1[i] = 4;
    for (j = 0; j < i; j++) if (better(j, i)) dominated = 1;
    VP_CHECK((update != 0) == !dominated, "a solution is added exactly when no earlier one is at least as good");
    in_archive[i] = !dominated;
    if (!dominated) for (j = 0; j < i; j++) if (better(i, j)) in_archive[j] = 0;
    if (i + 1 == ALL || ALWAYS) check(a, i + 1);
  }
  VP_CHECK(in_archive[0] && in_archive[1], "the extremes stay");
#ifdef TEXTS
  VP_CHECK(strcmp(coco_archive_get_next_solution_text(a), "a") == 0, "the first extreme is returned first");
  VP_CHECK(strcmp(coco_archive_get_next_solution_text(a), "b") == 0, "the second extreme is returned next");
  for (k = 1; k < 4; k++) for (i = 2; i < ALL; i++) if (in_archive[i] && c2[i] == k) {
    text = coco_archive_get_next_solution_text(a);
    VP_CHECK(text != NULL && strcmp(text, name[i]) == 0, "then the other solutions in the order of the second objective");
  }
  text = coco_archive_get_next_solution_text(a);
  VP_CHECK(text != NULL && text[0] == 0, "then the empty text");
#else
  (void)text; (void)k;
#endif
  VP_REACH("all added");
  coco_archive_free(a);
  VP_CHECK(vp_live_blocks == 0, "everything is released");
}
/* (unsigned) coordinates in quarters */
void relations(void) {
  size_t a1 = in_size(0, 7), a2 = in_size(0, 7), b1 = in_size(0, 7), b2 = in_size(0, 7);
  double a[2], b[2], d;
  int ab, ba, r, w;
  a[0] = (double)a1 / 4; a[1] = (double)a2 / 4; b[0] = (double)b1 / 4; b[1] = (double)b2 / 4;
  ab = a1 <= b1 && a2 <= b2; ba = b1 <= a1 && b2 <= a2;
  r = mo_get_dominance(a, b, 2);
  VP_CHECK(r == (ab ? (ba ? -2 : 1) : (ba ? -1 : 0)), "dominance of two points");
  w = a1 <= 4 && a2 <= 4;
  VP_CHECK((mo_is_within_ROI(a, 2) != 0) == w, "the region of interest is the unit square");
  d = mo_get_distance_to_ROI(a, 2);
  if (a1 <= 4 || a2 <= 4) VP_CHECK(d == (w ? 0 : a1 > 4 ? (double)(a1 - 4) / 4 : (double)(a2 - 4) / 4), "the distance to the region of interest");
  VP_REACH("compared");
}
