/* Stand-in for mo_avl_tree.c where the property is about the users of the sorted set, not about the tree itself (which P12
 * decides): the same interface over a table of nodes. Every node is a separate object, so that all pointers stay simple. */
#define VP_NODES 10
typedef int (*avl_compare_t)(const void *a, const void *b, void *userdata);
typedef void (*avl_free_t)(void *item, void *userdata);
typedef struct avl_node {
  struct avl_node *prev;
  struct avl_node *next;
  void *item;
  int linked;
} avl_node_t;
typedef struct avl_tree {
  avl_node_t *head;
  avl_node_t *tail;
  avl_compare_t cmpitem;
  avl_free_t freeitem;
  avl_node_t *nodes[VP_NODES];
  int larger[VP_NODES][VP_NODES];   /* whether node i comes after node j */
  size_t made, count;
} avl_tree_t;
static avl_tree_t *avl_tree_construct(avl_compare_t cmp, avl_free_t free_item) {
  avl_tree_t *t = (avl_tree_t *)malloc(sizeof(*t));
  size_t i;
  t->head = t->tail = NULL; t->cmpitem = cmp; t->freeitem = free_item; t->made = 0; t->count = 0;
  for (i = 0; i < VP_NODES; i++) t->nodes[i] = NULL;
  return t;
}
static int vp_sign(int c) { return c < 0 ? -1 : c > 0; }
static unsigned long avl_count(const avl_tree_t *t) { return t ? (unsigned long)t->count : 0; }
/* the last node with an item not larger */
static avl_node_t *avl_item_search_right(const avl_tree_t *t, const void *item, int *exact) {
  avl_node_t *best = NULL;
  int c[VP_NODES], equal = 0;
  size_t i, j;
  for (i = 0; i < t->made; i++) c[i] = t->nodes[i]->linked ? vp_sign(t->cmpitem(item, t->nodes[i]->item, NULL)) : -1;
  for (i = 0; i < t->made; i++) {
    int last = c[i] >= 0;
    for (j = 0; j < t->made; j++) if (j != i && c[j] >= 0 && t->larger[j][i]) last = 0;
    if (last) { best = t->nodes[i]; equal = c[i] == 0; }
  }
  if (exact) *exact = equal;
  return best;
}
static avl_node_t *avl_item_search(const avl_tree_t *t, const void *item) {
  avl_node_t *found = NULL;
  size_t i;
  for (i = 0; i < t->made; i++) if (t->nodes[i]->linked && t->cmpitem(item, t->nodes[i]->item, NULL) == 0) found = t->nodes[i];
  return found;
}
static avl_node_t *avl_item_insert(avl_tree_t *t, const void *item) {
  size_t i, j, at = t->made;
  avl_node_t *n;
  int c[VP_NODES], there = 0, first = 1, last = 1;
  for (i = 0; i < at; i++) {
    c[i] = t->nodes[i]->linked ? vp_sign(t->cmpitem(item, t->nodes[i]->item, NULL)) : 2;
    if (c[i] == 0) there = 1;
  }
  n = (avl_node_t *)malloc(sizeof(*n));
  n->item = (void *)item; n->linked = !there; n->prev = n->next = NULL;
  t->nodes[at] = n; t->made++;
  if (there) return NULL;
  t->count++;
  for (i = 0; i < at; i++) { t->larger[at][i] = c[i] == 1; t->larger[i][at] = c[i] == -1; if (c[i] == 1) first = 0; if (c[i] == -1) last = 0; }
  for (i = 0; i < at; i++) {
    int before = c[i] == 1, after = c[i] == -1;
    for (j = 0; j < at; j++) if (j != i) { if (c[j] == 1 && t->larger[j][i]) before = 0; if (c[j] == -1 && t->larger[i][j]) after = 0; }
    if (before) { t->nodes[i]->next = n; n->prev = t->nodes[i]; }
    if (after) { t->nodes[i]->prev = n; n->next = t->nodes[i]; }
  }
  if (first) t->head = n;
  if (last) t->tail = n;
  return n;
}
static void *avl_node_delete(avl_tree_t *t, avl_node_t *node) {
  size_t i, j;
  if (node == NULL) return NULL;
  for (i = 0; i < t->made; i++) if (t->nodes[i] == node) {
    avl_node_t *n = t->nodes[i], *p = n->prev, *q = n->next;
    VP_CHECK(n->linked, "a node is deleted once");
    n->linked = 0; t->count--;
    for (j = 0; j < t->made; j++) { if (t->nodes[j] == p) t->nodes[j]->next = q; if (t->nodes[j] == q) t->nodes[j]->prev = p; }
    if (p == NULL) t->head = q;
    if (q == NULL) t->tail = p;
    if (t->freeitem) t->freeitem(n->item, NULL);
    n->item = NULL; n->prev = n->next = NULL;
  }
  return NULL;
}
static void *avl_item_delete(avl_tree_t *t, const void *item) { return avl_node_delete(t, avl_item_search(t, item)); }
static avl_tree_t *avl_tree_purge(avl_tree_t *t) {
  size_t i;
  for (i = 0; i < t->made; i++) {
    if (t->nodes[i]->linked && t->freeitem) t->freeitem(t->nodes[i]->item, NULL);
    free(t->nodes[i]); t->nodes[i] = NULL;
  }
  t->made = 0; t->count = 0; t->head = t->tail = NULL;
  return t;
}
static void avl_tree_destruct(avl_tree_t *t) { avl_tree_purge(t); free(t); }
