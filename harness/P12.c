/* P12: the sorted set of solutions (balanced search tree) behind the bi-objective archives */
//VP insertion defs=LEVELS=3,FIRST=0,LAST=0 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, any new item at place 0, the item already there"
//VP insertion defs=LEVELS=3,FIRST=1,LAST=1 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, any new item at place 1, the item already there"
//VP insertion defs=LEVELS=3,FIRST=2,LAST=2 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, any new item at place 2, the item already there"
//VP insertion defs=LEVELS=3,FIRST=3,LAST=3 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, any new item at place 3, the item already there"
//VP insertion defs=LEVELS=3,FIRST=4,LAST=4 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, any new item at place 4, the item already there"
//VP insertion defs=LEVELS=3,FIRST=5,LAST=5 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, any new item at place 5, the item already there"
//VP insertion defs=LEVELS=3,FIRST=6,LAST=6 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, any new item at place 6, the item already there"
//VP insertion defs=LEVELS=3,FIRST=7,LAST=7 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, any new item at place 7, the item already there"
//VP deletion defs=LEVELS=3,FIRST=1,LAST=1 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, deletion at place 1"
//VP deletion defs=LEVELS=3,FIRST=2,LAST=2 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, deletion at place 2"
//VP deletion defs=LEVELS=3,FIRST=3,LAST=3 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, deletion at place 3"
//VP deletion defs=LEVELS=3,FIRST=4,LAST=4 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, deletion at place 4"
//VP deletion defs=LEVELS=3,FIRST=5,LAST=5 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, deletion at place 5"
//VP deletion defs=LEVELS=3,FIRST=6,LAST=6 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, deletion at place 6"
//VP deletion defs=LEVELS=3,FIRST=7,LAST=7 unwind=17 checks=user bound="any balanced tree of up to 7 items in 3 levels, deletion at place 7"
//VP search defs=LEVELS=3,FIRST=0,LAST=0 unwind=17 checks=user bound="any balanced tree of up to 7 items, any item: search, walk, release"
#include "vp.h"
#include "coco_amalg.c"
#ifndef LEVELS
#define LEVELS 3
#endif
#define SLOTS ((1 << LEVELS) - 1)               /* places of the complete tree, numbered 1.. in heap order */
#define KEYS (2 * SLOTS + 1)                    /* item 2*rank+1 lies at a place, the even ones between places */
static char key_space[KEYS + 2];
static avl_node_t *node_at[SLOTS + 1];
static int present[2 * SLOTS + 2], depth_at[2 * SLOTS + 2];
static size_t count_at[2 * SLOTS + 2];
static int in_set[KEYS];                        /* the items which the set should hold */
static avl_node_t *node_of[KEYS];
static size_t freed[KEYS], freed_total;
static avl_node_t *new_node;
static int by_key(const void *a, const void *b, void *u) {
  (void)u;
  return ((const char *)a < (const char *)b) ? -1 : ((const char *)a > (const char *)b) ? 1 : 0;
}
static void free_key(void *item, void *u) { (void)u; freed_total++; freed[(size_t)((char *)item - key_space)]++; }
static size_t rank_of(size_t place) {           /* in-order rank of a place of the complete tree */
  size_t level = 0, p = place, width;
  while (p > 1) { p /= 2; level++; }
  width = ((size_t)1 << (LEVELS - level)) - 1;  /* places in the subtree */
  return (place - ((size_t)1 << level)) * (width + 1) + width / 2;
}
static int forced[2 * SLOTS + 2];               /* 0 or 1: whether the place is taken, 2: either */
static avl_tree_t *any_tree(void) {
  size_t i, k;
  avl_tree_t *t = avl_tree_construct(by_key, free_key);
  avl_node_t *last = NULL;
  for (i = 1; i <= SLOTS; i++) { node_at[i] = (avl_node_t *)malloc(sizeof(avl_node_t)); present[i] = forced[i] == 2 ? in_bool() : forced[i]; }
  for (i = 2; i <= SLOTS; i++) VP_ASSUME(!present[i] || present[i / 2]);
  for (i = SLOTS; i >= 1; i--) {
    int l = depth_at[2 * i], r = depth_at[2 * i + 1];
    depth_at[i] = present[i] ? 1 + (l > r ? l : r) : 0;
    count_at[i] = present[i] ? 1 + count_at[2 * i] + count_at[2 * i + 1] : 0;
    VP_ASSUME(l - r <= 1 && r - l <= 1);
  }
  for (i = 1; i <= SLOTS; i++) {
    avl_node_t *n = node_at[i];
    n->item = key_space + 2 * rank_of(i) + 1;
    n->parent = i == 1 ? NULL : node_at[i / 2];
    n->left = 2 * i > SLOTS ? NULL : present[2 * i] ? node_at[2 * i] : NULL;
    n->right = 2 * i > SLOTS ? NULL : present[2 * i + 1] ? node_at[2 * i + 1] : NULL;
    n->count = count_at[i]; n->depth = (unsigned char)depth_at[i];
    n->prev = n->next = NULL;
    in_set[2 * rank_of(i) + 1] = present[i];
    node_of[2 * rank_of(i) + 1] = n;
  }
  t->top = present[1] ? node_at[1] : NULL;
  for (k = 1; k < KEYS; k += 2) if (in_set[k]) {
    node_of[k]->prev = last;
    if (last) last->next = node_of[k]; else t->head = node_of[k];
    last = node_of[k];
  }
  t->tail = last;
  return t;
}
static void reset(void) {
  size_t i;
  for (i = 0; i < 2 * SLOTS + 2; i++) { present[i] = depth_at[i] = 0; count_at[i] = 0; forced[i] = 2; }
  for (i = 0; i < KEYS; i++) { in_set[i] = 0; freed[i] = 0; }
  freed_total = 0; new_node = NULL;
}
static void require(size_t place, int taken) {  /* the place and those above are taken / the place and those below are not */
  size_t i, j;
  if (taken) for (i = place; i >= 1; i /= 2) forced[i] = 1;
  else for (i = place; i <= SLOTS; i++) { for (j = i; j > place; j /= 2) { } if (j == place) forced[i] = 0; }
}
/* the tree as numbers: place i of node_at, place NEW for a new node, NONE for no node */
#define NEW (SLOTS + 1)
#define NONE 0
#define ALIEN (SLOTS + 2)
static size_t number(avl_node_t *p) {
  size_t i;
  if (p == NULL) return NONE;
  for (i = 1; i <= SLOTS; i++) if (p == node_at[i]) return i;
  return new_node != NULL && p == new_node ? NEW : ALIEN;
}
static size_t Left[ALIEN + 1], Right[ALIEN + 1], Parent[ALIEN + 1], Prev[ALIEN + 1], Next[ALIEN + 1], Key[ALIEN + 1], Count[ALIEN + 1], Depth[ALIEN + 1];
static void read_node(size_t i, avl_node_t *n) {
  Left[i] = number(n->left); Right[i] = number(n->right); Parent[i] = number(n->parent); Prev[i] = number(n->prev); Next[i] = number(n->next);
  Key[i] = (size_t)((char *)n->item - key_space); Count[i] = n->count; Depth[i] = n->depth;
}
static void check_tree(avl_tree_t *t) {
  size_t i, k, at[KEYS], count = 0, before = NONE, top = number(t->top), head = number(t->head), tail = number(t->tail);
  int there[ALIEN + 1];
  for (k = 0; k < KEYS; k++) at[k] = NONE;
  for (i = 1; i <= NEW; i++) {
    there[i] = i < NEW ? in_set[2 * rank_of(i) + 1] : new_node != NULL;
    if (i < NEW && there[i]) { read_node(i, node_at[i]); at[2 * rank_of(i) + 1] = i; }
    if (i == NEW && there[i]) { read_node(i, new_node); for (k = 0; k < KEYS; k++) if (k == Key[i]) { if (at[k] == NONE) at[k] = i; else there[i] = 0; } }
  }
  there[NONE] = there[ALIEN] = 0;
  for (k = 0; k < KEYS; k++) VP_CHECK(in_set[k] == (at[k] != NONE), "the set holds exactly the items it should");
  for (k = 0; k < KEYS; k++) if (at[k] != NONE) {
    VP_CHECK(before == NONE ? head == at[k] : Next[before] == at[k], "walking forward gives exactly the items of the set, in order");
    VP_CHECK(Prev[at[k]] == before, "walking backward undoes walking forward");
    before = at[k]; count++;
  }
  VP_CHECK((before == NONE ? head : Next[before]) == NONE && tail == before, "the walk ends with the last item");
  VP_CHECK(avl_count(t) == count, "the number of items is right");
  VP_CHECK((top == NONE) == (count == 0) && (top == NONE || (there[top] && Parent[top] == NONE)), "the top node has no parent");
  for (k = 0; k < KEYS; k++) if (at[k] != NONE) {
    size_t step, here = top;
    for (step = 0; step <= LEVELS; step++) if (here != NONE && here != ALIEN && Key[here] != k) here = k < Key[here] ? Left[here] : Right[here];
    VP_CHECK(here == at[k], "descending from the top finds each item");
  }
  for (i = 1; i <= NEW; i++) if (there[i]) {
    size_t l = Left[i], r = Right[i], u = Parent[i], dl = l ? Depth[l] : 0, dr = r ? Depth[r] : 0;
    VP_CHECK(l == NONE || (there[l] && Parent[l] == i && Key[l] < Key[i]), "a left child is smaller and knows its parent");
    VP_CHECK(r == NONE || (there[r] && Parent[r] == i && Key[r] > Key[i]), "a right child is larger and knows its parent");
    VP_CHECK(u == NONE ? top == i : there[u] && (Left[u] == i || Right[u] == i), "a node is a child of its parent or the top");
    VP_CHECK(Count[i] == 1 + (l ? Count[l] : 0) + (r ? Count[r] : 0), "counts add up");
    VP_CHECK(Depth[i] == 1 + (dl > dr ? dl : dr) && dl <= dr + 1 && dr <= dl + 1, "the tree is balanced");
  }
}
/* a new item, as child of a given place or at the top of the empty tree */
static void insert_at(size_t place, int right) {
  avl_tree_t *t;
  size_t k;
  reset();
  if (place == 0) { require(1, 0); k = 0; }
  else {
    require(place, 1);
    if (2 * place + (size_t)right <= SLOTS) require(2 * place + (size_t)right, 0);
    k = 2 * rank_of(place) + (right ? 2 : 0);
  }
  t = any_tree();
  VP_CHECK(avl_item_delete(t, key_space + k) == NULL && freed_total == 0, "deleting an item which is not there does nothing");
  new_node = avl_item_insert(t, key_space + k);
  VP_CHECK(new_node != NULL && new_node->item == key_space + k, "a new item is inserted and its node returned");
  in_set[k] = 1;
  check_tree(t);
  VP_CHECK(freed_total == 0, "no item is released");
}
static void insert_again(size_t place) {
  avl_tree_t *t;
  reset(); require(place, 1);
  t = any_tree();
  VP_CHECK(avl_item_insert(t, key_space + 2 * rank_of(place) + 1) == NULL, "an item is refused when it is there already");
  check_tree(t);
}
void insertion(void) {
  size_t i;
  for (i = FIRST; i <= LAST; i++) { insert_at(i, 0); if (i > 0) { insert_at(i, 1); insert_again(i); } }
  VP_REACH("inserted");
}
/* the item at a place whose left subtree is empty (last == 0) or ends at place last */
static void delete_at(size_t place, size_t last, int right) {
  avl_tree_t *t;
  size_t k = 2 * rank_of(place) + 1, i;
  reset(); require(place, 1);
  if (last) { require(last, 1); require(2 * last + 1, 0); }
  else require(2 * place, 0);
  if (2 * place < SLOTS) require(2 * place + 1, right);
  t = any_tree();
  avl_item_delete(t, key_space + k);
  in_set[k] = 0;
  check_tree(t);
  for (i = 0; i < KEYS; i++) VP_CHECK(freed[i] == (i == k), "the item deleted, and no other, is released once");
}
void deletion(void) {
  size_t i, last;
  for (i = FIRST; i <= LAST; i++) {
    delete_at(i, 0, 0);
    if (2 * i < SLOTS) delete_at(i, 0, 1);
    for (last = 2 * i; last <= SLOTS; last = 2 * last + 1) { if (last == 2 * i) delete_at(i, last, 0); delete_at(i, last, 1); }
  }
  VP_REACH("deleted");
}
void search(void) {
  avl_tree_t *t;
  size_t k = in_size(0, KEYS - 1), i, right = KEYS;
  avl_node_t *n;
  int exact = 7, was = 0;
  reset();
  t = any_tree();
  for (i = 0; i < KEYS; i++) { if (i == k) was = in_set[i]; if (i <= k && in_set[i]) right = i; }
  n = avl_item_search_right(t, key_space + k, &exact);
  if (right == KEYS) VP_CHECK(n == NULL, "no item is smaller or equal: nothing is found");
  else VP_CHECK(n != NULL && n->item == key_space + right, "the last item not larger than the given one is found");
  VP_CHECK((exact != 0) == was, "whether the item found equals the given one");
  n = avl_item_search(t, key_space + k);
  if (was) VP_CHECK(n != NULL && n->item == key_space + k, "an item of the set is found");
  else VP_CHECK(n == NULL, "an item not in the set is not found");
  check_tree(t);
  VP_REACH("searched");
  avl_tree_destruct(t);
  for (i = 0; i < KEYS; i++) VP_CHECK(freed[i] == (size_t)in_set[i], "releasing the set releases each item once");
}
