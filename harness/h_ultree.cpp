/* Address map: arbitrary histories of inserts and removals with arbitrary 64-bit keys, then every lookup at an arbitrary key. */
//@ case property=R03 name=case_ultree reach=dup,removed,hit,miss,next,prev,empty quick="--param=ops=6 --param=keys=3" thorough="--param=ops=7 --param=keys=4" qtime=120 ttime=2400 bounds="every history of 6 (7) insertions, repeated insertions and removals over any 3 (4) distinct 64-bit keys, then every lookup at any 64-bit probe"
//@ case property=R03 name=case_ultree_remove reach=two_children quick="--param=ins=6" thorough="--param=ins=7" qtime=120 ttime=2400 bounds="every tree shape of 6 (7) nodes, removal of any node, then all of the rest in key order"
#include "common.h"
#include "ultree.h"
static uLongTreeNode *root; static struct { unsigned long k, v; int in; } e[8]; static int n;
static int count(void) { int c = 0; for (int i = 0; i < n; i++) c += e[i].in; return c; }
static void check_count(void) { if (root) se_assert(root->totalNodes() == count(), "[R03] number of nodes in the map"); else { se_assert(count() == 0, "[R03] an empty map has lost entries"); se_reach("empty"); } }
static void lookup(unsigned long k, int i, int gt, int lt) {
  uLongTreeNode *p, **pp;
  p = root->searchNode(root, k); pp = root->searchNode(&root, k);
  if (i >= 0) { se_reach("hit"); se_assert(p && p->getKey() == k && p->getInfo() == e[i].v, "[R03] an entry that was inserted is not found"); se_assert(pp && *pp == p, "[R03] the two exact lookups agree"); }
  else { se_reach("miss"); se_assert(!p || p->getKey() != k, "[R03] an entry that is not present is found"); se_assert(!pp || !*pp || (*pp)->getKey() != k, "[R03] an entry that is not present is found"); }
  int ge = i >= 0 ? i : gt;
  p = root->searchEqualOrNextNode(root, k); pp = root->searchEqualOrNextNode(&root, k);
  if (ge < 0) { se_assert(p == 0, "[R03] equal-or-next beyond the last entry"); se_assert(pp == 0 || *pp == 0, "[R03] equal-or-next beyond the last entry"); }
  else { se_assert(p && p->getKey() == e[ge].k && p->getInfo() == e[ge].v, "[R03] equal-or-next is not the nearest entry"); se_assert(pp && *pp == p, "[R03] equal-or-next forms agree"); }
  p = root->searchNextNode(root, k);
  if (gt < 0) se_assert(p == 0, "[R03] next beyond the last entry"); else { se_reach("next"); se_assert(p && p->getKey() == e[gt].k && p->getInfo() == e[gt].v, "[R03] next is not the nearest larger entry"); }
  p = root->searchPrevNode(root, k);
  if (lt < 0) se_assert(p == 0, "[R03] previous before the first entry"); else { se_reach("prev"); se_assert(p && p->getKey() == e[lt].k && p->getInfo() == e[lt].v, "[R03] previous is not the nearest smaller entry"); } }
static void insert(int i, int form) {
  uLongTreeNode *r;
  if (form) r = root->insertNode(&root, e[i].k, e[i].v);
  else { uLongTreeNode *nn = (uLongTreeNode *)SASNearAlloc(&root, sizeof(uLongTreeNode)); nn->init(e[i].k, e[i].v); r = root->insertNode(&root, nn); }
  if (e[i].in) { se_reach("dup"); se_assert(r == 0, "[R03] a second entry with the same key is refused"); }
  else { se_assert(r != 0 && r->getKey() == e[i].k && r->getInfo() == e[i].v, "[R03] an insertion stores the entry"); e[i].in = 1; }
  check_count(); }
static void remove_one(int i, int form) {
  uLongTreeNode **pp = form ? root->searchNode(&root, e[i].k) : root->searchEqualOrNextNode(&root, e[i].k);
  se_assert(pp && *pp && (*pp)->getKey() == e[i].k && (*pp)->getInfo() == e[i].v, "[R03] an entry that was inserted is not found");
  if (form) root->deleteNode(pp);
  else { uLongTreeNode *q = root->removeNode(pp); se_assert(q && q->getKey() == e[i].k, "[R03] removal returns the named entry"); q->kill(); }
  e[i].in = 0; se_reach("removed"); check_count(); }
static int pick(int x) { for (int i = 0;; i++) if (e[i].in && x-- == 0) return i; }
extern "C" void case_ultree(void) {
  int ops = (int)se_param("ops", 5), nk = (int)se_param("keys", 3), form = (int)se_choose("form", 2);
  n = nk; for (int i = 0; i < nk; i++) { e[i].k = se_u64("key"); e[i].v = se_u64("info"); if (i) se_assume(e[i].k > e[i - 1].k); }
  for (int i = 0; i < ops; i++) {
    int x = (int)se_choose("op", nk + count());
    if (x < nk) insert(x, form); else remove_one(pick(x - nk), form); }
  int pos = (int)se_choose("probe_at", 2 * nk + 1), eq = -1, gt = -1, lt = -1; unsigned long k = se_u64("probe");
  if (pos & 1) { se_assume(k == e[pos / 2].k); if (e[pos / 2].in) eq = pos / 2; }
  else { if (pos > 0) se_assume(k > e[pos / 2 - 1].k); if (pos / 2 < nk) se_assume(k < e[pos / 2].k); }
  for (int i = 0; i < nk; i++) if (e[i].in) { int above = pos & 1 ? i > pos / 2 : i >= pos / 2, below = i < pos / 2; if (above && gt < 0) gt = i; if (below) lt = i; }
  lookup(k, eq, gt, lt); }
extern "C" void case_ultree_remove(void) {
  int ins = (int)se_param("ins", 5);
  /* distinct concrete keys in every order give every shape; the surviving entries are checked after each removal */
  for (int i = 0; i < ins; i++) { int x = (int)se_choose("place", i + 1); for (int j = 0; j < i; j++) if (e[j].v >= (unsigned long)x) e[j].v++; e[i].v = x; e[i].in = 1; }
  n = ins;
  unsigned long key[8]; for (int i = 0; i < ins; i++) { key[i] = se_u64("key"); if (i) se_assume(key[i] > key[i - 1]); }
  for (int i = 0; i < ins; i++) e[i].k = key[e[i].v];
  for (int i = 0; i < ins; i++) { uLongTreeNode *r = root->insertNode(&root, e[i].k, e[i].v); se_assert(r != 0, "[R03] an insertion stores the entry"); }
  int victim = (int)se_choose("victim", ins), left = 0, right = 0; for (int i = 0; i < ins; i++) { if (i > victim && e[i].v < e[victim].v) left = 1; if (i > victim && e[i].v > e[victim].v) right = 1; }
  if (left && right) se_reach("two_children");
  remove_one(victim, (int)se_choose("form", 2));
  for (int i = 0; i < ins; i++) if (e[i].in) { uLongTreeNode *p = root->searchNode(root, e[i].k); se_assert(p && p->getKey() == e[i].k && p->getInfo() == e[i].v, "[R03] removal of one entry loses another"); }
  uLongTreeNode *p = root ? root->searchEqualOrNextNode(root, 0) : 0; unsigned long last = 0; int seen = 0;
  while (p && seen <= ins) { se_assert(seen == 0 || p->getKey() > last, "[R03] walking the map visits entries in ascending order"); last = p->getKey(); seen++; p = root->searchNextNode(root, last); }
  se_assert(seen == ins - 1, "[R03] walking the map visits every entry once"); }
