#ifndef INDEX_MODEL_H
#define INDEX_MODEL_H
/* A sorted-array model of a binary index and the walk that compares the real tree with it (contents, order, balance, capacity, storage). */
#include "lockstub.h"
#include "sasindex.h"
#include "sasindexpriv.h"
#include "sasindexnodepriv.h"
#include "sasindexenum.h"
extern int SASIndexContainsKey_nolock(SASIndex_t, SASIndexKey_t *);
typedef SASIndexNodeHeader node_t; typedef SASIndexHeader tree_t;
#define MAXK 160
static SASIndex_t t; static unsigned long mk[MAXK], mv[MAXK]; static int mn; static unsigned long lastmod; static int words = 1;
static unsigned long val_of(unsigned long k) { return k * 2 + 1; }
/* a key whose first word is 0 when it has several words: the order is decided by the last one */
static void mkkey(SASIndexKey_t *s, unsigned long k) { if (words == 1) SASIndexKeyInitUInt64(s, k); else { for (int i = 0; i < words; i++) s->data[i] = 7; s->data[words - 1] = k; s->compare_size = words * 8; s->copy_size = words * 8 + 8; } }
static unsigned long keyval(SASIndexKey_t *s) { return s->data[words - 1]; }
static unsigned long ksize(void) { return (words * 8 + 8 + 15) & ~15ul; }
static int m_find(unsigned long k) { for (int i = 0; i < mn; i++) if (mk[i] == k) return i; return -1; }
static void m_put(unsigned long k, unsigned long v) { int i = mn++; while (i > 0 && mk[i - 1] > k) { mk[i] = mk[i - 1]; mv[i] = mv[i - 1]; i--; } mk[i] = k; mv[i] = v; }
static void m_remove(int i) { mn--; for (; i < mn; i++) { mk[i] = mk[i + 1]; mv[i] = mv[i + 1]; } }
static struct { node_t *n; unsigned long used; } pages[64]; static int npages, walked, leafdepth;
static int page_of(unsigned long a) { for (int i = 0; i < npages; i++) if (a >= U(pages[i].n) && a < U(pages[i].n) + 4096) return i; return -1; }
static void collect(node_t *n) { se_assert(npages < 64, "harness: too many nodes"); pages[npages].n = n; pages[npages++].used = 0; for (int i = 0; i <= n->count; i++) if (n->branch[i]) collect(n->branch[i]); }
static void walk(node_t *n, int depth, int root) {
  se_assert(SASIndexNodeGetCount(n) == n->count && n->count <= n->max_count && n->count >= (root ? 1 : n->max_count / 2), "[I05] every node holds between half its capacity (the root: one) and its capacity of keys");
  int leaf = n->branch[0] == 0; if (leaf) { if (leafdepth < 0) leafdepth = depth; se_assert(leafdepth == depth, "[I05] every leaf is at the same depth"); }
  for (int i = 0; i <= n->count; i++) {
    if (i) { SASIndexKey_t *k = n->keys[i]; se_assert(k != 0, "[I02,I05] a key of the tree is lost"); se_assert(walked < mn, "[I02] the tree holds a key that was not put"); unsigned long v = keyval(k);
      se_assert(v == mk[walked], "[I02,I05] the keys of the tree are the ones put, in ascending order"); se_assert(U(n->vals[i]) == mv[walked], "[I02] the value of a key is the latest one"); walked++;
      int p = page_of(U(k)); se_assert(p >= 0, "[I05] a key lies in a node of the tree"); pages[p].used += ksize(); }
    se_assert((n->branch[i] == 0) == leaf, "[I05] every leaf is at the same depth"); if (!leaf) walk(n->branch[i], depth + 1, 0); } }
static void check(int used_blocks) {
  tree_t *h = (tree_t *)t; (void)used_blocks; walked = 0; leafdepth = -1; npages = 0;
  se_assert(lk_total == 0, "[H05,I02] an operation on an index leaves a lock held");
  if (h->root) { collect((node_t *)h->root); for (SASCompoundExpandList *l = h->expandList; l; l = 0) for (unsigned b = 0; b < l->count; b++) for (int s = 0; s < l->heap[b]->spillList->count; s++) { pages[npages].n = l->heap[b]->spillList->spillHeap[s]; pages[npages++].used = 0; } walk((node_t *)h->root, 0, 1); }
  se_assert(walked == mn, "[I02] a key that was put is missing");
  for (int i = 0; i < npages; i++) { unsigned long room = 4096 - 128; if (pages[i].n->max_count) { room -= 3 * (((pages[i].n->max_count + 1) * 8 + 15) & ~15ul); } se_assert(SASIndexNodeFreeSpace(pages[i].n, LOCK_ON) + pages[i].used == room, "[I05] storage that holds no key is free again"); }
  unsigned long blocks = h->expandList ? h->expandList->count : 1; se_assert(SASIndexFreeSpace(t) == blocks * (h->blockHeader.blockSize - 4096) - npages * 4096ul, "[I05] storage that holds no node is free again");
  se_assert(SASIndexIsEmpty(t) == (mn == 0) && SASIndexIsEmpty_nolock(t) == (mn == 0), "[I02] the index is empty exactly when it holds no key");
  SASIndexKey_t *lo = SASIndexGetMinKey(t), *hi = SASIndexGetMaxKey(t); se_assert(SASIndexGetMinKey_nolock(t) == lo && SASIndexGetMaxKey_nolock(t) == hi, "[I03] both forms report the same");
  if (!mn) se_assert(lo == 0 && hi == 0, "[I03] an empty index has no minimum and maximum"); else { se_assert(lo && hi, "[I03] the minimum and maximum are known"); se_assert(keyval(lo) == mk[0], "[I03] the minimum is the smallest key"); se_assert(keyval(hi) == mk[mn - 1], "[I03] the maximum is the largest key"); } }
static void modcount(int must) { unsigned long m = SASIndexGetModCount(t); se_assert(SASIndexGetModCount_nolock(t) == (long)m, "[I03] both forms report the same"); se_assert(must ? m > lastmod : m >= lastmod, "[I03] the modification count grows with each modifying operation"); lastmod = m; }
static unsigned long put(unsigned long k, unsigned long v, int lock) { SASIndexKey_t s; mkkey(&s, k); int r = lock ? SASIndexPut(t, &s, (void *)v) : SASIndexPut_nolock(t, &s, (void *)v); int i = m_find(k); se_assert((r != 0) == (i < 0), "[I02] a put reports whether the key was new"); if (i < 0) m_put(k, v); modcount(i < 0); return i < 0; }
static void replace(unsigned long k, unsigned long v, int lock) { SASIndexKey_t s; mkkey(&s, k); void *r = lock ? SASIndexReplace(t, &s, (void *)v) : SASIndexReplace_nolock(t, &s, (void *)v); int i = m_find(k); se_assert(U(r) == (i < 0 ? 0 : mv[i]), "[I02] a replace returns the previous value"); if (i >= 0) mv[i] = v; modcount(i >= 0); }
static int remove_(unsigned long k, int lock) { SASIndexKey_t s; mkkey(&s, k); void *r = lock ? SASIndexRemove(t, &s) : SASIndexRemove_nolock(t, &s); int i = m_find(k); se_assert(U(r) == (i < 0 ? 0 : mv[i]), "[I02] a remove returns the previous value"); if (i >= 0) m_remove(i); modcount(i >= 0); return i >= 0; }
static void lookup(unsigned long k, int lock) { SASIndexKey_t s; mkkey(&s, k); void *r = lock ? SASIndexGet(t, &s) : SASIndexGet_nolock(t, &s); int c = lock ? SASIndexContainsKey(t, &s) : SASIndexContainsKey_nolock(t, &s); int i = m_find(k); se_assert(U(r) == (i < 0 ? 0 : mv[i]), "[I02] a lookup returns the latest value, and nothing for an absent key"); se_assert((c != 0) == (i >= 0), "[I02] membership is that of the operations performed"); }
static void neighbours(unsigned long k) {
  SASIndexKey_t s; mkkey(&s, k); int lt = 0, le = 0; for (int i = 0; i < mn; i++) { if (mk[i] < k) lt = i + 1; if (mk[i] <= k) le = i + 1; } SASIndexNode_t r = SASIndexGetRootNode(t); if (!r) return;
  for (int w = 0; w < 4; w++) { __IDXnodePosRef ref = { 0, 0 }; int f = w == 0 ? SASIndexNodeSearchGE(r, &s, &ref) : w == 1 ? SASIndexNodeSearchGT(r, &s, &ref) : w == 2 ? SASIndexNodeSearchLE(r, &s, &ref) : SASIndexNodeSearchLT(r, &s, &ref); int want = w == 0 ? lt : w == 1 ? le : w == 2 ? le - 1 : lt - 1;
    se_assert((f != 0) == (want >= 0 && want < mn), "[I05] a nearest-key search finds a neighbour exactly when there is one"); if (f) { SASIndexKey_t *q = SASIndexNodeGetKeyIndexed(ref.node, ref.pos); se_assert(q && keyval(q) == mk[want] && U(SASIndexNodeGetValIndexed(ref.node, ref.pos)) == mv[want], "[I05] a nearest-key search finds the correct neighbour"); } } }
/* every tree of a height around a chosen leaf: that leaf, its siblings and every node on the way to it hold any number of keys, the rest the least */
static unsigned long nextk, klo, khi; static int built, wide;
static node_t *build(int height, int root, int target, int span) {
  node_t *n = (node_t *)SASIndexAllocNoLock(t); se_assert(n != 0, "harness: node"); int min = root ? 1 : n->max_count / 2, max = n->max_count, c = min; if (target || span) c = min + (int)se_choose("keys", (span && !target && !wide ? min + 1 : max) - min + 1); int tb = -1; if (target && height > 1) tb = (int)se_choose("branch", c + 1);
  n->count = c; for (int i = 0; i <= c; i++) {
    if (i) { SASIndexKey_t s; nextk += 0x100; mkkey(&s, nextk); n->keys[i] = (SASIndexKey_t *)SASIndexNodeNearAlloc(n, SASIndexKeySize(&s), LOCK_OFF); SASIndexKeyCopy(n->keys[i], &s); n->vals[i] = (void *)val_of(nextk); mk[mn] = nextk; mv[mn++] = val_of(nextk); if (tb >= 0 && i == tb) klo = nextk; if (tb >= 0 && i == tb + 1) khi = nextk; }
    n->branch[i] = height > 1 ? build(height - 1, 0, i == tb, tb >= 0 && (i == tb - 1 || i == tb + 1)) : 0; }
  return n; }
static void tree(unsigned long size, int height) {
  region_join(); t = SASIndexCreate(size); se_assert(t != 0, "an index is created"); lastmod = SASIndexGetModCount(t); se_assert(lastmod == 1, "[I03] the modification count starts at one"); check(0); klo = 0; khi = ~0ul; if (!height) return;
  /* the first key comes by the public way, so that minimum, maximum and count exist */
  SASIndexKey_t s; mkkey(&s, 1); SASIndexPut_nolock(t, &s, 0); tree_t *h = (tree_t *)t; SASIndexFreeNoLock(t, h->root); wide = (int)se_param("wide", 0); h->root = build(height, 1, 1, 0); h->common->count = mn; mkkey(h->common->min_key, mk[0]); mkkey(h->common->max_key, mk[mn - 1]); lastmod = SASIndexGetModCount(t); check(0); }
/* a key at or behind the separator before the chosen leaf, and before the one behind it */
static unsigned long key_in(const char *n) { unsigned long k = se_u64(n); se_assume(k >= klo && (khi == ~0ul || k < khi)); return k; }
#endif
