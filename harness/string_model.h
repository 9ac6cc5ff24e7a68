#ifndef STRING_MODEL_H
#define STRING_MODEL_H
/* A sorted-array model of a string tree and the walk that compares the real tree with it (contents, order, balance, capacity, storage). */
#include "lockstub.h"
#include "sasstringbtree.h"
#include "sasstringbtreenode.h"
#include "sasstringbtreepriv.h"
#include "sasstringbtreenodepriv.h"
#include "sasstringbtreeenum.h"
typedef SASStringBTreeNodeHeader node_t; typedef SASStringBTreeHeader tree_t;
#define MAXK 160
static SASStringBTree_t t; static unsigned long mk[MAXK], mv[MAXK]; static int mn; 
static unsigned long val_of(unsigned long k) { return k * 2 + 1; }
/* A name is a common prefix and up to three bytes; the model holds these bytes as a number whose order is that of the names. */
static int plen = -1; typedef struct { char s[144]; } name_t;
static void mkkey(name_t *n, unsigned long k) { for (int i = 0; i < plen; i++) n->s[i] = 'm'; n->s[plen] = (char)(k >> 16); n->s[plen + 1] = (char)(k >> 8); n->s[plen + 2] = (char)k; n->s[plen + 3] = 0; }
static unsigned long keyval(const char *s) { int bad = 0; for (int i = 0; i < plen; i++) bad |= s[i] != 'm'; se_assert(!bad, "[S01,S02,I05] a name is kept complete"); const unsigned char *u = (const unsigned char *)s + plen; unsigned long a = u[0], b = u[1] & -(unsigned long)(a != 0), c = u[2] & -(unsigned long)(b != 0); se_assert(!c | !u[3], "[S01,S02,I05] a name is kept complete"); return a << 16 | b << 8 | c; }
static unsigned long ksize(const char *s) { unsigned long v = keyval(s); return (plen + 1 + ((v & 0xff0000) != 0) + ((v & 0xff00) != 0) + ((v & 0xff) != 0) + 15) & ~15ul; }
static int dense;
static unsigned long nth(unsigned long i) { return dense ? (unsigned long)(1 + i / 2) << 16 | (i & 1 ? 0x8000 : 0) : (3 + 8 * (i / 2)) << 16 | (i & 1 ? 0x8000 : 0); }   /* name and name + one byte alternate */
static int m_find(unsigned long k) { for (int i = 0; i < mn; i++) if (mk[i] == k) return i; return -1; }
static void m_put(unsigned long k, unsigned long v) { int i = mn++; while (i > 0 && mk[i - 1] > k) { mk[i] = mk[i - 1]; mv[i] = mv[i - 1]; i--; } mk[i] = k; mv[i] = v; }
static void m_remove(int i) { mn--; for (; i < mn; i++) { mk[i] = mk[i + 1]; mv[i] = mv[i + 1]; } }
static struct { node_t *n; unsigned long used; } pages[64]; static int npages, walked, leafdepth; static unsigned long room0;
static int page_of(unsigned long a) { for (int i = 0; i < npages; i++) if (a >= U(pages[i].n) && a < U(pages[i].n) + 4096) return i; return -1; }
static void collect(node_t *n) { se_assert(npages < 64, "harness: too many nodes"); pages[npages].n = n; pages[npages++].used = 0; for (int i = 0; i <= n->count; i++) if (n->branch[i]) collect(n->branch[i]); }
static void walk(node_t *n, int depth, int root) {
  se_assert(SASStringBTreeNodeGetCount(n) == n->count && n->count <= n->max_count && n->count >= (root ? 1 : n->max_count / 2), "[I05] every node holds between half its capacity (the root: one) and its capacity of keys");
  int leaf = n->branch[0] == 0; if (leaf) { if (leafdepth < 0) leafdepth = depth; se_assert(leafdepth == depth, "[I05] every leaf is at the same depth"); }
  for (int i = 0; i <= n->count; i++) {
    if (i) { const char *k = n->keys[i]; se_assert(k != 0, "[S01,I05] a key of the tree is lost"); se_assert(walked < mn, "[S01] the tree holds a key that was not put"); unsigned long v = keyval(k);
      se_assert(v == mk[walked], "[S01,I05] the keys of the tree are the ones put, in ascending order"); se_assert(U(n->vals[i]) == mv[walked], "[S01] the value of a key is the latest one"); walked++;
      int p = page_of(U(k)); se_assert(p >= 0, "[I05] a key lies in a node of the tree"); pages[p].used += ksize(k); }
    se_assert((n->branch[i] == 0) == leaf, "[I05] every leaf is at the same depth"); if (!leaf) walk(n->branch[i], depth + 1, 0); } }
static void check(int used_blocks) {
  tree_t *h = (tree_t *)t; (void)used_blocks; walked = 0; leafdepth = -1; npages = 0;
  se_assert(lk_total == 0, "[H05,S01] an operation on a string tree leaves a lock held");
  if (h->root) { collect((node_t *)h->root); for (SASCompoundExpandList *l = h->expandList; l; l = 0) for (unsigned b = 0; b < l->count; b++) for (int s = 0; s < l->heap[b]->spillList->count; s++) { pages[npages].n = l->heap[b]->spillList->spillHeap[s]; pages[npages++].used = 0; } walk((node_t *)h->root, 0, 1); }
  se_assert(walked == mn, "[S01] a key that was put is missing");
  for (int i = 0; i < npages; i++) { unsigned long room = 4096 - 128; if (pages[i].n->max_count) { room -= 3 * (((pages[i].n->max_count + 1) * 8 + 15) & ~15ul); } se_assert(SASStringBTreeNodeFreeSpace(pages[i].n, LOCK_ON) + pages[i].used == room, "[I05] storage that holds no key is free again"); }
  unsigned long blocks = h->expandList ? h->expandList->count : 1; se_assert(SASStringBTreeFreeSpace(t) == blocks * (h->blockHeader.blockSize - 4096) - npages * 4096ul, "[I05] storage that holds no node is free again");
  se_assert(SASStringBTreeIsEmpty(t) == (mn == 0) && SASStringBTreeIsEmpty_nolock(t) == (mn == 0), "[S01] the tree is empty exactly when it holds no key");
  se_assert((long)SASStringBTreeGetCurCount(t) == mn, "[S01] the number of names reported is the number present");
  const char *lo = SASStringBTreeGetMinKey(t), *hi = SASStringBTreeGetMaxKey(t); se_assert(SASStringBTreeGetMinKey_nolock(t) == lo && SASStringBTreeGetMaxKey_nolock(t) == hi, "[S01] both forms report the same");
  if (!mn) se_assert(lo == 0 && hi == 0, "[S01] an empty index has no minimum and maximum"); else { se_assert(lo && hi, "[S01] the minimum and maximum are known"); se_assert(keyval(lo) == mk[0], "[S01] the minimum is the smallest key"); se_assert(keyval(hi) == mk[mn - 1], "[S01] the maximum is the largest key"); }
  unsigned long room = freeNode_freeSpaceTotal(h->headerFreeSpace) + (mn ? ksize(lo) + ksize(hi) : 0); if (!room0) room0 = room; se_assert(room == room0, "[I05] storage that holds no key is free again"); }
static unsigned long put(unsigned long k, unsigned long v, int lock) { name_t s; mkkey(&s, k); int r = lock ? SASStringBTreePut(t, s.s, (void *)v) : SASStringBTreePut_nolock(t, s.s, (void *)v); int i = m_find(k); se_assert((r != 0) == (i < 0), "[S01] a put reports whether the key was new"); if (i < 0) m_put(k, v); return i < 0; }
static void replace(unsigned long k, unsigned long v, int lock) { name_t s; mkkey(&s, k); void *r = lock ? SASStringBTreeReplace(t, s.s, (void *)v) : SASStringBTreeReplace_nolock(t, s.s, (void *)v); int i = m_find(k); se_assert(U(r) == (i < 0 ? 0 : mv[i]), "[S01] a replace returns the previous value"); if (i >= 0) mv[i] = v; }
static int remove_(unsigned long k, int lock) { name_t s; mkkey(&s, k); void *r = lock ? SASStringBTreeRemove(t, s.s) : SASStringBTreeRemove_nolock(t, s.s); int i = m_find(k); se_assert(U(r) == (i < 0 ? 0 : mv[i]), "[S01] a remove returns the previous value"); if (i >= 0) m_remove(i); return i >= 0; }
static void lookup(unsigned long k, int lock) { name_t s; mkkey(&s, k); void *r = lock ? SASStringBTreeGet(t, s.s) : SASStringBTreeGet_nolock(t, s.s); int c = lock ? SASStringBTreeContainsKey(t, s.s) : SASStringBTreeContainsKey_nolock(t, s.s); int i = m_find(k); se_assert(U(r) == (i < 0 ? 0 : mv[i]), "[S01] a lookup returns the latest value, and nothing for an absent key"); se_assert((c != 0) == (i >= 0), "[S01] membership is that of the operations performed"); }
static void neighbours(unsigned long k) {
  name_t s; mkkey(&s, k); int lt = 0, le = 0; for (int i = 0; i < mn; i++) { if (mk[i] < k) lt = i + 1; if (mk[i] <= k) le = i + 1; } SASStringBTreeNode_t r = SASStringBTreeGetRootNode(t); if (!r) return;
  for (int w = 0; w < 4; w++) { SBTnodePosRef ref = { 0, 0 }; int f = w == 0 ? SASStringBTreeNodeSearchGE(r, s.s, &ref) : w == 1 ? SASStringBTreeNodeSearchGT(r, s.s, &ref) : w == 2 ? SASStringBTreeNodeSearchLE(r, s.s, &ref) : SASStringBTreeNodeSearchLT(r, s.s, &ref); int want = w == 0 ? lt : w == 1 ? le : w == 2 ? le - 1 : lt - 1;
    se_assert((f != 0) == (want >= 0 && want < mn), "[I05] a nearest-key search finds a neighbour exactly when there is one"); if (f) { const char *q = SASStringBTreeNodeGetKeyIndexed(ref.node, ref.pos); se_assert(q && keyval(q) == mk[want] && U(SASStringBTreeNodeGetValIndexed(ref.node, ref.pos)) == mv[want], "[I05] a nearest-key search finds the correct neighbour"); } } }
/* every tree of a height around a chosen leaf: that leaf, its siblings and every node on the way to it hold any number of keys, the rest the least */
static unsigned long nextk, klo, khi; static int wide;
static unsigned long slen(const char *s) { unsigned long n = 1; while (*s++) n++; return n; } static char *scopy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
static char *edge(tree_t *h, unsigned long k) { name_t s; mkkey(&s, k); return scopy((char *)freeNode_allocSpace(h->headerFreeSpace, &h->headerFreeSpace, slen(s.s)), s.s); }
static node_t *build(int height, int root, int target, int span) {
  node_t *n = (node_t *)SASStringBTreeAllocNoLock(t); se_assert(n != 0, "harness: node"); int min = root ? 1 : n->max_count / 2, max = n->max_count, c = min; if (target || span) c = min + (int)se_choose("keys", (span && !target && !wide ? min + 1 : max) - min + 1); int tb = -1; if (target && height > 1) tb = (int)se_choose("branch", c + 1);
  n->count = c; for (int i = 0; i <= c; i++) {
    if (i) { name_t s; nextk = nth(mn); mkkey(&s, nextk); n->keys[i] = (char *)SASStringBTreeNodeNearAlloc(n, slen(s.s), LOCK_OFF); scopy(n->keys[i], s.s); n->vals[i] = (void *)val_of(nextk); mk[mn] = nextk; mv[mn++] = val_of(nextk); if (tb >= 0 && i == tb) klo = nextk; if (tb >= 0 && i == tb + 1) khi = nextk; }
    n->branch[i] = height > 1 ? build(height - 1, 0, i == tb, tb >= 0 && (i == tb - 1 || i == tb + 1)) : 0; }
  return n; }
static void tree(unsigned long size, int height) {
  region_join(); if (plen < 0) plen = 14 * (int)se_choose("prefix", 2); room0 = 0; t = SASStringBTreeCreate(size); se_assert(t != 0, "a string tree is created"); check(0); klo = 0; khi = ~0ul; if (!height) return;
  tree_t *h = (tree_t *)t; wide = (int)se_param("wide", 0); h->root = build(height, 1, 1, 0); h->common->count = mn; h->common->min_key = edge(h, mk[0]); h->common->max_key = edge(h, mk[mn - 1]); check(0); }
static int wellformed(unsigned long k) { return (k <= 0xffffff) & ((k >= 0x10000) | (k == 0)) & (((k & 0xff00) != 0) | ((k & 0xff) == 0)); }
/* a key at or behind the separator before the chosen leaf, and before the one behind it */
static unsigned long key_in(const char *n) { unsigned long k = se_u32(n); se_assume(wellformed(k)); se_assume((k >= klo) & ((khi == ~0ul) | (k < khi))); return k; }
static unsigned long any_key(const char *n) { unsigned long k = se_u32(n); se_assume(wellformed(k)); return k; }
#endif
