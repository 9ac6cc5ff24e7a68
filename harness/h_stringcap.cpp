/* String trees at their real node capacity of 63 names. */
//@ build exclude=saslock.cpp
//@ case property=S01,I05 name=case_stringcap_node reach=hit,miss quick="--param=step=1" qtime=200 ttime=1200 bounds="a leaf of 1 to 63 names, lookup and nearest-key search of any name"
//@ case property=S01,I05 name=case_stringcap_ops reach=split,merged,deep quick="--param=deep=0" thorough="--param=deep=1" qtime=300 ttime=3000 bounds="62 to 64 and 96 names (and 150) in ascending or descending order, then one operation with any name"
//@ case property=S01,I05 name=case_stringcap_long reach=spill,done quick="--param=all=0" thorough="--param=all=1" qtime=300 ttime=3000 bounds="trees of up to 40 names of up to 74 or 122 bytes, which do not fit into their nodes, then one operation with any name"
//@ case property=S01,I05,H05 name=case_stringcap_expand reach=expanded,emptied qtime=300 ttime=2000 bounds="a string tree of 16 KB blocks that expands twice while names are put, all removed again in either order"
//@ case property=S01,I05,C02,H05 name=case_stringcap_life reach=done qtime=200 bounds="creation of every form and size, destruction returns the space"
//@ case property=S01 name=case_stringcap_full reach=stored qtime=200 bounds="a fixed-size or expanding string tree of 8 or 16 KB in a region that cannot grow, filled in ascending or descending order until it refuses"
#include "string_model.h"
#define START(p) (dense = 1, plen = (p))
static int nodes(node_t *n) { int c = 0; if (n) { c = 1; for (int i = 0; i <= n->count; i++) c += nodes(n->branch[i]); } return c; }
static int count(void) { return nodes((node_t *)((tree_t *)t)->root); }
extern "C" void case_stringcap_node(void) {
  START(14 * (int)se_choose("prefix", 2)); tree(65536, 0); int n = 1 + (int)se_choose("keys", 63); for (int i = 0; i < n; i++) put(nth(i), val_of(i), 0); unsigned long k = any_key("key"); lookup(k, 0); neighbours(k); if (m_find(k) >= 0) se_reach("hit"); else se_reach("miss"); check(0); }
static void fill(int n, int way) { for (int i = 0; i < n; i++) { unsigned long k = nth(way == 0 ? i : way == 1 ? n - 1 - i : i * 37 % n); if (m_find(k) < 0) put(k, val_of(k), 0); } check(0); }
static void one(void) { unsigned long k = any_key("key"), v = se_u64("value"); int lock = (int)se_choose("lock", 2), c = count(); switch (se_choose("op", 3)) { case 0: put(k, v, lock); if (count() > c) se_reach("split"); break; case 1: remove_(k, lock); if (count() < c) se_reach("merged"); break; default: replace(k, v, lock); lookup(k, lock); neighbours(k); } check(0); }
extern "C" void case_stringcap_ops(void) {
  static const int sizes[] = { 62, 63, 64, 96, 150 }; START(14 * (int)se_choose("prefix", 2)); tree(65536, 0); int n = sizes[se_choose("size", se_param("deep", 0) ? 5 : 4)]; fill(n, (int)se_choose("way", 2)); if (count() > 1) se_reach("deep"); one(); }
extern "C" void case_stringcap_long(void) {
  START(se_choose("long", 2) ? 118 : 70); tree(131072, 0); int n = se_param("all", 0) ? 10 + (int)se_choose("size", 31) : 20 + 10 * (int)se_choose("size", 3); fill(n, (int)se_choose("way", 3)); if (((tree_t *)t)->spillList->count) se_reach("spill"); one(); se_reach("done"); }
extern "C" void case_stringcap_expand(void) {
  START(14); tree(16384, 0); int way = (int)se_choose("way", 2); unsigned long n = 0; while (((tree_t *)t)->expandList->count < 3 && n < 150) { n++; unsigned long k = nth(way ? 200 - n : n); put(k, val_of(k), 1); } if (((tree_t *)t)->expandList->count > 1) se_reach("expanded"); check(0);
  int down = (int)se_choose("down", 2); while (mn) { remove_(mk[down ? mn - 1 : 0], 1); } check(0); se_reach("emptied"); unsigned long k = any_key("key"); put(k, 1, 1); check(0); SASStringBTreeDestroy(t); se_assert(lk_total == 0, "[H05] destroying a string tree leaves a lock held"); }
extern "C" void case_stringcap_life(void) {
  region_join(); START(0); t = 0; block_size_t s = 8192ul << se_choose("size", 5); int how = (int)se_choose("how", 2); t = how ? SASStringBTreeFixedCreate(s) : SASStringBTreeCreate(s); se_assert(t && SASStringBTreeFreeSpace(t) == s - 4096, "[C02,S01] a new tree reports the free space it has"); check(0);
  put(nth(5), 6, 0); put(nth(3), 4, 1); check(0); remove_(nth(5), 1); remove_(nth(3), 0); check(0); lookup(nth(3), 1); SASStringBTreeDestroy(t); SASStringBTree_t u = SASStringBTreeCreate(s); se_assert(u != 0, "a string tree is created"); mn = 0; t = u; room0 = 0; check(0); se_assert(!SOMSASCheckBlockSig((SASBlockHeader *)t) == 0, "[C02] a new tree is accepted"); se_reach("done"); }
extern "C" void case_stringcap_full(void) {
  region_join(); START(0); t = 0; block_size_t s = 8192ul << se_choose("size", 2); int way = (int)se_choose("way", 2), lock = (int)se_choose("lock", 2); t = se_choose("fixed", 2) ? SASStringBTreeFixedCreate(s) : SASStringBTreeCreate(s); env.fail_op = ENV_OPEN; env.fail_all = 1; for (unsigned long z = 1ul << 28; z >= 4096; z /= 2) while (SASBlockAlloc(z));
  int i, full = 0; for (i = 0; i < 160 && !full; i++) { unsigned long k = nth(way ? 159 - i : i); name_t q; mkkey(&q, k); int r = lock ? SASStringBTreePut(t, q.s, (void *)val_of(k)) : SASStringBTreePut_nolock(t, q.s, (void *)val_of(k)); if (r) { m_put(k, val_of(k)); se_reach("stored"); } else full = 1; }
  se_assert(full, "[S01] storage is limited"); check(0); }
//@ case property=S01 name=case_stringcap_longname qtime=100 bounds="a name of 2000 to 6000 bytes put into an empty or a one-name tree: stored intact, or refused with the tree unchanged"
extern "C" void case_stringcap_longname(void) {
  static char q[6001]; static unsigned long len; START(0); tree(65536, 0); if (se_choose("other", 2)) put(nth(1), 7, 0); static const unsigned long lens[] = { 2000, 2430, 2432, 3000, 3967, 3968, 4095, 6000 }; len = lens[se_choose("length", 8)]; for (unsigned long i = 0; i < len; i++) q[i] = '~'; q[len] = 0;
  int r = SASStringBTreePut(t, q, (void *)9); if (r) { se_reach("stored"); se_assert(SASStringBTreeGet(t, q) == (void *)9 && !__builtin_strcmp(SASStringBTreeGetMaxKey(t), q), "[S01] a long name is stored intact"); se_assert(SASStringBTreeRemove(t, q) == (void *)9, "[S01] a long name is removed"); } else se_reach("refused"); check(0); }
