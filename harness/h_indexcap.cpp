/* Binary indexes at their real node capacity of 63 keys. */
//@ build exclude=saslock.cpp
//@ case property=I02,I03,I05 name=case_indexcap_node reach=hit,miss quick="--param=step=1" qtime=200 ttime=1200 bounds="a leaf of 1 to 63 keys, lookup and nearest-key search of any key"
//@ case property=I02,I03,I05 name=case_indexcap_ops reach=split,merged,deep quick="--param=deep=0" thorough="--param=deep=1" qtime=300 ttime=3000 bounds="62 to 64 and 96 keys (and 150) in ascending or descending order, then one operation with any key"
//@ case property=I02,I03,I05 name=case_indexcap_long reach=spill,done quick="--param=all=0" thorough="--param=all=1" qtime=300 ttime=3000 bounds="trees of up to 40 keys of 72 or 120 bytes, which do not fit into their nodes, then one operation with any key"
//@ case property=I02,I05,H05 name=case_indexcap_expand reach=expanded,emptied qtime=300 ttime=2000 bounds="an index of 16 KB blocks that expands twice while keys are put, all removed again in either order"
//@ case property=I02,I05,C02,H05 name=case_indexcap_life reach=done qtime=200 bounds="creation of every form and size, destruction returns the space"
//@ case property=I02 name=case_indexcap_full reach=stored qtime=200 bounds="a fixed-size or expanding index of 8 or 16 KB in a region that cannot grow, filled in ascending or descending order until it refuses"
#include "index_model.h"
static int nodes(node_t *n) { int c = 0; if (n) { c = 1; for (int i = 0; i <= n->count; i++) c += nodes(n->branch[i]); } return c; }
static int count(void) { return nodes((node_t *)((tree_t *)t)->root); }
extern "C" void case_indexcap_node(void) {
  tree(65536, 0); int n = 1 + (int)se_choose("keys", 63); for (int i = 0; i < n; i++) put(0x100 * (i + 1), val_of(i), 0); unsigned long k = se_u64("key"); lookup(k, 0); neighbours(k); if (m_find(k) >= 0) se_reach("hit"); else se_reach("miss"); check(0); }
static void fill(int n, int way) { for (int i = 0; i < n; i++) { unsigned long k = 0x100 * (1 + (way == 0 ? i : way == 1 ? n - 1 - i : i * 37 % n)); if (m_find(k) < 0) put(k, val_of(k), 0); } check(0); }
static void one(void) { unsigned long k = se_u64("key"), v = se_u64("value"); int lock = (int)se_choose("lock", 2), c = count(); switch (se_choose("op", 3)) { case 0: put(k, v, lock); if (count() > c) se_reach("split"); break; case 1: remove_(k, lock); if (count() < c) se_reach("merged"); break; default: replace(k, v, lock); lookup(k, lock); neighbours(k); } check(0); }
extern "C" void case_indexcap_ops(void) {
  static const int sizes[] = { 62, 63, 64, 96, 150 }; tree(65536, 0); int n = sizes[se_choose("size", se_param("deep", 0) ? 5 : 4)]; fill(n, (int)se_choose("way", 2)); if (count() > 1) se_reach("deep"); one(); }
extern "C" void case_indexcap_long(void) {
  words = se_choose("long", 2) ? 15 : 9; tree(131072, 0); int n = se_param("all", 0) ? 10 + (int)se_choose("size", 31) : 20 + 10 * (int)se_choose("size", 3); fill(n, (int)se_choose("way", 3)); if (((tree_t *)t)->spillList->count) se_reach("spill"); one(); se_reach("done"); }
extern "C" void case_indexcap_expand(void) {
  tree(16384, 0); words = 1; int way = (int)se_choose("way", 2); unsigned long n = 0; while (((tree_t *)t)->expandList->count < 3 && n < 150) { n++; unsigned long k = way ? 0x10000 - n * 0x100 : n * 0x100; put(k, val_of(k), 1); } if (((tree_t *)t)->expandList->count > 1) se_reach("expanded"); check(0);
  int down = (int)se_choose("down", 2); while (mn) { remove_(mk[down ? mn - 1 : 0], 1); } check(0); se_reach("emptied"); unsigned long k = se_u64("key"); put(k, 1, 1); check(0); SASIndexDestroy(t); se_assert(lk_total == 0, "[H05] destroying an index leaves a lock held"); }
extern "C" void case_indexcap_life(void) {
  region_join(); t = 0; block_size_t s = 8192ul << se_choose("size", 5); int how = (int)se_choose("how", 2); t = how ? SASIndexFixedCreate(s) : SASIndexCreate(s); se_assert(t && SASIndexFreeSpace(t) == s - 4096, "[C02,I02] a new index reports the free space it has"); check(0);
  put(5, 6, 0); put(3, 4, 1); check(0); remove_(5, 1); remove_(3, 0); check(0); lookup(3, 1); SASIndexDestroy(t); SASIndex_t u = SASIndexCreate(s); se_assert(u != 0, "an index is created"); mn = 0; t = u; lastmod = 1; check(0); se_assert(!SOMSASCheckBlockSig((SASBlockHeader *)t) == 0, "[C02] a new index is accepted"); se_reach("done"); }
extern "C" void case_indexcap_full(void) {
  region_join(); t = 0; block_size_t s = 8192ul << se_choose("size", 2); int way = (int)se_choose("way", 2), lock = (int)se_choose("lock", 2); t = se_choose("fixed", 2) ? SASIndexFixedCreate(s) : SASIndexCreate(s); lastmod = 1; env.fail_op = ENV_OPEN; env.fail_all = 1; for (unsigned long z = 1ul << 28; z >= 4096; z /= 2) while (SASBlockAlloc(z));
  int i, full = 0; for (i = 0; i < 160 && !full; i++) { unsigned long k = 0x100 * (1 + (way ? 159 - i : i)); SASIndexKey_t q; mkkey(&q, k); int r = lock ? SASIndexPut(t, &q, (void *)val_of(k)) : SASIndexPut_nolock(t, &q, (void *)val_of(k)); if (r) { m_put(k, val_of(k)); se_reach("stored"); } else full = 1; }
  se_assert(full, "[I02] storage is limited"); check(0); }
