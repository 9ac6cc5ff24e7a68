/* Binary index trees (node capacity scaled from 63 to 3): one operation with any key on every tree of up to three levels, and histories from an empty index. */
//@ build exclude=saslock.cpp define=default_max=3
//@ case property=I02,I03,I05,H05 name=case_index_put reach=new,duplicate,empty,split,grown quick="--param=height=3" thorough="--param=height=3 --param=wide=1" qtime=300 ttime=3000 bounds="every tree of up to 3 levels of nodes of 3 keys around a chosen leaf, put of any key and value, both forms"
//@ case property=I02,I03,I05,H05 name=case_index_remove reach=present,absent,empty,shrunk quick="--param=height=3" thorough="--param=height=3 --param=wide=1" qtime=300 ttime=3000 bounds="every tree of up to 3 levels of nodes of 3 keys around a chosen leaf, removal of any key, both forms"
//@ case property=I02,I03,I05 name=case_index_read reach=present,absent,empty qtime=300 ttime=3000 quick="--param=height=3" thorough="--param=height=3 --param=wide=1" bounds="every tree of up to 3 levels around a chosen leaf, lookup, membership, replacement and nearest-key search of any key, both forms"
//@ case property=I02,I03,I05 name=case_index_history reach=done quick="--param=ops=2" thorough="--param=ops=3" qtime=300 ttime=3000 bounds="an index filled with up to 12 keys in ascending, descending or alternating order, then 2 (3) operations with any keys"
//@ case property=H07 tag=I02 name=case_index_interfere reach=done,split,gone qtime=300 ttime=3000 quick="--param=height=2" thorough="--param=height=2 --param=wide=1" bounds="every locked put, remove, replace, lookup, membership, minimum and maximum of any key on every tree of up to two levels around a chosen leaf, while another thread's put, remove or replace of any key comes between the call and the lock"
#include "index_model.h"
static int depth(void) { int d = 0; for (node_t *n = (node_t *)((tree_t *)t)->root; n; n = n->branch[0]) d++; return d; }
static int nodes(node_t *n) { int c = 0; if (n) { c = 1; for (int i = 0; i <= n->count; i++) c += nodes(n->branch[i]); } return c; }
extern "C" void case_index_put(void) {
  tree(65536, (int)se_choose("height", 1 + (int)se_param("height", 3))); int d = depth(), c = nodes((node_t *)((tree_t *)t)->root); unsigned long k = key_in("key"), v = se_u64("value"); if (!mn) se_reach("empty");
  if (put(k, v, (int)se_choose("lock", 2))) se_reach("new"); else se_reach("duplicate"); check(0); if (nodes((node_t *)((tree_t *)t)->root) > c) se_reach("split"); if (d && depth() > d) se_reach("grown"); }
extern "C" void case_index_remove(void) {
  tree(65536, (int)se_choose("height", 1 + (int)se_param("height", 3))); int d = depth(); unsigned long k = key_in("key"); 
  if (remove_(k, (int)se_choose("lock", 2))) se_reach("present"); else se_reach("absent"); check(0); if (!mn) se_reach("empty"); if (mn && depth() < d) se_reach("shrunk"); }
extern "C" void case_index_read(void) {
  tree(65536, (int)se_choose("height", 1 + (int)se_param("height", 3))); unsigned long k = key_in("key"), v = se_u64("value"); int lock = (int)se_choose("lock", 2); if (!mn) se_reach("empty");
  lookup(k, lock); neighbours(k); replace(k, v, lock); check(0); lookup(k, !lock); if (m_find(k) >= 0) se_reach("present"); else se_reach("absent"); }
extern "C" void case_index_history(void) {
  tree(65536, 0); int ops = (int)se_param("ops", 2), fill = (int)se_choose("fill", 5) * 3, way = fill ? (int)se_choose("way", 3) : 0;
  for (int i = 0; i < fill; i++) { int j = way == 0 ? i : way == 1 ? fill - 1 - i : i & 1 ? fill - 1 - i / 2 : i / 2; put(0x100 * (j + 1), val_of(0x100 * (j + 1)), 1); } check(0);
  for (int i = 0; i < ops; i++) { unsigned long k = se_u64("key"); switch (se_choose("op", 3)) { case 0: put(k, se_u64("value"), 1); break; case 1: remove_(k, 1); break; default: replace(k, se_u64("value"), 0); lookup(k, 1); } check(0); }
  unsigned long before = lk_takes; SASIndexDestroy(t); se_assert(lk_total == 0 && lk_takes > (int)before, "[H05] destroying an index leaves a lock held"); se_reach("done"); }
/* H07: what another thread does to the tree between the call of an operation and its lock is seen by it */
static unsigned long ok_, ov; static int other_did;
static void other(unsigned long a) { if (a != U(t)) return; other_did = 1; switch (se_choose("other", 3)) { case 0: put(ok_, ov, 1); break; case 1: remove_(ok_, 1); break; default: replace(ok_, ov, 1); } }
extern "C" void case_index_interfere(void) {
  tree(65536, (int)se_choose("height", 1 + (int)se_param("height", 1))); int c = nodes((node_t *)((tree_t *)t)->root); unsigned long k = key_in("key"), v = se_u64("value"); ok_ = key_in("otherkey"); ov = se_u64("othervalue"); int skip = lk_skip = (int)se_choose("when", 2); lk_before = other;
  switch (se_choose("op", 7)) { case 0: put(k, v, 1); break; case 1: remove_(k, 1); break; case 2: replace(k, v, 1); break; case 3: { SASIndexKey_t s; mkkey(&s, k); void *r = SASIndexGet(t, &s); int i = m_find(k); se_assert(U(r) == (i < 0 ? 0 : mv[i]), "[I02] a lookup returns the latest value, and nothing for an absent key"); break; }
    case 4: { SASIndexKey_t s; mkkey(&s, k); int r = SASIndexContainsKey(t, &s); se_assert((r != 0) == (m_find(k) >= 0), "[I02] membership is exact"); break; }
    case 5: { SASIndexKey_t *lo = SASIndexGetMinKey(t); se_assert(mn ? lo && keyval(lo) == mk[0] : lo == 0, "[I02] the minimum is the smallest key when the lock is taken"); break; }
    default: { SASIndexKey_t *hi = SASIndexGetMaxKey(t); se_assert(mn ? hi && keyval(hi) == mk[mn - 1] : hi == 0, "[I02] the maximum is the largest key when the lock is taken"); } }
  lk_before = 0; se_assert(other_did || skip, "[I02] an operation on an index takes its lock"); check(0); if (nodes((node_t *)((tree_t *)t)->root) > c) se_reach("split"); if (!mn) se_reach("gone"); se_reach("done"); }
