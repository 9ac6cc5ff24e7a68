/* Lock balance of every locking operation, for every outcome: the lock manager is replaced by a ledger of who holds what. */
//@ build exclude=saslock.cpp define=default_max=3
//@ case property=H05 name=case_balance_heap reach=done,ok,failed qtime=300 bounds="every locking operation of simple heaps, stacks, spaces and lock-free heaps with any size, on empty, used and full objects, with no lock, a read or a write lock held before"
//@ case property=H05 name=case_balance_compound reach=done,ok,failed,expanded qtime=400 quick="--param=fill=7" thorough="--param=fill=10" bounds="every locking operation of compound heaps and queue heaps of one to three (four) blocks with any load factor, fixed or expanding, when the region can grow or not, with no lock, a read or a write lock held before"
//@ case property=H05 name=case_balance_queue reach=done,ok,failed qtime=300 bounds="every locking operation of queues, loggers and portals on empty, used and full objects, with no lock, a read or a write lock held before"
//@ case property=H05 name=case_balance_tree reach=done,ok,failed qtime=400 quick="--param=fill=6" thorough="--param=fill=14" bounds="every locking operation of indexes and string trees holding up to 6 (14) keys, with no lock, a read or a write lock held before, when the region can grow or (but for putting a key) not"
//@ case property=H05 name=case_balance_node reach=done,ok,failed qtime=300 bounds="every locking operation of index and string tree nodes with any size, on empty and full nodes, spilling into the first block or an expansion block"
//@ case property=H05 name=case_balance_context reach=done,ok,failed qtime=400 quick="--param=fill=3" thorough="--param=fill=6" bounds="every locking operation of contexts holding up to 3 (6) names, with room or full, with no lock, a read or a write lock held before"
//@ case property=H07 name=case_exclude_heap reach=done,ok,failed,changed qtime=300 bounds="every locking operation of simple heaps and stacks with any size, on empty, used and full objects"
//@ case property=H07 name=case_exclude_compound reach=done,ok,failed,changed qtime=300 quick="--param=fill=4" thorough="--param=fill=4" bounds="every locking operation of one-block compound heaps and queue heaps with any load factor, fixed or expanding, when the region can grow or not"
//@ case property=H07 name=case_exclude_queue reach=done,ok,failed,changed qtime=300 bounds="every lock-taking operation of queues, loggers and portals on empty, used and full objects; their lock-free operations are Q01-Q07"
//@ case property=H07 name=case_exclude_tree reach=done,ok,failed,changed qtime=300 quick="--param=fill=4" thorough="--param=fill=8" bounds="every locking operation of indexes and string trees holding up to 4 (8) keys"
//@ case property=H07 name=case_exclude_context reach=done,ok,failed,changed qtime=300 quick="--param=fill=3" thorough="--param=fill=6" bounds="every locking operation of contexts holding up to 3 (6) names, with room or full: the context block under its own lock, and its two trees under their own and the context's"
//@ case property=H07 name=case_interfere_heap reach=done,refused qtime=300 bounds="a locked allocation (of any size on a stack, else of any from 33 to 600 bytes or one of five up to more than the object) or free on a simple heap (both forms), simple stack, compound heap, queue heap or multi queue, empty, half or almost full, while another thread's allocation or free comes between the call and the lock"
#include "lockstub.h"
#include "sasallocpriv.h"
#include "sassimpleheap.h"
#include "sassimplestack.h"
#include "sassimplespace.h"
#include "sascompoundheap.h"
#include "sphcompoundpcqheap.h"
#include "sphlockfreeheap.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include "sphlogportal.h"
#include "sphsinglepcqueue.h"
#include "sphdirectpcqueue.h"
#include "sphmultipcqueue.h"
#include "sphcontext.h"
#include "sphcontextpriv.h"
#include "sasindex.h"
#include "sasindexpriv.h"
#include "sasindexenum.h"
#include "sasindexnodepriv.h"
#define SASCompoundExpandList ExpandList2
#include "sasstringbtree.h"
#include "sasstringbtreenode.h"
#include "sasstringbtreepriv.h"
#include "sasstringbtreenodepriv.h"
#include "sasstringbtreeenum.h"
static int was_w[NLK], was_r[NLK], was_n; static unsigned long held_at; static int held;
/* H07: the bytes of an object, watched over one operation. They change under its write lock only. */
static int excl; static unsigned long wlock[6], wat[6], wlen[6]; static int wn; static unsigned long snap[6][2048];
static int wchanged(int i) { unsigned long d = 0, *q = (unsigned long *)wat[i]; for (unsigned long k = 0; k < wlen[i] / 8; k++) d |= q[k] ^ snap[i][k]; return d != 0; }
static void wsnap(int i) { memcpy(snap[i], (void *)wat[i], wlen[i]); }
static int lk_took; static void whook(unsigned long a, int took, int write) { for (int i = 0; i < wn; i++) if (wlock[i] == a) { lk_took = 1;
  if (took) se_assert(!wchanged(i), "[H07] an object is changed before its lock is taken or after it is released"); else if (!write) se_assert(!wchanged(i), "[H07] an object is changed under a read lock"); else { if (wchanged(i)) se_reach("changed"); wsnap(i); } } }
static void watch(void *lock, void *p, unsigned long n) { if (n > ((SASBlockHeader *)p)->blockSize) n = ((SASBlockHeader *)p)->blockSize; se_assert(wn < 6 && n <= sizeof snap[0], "harness: watched object too large"); wlock[wn] = U(lock); wat[wn] = U(p); wlen[wn] = n; wsnap(wn); wn++; }
/* the blocks an object's header refers to (a context's two trees): they change under their own lock, and under the lock of the object that owns them */
static void watch_owned(void *c) { unsigned long *q = (unsigned long *)((SASBlockHeader *)c + 1); for (int k = 0; k < 8; k++) { SASBlockHeader *p = (SASBlockHeader *)q[k]; if (!q[k] || (q[k] & 4095) || p == c || q[k] < BASE || SASFindHeader(p) != p || !SOMSASCheckBlockSig(p)) continue; watch(p, p, sizeof snap[0]); watch(c, p, sizeof snap[0]); } se_assert(wn == 5, "harness: the trees of a context are not found"); }
static unsigned long watch_max; static int owned;
static void hold(void *p) { if (excl) { watch(p, p, watch_max); if (owned) watch_owned(p); lk_hook = whook; was_n = nlk; for (int i = 0; i < nlk; i++) { was_w[i] = lk[i].w; was_r[i] = lk[i].r[0]; } return; }
  held_at = U(p); held = (int)se_choose("held", 3); if (held) SASLock(p, held == 1 ? SasUserLock__READ : SasUserLock__WRITE); for (int i = 0; i < nlk; i++) { was_w[i] = lk[i].w; was_r[i] = lk[i].r[0]; } was_n = nlk; }
static void unwatched(void) { if (!excl) return; for (int i = 0; i < wn; i++) se_assert(!wchanged(i), "[H07] an object is changed before its lock is taken or after it is released"); lk_hook = 0; }
#define BALANCED(what) do { unwatched(); for (int i_ = 0; i_ < nlk; i_++) se_assert(lk[i_].w == (i_ < was_n ? was_w[i_] : 0) && lk[i_].r[0] == (i_ < was_n ? was_r[i_] : 0), "[H05] the locks held after an operation are those held before: " what); se_reach("done"); } while (0)
static int wantop, opn, lax;
#define OPX(obj, good) lax = 1; OP(obj, good) lax = 0; /* need not lock this very object: it may work on another block, or reads one word */
#define OP(obj, good) if (opn++ == wantop) { hold((void *)(obj)); int g_ = (good) != 0; BALANCED(#good); if (g_) { if (excl && !lax) se_assert(lk_took, "[H07] an operation on a shared object takes its lock: " #good); se_reach("ok"); } else se_reach("failed"); return; }
#define OPF(obj, good) if (!excl) OP(obj, good) /* lock-free or caller-synchronised by design */
#define DO(obj, stmt) if (opn++ == wantop) { hold((void *)(obj)); stmt; BALANCED(#stmt); se_reach("ok"); return; }
static void no_growth(void) { static unsigned long z; env.fail_op = ENV_OPEN; env.fail_all = 1; for (z = 1ul << 28; z >= 4096; z /= 2) while (SASBlockAlloc(z)); }
static unsigned long any_size(unsigned long top) { switch (se_choose("size", 3)) { case 0: return 16 * se_range("units", 0, 4); case 1: return top; default: return se_u64("bytes") | 1ul << 40; } }
extern "C" void case_balance_heap(void) {
  region_join(); opn = 0; wantop = (int)se_choose("operation", 8); static unsigned char *p; static unsigned long z, f; int fill = (int)se_choose("fill", 3);
  switch (se_choose("kind", excl ? 2 : 4)) {
    case 0: { SASSimpleHeap_t h = SASSimpleHeapCreate(8192); p = (unsigned char *)SASSimpleHeapAlloc(h, 64); if (fill == 1) { SASSimpleHeapFree(h, p, 64); } if (fill == 2) while (SASSimpleHeapAlloc(h, 512)); z = any_size(SASSimpleHeapFreeSpace(h));
      OP(h, SASSimpleHeapAlloc(h, z)) if (fill != 1) { OP(h, SASSimpleHeapFree(h, p, 64) == 0) DO(h, SASSimpleHeapNearDealloc(p, 64)) } OP(h, SASSimpleHeapFree(h, p - 8192, z) == 0) OP(h, SASSimpleHeapFreeSpace(h)) OP(h, SASSimpleHeapEmpty(h)) OP(h, SASSimpleHeapNearAlloc(p, z & 0xfff)) OP(h, SASSimpleHeapDestroy(h) == 0) break; }
    case 1: { SASSimpleStack_t h = SASSimpleStackCreate(8192); p = (unsigned char *)SASSimpleStackAlloc(h, 64); if (fill == 1) SASSimpleStackDealloc(h, p); if (fill == 2) while (SASSimpleStackAlloc(h, 512)); z = any_size(SASSimpleStackFreeSpace(h));
      OP(h, SASSimpleStackAlloc(h, z)) OP(h, SASSimpleStackNearAlloc(p, z)) OP(h, SASSimpleStackDealloc(h, p) == 0) OP(h, SASSimpleStackDealloc(h, p - 8192) == 0) OP(h, SASSimpleStackFreeSpace(h)) OP(h, SASSimpleStackDestroy(h) == 0) break; }
    case 2: { SASSimpleSpace_t h = fill ? SASSimpleSpaceCreate(8192) : SASSimpleSpaceCreate(4096 * 4); OP(h, SASSimpleSpaceFreeSpace(h)) OP(h, SASSimpleSpaceToAddr(h)) OP(h, SASSimpleSpaceFromAddr(SASSimpleSpaceToAddr(h))) OP(h, SASSimpleSpaceDestroy(h) == 0) break; }
    default: { SPHLockFreeHeap_t h = SPHLockFreeHeapCreate(16384, 128); p = (unsigned char *)SPHLockFreeHeapAlloc(h, 256); if (fill == 2) while (SPHLockFreeHeapAlloc(h, 128)); z = any_size(128 * 64);
      OP(h, SPHLockFreeHeapAlloc(h, z)) OP(h, SPHLockFreeHeapFree(h, p) == 0) OP(h, SPHLockFreeHeapFreeSpace(h)) OP(h, SPHLockFreeHeapDestroy(h) == 0) } } }
extern "C" void case_balance_compound(void) {
  region_join(); opn = 0; wantop = (int)se_choose("operation", 20); static SASCompoundHeap_t h; static void *pg[16]; static int np, n; static unsigned char *a; int pcq = (int)se_choose("queues", 2), fixed = (int)se_choose("fixed", 2);
  h = fixed ? SASCompoundFixedHeapCreate(16384) : SASCompoundHeapCreate(16384); if (!fixed && se_choose("load", 2)) SASCompoundHeapSetLoadFactor((SASCompoundHeap_t *)h, (int)se_range("factor", 0, 110));
  n = (int)se_choose("pages", (int)se_param("fill", 7)); while (np < n && (pg[np] = pcq ? (void *)SPHCompoundPCQAlloc(h) : (void *)SASCompoundHeapAlloc(h))) np++;
  if (!np) return; for (int i = 0; i < np; i++) if (((SASBlockHeader *)pg[i])->baseBlock != (SASBlockHeader *)h) se_reach("expanded");
  if (!fixed && se_choose("stuck", 2)) no_growth(); int i = (int)se_choose("which", np); a = (unsigned char *)pg[i] + 256 * se_choose("offset", 16); static void *b; b = ((SASBlockHeader *)pg[i])->baseBlock;
  if (pcq) { OP(h, SPHCompoundPCQAlloc(h)) OPX(h, SPHCompoundPCQNearAlloc(a)) OPX(b, SPHCompoundPCQNearAlloc(a)) DO(h, SPHCompoundPCQFree(h, pg[i])) DO(h, SPHCompoundPCQFree(h, (char *)h - 4096)) }
  else { OP(h, SASCompoundHeapAlloc(h)) OPX(h, SASCompoundHeapNearAlloc(a)) OPX(b, SASCompoundHeapNearAlloc(a)) DO(h, SASCompoundHeapFree(h, pg[i])) DO(h, SASCompoundHeapFree(h, (char *)h - 4096)) }
  DO(h, SASCompoundHeapNearDealloc(pg[i])) DO(h, SASCompoundHeapDestroy(h)) OP(h, SASCompoundHeapFreeSpace(h)) OP(h, SASCompoundHeapAllocSpace(h)) OP(h, SASCompoundHeapBringAll(h)) OP(h, SASCompoundHeapSeqAccessAll(h)) OP(h, SASCompoundHeapRandomAccessAll(h)) OP(h, SASCompoundHeapReleaseAll(h)) OP(h, SASCompoundHeapWriteAll(h, (int)se_choose("async", 2))) OP(h, SASCompoundHeapPurgeAll(h, 0)) }
extern "C" void case_balance_queue(void) {
  region_join(); opn = 0; wantop = (int)se_choose("operation", 10); static SPHLFEntryHandle_t e; static SPHLFLoggerHandle_t le; int fill = (int)se_choose("fill", 3);
  switch (se_choose("kind", 4)) {
    case 0: { SPHSinglePCQueue_t q = SPHSinglePCQueueCreateWithStride(8192, 1024); SPHLFEntryHandle_t *x; if (fill) do { x = SPHSinglePCQueueAllocStrideEntry(q, 1, 2, &e); if (x) SPHSinglePCQueueEntryComplete(x); } while (x && fill == 2);
      OPF(q, SPHSinglePCQueueAllocStrideEntry(q, 1, 2, &e)) OPF(q, SPHSinglePCQueueGetNextComplete(q, &e)) OPF(q, SPHSinglePCQueueFreeNextEntry(q)) OPF(q, SPHSinglePCQueueResetAsync(q) == 0) OP(q, SPHSinglePCQueueDestroy(q) == 0) break; }
    case 1: { SPHMPMCQ_t q = SPHMPMCQCreateWithStride(8192, 1024); SPHLFEntryDirect_t x = 0, y = 0; if (fill) do { x = SPHMPMCQAllocStrideDirectSync(q); if (x) { y = x; SPHLFEntryDirectComplete(x, SPHMPMCQGetEntryTemplate(q), 1, 2); } } while (x && fill == 2); if (fill == 0) y = (SPHLFEntryDirect_t)((char *)q + 384);
      OP(q, SPHMPMCQAllocStrideDirectSync(q)) OPF(q, SPHSPMCQAllocStrideDirect(q)) OP(q, SPHMPMCQGetNextCompleteDirectSync(q)) OPF(q, SPHMPSCQGetNextCompleteDirect(q)) OPF(q, SPHMPMCQFreeEntryDirect(q, y)) OPX(q, SPHMPMCQFreeSpace(q)) OPX(q, SPHMPMCQIsEmpty(q)) OPX(q, SPHMPMCQIsFull(q)) OP(q, SPHMPMCQDestroy(q) == 0) break; }
    case 2: { SPHLFLogger_t l = SPHLFLoggerCreate(8192); SPHLFLoggerHandle_t *x; if (fill) do { x = SPHLFLoggerAllocTimeStamped(l, 1, 2, 64, &le); if (x) SPHLFLoggerEntryComplete(x); } while (x && fill == 2);
      OPF(l, SPHLFLoggerAllocTimeStamped(l, 1, 2, 64, &le)) OPF(l, SPHLFLoggerAllocRaw(l, 64)) OPF(l, SPHLFLoggerResetIfFullSync(l) == 0) OPF(l, SPHLFLoggerResetAsync(l) == 0) OP(l, SPHLFLoggerDestroy(l) == 0) break; }
    default: { SPHLogPortal_t l = SPHLogPortalCreate(4096); SPHLFLogger_t g = SPHLFLoggerCreate(4096); if (fill) do ; while (SPHLogPortalAddLogger(l, SPHLFLoggerCreate(4096)) && fill == 2);
      OPF(l, SPHLogPortalAddLogger(l, g)) OPF(l, SPHLogPortalGetCurrentLogger(l)) OPF(l, SPHLogPortalAllocTimeStamped(l, 1, 2, 64, &le)) OP(l, SPHLogPortalDestroy(l) == 0) } } }
static void key64(SASIndexKey_t *k, unsigned long v) { SASIndexKeyInitUInt64(k, v); }
extern "C" void case_balance_tree(void) {
  region_join(); opn = 0; wantop = (int)se_choose("operation", 20); static SASIndexKey_t k; static char s[2]; int n = (int)se_choose("keys", (int)se_param("fill", 6) + 1); s[1] = 0; static unsigned long v; static int stuck; stuck = (int)se_choose("stuck", 2);
  if (se_choose("kind", 2) == 0) { static SASIndex_t t; t = SASIndexCreate(16384); for (int i = 0; i < n; i++) { key64(&k, 10 + 2 * i); SASIndexPut(t, &k, (void *)(8l + i)); } v = 9 + se_range("key", 0, 2 * (unsigned long)n + 2); v = se_concretize(v); static SASIndexNode_t g; g = SASIndexAlloc(t); if (stuck) no_growth(); key64(&k, v); static SASIndexEnum_t e; e = SASIndexEnumCreate(t);
    if (!stuck) { OP(t, SASIndexPut(t, &k, (void *)99)) } OP(t, SASIndexReplace(t, &k, (void *)99)) OP(t, SASIndexRemove(t, &k)) OP(t, SASIndexGet(t, &k)) OP(t, SASIndexContainsKey(t, &k)) OP(t, SASIndexGetMinKey(t)) OP(t, SASIndexGetMaxKey(t)) OP(t, SASIndexGetModCount(t)) OP(t, SASIndexIsEmpty(t)) OP(t, SASIndexFreeSpace(t)) OP(t, SASIndexGetRootNode(t)) OP(t, SASIndexAlloc(t)) OPX(t, SASIndexNearAlloc((char *)g + 256)) DO(t, SASIndexFree(t, g)) DO(t, SASIndexNearDealloc(g)) DO(t, SASIndexDestroy(t)) if (e) { OP(t, SASIndexEnumNext(e)) OPX(t, SASIndexEnumHasMore(e)) } }
  else { static SASStringBTree_t t; t = SASStringBTreeCreate(16384); for (int i = 0; i < n; i++) { s[0] = (char)('b' + 2 * i); SASStringBTreePut(t, s, (void *)(8l + i)); } v = 'a' + se_range("key", 0, 2 * (unsigned long)n + 2); v = se_concretize(v); static SASStringBTreeNode_t g; g = SASStringBTreeAlloc(t); if (stuck) no_growth(); s[0] = (char)v; static SASStringBTreeEnum_t e; e = SASStringBTreeEnumCreate(t);
    if (!stuck) { OP(t, SASStringBTreePut(t, s, (void *)99)) } OP(t, SASStringBTreeReplace(t, s, (void *)99)) OP(t, SASStringBTreeRemove(t, s)) OP(t, SASStringBTreeGet(t, s)) OP(t, SASStringBTreeContainsKey(t, s)) OP(t, SASStringBTreeGetMinKey(t)) OP(t, SASStringBTreeGetMaxKey(t)) OP(t, SASStringBTreeGetModCount(t)) OP(t, SASStringBTreeIsEmpty(t)) OP(t, SASStringBTreeFreeSpace(t)) OP(t, SASStringBTreeGetRootNode(t)) OP(t, SASStringBTreeAlloc(t)) OPX(t, SASStringBTreeNearAlloc((char *)g + 256)) DO(t, SASStringBTreeFree(t, g)) DO(t, SASStringBTreeNearDealloc(g)) DO(t, SASStringBTreeDestroy(t)) if (e) { OP(t, SASStringBTreeEnumNext(e)) OPX(t, SASStringBTreeEnumHasMore(e)) } OP(t, SASStringBTreeEnumCreateStartAt(t, s)) } }
extern "C" void case_balance_node(void) {
  region_join(); opn = 0; wantop = (int)se_choose("operation", 6); static unsigned char *p; static unsigned long z; int fill = (int)se_choose("fill", 3), stuck = (int)se_choose("stuck", 2), more = (int)se_choose("expand", 2);
  if (se_choose("kind", 2) == 0) { SASIndex_t t = SASIndexCreate(16384); SASIndexKey_t k; key64(&k, 5); SASIndexPut(t, &k, (void *)7); if (more) for (int i = 0; i < 4; i++) SASIndexAlloc(t); SASIndexNode_t n = SASIndexGetRootNode(t); p = (unsigned char *)SASIndexNodeAlloc(n, 64, LOCK_ON); if (fill) while (SASIndexNodeAlloc(n, fill == 1 ? 512 : 16, LOCK_ON)); if (stuck) no_growth(); z = any_size(SASIndexNodeFreeSpace(n, LOCK_ON));
    OP(n, SASIndexNodeAlloc(n, z, LOCK_ON)) OP(n, SASIndexNodeFree(n, p, 64, LOCK_ON) == 0) OP(n, SASIndexNodeFreeSpace(n, LOCK_ON)) OP(n, SASIndexNodeNearAlloc(p, 16 + (z & 0xff0), LOCK_ON)) DO(n, SASIndexNodeNearDealloc(n, p, 64, LOCK_ON)) }
  else { SASStringBTree_t t = SASStringBTreeCreate(16384); SASStringBTreePut(t, "a", (void *)7); if (more) for (int i = 0; i < 4; i++) SASStringBTreeAlloc(t); SASStringBTreeNode_t n = SASStringBTreeGetRootNode(t); p = (unsigned char *)SASStringBTreeNodeAlloc(n, 64, LOCK_ON); if (fill) while (SASStringBTreeNodeAlloc(n, fill == 1 ? 512 : 16, LOCK_ON)); if (stuck) no_growth(); z = any_size(SASStringBTreeNodeFreeSpace(n, LOCK_ON));
    OP(n, SASStringBTreeNodeAlloc(n, z, LOCK_ON)) OP(n, SASStringBTreeNodeFreeSpace(n, LOCK_ON)) OP(n, SASStringBTreeNodeNearAlloc(p, 16 + (z & 0xff0), LOCK_ON)) DO(n, SASStringBTreeNodeNearDealloc(n, p, 64, LOCK_ON)) } }
extern "C" void case_balance_context(void) {
  region_join(); opn = 0; wantop = (int)se_choose("operation", 14); static SPHContext_t c; static char s[3], u[3]; int n = (int)se_choose("names", (int)se_param("fill", 3) + 1), m = (int)se_choose("name", n + 1), w = (int)se_choose("to", n + 1), a = (int)se_choose("addr", n + 1), full = (int)se_choose("full", 2);
  c = SPHContextCreate(4096); for (int i = 0; i < n; i++) { s[0] = (char)('a' + i); SPHContextAddName(c, s, (void *)(64l + 64 * i)); } if (full) while (SPHContextAlloc(c, 16)); s[0] = (char)('a' + m); u[0] = (char)('a' + w); void *v = (void *)(64l + 64 * a), *p = SPHContextFindByAddr(c, (void *)64); SASStringBTreeEnum_t e; (void)e; (void)p;
  OP(c, SPHContextAddName(c, s, v)) OP(c, SPHContextRename(c, s, u, v)) OP(c, SPHContextFindByName(c, s)) OP(c, SPHContextFindByAddr(c, v)) OP(c, SPHContextRemoveByName(c, s)  == 0) OP(c, SPHContextRemoveByAddr(c, v) == 0) OP(c, SPHContextAlloc(c, 32)) OP(c, SPHContextFreeSpace(c)) OP(c, SPHContextGetNameEnum(c)) OP(c, SPHContextDestroy(c) == 0) OPX(c, SPHSetupProjectContext(n ? "project" : "other")) OPX(c, SPHSetupProjectContext("project") && SPHRemoveProjectContext(m ? "project" : "other") == 0) }

#define EXCLUDE(name, max) extern "C" void case_exclude_##name(void) { excl = 1; watch_max = max; case_balance_##name(); }
EXCLUDE(heap, 16384) EXCLUDE(compound, 4096) EXCLUDE(queue, 16384) EXCLUDE(tree, 16384)
extern "C" void case_exclude_context(void) { excl = owned = 1; watch_max = 16384; case_balance_context(); }

/* What another thread does between the call and the lock: the storage handed out to both is disjoint, and what both return is free again. */
static struct { unsigned long a, n; } live[512]; static int nlive, kind, other_op, other_did; static void *ih; static unsigned long zz[2]; static void *keep[2]; static long took[2];
static void got(void *p, unsigned long n) { if (!p) { se_reach("refused"); return; } unsigned long a = U(p), top = U(ih) + ((SASBlockHeader *)ih)->blockSize; int bad = 0; se_assert(a > U(ih) && a <= top && n <= top - a, "[H07] storage handed out lies in the object"); for (int i = 0; i < nlive; i++) bad |= a < live[i].a + live[i].n && live[i].a < a + n; se_assert(!bad, "[H07] storage handed out to two threads overlaps"); se_assert(nlive < 512, "harness: blocks"); live[nlive].a = a; live[nlive++].n = n; }
static void drop(void *p) { for (int i = 0; i < nlive; i++) if (live[i].a == U(p)) { live[i] = live[--nlive]; return; } se_assert(0, "harness: unknown block"); }
static void *take(unsigned long z) { void *p; unsigned long n = z;
  switch (kind) { case 0: p = SASSimpleHeapAlloc((SASSimpleHeap_t)ih, z); break; case 1: p = SASSimpleStackAlloc((SASSimpleStack_t)ih, z); break; case 2: p = (void *)SASCompoundHeapAlloc((SASCompoundHeap_t)ih); n = 4096; break; case 3: p = (void *)SPHCompoundPCQAlloc((SASCompoundHeap_t)ih); n = 4096; break; case 4: p = SASSimpleHeapNearAlloc((char *)ih + 256, z); break; default: p = (void *)SPHMPMCQAllocStrideDirectSync((SPHMPMCQ_t)ih); n = 1024; }
  got(p, n ? n : 1); return p; }
static unsigned long space(void) { switch (kind) { case 0: case 4: return SASSimpleHeapFreeSpace((SASSimpleHeap_t)ih); case 1: return SASSimpleStackFreeSpace((SASSimpleStack_t)ih); case 2: case 3: return SASCompoundHeapFreeSpace((SASCompoundHeap_t)ih); default: return SPHMPMCQFreeSpace((SPHMPMCQ_t)ih); } }
static void give(void *p, unsigned long z) { drop(p); switch (kind) { case 0: SASSimpleHeapFree((SASSimpleHeap_t)ih, p, z); break; case 1: SASSimpleStackDealloc((SASSimpleStack_t)ih, p); break; case 2: SASCompoundHeapFree((SASCompoundHeap_t)ih, (SASSimpleHeap_t)p); break; case 3: SPHCompoundPCQFree((SASCompoundHeap_t)ih, (SPHSinglePCQueue_t)p); break; case 4: SASSimpleHeapNearDealloc(p, z); } }
static void other(unsigned long a) { if (a != U(ih)) return; other_did = 1; if (other_op && keep[1]) { give(keep[1], 64); keep[1] = 0; } else { void *p = take(zz[1]); took[1] = p != 0; keep[1] = p; other_op = 0; } }
static const unsigned long sizes[6] = { 1, 48, 200, 512, 1024, 1ul << 40 };
extern "C" void case_interfere_heap(void) {
  region_join(); kind = (int)se_choose("kind", 6); int fill = (int)se_choose("fill", 3); other_op = (int)se_choose("other", kind == 5 || kind == 1 ? 1 : 2); int w = (int)se_choose("op", kind == 5 ? 1 : 2);
  switch (kind) { case 0: case 4: ih = SASSimpleHeapCreate(4096); break; case 1: ih = SASSimpleStackCreate(8192); break; case 2: case 3: ih = SASCompoundFixedHeapCreate(16384); break; default: ih = SPHMPMCQCreateWithStride(8192, 1024); }
  unsigned long room0 = space(); keep[0] = kind == 5 ? 0 : take(64); keep[1] = other_op ? take(64) : 0; int i = 0; static void *rest[256]; if (fill) for (; i < 250 && space() > (fill == 1 ? room0 / 2 : 2 * (kind == 2 || kind == 3 ? 4096ul : 1024ul)); i++) if (!(rest[i] = take(kind == 5 ? 1024 : 256))) break;
  for (int j = 0; j < 2; j++) { zz[j] = kind == 2 || kind == 3 || kind == 5 ? 0 : sizes[se_choose("size", 6)]; }
  if (kind == 1) { zz[0] = se_u64("bytes"); zz[1] = se_u64("otherbytes"); se_assume((zz[0] != 0) & (zz[1] != 0)); } else if (zz[0] == 48) zz[0] = se_range("bytes", 33, 600);
  void *mine = 0; int skip = lk_skip = (int)se_choose("when", 2); lk_before = other; if (w == 0) mine = take(zz[0]); else give(keep[0], 64), keep[0] = 0; lk_before = 0; se_assert(other_did || skip, "[H07] an operation on a shared object takes its lock");
  if (kind != 1 && kind != 5) { if (mine) give(mine, zz[0]); if (keep[1]) give(keep[1], other_op ? 64 : zz[1]); if (keep[0]) give(keep[0], 64); while (i--) if (rest[i]) give(rest[i], 256); se_assert(nlive == 0 && space() == room0, "[H07] storage given back by two threads is free again"); }
  se_assert(lk_total == 0, "[H05] a lock is left held"); se_reach("done"); }
