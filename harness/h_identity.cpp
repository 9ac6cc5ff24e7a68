/* Identity checks: every operation on a block whose signature or type is not the one it requires, and freshly created objects. */
//@ build exclude=saslock.cpp define=default_max=3
//@ case property=C02,H05 name=case_identity_heap reach=done,ok qtime=300 bounds="every operation of simple heaps, stacks, spaces, compound heaps, PCQ heaps and lock-free heaps on a block of its own kind whose two signature words or type word hold any other value"
//@ case property=C02,H05 name=case_identity_queue reach=done,ok qtime=300 bounds="every operation of queues, loggers and portals on a block of its own kind whose two signature words or type word hold any other value"
//@ case property=C02,H05 name=case_identity_tree reach=done,ok qtime=300 bounds="every operation of contexts, indexes, string trees and their nodes on a block of its own kind whose two signature words or type word hold any other value"
//@ case property=C02 name=case_identity_subtype reach=done,ok qtime=100 bounds="the type helper functions for any type words"
#include "lockstub.h"
#include "sasallocpriv.h"
#include "sassimpleheap.h"
#include "sassimplestack.h"
#include "sassimplespace.h"
#include "sascompoundheap.h"
#include "sphcompoundpcqheap.h"
#include "sphlockfreeheap.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include "sphlogportal.h"
#include "sphsinglepcqueue.h"
#include "sphdirectpcqueue.h"
#include "sphmultipcqueue.h"
#include "sphcontext.h"
#include "sphcontextpriv.h"
#include "sasindex.h"
#include "sasindexpriv.h"
#include "sasindexnodepriv.h"
#define SASCompoundExpandList ExpandList2
#include "sasstringbtree.h"
#include "sasstringbtreenode.h"
#include "sasstringbtreepriv.h"
#include "sasstringbtreenodepriv.h"
#include "sasstringbtreeenum.h"
extern "C" block_size_t SPHContextFreeSpace(SPHContext_t); extern int SASIndexContainsKey_nolock(SASIndex_t, SASIndexKey_t *);
extern int SPHContextAddNameNoLock(SPHContext_t, const char *, void *); extern void *SPHContextFindByNameNoLock(SPHContext_t, const char *); extern void *SPHContextFindByAddrNoLock(SPHContext_t, const void *); extern int SPHContextRemoveByNameNoLock(SPHContext_t, const char *); extern int SPHContextRemoveByAddrNoLock(SPHContext_t, const void *);
static SASBlockHeader *b; static unsigned long size, copy[4096]; static SPHLFEntryHandle_t hs; static SPHLFLoggerHandle_t ls; static SASIndexKey_t key;
/* the literal values a block of each kind carries */
#define S1 block__Signature_1
#define S2 block__Signature_2
static void spoil(unsigned type, unsigned mask) {
  int how = (int)se_choose("how", 3); unsigned long s1 = b->blockSig1, s2 = b->blockSig2; unsigned ty = b->blockType;
  se_assert(s1 == S1 && s2 == S2 && (ty & 0xffffff00) == type, "[C02] a new object carries its signature and type");
  if (how == 0) { unsigned long v = se_u64("signature1"); se_assume(v != s1); b->blockSig1 = v; } else if (how == 1) { unsigned long v = se_u64("signature2"); se_assume(v != s2); b->blockSig2 = v; }
  else { unsigned v = se_u32("type"); se_assume((v & mask) != (type & mask)); b->blockType = v; } }
static void save(void) { unsigned long *p = (unsigned long *)b; for (unsigned long i = 0; i < size / 8; i++) copy[i] = p[i]; }
static int same(void) { unsigned long *p = (unsigned long *)b, d = 0; for (unsigned long i = 0; i < size / 8; i++) d |= copy[i] ^ p[i]; return d == 0; }
#define SUB 0xffffff00u
#define TYP 0x80ff0000u
static int wantop, opn;
#define OP(mask, fails) if (opn++ == wantop) { spoil(TYPE, mask); save(); se_assert(fails, "[C02] fails on a block of another kind: " #fails); se_assert(same(), "[C02] leaves a block of another kind unmodified: " #fails); se_assert(lk_total == 0, "[H05] no lock is left held after failing: " #fails); se_reach("done"); return; }
#define RUN(mask, stmt) if (opn++ == wantop) { spoil(TYPE, mask); save(); stmt; se_assert(same(), "[C02] leaves a block of another kind unmodified: " #stmt); se_assert(lk_total == 0, "[H05] no lock is left held after: " #stmt); se_reach("done"); return; }
static unsigned char heap_junk[64];
static void ops(int kind) {
  void *p; opn = 0;
  switch (kind) {
#define TYPE 0x10100100u
    case 0: { size = 8192; SASSimpleHeap_t h = SASSimpleHeapCreate(size); b = (SASBlockHeader *)h; se_assert(h && SASSimpleHeapFreeSpace(h) == SASSimpleHeapFreeSpaceNoLock(h), "[C02] both forms report the same"); p = SASSimpleHeapAlloc(h, 64);
      OP(TYP, SASSimpleHeapAlloc(h, 32) == 0) OP(TYP, SASSimpleHeapAllocNoLock(h, 32) == 0) OP(TYP, SASSimpleHeapFree(h, p, 64) != 0) OP(TYP, SASSimpleHeapFreeNoLock(h, p, 64) != 0) OP(TYP, SASSimpleHeapFreeSpace(h) == 0) OP(TYP, SASSimpleHeapFreeSpaceNoLock(h) == 0) RUN(TYP, SASSimpleHeapEmpty(h)) RUN(TYP, SASSimpleHeapEmptyNoLock(h)) OP(SUB, SASSimpleHeapDestroy(h) != 0) OP(SUB, SASSimpleHeapDestroyNoLock(h) != 0)
      OP(TYP, SASSimpleHeapNearAllocNoLock(p, 32) == 0) OP(TYP, SASSimpleHeapNearFind(p) == 0) RUN(TYP, SASSimpleHeapNearDeallocNoLock(p, 64)) break; }
#undef TYPE
#define TYPE 0x10200100u
    case 1: { size = 8192; SASSimpleStack_t h = SASSimpleStackCreate(size); b = (SASBlockHeader *)h; p = SASSimpleStackAlloc(h, 64);
      OP(TYP, SASSimpleStackAlloc(h, 32) == 0) OP(TYP, SASSimpleStackAllocNoLock(h, 32) == 0) OP(TYP, SASSimpleStackNearAlloc(p, 32) == 0) OP(TYP, SASSimpleStackNearAllocNoLock(p, 32) == 0) OP(TYP, SASSimpleStackDealloc(h, p) != 0) OP(TYP, SASSimpleStackDeallocNoLock(h, p) != 0) OP(TYP, SASSimpleStackFreeSpace(h) == 0) OP(TYP, SASSimpleStackFreeSpaceNoLock(h) == 0) OP(SUB, SASSimpleStackDestroy(h) != 0) OP(SUB, SASSimpleStackDestroyNoLock(h) != 0) break; }
#undef TYPE
#define TYPE 0x10300100u
    case 2: { size = 8192; SASSimpleSpace_t h = SASSimpleSpaceCreate(size); b = (SASBlockHeader *)h; p = SASSimpleSpaceToAddr(h); se_assert(SASSimpleSpaceFromAddr(p) == h, "[C02] a new space is accepted");
      OP(TYP, SASSimpleSpaceToAddr(h) == 0) OP(TYP, SASSimpleSpaceFromAddr(p) == 0) OP(TYP, SASSimpleSpaceFreeSpace(h) == 0) OP(SUB, SASSimpleSpaceDestroy(h) != 0) OP(SUB, SASSimpleSpaceDestroyNoLock(h) != 0) break; }
#undef TYPE
#define TYPE 0x10110100u
    case 3: { size = 32768; SASCompoundHeap_t h = SASCompoundHeapCreate(size); b = (SASBlockHeader *)h; SASSimpleHeap_t s = SASCompoundHeapAlloc(h); SPHSinglePCQueue_t q = 0; se_assert(s != 0, "[C02] a new compound heap is accepted"); p = (char *)s + 256;
      OP(TYP, SASCompoundHeapAlloc(h) == 0) OP(TYP, SASCompoundHeapAllocNoLock(h) == 0) RUN(TYP, SASCompoundHeapFree(h, s)) RUN(TYP, SASCompoundHeapFreeNoLock(h, s)) OP(TYP, SASCompoundHeapNearAlloc(p) == 0) OP(TYP, SASCompoundHeapNearAllocNoLock(p) == 0) RUN(TYP, SASCompoundHeapNearDealloc(s)) RUN(TYP, SASCompoundHeapNearDeallocNoLock(s))
      RUN(TYP, SASCompoundHeapSetLoadFactor((SASCompoundHeap_t *)h, 50)) OP(TYP, SASCompoundHeapGetLoadFactor((SASCompoundHeap_t *)h) == -1) RUN(TYP, SASCompoundHeapAllocSize(h)) OP(TYP, SASCompoundHeapFreeSpace(h) == 0) OP(TYP, SASCompoundHeapFreeSpaceNoLock(h) == 0) OP(TYP, SASCompoundHeapAllocSpace(h) == 0)
      OP(TYP, SASCompoundHeapWriteAll(h, 0) == 0) OP(TYP, SASCompoundHeapPurgeAll(h, 0) == 0) OP(TYP, SASCompoundHeapReleaseAll(h) == 0) OP(TYP, SASCompoundHeapBringAll(h) == 0) OP(TYP, SASCompoundHeapSeqAccessAll(h) == 0) OP(TYP, SASCompoundHeapRandomAccessAll(h) == 0) RUN(TYP, SASCompoundHeapDestroy(h)) RUN(TYP, SASCompoundHeapDestroyNoLock(h))
      OP(TYP, SPHCompoundPCQAlloc(h) == 0) OP(TYP, SPHCompoundPCQAllocNoLock(h) == 0) RUN(TYP, SPHCompoundPCQFree(h, (SPHSinglePCQueue_t)s)) RUN(TYP, SPHCompoundPCQFreeNoLock(h, (SPHSinglePCQueue_t)s)) OP(TYP, SPHCompoundPCQNearAlloc(p) == 0) OP(TYP, SPHCompoundPCQNearAllocNoLock(p) == 0) (void)q; break; }
#undef TYPE
#define TYPE 0x10400100u
    case 4: { size = 16384; SPHLockFreeHeap_t h = SPHLockFreeHeapCreate(size, 128); b = (SASBlockHeader *)h; p = SPHLockFreeHeapAlloc(h, 256);
      OP(TYP, SPHLockFreeHeapAlloc(h, 128) == 0) OP(TYP, SPHLockFreeHeapAlignAlloc(h, 128, 256) == 0) OP(TYP, SPHLockFreeHeapNearAlloc(p, 128) == 0) OP(TYP, SPHLockFreeHeapFree(h, p) != 0) OP(TYP, SPHLockFreeHeapFreeNear(p) != 0) OP(TYP, SPHLockFreeHeapFreeIn(h, p) != 0) OP(TYP, SPHLockFreeHeapFreeChk(h, p, 256) != 0) OP(TYP, SPHLockFreeHeapFreeNearChk(p, 256) != 0) OP(TYP, SPHLockFreeHeapNearFind(p) == 0) OP(TYP, SPHLockFreeHeapFreeSpace(h) == 0) RUN(TYP, SPHLockFreeHeapEmpty(h)) RUN(TYP, SPHLockFreeHeapFull(h)) OP(SUB, SPHLockFreeHeapDestroy(h) != 0) break; }
#undef TYPE
#define TYPE 0x10700100u
    case 5: { size = 8192; SPHSinglePCQueue_t q = SPHSinglePCQueueCreateWithStride(size, 256); b = (SASBlockHeader *)q; int left = (int)se_choose("used", 2); if (left) { SPHLFEntryHandle_t *e = SPHSinglePCQueueAllocStrideEntry(q, 1, 2, &hs); se_assert(e != 0, "[C02] a new queue is accepted"); SPHSinglePCQueueEntryComplete(e); }
      OP(TYP, SPHSinglePCQueueGetStride(q) == -1) OP(TYP, SPHSinglePCQueueAllocRaw(q) == 0) OP(TYP, SPHSinglePCQueueAllocStrideEntry(q, 1, 2, &hs) == 0) OP(TYP, SPHSinglePCQueueAllocStrideTimeStamped(q, 1, 2, &hs) == 0) OP(TYP, SPHSinglePCQueueGetNextComplete(q, &hs) == 0) OP(TYP, SPHSinglePCQueueFreeNextEntry(q) == 0) RUN(TYP, SPHSinglePCQueueEmpty(q)) RUN(TYP, SPHSinglePCQueueFull(q)) OP(TYP, SPHSinglePCQueueFreeSpace(q) == 0) OP(TYP, SPHSinglePCQueueResetAsync(q) != 0) OP(TYP, SPHSinglePCQueuePrefetch(q) != 0) OP(TYP, SPHSinglePCQueueSetCachePrefetch(q, 1) != 0) OP(SUB, SPHSinglePCQueueDestroy(q) != 0)
      OP(TYP, SPHSinglePCQueueGetEntryTemplate(q) == 0) OP(TYP, SPHSinglePCQueueAllocStrideDirect(q) == 0) OP(TYP, SPHSinglePCQueueAllocStrideDirectSpin(q) == 0) OP(TYP, SPHSinglePCQueueAllocStrideDirectSpinPause(q) == 0) OP(TYP, SPHSinglePCQueueGetNextCompleteDirectSpin(q) == 0) OP(TYP, SPHSinglePCQueueGetNextCompleteDirectSpinPause(q) == 0) OP(TYP, SPHSinglePCQueueGetNextCompleteDirect(q) == 0) OP(TYP, SPHSinglePCQueueFreeNextEntryDirect(q, (SPHLFEntryDirect_t)((char *)q + 256)) == 0) OP(TYP, SPHSinglePCQueueGetNextEntryDirect(q) == 0) break; }
#undef TYPE
#define TYPE 0x10700200u
    case 6: { size = 8192; SPHMPMCQ_t q = SPHMPMCQCreateWithStride(size, 256); b = (SASBlockHeader *)q; SPHLFEntryDirect_t e = 0; if (se_choose("used", 2)) { e = SPHMPMCQAllocStrideDirectSync(q); se_assert(e != 0, "[C02] a new queue is accepted"); SPHLFEntryDirectComplete(e, SPHMPMCQGetEntryTemplate(q), 1, 2); } else e = (SPHLFEntryDirect_t)((char *)q + 384);
      OP(TYP, SPHMPMCQGetStride(q) == -1) RUN(TYP, SPHMPMCQGetEntries(q)) RUN(TYP, SPHMPMCQIsEmpty(q)) RUN(TYP, SPHMPMCQIsFull(q)) OP(TYP, SPHMPMCQFreeSpace(q) == 0) OP(TYP, SPHMPMCQGetEntryTemplate(q) == 0) OP(TYP, SPHMPMCQAllocStrideDirectSync(q) == 0) OP(TYP, SPHSPMCQAllocStrideDirect(q) == 0) OP(TYP, SPHMPMCQGetNextCompleteDirectSync(q) == 0) OP(TYP, SPHMPSCQGetNextCompleteDirect(q) == 0) OP(TYP, SPHMPMCQFreeEntryDirect(q, e) == 0) OP(TYP, SPHMPMCQPrefetch(q) != 0) OP(SUB, SPHMPMCQDestroy(q) != 0) break; }
#undef TYPE
#define TYPE 0x10500100u
    case 7: { size = 8192; SPHLFLogger_t l = SPHLFLoggerCreate(size); b = (SASBlockHeader *)l; static SPHLFLogIterator_t it; if (se_choose("used", 2)) { SPHLFLoggerHandle_t *e = SPHLFLoggerAllocTimeStamped(l, 1, 2, 64, &ls); se_assert(e != 0, "[C02] a new log is accepted"); SPHLFLoggerEntryComplete(e); } SPHLFLogIterator_t *i = SPHLFLoggerCreateIterator(l, &it); se_assert(i != 0, "[C02] a new log is accepted");
      OP(TYP, SPHLFLoggerAllocRaw(l, 64) == 0) OP(TYP, SPHLFLoggerAllocTimeStamped(l, 1, 2, 64, &ls) == 0) OP(TYP, SPHLFLoggerAllocStrideTimeStamped(l, 1, 2, &ls) == 0) OP(TYP, SPHLFLoggerAllocTimeStampedNoLock(l, 1, 2, 64, &ls) == 0) OP(TYP, SPHLFLoggerAllocStrideTimeStampedNoLock(l, 1, 2, &ls) == 0) OP(TYP, SPHLFLoggerIteratorNext(&it, &ls) == 0) OP(TYP, SPHLFLoggerCreateIterator(l, &it) == 0) RUN(TYP, SPHLFLoggerEmpty(l)) RUN(TYP, SPHLFLoggerWrapped(l)) OP(TYP, SPHLFLoggerFreeSpace(l) == 0) RUN(TYP, SPHLFLoggerFull(l)) OP(SUB, SPHLFLoggerResetIfFullSync(l) != 0) OP(SUB, SPHLFLoggerResetAsync(l) != 0) OP(TYP, SPHLFLoggerPrefetch(l) != 0) OP(TYP, SPHLFLoggerSetCachePrefetch(l, 1) != 0) OP(SUB, SPHLFLoggerDestroy(l) != 0) break; }
#undef TYPE
#define TYPE 0x10600100u
    case 8: { size = 8192; SPHLogPortal_t l = SPHLogPortalCreate(size); b = (SASBlockHeader *)l; SPHLFLogger_t g = SPHLFLoggerCreate(4096), g2 = SPHLFLoggerCreate(4096); static SPHLFPortalIterator_t it; if (se_choose("used", 2)) { SPHLFLogger_t r = SPHLogPortalAddLogger(l, g2); (void)r; } SPHLFPortalIterator_t *i = SPHLFPortalCreateIterator(l, &it); (void)i;
      OP(TYP, SPHLogPortalAddLogger(l, g) == 0) OP(TYP, SPHLogPortalGetCurrentLogger(l) == 0) OP(TYP, SPHLogPortalGetLoggerByIndex(l, 0) == 0) OP(TYP, SPHLogPortalGetCurrentIndex(l) == -1) RUN(TYP, SPHLogPortalEmpty(l)) OP(TYP, SPHLogPortalEntries(l) == -1) OP(TYP, SPHLogPortalCapacity(l) == 0) OP(TYP, SPHLogPortalAllocStrideTimeStamped(l, 1, 2, &ls) == 0) OP(TYP, SPHLogPortalAllocTimeStamped(l, 1, 2, 64, &ls) == 0) OP(TYP, SPHLogPortalAllocRaw(l, 64) == 0) OP(TYP, SPHLFPortalCreateIterator(l, &it) == 0) OP(SUB, SPHLogPortalDestroy(l) != 0) break; }
#undef TYPE
#define TYPE 0x10100400u
    case 9: { size = 8192; SPHContext_t c = SPHContextCreate(size); b = (SASBlockHeader *)c; SPHContextAddName(c, "name", (void *)64); p = (void *)SPHContextFindByAddr(c, (void *)64); se_assert(p != 0, "[C02] a new context is accepted");
      OP(TYP, SPHContextAddName(c, "other", (void *)128) == 0) OP(TYP, SPHContextAddNameNoLock(c, "other", (void *)128) == 0) OP(TYP, SPHContextRename(c, "name", "other", (void *)64) == 0) OP(TYP, SPHContextGetNameEnum(c) == 0) OP(TYP, SPHContextFindByName(c, "name") == 0) OP(TYP, SPHContextFindByNameNoLock(c, "name") == 0) OP(TYP, SPHContextFindByAddr(c, (void *)64) == 0) OP(TYP, SPHContextFindByAddrNoLock(c, (void *)64) == 0) OP(TYP, SPHContextRemoveByName(c, "name") != 0) OP(TYP, SPHContextRemoveByNameNoLock(c, "name") != 0) OP(TYP, SPHContextRemoveByAddr(c, (void *)64) != 0) OP(TYP, SPHContextRemoveByAddrNoLock(c, (void *)64) != 0) OP(TYP, SPHContextFreeSpace(c) == 0) OP(TYP, SPHContextAlloc(c, 32) == 0) OP(TYP, SPHContextFree(c, p, 5) != 0) OP(SUB, SPHContextDestroy(c) != 0) break; }
#undef TYPE
#define TYPE 0x10110300u
    case 10: { size = 32768; SASIndex_t t = SASIndexCreate(size); b = (SASBlockHeader *)t; SASIndexKeyInitUInt64(&key, 5); SASIndexPut(t, &key, (void *)7); se_assert(SASIndexGet(t, &key) == (void *)7, "[C02] a new index is accepted"); SASIndexNode_t n = SASIndexAlloc(t); p = (char *)n + 256;
      OP(TYP, SASIndexGetModCount(t) == 0) OP(TYP, SASIndexGetModCount_nolock(t) == 0) OP(TYP, SASIndexGetMaxKey(t) == 0) OP(TYP, SASIndexGetMaxKey_nolock(t) == 0) OP(TYP, SASIndexGetMinKey(t) == 0) OP(TYP, SASIndexGetMinKey_nolock(t) == 0) OP(TYP, SASIndexContainsKey(t, &key) == 0) OP(TYP, SASIndexContainsKey_nolock(t, &key) == 0) OP(TYP, SASIndexGet(t, &key) == 0) OP(TYP, SASIndexGet_nolock(t, &key) == 0) RUN(TYP, SASIndexIsEmpty(t)) RUN(TYP, SASIndexIsEmpty_nolock(t)) OP(TYP, SASIndexPut(t, &key, (void *)9) == 0) OP(TYP, SASIndexPut_nolock(t, &key, (void *)9) == 0) OP(TYP, SASIndexReplace(t, &key, (void *)9) == 0) OP(TYP, SASIndexReplace_nolock(t, &key, (void *)9) == 0) OP(TYP, SASIndexRemove(t, &key) == 0) OP(TYP, SASIndexRemove_nolock(t, &key) == 0) RUN(TYP, SASIndexAllocSize(t)) OP(TYP, SASIndexFreeSpace(t) == 0) OP(TYP, SASIndexAlloc(t) == 0) OP(TYP, SASIndexAllocNoLock(t) == 0) RUN(TYP, SASIndexFree(t, n)) RUN(TYP, SASIndexFreeNoLock(t, n)) OP(TYP, SASIndexNearAlloc(p) == 0) OP(TYP, SASIndexNearAllocNoLock(p) == 0) RUN(TYP, SASIndexNearDealloc(n)) RUN(TYP, SASIndexNearDeallocNoLock(n)) OP(TYP, SASIndexGetRootNode(t) == 0) OP(TYP, SASIndexGetRootNode_nolock(t) == 0) RUN(TYP, SASIndexDestroy(t)) RUN(TYP, SASIndexDestroyNoLock(t)) break; }
#undef TYPE
#define TYPE 0x10110200u
    case 11: { size = 32768; SASStringBTree_t t = SASStringBTreeCreate(size); b = (SASBlockHeader *)t; SASStringBTreePut(t, "name", (void *)7); se_assert(SASStringBTreeGet(t, "name") == (void *)7, "[C02] a new string tree is accepted"); SASStringBTreeNode_t n = SASStringBTreeAlloc(t); p = (char *)n + 256;
      OP(TYP, SASStringBTreeGetModCount(t) == 0) OP(TYP, SASStringBTreeGetModCount_nolock(t) == 0) OP(TYP, SASStringBTreeGetMaxKey(t) == 0) OP(TYP, SASStringBTreeGetMaxKey_nolock(t) == 0) OP(TYP, SASStringBTreeGetMinKey(t) == 0) OP(TYP, SASStringBTreeGetMinKey_nolock(t) == 0) OP(TYP, SASStringBTreeContainsKey(t, "name") == 0) OP(TYP, SASStringBTreeContainsKey_nolock(t, "name") == 0) OP(TYP, SASStringBTreeGet(t, "name") == 0) OP(TYP, SASStringBTreeGet_nolock(t, "name") == 0) RUN(TYP, SASStringBTreeIsEmpty(t)) RUN(TYP, SASStringBTreeIsEmpty_nolock(t)) OP(TYP, SASStringBTreeGetCurCount(t) == 0) OP(TYP, SASStringBTreePut(t, "x", (void *)9) == 0) OP(TYP, SASStringBTreePut_nolock(t, "x", (void *)9) == 0) OP(TYP, SASStringBTreeReplace(t, "name", (void *)9) == 0) OP(TYP, SASStringBTreeReplace_nolock(t, "name", (void *)9) == 0) OP(TYP, SASStringBTreeRemove(t, "name") == 0) OP(TYP, SASStringBTreeRemove_nolock(t, "name") == 0) RUN(TYP, SASStringBTreeAllocSize(t)) OP(TYP, SASStringBTreeFreeSpace(t) == 0) OP(TYP, SASStringBTreeFreeSpaceNoLock(t) == 0) OP(TYP, SASStringBTreeAlloc(t) == 0) OP(TYP, SASStringBTreeAllocNoLock(t) == 0) RUN(TYP, SASStringBTreeFree(t, n)) RUN(TYP, SASStringBTreeFreeNoLock(t, n)) OP(TYP, SASStringBTreeNearAlloc(p) == 0) OP(TYP, SASStringBTreeNearAllocNoLock(p) == 0) RUN(TYP, SASStringBTreeNearDealloc(n)) RUN(TYP, SASStringBTreeNearDeallocNoLock(n)) OP(TYP, SASStringBTreeGetRootNode(t) == 0) OP(TYP, SASStringBTreeGetRootNodeNoLock(t) == 0) RUN(TYP, SASStringBTreeDestroy(t)) RUN(TYP, SASStringBTreeDestroyNoLock(t)) break; }
#undef TYPE
#define TYPE 0x10100300u
    case 12: { size = 4096; SASIndex_t t = SASIndexCreate(32768); SASIndexKeyInitUInt64(&key, 5); SASIndexPut(t, &key, (void *)7); SASIndexNode_t n = SASIndexGetRootNode(t); b = (SASBlockHeader *)n; IDXnodePosRef ref = { 0, 0 }; p = SASIndexNodeAlloc(n, 32, LOCK_ON); se_assert(p != 0, "[C02] a new node is accepted");
      OP(SUB, SASIndexNodeDestroy(n, LOCK_ON) != 0) OP(SUB, SASIndexNodeDestroyNoLock(n) != 0) OP(TYP, SASIndexNodeFreeSpace(n, LOCK_ON) == 0) OP(TYP, SASIndexNodeFreeSpaceNoLock(n) == 0) OP(TYP, SASIndexNodeFreeFragmentsNoLock(n) == 0) OP(TYP, SASIndexNodeMaxFragmentNoLock(n) == 0) OP(TYP, SASIndexNodeAlloc(n, 32, LOCK_ON) == 0) OP(TYP, SASIndexNodeAllocNoLock(n, 32) == 0) OP(TYP, SASIndexNodeFree(n, p, 32, LOCK_ON) != 0) OP(TYP, SASIndexNodeFreeNoLock(n, p, 32) != 0) OP(TYP, SASIndexNodeGetCount(n) <= 0) OP(TYP, SASIndexNodeGetKeyIndexed(n, 1) == 0) OP(TYP, SASIndexNodeGetBranchIndexed(n, 0) == 0) OP(TYP, SASIndexNodeGetValIndexed(n, 1) == 0) OP(TYP, SASIndexNodePutValIndexed(n, 1, 0) == 0) OP(TYP, SASIndexNodeSearch(n, &key, &ref) == 0) OP(TYP, SASIndexNodeSearchGT(n, &key, &ref) == 0) OP(TYP, SASIndexNodeSearchGE(n, &key, &ref) == 0) OP(TYP, SASIndexNodeSearchLT(n, &key, &ref) == 0) OP(TYP, SASIndexNodeSearchLE(n, &key, &ref) == 0) break; }
#undef TYPE
#define TYPE 0x10100200u
    case 13: { size = 4096; SASStringBTree_t t = SASStringBTreeCreate(32768); SASStringBTreePut(t, "name", (void *)7); SASStringBTreeNode_t n = SASStringBTreeGetRootNode(t); b = (SASBlockHeader *)n; SBTnodePosRef ref = { 0, 0 }; p = SASStringBTreeNodeAlloc(n, 32, LOCK_ON); se_assert(p != 0, "[C02] a new node is accepted");
      RUN(SUB, SASStringBTreeNodeDestroy(n, LOCK_ON)) RUN(SUB, SASStringBTreeNodeDestroyNoLock(n)) OP(TYP, SASStringBTreeNodeFreeSpace(n, LOCK_ON) == 0) OP(TYP, SASStringBTreeNodeFreeSpaceNoLock(n) == 0) OP(TYP, SASStringBTreeNodeFreeFragmentsNoLock(n) == (block_size_t)-1) OP(TYP, SASStringBTreeNodeMaxFragmentNoLock(n) == (block_size_t)-1) OP(TYP, SASStringBTreeNodeAlloc(n, 32, LOCK_ON) == 0) OP(TYP, SASStringBTreeNodeAllocNoLock(n, 32) == 0) OP(TYP, SASStringBTreeNodeGetCount(n) <= 0) OP(TYP, SASStringBTreeNodeGetKeyIndexed(n, 1) == 0) OP(TYP, SASStringBTreeNodeGetBranchIndexed(n, 0) == 0) OP(TYP, SASStringBTreeNodeGetValIndexed(n, 1) == 0) OP(TYP, SASStringBTreeNodePutValIndexed(n, 1, 0) == 0) OP(TYP, SASStringBTreeNodeSearch(n, "name", &ref) == 0) OP(TYP, SASStringBTreeNodeSearchGT(n, "a", &ref) == 0) OP(TYP, SASStringBTreeNodeSearchGE(n, "a", &ref) == 0) OP(TYP, SASStringBTreeNodeSearchLT(n, "z", &ref) == 0) OP(TYP, SASStringBTreeNodeSearchLE(n, "z", &ref) == 0) break; }
  }
  se_assert(lk_total == 0, "[H05] an operation leaves a lock held"); se_reach("ok"); }
static void kinds(int first, int n) { region_join(); int k = first + (int)se_choose("kind", n); wantop = (int)se_choose("operation", 40); ops(k); }
extern "C" void case_identity_heap(void) { kinds(0, 5); }
extern "C" void case_identity_queue(void) { kinds(5, 4); }
extern "C" void case_identity_tree(void) { kinds(9, 5); }
extern "C" void case_identity_subtype(void) {
  SASBlockHeader h; h.blockSig1 = S1; h.blockSig2 = S2; unsigned ty = se_u32("type"), want = se_u32("wanted"); h.blockType = ty;
  se_assert(SOMSASCheckBlockSig(&h) != 0 && (SOMSASCheckBlockSigAndType(&h, want) != 0) == ((ty & 0x80ff0000) == (want & 0x00ff0000)), "[C02] the type check compares the type");
  se_assert((SOMSASCheckBlockSigAndTypeAndSubtype(&h, want) != 0) == ((ty ^ want) < 0x100), "[C02] the subtype check compares group, type and subtype"); se_assert((SOMSASCheckBlockSubType(&h, want) != 0) == (((ty ^ want) & 0xff00) == 0), "[C02] the subtype is compared");
  SOMSASSetBlockSubType(&h, want); se_assert(h.blockType == ((ty & ~0xff00u) | (want & 0xff00)), "[C02] setting the subtype changes only the subtype"); se_assert(SOMSASGetBlockType(&h) == h.blockType && SOMSASGetBlockSubType(&h) == (want & 0xff00), "[C02] the subtype set is reported"); se_reach("done"); se_reach("ok"); }
static int destroyed; static unsigned long big[48]; static int nbig;
static void *make(int kind) {
  static void *p; p = 0; unsigned long s = 1ul << 24;
  switch (kind) { case 0: if ((p = SASSimpleHeapCreate(s))) { se_assert(SASSimpleHeapAlloc(p, 64) != 0, "[C02] a new heap is accepted"); destroyed = SASSimpleHeapDestroy(p); } break;
    case 1: if ((p = SASSimpleStackCreate(s))) { se_assert(SASSimpleStackAlloc(p, 64) != 0, "[C02] a new stack is accepted"); destroyed = SASSimpleStackDestroy(p); } break;
    case 2: if ((p = SASSimpleSpaceCreate(s))) { se_assert(SASSimpleSpaceToAddr(p) != 0, "[C02] a new space is accepted"); destroyed = SASSimpleSpaceDestroy(p); } break;
    case 3: if ((p = SASCompoundHeapCreate(s))) { se_assert(SASCompoundHeapAlloc(p) != 0, "[C02] a new compound heap is accepted"); SASCompoundHeapDestroy(p); destroyed = 0; } break;
    case 4: if ((p = SPHLockFreeHeapCreate(s, 16384))) { se_assert(SPHLockFreeHeapAlloc(p, 16384) != 0, "[C02] a new lock-free heap is accepted"); destroyed = SPHLockFreeHeapDestroy(p); } break;
    case 5: if ((p = SPHSinglePCQueueCreateWithStride(s, 32768))) { se_assert(SPHSinglePCQueueAllocRaw(p) != 0, "[C02] a new queue is accepted"); destroyed = SPHSinglePCQueueDestroy(p); } break;
    case 6: if ((p = SPHMPMCQCreateWithStride(s, 32768))) { se_assert(SPHMPMCQAllocStrideDirectSync(p) != 0, "[C02] a new queue is accepted"); destroyed = SPHMPMCQDestroy(p); } break;
    case 7: if ((p = SPHLFLoggerCreate(s))) { se_assert(SPHLFLoggerAllocRaw(p, 64) != 0, "[C02] a new log is accepted"); destroyed = SPHLFLoggerDestroy(p); } break;
    case 8: if ((p = SPHLogPortalCreate(s))) { se_assert(SPHLogPortalEntries(p) == 0, "[C02] a new portal is accepted"); destroyed = SPHLogPortalDestroy(p); } break;
    case 9: if ((p = SPHContextCreate(s))) { se_assert(SPHContextAddName(p, "name", (void *)64) == 1 && SPHContextFindByName(p, "name") == (void *)64, "[C02] a new context is accepted"); destroyed = SPHContextDestroy(p); } break;
    case 10: if ((p = SASIndexCreate(s))) { SASIndexKeyInitUInt64(&key, 5); se_assert(SASIndexPut(p, &key, (void *)7) == 1 && SASIndexGet(p, &key) == (void *)7, "[C02] a new index is accepted"); SASIndexDestroy(p); destroyed = 0; } break;
    default: if ((p = SASStringBTreeCreate(s))) { se_assert(SASStringBTreePut(p, "name", (void *)7) == 1 && SASStringBTreeGet(p, "name") == (void *)7, "[C02] a new string tree is accepted"); SASStringBTreeDestroy(p); destroyed = 0; } break; }
  return p; }
//@ case property=C02,R02 name=case_identity_exhausted reach=done,ok qtime=300 bounds="creation of every kind of object of 16 MB in a region that cannot grow and has no, one or three such blocks left"
extern "C" void case_identity_exhausted(void) {
  region_join(); env.fail_op = ENV_OPEN; env.fail_all = 1; int left = (int)se_choose("left", 3), kind = (int)se_choose("kind", 12);
  for (unsigned long z = 1ul << 28; z >= 1ul << 24; z /= 2) { void *p; while ((p = SASBlockAlloc(z)) != 0) { se_assert(nbig < 48, "one block of each size"); big[nbig++] = U(p); } }
  if (left) SASBlockDealloc((void *)big[nbig - 1], 1ul << 24);
  if (left > 1) SASBlockDealloc((void *)big[nbig - 2], 1ul << 25);
  destroyed = 0; void *p = make(kind); se_assert(destroyed == 0, "[C02] a new object is destroyed"); se_assert(!p || left, "[C02] nothing is made without a block"); if (p) se_reach("done"); else { se_reach("ok"); if (left) se_assert(SASBlockAlloc(1ul << 24) != 0, "[C02] a creation that fails keeps storage"); }
}

static void fill(unsigned long f, unsigned long unit, unsigned long lose, void *(*take)(void *, unsigned long), void *h) { unsigned long n = 0; se_assert(f > 0, "[C02] a new object has free space"); while (take(h, unit)) { n++; se_assert(n * unit <= f, "[C02] a new object holds more than the free space it reports"); } se_assert((n + 1) * unit + lose > f, "[C02] a new object holds less than the free space it reports"); }
//@ case property=C02 name=case_identity_fresh reach=done qtime=600 bounds="new objects of every kind with storage, of 8 KB to 64 KB, filled until they refuse"
extern "C" void case_identity_fresh(void) {
  region_join(); unsigned long s = 8192ul << se_choose("size", 4); static void *p; static SPHLFEntryHandle_t e;
  switch (se_choose("kind", 10)) {
    case 0: p = SASSimpleHeapCreate(s); fill(SASSimpleHeapFreeSpace(p), 512, 0, [](void *h, unsigned long u) { return (void *)SASSimpleHeapAlloc(h, u); }, p); break;
    case 1: p = SASSimpleStackCreate(s); fill(SASSimpleStackFreeSpace(p), 512, 0, [](void *h, unsigned long u) { return (void *)SASSimpleStackAlloc(h, u); }, p); break;
    case 2: p = SASSimpleSpaceCreate(s); se_assert(U(SASSimpleSpaceToAddr(p)) + SASSimpleSpaceFreeSpace(p) == U(p) + s || SASSimpleSpaceFreeSpace(p) == 0, "[C02] a space reports what it has"); break;
    case 3: if (s < 16384) break; p = SASCompoundHeapCreate(s); SASCompoundHeapSetLoadFactor((SASCompoundHeap_t *)p, 101); fill(SASCompoundHeapFreeSpace(p), 4096, 0, [](void *h, unsigned long u) { return SASCompoundHeapFreeSpace(h) ? (void *)SASCompoundHeapAlloc(h) : (void *)0; }, p); break;
    case 4: p = SPHLockFreeHeapCreate(s, 64); if (p) fill(SPHLockFreeHeapFreeSpace(p), 64, 0, [](void *h, unsigned long u) { return (void *)SPHLockFreeHeapAlloc(h, u); }, p); break;
    case 5: p = SPHSinglePCQueueCreateWithStride(s, 256); fill(SPHSinglePCQueueFreeSpace(p), 256, 0, [](void *h, unsigned long u) { return (void *)SPHSinglePCQueueAllocStrideEntry(h, 1, 2, &e); }, p); break;
    case 6: p = SPHMPMCQCreateWithStride(s, 256); fill(SPHMPMCQFreeSpace(p), 256, 0, [](void *h, unsigned long u) { return (void *)SPHMPMCQAllocStrideDirectSync(h); }, p); break;
    case 7: p = SPHLFLoggerCreate(s); fill(SPHLFLoggerFreeSpace(p), 256, 0, [](void *h, unsigned long u) { return (void *)SPHLFLoggerAllocRaw(h, u); }, p); break;
    case 8: p = SPHLogPortalCreate(s); fill((unsigned long)SPHLogPortalCapacity(p), 1, 0, [](void *h, unsigned long u) { SPHLFLogger_t l = SPHLFLoggerCreate(4096); se_assert(l != 0, "a logger is created"); return (void *)SPHLogPortalAddLogger(h, l); }, p); break;
    case 9: p = SPHContextCreate(s); fill(SPHContextFreeSpace(p), 512, 0, [](void *h, unsigned long u) { return (void *)SPHContextAlloc(h, u); }, p); break; }
  se_reach("done"); }
