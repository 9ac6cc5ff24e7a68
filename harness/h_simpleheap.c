/* Simple heap public interface: a fresh heap with all but its last units handed out, then arbitrary calls. */
//@ case property=H01,H02 name=case_simpleheap reach=alloc_ok,alloc_none,freed,merged_all quick="--param=ops=3 --param=units=6" thorough="--param=ops=5 --param=units=8" qtime=100 ttime=1500 bounds="4 KB simple heap created by the real region code, last 6 (8) units free, every sequence of 3 (5) calls of the locking/non-locking/near forms, any 64-bit allocation size"
//@ case property=H01,H02 name=case_simpleheap_refuse reach=bad_free,bad_type quick="" qtime=60 bounds="any free whose address/size leave the heap, any block type word"
#include "common.h"
#include "sassimpleheap.h"
#include <string.h>
#define HS 4096ul
#define DATA 128ul
static unsigned char *h, *tail; static int units; static unsigned char used[16];
static struct { unsigned char *p; unsigned long n; } blk[16]; static int nblk;
static unsigned long free_units(void) { int f = 0; for (int i = 0; i < units; i++) f += !used[i]; return f; }
static int max_run(void) { int m = 0, r = 0; for (int i = 0; i < units; i++) { r = used[i] ? 0 : r + 1; if (r > m) m = r; } return m; }
static void heap_setup(void) {
  region_join(); units = (int)se_param("units", 6);
  h = (unsigned char *)SASSimpleHeapCreate(HS); se_assert(h != 0, "[H01] a simple heap can be created");
  se_assert(SASSimpleHeapFreeSpace(h) == HS - DATA, "[H02] a fresh heap reports all its data area free"); se_assert(SASSimpleHeapEmpty(h), "[H02] a fresh heap is empty");
  unsigned char *p = (unsigned char *)SASSimpleHeapAlloc(h, HS - DATA - 16ul * units);
  se_assert(p >= h + DATA && p + (HS - DATA - 16ul * units) <= h + HS, "[H01] the filler lies inside the heap");
  tail = p == h + DATA ? h + HS - 16ul * units : h + DATA; }   /* whichever end it was cut from */
static void check_totals(void) {
  se_assert(SASSimpleHeapFreeSpace(h) == 16 * free_units(), "[H02] reported free space matches what is outstanding");
  se_assert(SASSimpleHeapFreeSpaceNoLock(h) == 16 * free_units(), "[H02] free space, non-locking form");
  se_assert(!SASSimpleHeapEmpty(h), "[H02] a heap with live storage is not empty"); }
static void got(unsigned char *p, unsigned long n) {
  if (!p) { se_reach("alloc_none"); if (n && n <= 16ul * units) { unsigned need = (unsigned)se_concretize((n + 15) / 16); se_assert((int)need > max_run(), "[H02] allocation refused although a fragment is large enough"); } check_totals(); return; }
  se_assert(n > 0 && n <= 16ul * units, "[H01] a request that cannot be met is refused");
  unsigned need = (unsigned)se_concretize((n + 15) / 16); se_reach("alloc_ok");
  se_assert(p >= tail && p + 16 * need <= tail + 16 * units, "[H01] block lies inside the free part of the heap"); se_assert(((p - tail) & 15) == 0, "[H01] block is aligned");
  int u = (int)((p - tail) / 16); for (unsigned i = 0; i < need; i++) { se_assert(!used[u + i], "[H01] block overlaps a live block"); used[u + i] = 1; }
  memset(p, 0xC3, 16 * need); blk[nblk].p = p; blk[nblk++].n = n; check_totals(); }
void case_simpleheap(void) {
  heap_setup(); int ops = (int)se_param("ops", 3);
  for (int i = 0; i < ops; i++) {
    int k = (int)se_choose("op", nblk + 1);
    if (k == 0) {
      unsigned long n; if (se_choose("big", 2)) { n = se_u64("n"); se_assume(n == 0 || n > 16ul * units); } else n = se_range("n", 1, 16ul * units);
      switch (se_choose("form", 4)) { case 0: got((unsigned char *)SASSimpleHeapAlloc(h, n), n); break; case 1: got((unsigned char *)SASSimpleHeapAllocNoLock(h, n), n); break;
        case 2: got((unsigned char *)SASSimpleHeapNearAlloc(h + 200, (long)n), n); break; case 3: got((unsigned char *)SASSimpleHeapNearAllocNoLock(h + HS - 1, n), n); break; } }
    else { k--; unsigned char *p = blk[k].p; unsigned long n = blk[k].n; int u = (int)((p - tail) / 16), need = (int)se_concretize((n + 15) / 16); for (int j = 0; j < need; j++) used[u + j] = 0; blk[k] = blk[--nblk];
      switch (se_choose("form", 4)) { case 0: se_assert(SASSimpleHeapFree(h, p, n) == 0, "[H02] freeing a live block succeeds"); break; case 1: se_assert(SASSimpleHeapFreeNoLock(h, p, n) == 0, "[H02] freeing a live block succeeds"); break;
        case 2: SASSimpleHeapNearDealloc(p, (long)n); break; case 3: SASSimpleHeapNearDeallocNoLock(p, n); break; }
      se_reach("freed"); check_totals(); if (max_run() == units) se_reach("merged_all"); } }
  /* whatever happened: free everything, and the heap serves its largest original request again */
  while (nblk) { nblk--; se_assert(SASSimpleHeapFree(h, blk[nblk].p, blk[nblk].n) == 0, "[H02] freeing a live block succeeds"); }
  memset(used, 0, sizeof used); check_totals();
  se_assert(SASSimpleHeapAlloc(h, 16ul * units) == tail, "[H02] once everything is freed the largest request can be served again"); }
/* refused frees */
static unsigned long snap[HS / 8];
void case_simpleheap_refuse(void) {
  heap_setup(); unsigned char *p = (unsigned char *)SASSimpleHeapAlloc(h, 32); memcpy(snap, h, HS);
  SASBlockHeader *bh = (SASBlockHeader *)h; int near_form = (int)se_choose("near", 2);
  if (se_choose("kind", 2)) {   /* range */
    unsigned long a, n = se_u64("n"); se_assume(n > 0);
    if (near_form) a = U(h) + se_range("off", 0, HS - 1); else a = se_u64("addr");
    unsigned long s = U(h) + DATA, e = U(h) + HS;
    se_assume(n > HS || a < s || a >= e || a + n > e);
    if (near_form) SASSimpleHeapNearDeallocNoLock((void *)a, n);
    else { int rc = se_choose("lock", 2) ? SASSimpleHeapFree(h, (void *)a, n) : SASSimpleHeapFreeNoLock(h, (void *)a, n); se_assert(rc != 0, "[H02] a free outside the heap is refused"); }
    se_reach("bad_free"); }
  else {
    sas_type_t t = se_u32("type"); se_assume((t & SAS_TYPE_CHECK_MASK) != (SAS_SIMPLEHEAP_TYPE & SAS_TYPE_MASK)); bh->blockType = t; ((SASBlockHeader *)snap)->blockType = t;
    if (near_form) SASSimpleHeapNearDeallocNoLock(p, 32);
    else { int rc = se_choose("lock", 2) ? SASSimpleHeapFree(h, p, 32) : SASSimpleHeapFreeNoLock(h, p, 32); se_assert(rc != 0, "[H02] a free to a block of the wrong type is refused"); }
    se_reach("bad_type"); }
  se_assert(memcmp(snap, h, HS) == 0, "[H02] a refused free changes nothing"); }
