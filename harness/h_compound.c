/* Compound heaps (of simple heaps and of single-producer queues): every history of page allocations, near allocations and releases. */
//@ case property=H04 name=case_compound reach=got,expanded,freed,refused,destroyed quick="--param=ops=2" thorough="--param=ops=3" qtime=200 ttime=3000 bounds="an expanding 16 KB heap of 4 KB pages, up to three pages handed out, then 2 (3) calls of every form, near addresses and load factors symbolic"
//@ case property=H04 name=case_compound_small reach=got,expanded,freed,refused,destroyed quick="--param=ops=2" thorough="--param=ops=3" qtime=200 ttime=3000 bounds="an expanding 8 KB heap of 2 KB pages, up to three pages handed out, then 2 (3) calls of every form, near addresses and load factors symbolic"
//@ case property=H04 name=case_compound_large reach=got,expanded,freed,refused,destroyed quick="--param=ops=2" thorough="--param=ops=3" qtime=200 ttime=3000 bounds="an expanding 16 KB heap of 8 KB pages, up to three pages handed out, then 2 (3) calls of every form, near addresses and load factors symbolic"
//@ case property=H04 name=case_compound_fixed reach=got,none,freed,refused,destroyed quick="--param=ops=2" thorough="--param=ops=3" qtime=200 ttime=3000 bounds="a fixed 16 KB heap of 4 KB pages, up to three pages handed out, then 2 (3) calls of every form, near addresses and load factors symbolic"
//@ case property=H04 name=case_compound_queue reach=got,expanded,freed,refused,destroyed quick="--param=ops=2" thorough="--param=ops=3" qtime=200 ttime=3000 bounds="an expanding 16 KB heap of 4 KB queues, up to three pages handed out, then 2 (3) calls of every form, near addresses and load factors symbolic"
//@ case property=H04 name=case_compound_create reach=made,refused qtime=60 bounds="heap sizes of 2 KB to 64 KB, page sizes of 512 bytes to 128 KB, fixed, expanding and initialised in place"
//@ case property=H04,R04 name=case_compound_reuse reach=done qtime=100 bounds="a block used as a compound heap and again as a simple heap, every address in it"
//@ case property=H04 name=case_compound_list reach=done qtime=120 bounds="a heap that expands 258 times, past the inline list of blocks"
//@ case property=H04 name=case_compound_threads reach=done quick="--preempt=2" thorough="--preempt=3" qtime=150 ttime=2400 bounds="two threads, each one allocation, near allocation, release or near release on an expanded heap, up to 2 (3) preemptions"
#include "region_model.h"
#include "sassimpleheap.h"
#include "sascompoundheap.h"
#include "sphcompoundpcqheap.h"
#include "sphsinglepcqueue.h"
static SASCompoundHeap_t h; static unsigned long hs, ps, hdr; static int pcq, fixed;
static unsigned long pg[24]; static int np; static SASBlockHeader *blk[8]; static int nb;
static unsigned long inuse(void) { SASListInUseMem(lb, ls, &lc); return lists_sum(); }
static SASBlockHeader *home(unsigned long p) { for (int i = 0; i < nb; i++) if (p >= U(blk[i]) && p < U(blk[i]) + hs) return blk[i]; return 0; }
static void totals(void) {
  se_assert(SASCompoundHeapAllocSpace(h) == (unsigned long)nb * hs, "[H04] the space reported is that of the heap's blocks");
  unsigned long f = (unsigned long)nb * (hs - hdr) - (unsigned long)np * ps; se_assert(SASCompoundHeapFreeSpace(h) == f && SASCompoundHeapFreeSpaceNoLock(h) == f, "[H04] the free space reported is not what is left");
  SASListInUseMem(lb, ls, &lc); for (int i = 0; i < nb; i++) { int in = 0; for (int j = 0; j < lc; j++) if (U(blk[i]) >= U(lb[j]) && U(blk[i]) + hs <= U(lb[j]) + ls[j]) in = 1; se_assert(in, "[H04] a block of the heap is not the heap's"); } }
static void add_block(SASBlockHeader *b) { for (int i = 0; i < nb; i++) se_assert(!overlap(U(b), hs, U(blk[i]), hs), "[H04] a page's block is one of the heap's"); se_assert(b->baseBlock == (SASBlockHeader *)h && b->blockSize == (long)hs && SOMSASCheckBlockSigAndType(b, SAS_RUNTIME_COMPOUNDHEAP), "[H04] a page's block is one of the heap's"); blk[nb++] = b; }
static int full(void) { return np * ps == (unsigned long)nb * (hs - hdr); }
static void got(unsigned long p, const char *none) {
  if (!p) { se_reach("none"); se_assert(fixed && full(), none); return; }
  se_reach("got"); se_assert(SOMSASCheckBlockSigAndType((SASBlockHeader *)p, pcq ? SAS_RUNTIME_PCQUEUE : SAS_RUNTIME_SIMPLEHEAP), "[H04] a page is an object of the kind asked for");
  SASBlockHeader *b = ((SASBlockHeader *)p)->baseBlock; if (!home(U(b))) { se_assert(!fixed, "[H04] a fixed heap does not grow"); add_block(b); se_reach("expanded"); }
  se_assert(home(U(b)) == b && p >= U(b) + hdr && p + ps <= U(b) + hs, "[H04] a page lies inside one of the heap's blocks"); se_assert(p % ps == 0 && ((SASBlockHeader *)p)->blockSize == (long)ps, "[H04] a page is aligned to the page size");
  for (int i = 0; i < np; i++) se_assert(!overlap(p, ps, pg[i], ps), "[H04] two live pages overlap");
  if (!pcq) se_assert(SASSimpleHeapFreeSpaceNoLock((SASSimpleHeap_t)p) == ps - 128, "[H04] a page is a fresh heap"); pg[np++] = p; }
static unsigned long alloc(int lock) { return pcq ? U(lock ? SPHCompoundPCQAlloc(h) : SPHCompoundPCQAllocNoLock(h)) : U(lock ? SASCompoundHeapAlloc(h) : SASCompoundHeapAllocNoLock(h)); }
static unsigned long near_(unsigned long a, int lock) { void *p = (void *)a; return pcq ? U(lock ? SPHCompoundPCQNearAlloc(p) : SPHCompoundPCQNearAllocNoLock(p)) : U(lock ? SASCompoundHeapNearAlloc(p) : SASCompoundHeapNearAllocNoLock(p)); }
static void release(unsigned long p, int f) { switch (f) { case 0: if (pcq) SPHCompoundPCQFree(h, (void *)p); else SASCompoundHeapFree(h, (void *)p); break; case 1: if (pcq) SPHCompoundPCQFreeNoLock(h, (void *)p); else SASCompoundHeapFreeNoLock(h, (void *)p); break;
  case 2: SASCompoundHeapNearDealloc((void *)p); break; default: SASCompoundHeapNearDeallocNoLock((void *)p); } }
static void make(int shape) {
  switch (shape) { case 0: hs = 16384; ps = 4096; h = SASCompoundHeapCreate(hs); break; case 1: hs = 8192; ps = 2048; h = SASCompoundHeapCreatePageSize(hs, ps); break; case 2: hs = 16384; ps = 8192; h = SASCompoundHeapCreatePageSize(hs, ps); break; default: hs = 16384; ps = 4096; fixed = 1; h = SASCompoundFixedHeapCreate(hs); }
  hdr = ps > 4096 ? ps : 4096; se_assert(h != 0, "[H04] a compound heap is created"); blk[nb++] = (SASBlockHeader *)h; se_assert(SASCompoundHeapAllocSize(h) == ps, "[H04] the page size is the one asked for"); totals(); }
static void run(int shape) {
  region_join(); unsigned long before = inuse(); pcq = shape == 4; make(pcq ? 0 : shape); int ops = (int)se_param("ops", 3);
  int load = (int)se_u8("load"); se_assume(load == 75 || (load == 100 && !pcq)); if (load != 75) { SASCompoundHeapSetLoadFactor((SASCompoundHeap_t *)h, load); se_assert(SASCompoundHeapGetLoadFactor((SASCompoundHeap_t *)h) == load, "[H04] the load factor reads back"); }
  int pre = (int)se_choose("pages", 3); if (pre) pre++; for (int i = 0; i < pre; i++) got(alloc(0), "[H04] a page is refused although there is room"); totals();
  for (int i = 0; i < ops; i++) { int lock = (int)se_choose("lock", 2);
    switch (se_choose("op", 4)) {
    case 0: got(alloc(lock), "[H04] a page is refused although there is room"); break;
    case 1: { unsigned k = (unsigned)se_choose("at", np + 1); unsigned long o = se_u64("offset") & ((k ? ps : 4096) - 1); unsigned long at = (k ? pg[k - 1] : U(h)) + o; got(near_(at, lock), "[H04] a near page is refused although there is room"); break; }
    case 2: if (np) { unsigned k = (unsigned)se_choose("which", np); unsigned long p = pg[k], o = 0; int f = (int)se_choose("near", 2); if (f) { o = se_u64("offset") & (ps - 1); } release(p + o, 2 * f + lock); pg[k] = pg[--np]; se_reach("freed");
        if (!f && se_choose("again", 2)) { release(p, lock); se_reach("refused"); } } break;
    default: if (np) { /* names no page of this heap */ SASBlockHeader *b = blk[se_choose("block", nb)]; unsigned long o = se_u64("offset") & 4095; release(U(b) + o, 2 + lock); release(U(b), lock); se_reach("refused"); } }
    totals(); }
  SASCompoundHeapDestroy(h); se_assert(inuse() == before, "[H04] a destroyed heap returns all of its blocks"); se_reach("destroyed"); }
void case_compound(void) { run(0); }
void case_compound_small(void) { run(1); }
void case_compound_large(void) { run(2); }
void case_compound_fixed(void) { run(3); }
void case_compound_queue(void) { run(4); }
void case_compound_create(void) {
  region_join(); unsigned long before = inuse(); hs = 2048ul << se_choose("log2", 6); ps = 512ul << se_choose("page", 9); hdr = ps > 4096 ? ps : 4096; int how = (int)se_choose("how", 3); if (how == 0) { ps = 4096; hdr = 4096; fixed = 1; }
  void *seg = 0; int expanding = 0; if (how == 2) { seg = SASBlockAlloc(hs < 4096 ? 4096 : hs); void *nx = SASBlockAlloc(4096); (void)nx; before = inuse(); }
  unsigned long *after = 0; if (how == 2 && hs >= 4096) { after = (unsigned long *)((char *)seg + hs); }
  unsigned long keep = after && se_valid(after, 64) ? after[0] : 0;
  h = how == 0 ? SASCompoundFixedHeapCreate(hs) : how == 1 ? SASCompoundHeapCreatePageSize(hs, ps) : SASCompoundHeapInit(seg, hs, ps, expanding = (int)se_choose("expanding", 2));
  if (after && se_valid(after, 64)) se_assert(after[0] == keep, "[H04] making a heap writes outside its block");
  if (!h) { se_reach("refused"); se_assert(hs <= hdr, "[H04] a heap with room for a page is made"); se_assert(inuse() == before, "[H04] a refused heap keeps its block"); return; }
  se_reach("made"); se_assert(hs > hdr, "[H04] a heap without room for a page is refused"); if (how == 2) fixed = !expanding; blk[nb++] = (SASBlockHeader *)h; totals(); unsigned long n = (hs - hdr) / ps; if (n > 3) n = 3; for (unsigned long i = 0; i < n; i++) got(alloc(0), "[H04] a page is refused although there is room"); totals();
  SASCompoundHeapDestroy(h); if (how != 2) se_assert(inuse() == before, "[H04] a destroyed heap returns all of its blocks"); }
void case_compound_reuse(void) {
  region_join(); hs = 16384; ps = 1024ul << se_choose("page", 3); hdr = 4096; h = SASCompoundHeapCreatePageSize(hs, ps); for (int i = 0; i < 3; i++) pg[np++] = alloc(0); if (se_choose("expand", 2)) { SASCompoundHeapSetLoadFactor((SASCompoundHeap_t *)h, 1); alloc(0); }
  SASCompoundHeapDestroy(h); SASSimpleHeap_t s = SASSimpleHeapCreate(hs); se_assert(s == h, "[R04] the block is used again"); unsigned long o = se_u64("offset"); se_assume(o < hs);
  se_assert(U(SASFindHeader((void *)(U(s) + o))) == U(s), "[R04] an address in a recycled block leads to what the block was before"); se_reach("done"); }
void case_compound_list(void) {
  region_join(); unsigned long before = inuse(); hs = 8192; ps = 4096; h = SASCompoundHeapCreate(hs); static unsigned long q[260]; int n = 258; for (int i = 0; i < n; i++) { q[i] = alloc(i >= 250); se_assert(q[i] && SOMSASCheckBlockSigAndType((SASBlockHeader *)q[i], SAS_RUNTIME_SIMPLEHEAP), "[H04] an expanding heap goes on beyond its inline list"); }
  unsigned long x = se_u64("at"), y = se_u64("other"); se_assume(x < (unsigned)n && y < x); unsigned i = (unsigned)se_concretize(x > 250 ? x : x & 3); se_assert(q[i] % ps == 0, "[H04] a page is aligned to the page size"); unsigned long p = 0, m = ~0ul, s = 0; for (int k = 0; k < n; k++) { if (q[k] > p) p = q[k]; if (q[k] < m) m = q[k]; s += q[k]; for (int j = 0; j < k; j++) se_assert(q[j] != q[k], "[H04] two live pages overlap"); }
  se_assert(SASCompoundHeapAllocSpace(h) == (unsigned long)n * hs && SASCompoundHeapFreeSpaceNoLock(h) == 0, "[H04] the space reported is that of the heap's blocks");
  release(q[i], (int)se_choose("form", 4)); se_assert(SASCompoundHeapFreeSpace(h) == ps, "[H04] a released page is not available again"); se_assert(alloc(1) == q[i], "[H04] a released page is not available again");
  SASCompoundHeapDestroy(h); se_assert(inuse() == before, "[H04] a destroyed heap returns all of its blocks"); se_reach("done"); }
static unsigned long res[2]; static int what[2];
static void user(void *a) { int t = (int)(long)a; switch (what[t]) { case 0: res[t] = alloc(1); break; case 1: res[t] = near_(pg[0] + 8, 1); break; case 2: res[t] = near_(pg[1] + 8, 1); break; case 3: release(pg[2 + t], 0); break; default: release(pg[2 + t] + 64, 2); } }
void case_compound_threads(void) {
  region_join(); hs = 16384; ps = 4096; hdr = 4096; h = SASCompoundHeapCreate(hs); blk[nb++] = (SASBlockHeader *)h; SASCompoundHeapSetLoadFactor((SASCompoundHeap_t *)h, 100); unsigned long q[6]; for (int i = 0; i < 6; i++) { got(alloc(0), "[H04] a page is refused although there is room"); q[i] = pg[i]; }
  se_assert(nb == 2, "[H04] two blocks hold six pages"); unsigned first = se_bool("room"); pg[0] = q[0]; pg[1] = q[3]; pg[2] = q[4]; pg[3] = q[1]; pg[4] = q[2]; pg[5] = q[5]; if (first) { release(pg[5], 1); np--; }
  for (int t = 0; t < 2; t++) { what[t] = (int)se_choose("what", 5); } if (what[0] > what[1]) return; se_shared(h, 256); se_shared(blk[1], 256); int had = np;
  se_spawn(user, (void *)0); se_spawn(user, (void *)1); se_join_all(); int freed = (what[0] >= 3) + (what[1] >= 3); if (what[0] >= 3) pg[2] = 0; if (what[1] >= 3) pg[3] = 0; int k = 0; for (int i = 0; i < had; i++) if (pg[i]) pg[k++] = pg[i]; np = k; (void)freed;
  for (int t = 0; t < 2; t++) if (what[t] < 3) got(res[t], "[H04] a page is refused although there is room"); totals(); se_reach("done"); }
