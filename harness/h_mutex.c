/* The region's critical section: one holder at a time, left once on every path, also across a reset. */
//@ case property=R06 name=case_mutex_paths reach=done,failed quick="--param=ops=3" thorough="--param=ops=6" qtime=100 ttime=2400 bounds="every history of 3 (6) region operations (allocations that succeed, fail, or extend with or without a failing system call, frees, lists, reset), 64-bit request sizes beyond the segment symbolic"
//@ case property=R06,R01,R02 name=case_region_threads reach=done quick="--preempt=2" thorough="--preempt=4" qtime=150 ttime=2400 bounds="two threads, each one allocation and release of a symbolic size of three, all interleavings of their accesses to the region's control block with up to 2 (4) preemptions"
//@ case property=R06 name=case_reset_threads reach=done quick="--preempt=2" thorough="--preempt=3" qtime=150 ttime=2400 bounds="one thread allocates 4 KB or a segment, one resets the region, with up to 2 (3) preemptions"
//@ case property=R06 name=case_seize_threads reach=done quick="--preempt=2" thorough="--preempt=4" qtime=100 ttime=1200 bounds="three threads enter the critical section twice; the first 0 to 2 waits are interrupted by a signal; up to 2 (4) preemptions"
#include "region_model.h"
#include "sassimpleheap.h"
static void ghost(void) { SASSeize(); env.mutex = env.last_sem; env.mutex_holders = 1; SASRelease(); }
static void balanced(void) { se_assert(env.mutex_bad == 0 && env.mutex_holders == 0, "[R06] an operation enters or leaves the region's critical section more than once, or without the other"); }
void case_mutex_paths(void) {
  region_join(); ghost(); int n = (int)se_param("ops", 3); static void *p[8]; static unsigned long s[8]; int np = 0; unsigned long lockfree = SASSimpleHeapFreeSpace((SASSimpleHeap_t)__SAS_TEMP_ADDRESS);
  for (int i = 0; i < n; i++) {
    switch (se_choose("op", 7)) {
    case 0: { unsigned long z = 1ul << se_range("log2", 12, 28); void *b = SASBlockAlloc(z); if (b) { p[np] = b; s[np++] = z; } break; }
    case 1: { unsigned long z = se_u64("huge"); se_assume(z > SEG); se_assert(SASBlockAlloc(z) == 0, "[R06] refused"); break; }
    case 2: env.fail_op = ENV_OPEN + (int)se_choose("fail", 3); env.fail_skip = 0; { void *b = SASBlockAlloc(SEG); if (b) { p[np] = b; s[np++] = SEG; } else se_reach("failed"); } env.fail_op = 0; break;
    case 3: if (np) { np--; if (se_choose("clear", 2) && s[np] <= 16384) sasClearOnDealloc = 1; SASBlockDealloc(p[np], s[np]); sasClearOnDealloc = 0; } break;
    case 4: SASListFreeMem(lb, ls, &lc); SASListInUseMem(lb, ls, &lc); SASListUncommittedMem(lb, ls, &lc); SASListAllocatedRegion(lb, ls, &lc); SASListFreeRegion(lb, ls, &lc); break;
    case 5: SASAnchorFreeSpace(); SASMaxDepthAllocatedRegion(); SASMaxDepthUseMem(); break;
    default: SASReset(); np = 0; balanced(); nlive = 0; check_region(0); se_assert(SASSimpleHeapFreeSpace((SASSimpleHeap_t)__SAS_TEMP_ADDRESS) == lockfree, "[R06] a reset uses up lock storage"); se_assert(env_file_count() == 1, "[R06] a reset leaves only the anchor segment"); }
    balanced(); SASSeize(); SASRelease(); }
  se_reach("done"); }
static void shared(void) { se_shared((void *)BASE, ANCH); }
static const unsigned char kinds[] = {0, 16, 3};
static unsigned long want[2]; static void *res[2];
static void alloc_free(void *a) { int t = (int)(long)a; void *b = SASBlockAlloc(want[t]); se_assert(b != 0, "[R06] concurrent allocations get their blocks"); res[t] = b;
  if (b && res[1 - t]) se_assert(!overlap(U(b), want[t], U(res[1 - t]), want[1 - t]), "[R01] concurrently allocated blocks overlap"); res[t] = 0; if (b) SASBlockDealloc(b, want[t]); }
void case_region_threads(void) {
  region_join(); ghost(); shared(); se_shared(res, sizeof res); for (int t = 0; t < 2; t++) { unsigned k = se_u8("kind"); se_assume(k < 3); want[t] = 4096ul << kinds[k]; }
  se_spawn(alloc_free, (void *)0); se_spawn(alloc_free, (void *)1); se_join_all(); balanced(); check_region(0); se_reach("done"); }
static void resetter(void *a) { (void)a; SASReset(); }
static void allocator(void *a) { (void)a; SASBlockAlloc(want[0]); }
void case_reset_threads(void) {
  region_join(); ghost(); shared(); void *b = 0; if (se_bool("segment")) b = SASBlockAlloc(SEG); (void)b; want[0] = se_bool("big") ? SEG : 4096; se_spawn(allocator, 0); se_spawn(resetter, 0); se_join_all(); balanced(); SASSeize(); SASRelease(); void *p = SASBlockAlloc(8192); se_assert(p && se_valid(p, 8192), "[R06] the region is usable after a reset"); p = SASBlockAlloc(SEG); se_assert(p && se_valid(p, SEG), "[R06] the region can be extended after a reset"); balanced(); SASListAllocatedRegion(lb, ls, &lc); se_assert(lists_sum() == (unsigned long)env_file_count() * SEG, "[R06] a reset loses track of a segment"); se_reach("done"); }
static volatile int inside;
static void section(void *a) { (void)a; for (int i = 0; i < 2; i++) { SASSeize(); se_assert(inside == 0, "[R06] two threads are inside the critical section"); inside = 1; inside = 0; SASRelease(); } }
void case_seize_threads(void) { region_join(); ghost(); se_shared((void *)&inside, 4); if (se_bool("reset")) SASReset(); env.sem_intr = (int)se_choose("interrupts", 3); for (int i = 0; i < 3; i++) se_spawn(section, 0); se_join_all(); balanced(); se_reach("done"); }
