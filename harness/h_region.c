/* The block allocator through its public interface, from the real start-up. */
//@ case property=R01,R02 name=case_blocks reach=alloc,free,reuse,new_segment quick="--param=ops=4 --param=classes=6" thorough="--param=ops=6 --param=classes=7" qtime=150 ttime=2400 bounds="new region; every sequence of 4 (6) allocations and releases, sizes from 6 (7) classes 4K..256M, both coalescing modes"
//@ case property=R01,R02 name=case_blocks_sizes reach=alloc quick="--param=ops=3" thorough="--param=ops=4" qtime=150 ttime=2400 bounds="new region; every sequence of 3 (4) allocations/releases over all 17 power-of-two sizes 4K..256M"
//@ case property=R01 name=case_blocks_too_big reach=refused qtime=30 bounds="every 64-bit size above the segment size"
#include "region_model.h"
static const int cls[] = {0, 1, 16, 8, 4, 15, 14};
static void one(unsigned long n, int linear) {
  unsigned long before, after; int fits = 0; SASListUncommittedMem(lb, ls, &lc); before = lists_sum();
  SASListFreeMem(lb, ls, &lc); for (int i = 0; i < lc; i++) if (ls[i] >= n) fits = 1;
  int maps = env.maps; void *p = SASBlockAlloc(n); se_assert(p != 0, "[R02] a block can be obtained while the region has room"); se_reach("alloc");
  took(p, n); *(volatile unsigned long *)p = 0x5a5a5a5a5a5a5a5aul;
  SASListUncommittedMem(lb, ls, &lc); after = lists_sum();
  if (fits) { se_reach("reuse"); se_assert(after == before && env.maps == maps, "[R02] released space is reused before fresh storage is consumed"); }
  if (env.maps > maps) se_reach("new_segment");
  check_region(linear); }
static void drop(int k, int linear) { unsigned long a = live[k].a, n = live[k].n; live[k] = live[--nlive]; SASBlockDealloc((void *)a, n); se_reach("free"); check_region(linear); }
void case_blocks(void) {
  int ops = (int)se_param("ops", 4), nc = (int)se_param("classes", 5), linear;
  region_join(); linear = (int)se_choose("linear", 2); if (linear) setSASLinearUseList(); check_region(linear);
  for (int i = 0; i < ops; i++) { int x = (int)se_choose("op", nc + nlive); if (x < nc) one(4096ul << cls[x], linear); else drop(x - nc, linear); }
  while (nlive) drop(nlive - 1, linear);
  one(SEG, linear); drop(0, linear); one(SEG / 2, linear); }
void case_blocks_sizes(void) {
  int ops = (int)se_param("ops", 3), linear; region_join(); linear = (int)se_choose("linear", 2); if (linear) setSASLinearUseList();
  for (int i = 0; i < ops; i++) { int x = (int)se_choose("op", 1 + nlive); if (x == 0) { unsigned long n = 1ul << se_range("log2", 12, 28); void *p = SASBlockAlloc(n); n = se_concretize(n); se_assert(p != 0, "[R02] a block can be obtained while the region has room"); se_reach("alloc"); took(p, n); check_region(linear); } else drop(x - 1, linear); } }
void case_blocks_too_big(void) { region_join(); unsigned long n = se_u64("size"); se_assume(n > SEG); se_assert(SASBlockAlloc(n) == 0, "[R01] a request above the segment size is refused"); se_reach("refused"); check_region(0); }
