/* The block allocator with its free space at an arbitrary (symbolic) segment of the region. */
//@ case property=R01,R02 name=case_far reach=alloc,free,whole quick="--param=ops=4 --param=classes=4" thorough="--param=ops=6 --param=classes=5" qtime=150 ttime=2400 bounds="free space is one 256M segment at any of the 131071 later positions of the region; every sequence of 4 (6) allocations/releases of 4 (5) size classes, both coalescing modes; block contents are not written"
//@ case property=R01,R02 name=case_far_two reach=merged quick="" qtime=150 bounds="releasing any two 4K..128M blocks at any positions of the region: merged exactly when they are buddies"
//@ case property=R01,R02 name=case_far_pair reach=alloc,free,whole quick="--param=ops=5" thorough="--param=ops=6" qtime=150 ttime=2400 bounds="two free 256M segments 3, 16 or 4096 positions apart anywhere in the region; every sequence of 5 (6) allocations/releases of 128M and 256M blocks, both coalescing modes"
//@ build exclude=sassim.cpp
#include "region_model.h"
static void *nop_memset(void *d, int, size_t) { return d; }
#define memset nop_memset
#include "sassim.cpp"
#undef memset
static unsigned long segaddr;
static const int cls[] = {0, 15, 14, 1, 8};
static void check_far(int n_live_total) {
  (void)n_live_total;
  SASListFreeMem(lb, ls, &lc); unsigned long t = lists_sum(); se_assert(t + live_sum() == SEG, "[R02] free and allocated space do not add up to the segment");
  for (int i = 0; i < lc; i++) { unsigned long a = U(lb[i]) - segaddr; se_assert(a < SEG && (a & (ls[i] - 1)) == 0, "[R02] free piece lies inside the segment, aligned");
    for (int j = 0; j < nlive; j++) se_assert(!overlap(a, ls[i], live[j].a - segaddr, live[j].n), "[R01] free space overlaps a live block");
    for (int j = i + 1; j < lc; j++) { unsigned long b = U(lb[j]) - segaddr; se_assert(!overlap(a, ls[i], b, ls[j]), "[R02] free pieces overlap"); se_assert(!(ls[i] == ls[j] && (a ^ ls[i]) == b), "[R02] buddies that are both free are not merged"); } }
  SASListInUseMem(lb, ls, &lc); se_assert(lists_sum() == live_sum() + ANCH, "[R02] space in use does not add up to the allocated blocks"); }
extern "C" void case_far(void) {
  int ops = (int)se_param("ops", 4), nc = (int)se_param("classes", 4); region_join(); if (se_choose("linear", 2)) setSASLinearUseList();
  SASAnchorBlock_t *an = (SASAnchorBlock_t *)BASE; unsigned long s = se_range("segment", 1, REGSZ / SEG - 1); segaddr = BASE + s * SEG;
  p2Dealloc(&an->anchors.free, SEG, (void *)segaddr); check_far(0);
  for (int i = 0; i < ops; i++) {
    int x = (int)se_choose("op", nc + nlive);
    if (x < nc) { unsigned long n = 4096ul << cls[x]; int maps = env.maps; unsigned long un; SASListUncommittedMem(lb, ls, &lc); un = lists_sum();
      SASListFreeMem(lb, ls, &lc); int fits = 0; for (int j = 0; j < lc; j++) if (ls[j] >= n) fits = 1;
      if (!fits) continue;
      unsigned long a = U(SASBlockAlloc(n)); se_reach("alloc");
      se_assert(a - segaddr < SEG && a - segaddr + n <= SEG, "[R01] block lies inside the free segment"); se_assert((a & (n - 1)) == 0, "[R01] block is aligned to its size");
      for (int j = 0; j < nlive; j++) se_assert(!overlap(a - segaddr, n, live[j].a - segaddr, live[j].n), "[R01] block overlaps a live block");
      SASListUncommittedMem(lb, ls, &lc); se_assert(un == lists_sum() && maps == env.maps, "[R02] released space is reused before fresh storage is consumed");
      live[nlive].a = a; live[nlive++].n = n; }
    else { int k = x - nc; unsigned long a = live[k].a, n = live[k].n; live[k] = live[--nlive]; SASBlockDealloc((void *)a, n); se_reach("free"); }
    check_far(nlive); }
  while (nlive) { unsigned long a = live[nlive - 1].a, n = live[nlive - 1].n; nlive--; SASBlockDealloc((void *)a, n); check_far(nlive); }
  SASListFreeMem(lb, ls, &lc); se_assert(lc == 1 && U(lb[0]) == segaddr && ls[0] == SEG, "[R02] once everything is released the whole segment can be obtained again"); se_reach("whole"); }
extern "C" void case_far_two(void) {
  region_join(); SASAnchorBlock_t *an = (SASAnchorBlock_t *)BASE;
  unsigned long lg = 12 + se_choose("log2", 17), n = 1ul << lg; if (lg == 28) return;
  unsigned long i = se_range("i", 256, (1ul << 33) - 1), j = se_range("j", 256, (1ul << 33) - 1);
  i &= (1ul << (45 - lg)) - 1; j &= (1ul << (45 - lg)) - 1; se_assume(i != j);
  unsigned long a = BASE + i * n, b = BASE + j * n; se_assume(a >= BASE + ANCH && b >= BASE + ANCH);
  p2Dealloc(&an->anchors.free, n, (void *)a); p2Dealloc(&an->anchors.free, n, (void *)b);
  SASListFreeMem(lb, ls, &lc);
  if ((i ^ 1) == j) { se_reach("merged"); se_assert(lc == 1 && ls[0] == 2 * n && U(lb[0]) == (i < j ? a : b), "[R02] buddies that are both free are not merged"); }
  else { se_assert(lc == 2 && ls[0] == n && ls[1] == n, "[R02] blocks that are not buddies must stay apart"); se_assert((U(lb[0]) == a && U(lb[1]) == b) || (U(lb[0]) == b && U(lb[1]) == a), "[R02] a release returns exactly the released block"); } }

static unsigned long segb;
/* offset of an address within the pair: 0..SEG-1 in the first segment, SEG.. in the second */
static unsigned long pair_off(unsigned long a, unsigned long n) { unsigned long x = a - segaddr; if (x < SEG && x + n <= SEG) return x; x = a - segb; se_assert(x < SEG && x + n <= SEG, "[R01] block lies inside the free segments"); return x + SEG; }
extern "C" void case_far_pair(void) {
  int ops = (int)se_param("ops", 5); region_join(); if (se_choose("linear", 2)) setSASLinearUseList();
  SASAnchorBlock_t *an = (SASAnchorBlock_t *)BASE; static const unsigned long dist[] = {16, 3, 4096}; unsigned long d = dist[se_choose("distance", 3)];
  unsigned long s = se_range("segment", 1, REGSZ / SEG - 1 - d); segaddr = BASE + s * SEG; segb = segaddr + d * SEG; se_assume((s ^ 1) != s + d);
  p2Dealloc(&an->anchors.free, SEG, (void *)segaddr); p2Dealloc(&an->anchors.free, SEG, (void *)segb);
  static struct { unsigned long o, n, a; } lv[8]; int nl = 0;
  for (int i = 0; i < ops || nl; i++) {
    int x = i < ops ? (int)se_choose("op", 2 + nl) : 2;
    if (x < 2) { unsigned long n = SEG >> x, fits = 0; SASListFreeMem(lb, ls, &lc); for (int j = 0; j < lc; j++) if (ls[j] >= n) fits = 1; if (!fits) continue;
      unsigned long a = U(SASBlockAlloc(n)); se_reach("alloc"); unsigned long o = pair_off(a, n); se_assert((o & (n - 1)) == 0, "[R01] block is aligned to its size");
      for (int j = 0; j < nl; j++) se_assert(!overlap(o, n, lv[j].o, lv[j].n), "[R01] block overlaps a live block");
      lv[nl].o = o; lv[nl].a = a; lv[nl++].n = n; }
    else { int k = x - 2; unsigned long a = lv[k].a, n = lv[k].n; lv[k] = lv[--nl]; SASBlockDealloc((void *)a, n); se_reach("free"); }
    unsigned long t = 0; for (int j = 0; j < nl; j++) t += lv[j].n; SASListFreeMem(lb, ls, &lc); se_assert(lists_sum() + t == 2 * SEG, "[R02] free and allocated space do not add up to the two segments");
    for (int j = 0; j < lc; j++) { unsigned long o = pair_off(U(lb[j]), ls[j]); for (int k = 0; k < nl; k++) se_assert(!overlap(o, ls[j], lv[k].o, lv[k].n), "[R01] free space overlaps a live block"); } }
  se_assert(lc == 2 && ls[0] == SEG && ls[1] == SEG, "[R02] once everything is released the whole segments can be obtained again"); se_reach("whole"); }
