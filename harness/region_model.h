/* Reference accounting of the region: what the region's own lists must add up to. */
#ifndef REGION_MODEL_H
#define REGION_MODEL_H
#include "common.h"
#include "saslock.h"
#define SEG SegmentSize
#define REGSZ RegionSize
#define ANCH (1ul << 20)
static struct { unsigned long a, n; } live[16]; static int nlive;
static void *lb[128]; static unsigned long ls[128]; static int lc;
static unsigned long lists_sum(void) { unsigned long t = 0; for (int i = 0; i < lc; i++) t += ls[i]; return t; }
static int overlap(unsigned long a, unsigned long n, unsigned long b, unsigned long m) { return a < b + m && b < a + n; }
static unsigned long live_sum(void) { unsigned long t = 0; for (int i = 0; i < nlive; i++) t += live[i].n; return t; }
static void no_overlap_with_live(const char *m) { for (int i = 0; i < lc; i++) { unsigned long a = U(lb[i]); se_assert((a & (ls[i] - 1)) == 0, "[R02] a listed piece is aligned to its size"); for (int j = 0; j < nlive; j++) se_assert(!overlap(a, ls[i], live[j].a, live[j].n), m); se_assert(!overlap(a, ls[i], BASE, ANCH), "[R01] free space overlaps the region's control block"); } }
static void disjoint_pieces(void) { for (int i = 0; i < lc; i++) for (int j = i + 1; j < lc; j++) se_assert(!overlap(U(lb[i]), ls[i], U(lb[j]), ls[j]), "[R02] listed pieces overlap"); }
static void check_region(int linear) {
  unsigned long fr, un, al, rg; static unsigned long fb[128], fs_[128]; int fc;
  SASListFreeMem(lb, ls, &lc); fr = lists_sum(); no_overlap_with_live("[R01] free space overlaps a live block"); disjoint_pieces(); fc = lc; for (int i = 0; i < lc; i++) { fb[i] = U(lb[i]); fs_[i] = ls[i]; }
  for (int i = 0; i < lc; i++) for (int j = i + 1; j < lc; j++) se_assert(!(ls[i] == ls[j] && ((U(lb[i]) - BASE) ^ ls[i]) == U(lb[j]) - BASE), "[R02] buddies that are both free are not merged");
  SASListUncommittedMem(lb, ls, &lc); un = lists_sum(); no_overlap_with_live("[R01] uncommitted space overlaps a live block"); disjoint_pieces();
  for (int i = 0; i < lc; i++) for (int j = 0; j < fc; j++) se_assert(!overlap(U(lb[i]), ls[i], fb[j], fs_[j]), "[R02] uncommitted space is also listed free");
  SASListAllocatedRegion(lb, ls, &lc); al = lists_sum(); disjoint_pieces();
  for (int j = 0; j < nlive; j++) { int in = 0; for (int i = 0; i < lc; i++) if (live[j].a >= U(lb[i]) && live[j].a + live[j].n <= U(lb[i]) + ls[i]) in = 1; se_assert(in, "[R01] a live block lies outside the mapped segments"); }
  SASListFreeRegion(lb, ls, &lc); rg = lists_sum(); disjoint_pieces(); no_overlap_with_live("[R01] unmapped region space overlaps a live block");
  se_assert(fr + un + live_sum() + ANCH == al, "[R02] free, uncommitted and allocated space do not add up to the mapped segments");
  se_assert(al + rg == REGSZ, "[R02] mapped and unmapped space do not add up to the region");
  SASListInUseMem(lb, ls, &lc); se_assert(lists_sum() == live_sum() + ANCH, "[R02] space in use does not add up to the allocated blocks"); disjoint_pieces();
  for (int j = 0; j < nlive; j++) { int in = 0; for (int i = 0; i < lc; i++) if (live[j].a >= U(lb[i]) && live[j].a + live[j].n <= U(lb[i]) + ls[i]) in = 1; se_assert(in, "[R02] a live block is missing from the space in use"); }
  (void)linear; }
static void took(void *p, unsigned long n) {
  unsigned long a = U(p);
  se_assert(a >= BASE && a + n <= BASE + REGSZ, "[R01] block lies inside the region"); se_assert((a & (n - 1)) == 0, "[R01] block is aligned to its size");
  se_assert(se_valid(p, n), "[R01] block lies in mapped storage"); se_assert(!overlap(a, n, BASE, ANCH), "[R01] block overlaps the region's control block");
  for (int j = 0; j < nlive; j++) se_assert(!overlap(a, n, live[j].a, live[j].n), "[R01] block overlaps a live block");
  live[nlive].a = a; live[nlive++].n = n; }
#endif
