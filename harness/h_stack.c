/* Simple stacks and spaces: any sizes, any order of allocation and release, against the list of live items. */
//@ case property=H03 name=case_stack reach=got,none,released,refused quick="--param=ops=3" thorough="--param=ops=5" qtime=120 ttime=2400 bounds="stacks of 4 KB to 1 MB made by the real region code, 3 (5) calls of every allocation and release form, all 64-bit sizes"
//@ case property=H03 name=case_space reach=made,refused qtime=60 bounds="every 64-bit space size (block size of each power of two up to 256 MB)"
//@ case property=H03 name=case_stack_threads reach=done quick="--preempt=2" thorough="--preempt=3" qtime=100 ttime=1200 bounds="two threads, each one locked allocation of a symbolic size and a query, up to 2 (3) preemptions"
#include "common.h"
#include "saslock.h"
#include "sassimplestack.h"
#include "sassimplespace.h"
static SASSimpleStack_t h; static unsigned long hs, top[16], len[16]; static int n;
static unsigned long rnd(unsigned long s) { return (s + 15) & ~15ul; }
static unsigned long used(void) { return n ? top[n - 1] + rnd(len[n - 1]) - (U(h) + 4096) : 0; }
static void totals(void) { se_assert(SASSimpleStackFreeSpace(h) == hs - 4096 - used() && SASSimpleStackFreeSpaceNoLock(h) == hs - 4096 - used(), "[H03] the free space reported is not what is left"); }
static void got(unsigned long p, unsigned long s) {
  unsigned long left = hs - 4096 - used();
  if (!p) { se_reach("none"); se_assert(s > left, "[H03] storage is refused although it fits"); return; }
  se_reach("got"); se_assert(s <= left, "[H03] more is handed out than is left"); se_assert(p == U(h) + 4096 + used(), "[H03] storage overlaps a live item or leaves a gap"); se_assert(p >= U(h) + 4096 && p + s <= U(h) + hs && p % 16 == 0, "[H03] storage lies outside the stack"); top[n] = p; len[n++] = s; }
void case_stack(void) {
  region_join(); hs = 4096ul << se_range("log2", 0, 8); h = SASSimpleStackCreate(hs); se_assert(h != 0, "[H03] a stack is created"); SASSimpleStack_t other = SASSimpleStackCreate(8192); totals(); int ops = (int)se_param("ops", 3);
  for (int i = 0; i < ops; i++) { switch (se_choose("op", 3)) {
    case 0: { unsigned long s = se_u64("size"); unsigned long p = 0; switch (se_choose("form", 4)) { case 0: p = U(SASSimpleStackAlloc(h, s)); break; case 1: p = U(SASSimpleStackAllocNoLock(h, s)); break; case 2: p = U(SASSimpleStackNearAlloc((char *)h + hs - 1, s)); break; default: p = U(SASSimpleStackNearAllocNoLock((char *)h + 100, s)); } got(p, s); break; }
    case 1: if (n) { int k = (int)se_choose("which", n); unsigned long p = top[k]; se_assert((se_choose("locked", 2) ? SASSimpleStackDealloc(h, (void *)p) : SASSimpleStackDeallocNoLock(h, (void *)p)) == 0, "[H03] a release of a live item succeeds"); n = k; se_reach("released"); } break;
    default: { unsigned long p = se_u64("bad"); int l = (int)se_choose("locked", 2); se_assume(p < U(h) + 4096 || p > U(h) + hs || (l && (p & 15))); se_assert((l ? SASSimpleStackDealloc(h, (void *)p) : SASSimpleStackDeallocNoLock(h, (void *)p)) != 0, "[H03] a release outside the stack is refused"); se_reach("refused"); } }
    totals(); }
  se_assert(SASSimpleStackFreeSpace(other) == 4096, "[H03] another stack is left alone"); se_assert(SASSimpleStackDestroy(h) == 0, "[H03] a stack is destroyed"); se_assert(SASSimpleStackDestroy(h) != 0 && SASSimpleStackAlloc(h, 16) == 0, "[H03] a destroyed stack serves nothing"); }
void case_space(void) {
  region_join(); unsigned long s = se_u64("size"); SASSimpleSpace_t p = SASSimpleSpaceCreate(s);
  if (!p) { se_reach("refused"); se_assert(s > (256ul << 20) - 4096, "[H03] a space that fits a block is made"); return; }
  se_reach("made"); unsigned long d = U(SASSimpleSpaceToAddr(p)), bs = ((SASBlockHeader *)p)->blockSize; se_assert(s <= (256ul << 20) - 4096, "[H03] no space is larger than the largest block"); se_assert(d == U(p) + 4096 && SASSimpleSpaceFromAddr((void *)d) == p, "[H03] a space leads to its data and back");
  se_assert(s <= bs - 4096, "[H03] the space lies inside its block"); se_assert(SASSimpleSpaceFreeSpace(p) == bs - 4096 - s, "[H03] the free space reported is not what is left"); se_assert(SASSimpleSpaceDestroy(p) == 0 && SASSimpleSpaceDestroy(p) != 0, "[H03] a space is destroyed once"); }
static unsigned long want[2], res[2]; static int near_[2];
static void user(void *a) { int t = (int)(long)a; res[t] = U(near_[t] ? SASSimpleStackNearAlloc(h, want[t]) : SASSimpleStackAlloc(h, want[t])); unsigned long f = SASSimpleStackFreeSpace(h); se_assert(f <= 4096 - (res[t] ? rnd(want[t]) : 0), "[H03] the free space reported is not what is left"); }
void case_stack_threads(void) {
  region_join(); hs = 8192; h = SASSimpleStackCreate(hs); for (int t = 0; t < 2; t++) { want[t] = se_u64("size"); se_assume(want[t] > 0); near_[t] = (int)se_choose("near", 2); } se_assume(near_[0] <= near_[1]); se_shared(h, 4096); se_spawn(user, (void *)0); se_spawn(user, (void *)1); se_join_all();
  if (res[0] && res[1]) se_assert(res[0] + want[0] <= res[1] || res[1] + want[1] <= res[0], "[H03] two threads get the same storage"); for (int t = 0; t < 2; t++) if (res[t]) se_assert(res[t] >= U(h) + 4096 && want[t] <= U(h) + hs - res[t], "[H03] storage lies outside the stack");
  se_assert(SASSimpleStackFreeSpace(h) == 4096 - (res[0] ? rnd(want[0]) : 0) - (res[1] ? rnd(want[1]) : 0), "[H03] the free space reported is not what is left"); se_reach("done"); }
