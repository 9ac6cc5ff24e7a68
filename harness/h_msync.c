/* Write-back of byte ranges: which pages each call asks the system for. */
//@ case property=R07 name=case_msync reach=write,purge,advise,fail qtime=60 bounds="every start address in the region and every length >= 1 that stays in it; page sizes 4K, 16K, 64K; all six calls; sync and async; the system call succeeding or failing"
#include "common.h"
#include "sasmsync.h"
static void covered(unsigned long a, unsigned long n, unsigned long pg, unsigned long ra, unsigned long rn, const char *m1, const char *m2, const char *m3) {
  (void)m1; se_assert((ra & (pg - 1)) == 0, m1);
  se_assert(ra <= a && ra + rn >= a + n && rn < RegionSize + 2 * pg, m2);            /* every byte is covered */
  se_assert(a - ra < pg && ra + rn - (a + n) < pg, m3); }
void case_msync(void) {
  unsigned long pg = 4096ul << (2 * se_choose("page", 3)); env.page_size = (int)pg;
  unsigned long a = se_u64("start"), n = se_u64("size"); int async = (int)se_choose("async", 2), rc;
  se_assume(a >= BASE && a < BASE + RegionSize); se_assume(n >= 1); se_assume(n <= BASE + RegionSize - a);
  int op = (int)se_choose("op", 6), bad = (int)se_choose("fail", 3); env.ms_rc = bad == 1 ? -1 : 0; env.ma_rc = bad == 2 ? -1 : 0;
  switch (op) { case 0: rc = sasMsyncWrite((void *)a, n, async); break; case 1: rc = sasMsyncPurge((void *)a, n, async); break; case 2: rc = sasMsyncBring((void *)a, n); break;
    case 3: rc = sasMsyncSequential((void *)a, n); break; case 4: rc = sasMsyncRandom((void *)a, n); break; default: rc = sasMsyncRelease((void *)a, n); }
  if (op <= 1) { se_reach(op ? "purge" : "write"); se_assert(env.ms_calls == 1, "[R07] the range is not written back in one request");
    covered(a, n, pg, env.ms_addr, env.ms_len, "[R07] write-back starts on a page boundary", "[R07] a page holding part of the range is not written back", "[R07] a page outside the range is written back");
    se_assert(((env.ms_flags & MS_SYNC) != 0) == !async && ((env.ms_flags & MS_ASYNC) != 0) == async, "[R07] write-back waits exactly when asked to"); }
  else se_assert(env.ms_calls == 0, "[R07] advice writes nothing back");
  if (op == 1 && bad == 1) { se_assert(rc != 0, "[R07] a failed write-back is reported"); se_assert(env.ma_calls == 0, "[R07] pages whose write-back failed are not dropped"); se_reach("fail"); return; }
  if (op >= 1) { se_reach("advise"); se_assert(env.ma_calls == 1, "[R07] the range is advised once");
    covered(a, n, pg, env.ma_addr, env.ma_len, "[R07] advice starts on a page boundary", "[R07] a page holding part of the range is not advised", "[R07] a page outside the range is advised");
    int want[] = {0, MADV_DONTNEED, MADV_WILLNEED, MADV_SEQUENTIAL, MADV_RANDOM, MADV_DONTNEED}; se_assert(env.ma_advice == want[op], "[R07] the advice given is the one asked for");
    se_assert((rc != 0) == (bad == 2), "[R07] the system's answer is reported"); }
  else se_assert((rc != 0) == (bad == 1), "[R07] the system's answer is reported"); }
