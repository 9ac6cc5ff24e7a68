/* The reader table of a lock scaled down to two entries, so that it fills up within reach. */
//@ build define=MAX_READER_THREADS=2
//@ case property=L01,L02 name=case_lock_full reach=done quick="--preempt=1" thorough="--preempt=2" qtime=120 ttime=2400 bounds="three threads reading (one may write) one address with a reader table of two entries; up to 1 (2) preemptions"
#include "lock_model.h"
static char *const A = (char *)0x400000100000;
static int wr;
static void worker(void *p) { int w = p != 0 && wr; SASLock(A, w ? SasUserLock__WRITE : SasUserLock__READ); granted(0, w); releasing(0, w); SASUnlock(A); }
extern "C" void case_lock_full(void) {
  region_join(); se_shared(LOCKMEM, 0x100000); wr = se_choose("writer", 2);
  se_spawn(worker, 0); se_spawn(worker, 0); se_spawn(worker, (void *)1); se_join_all();
  SASLock(A, SasUserLock__WRITE); SASUnlock(A); se_reach("done"); }
