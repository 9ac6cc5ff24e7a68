/* Address locks: every interleaving of short lock/unlock programs. */
//@ case property=L01,L02 name=case_lock_pair reach=done quick="--preempt=2 --param=rounds=1" thorough="--preempt=3 --param=rounds=2" qtime=120 ttime=2400 bounds="two threads, each 1 (2) lock/unlock of one of two addresses that share a hash slot, read or write; the first wait interrupted by a signal or not; all interleavings with up to 2 (3) preemptions"
//@ case property=L01,L02 name=case_lock_three reach=done quick="--preempt=1" thorough="--preempt=3" qtime=120 ttime=2400 bounds="three threads, one lock/unlock each of one of two addresses that share a hash slot, read or write; the first wait interrupted by a signal or not; up to 1 (3) preemptions"
//@ case property=L01,L02 name=case_lock_any reach=same,other quick="--preempt=0" thorough="--preempt=1" qtime=200 ttime=2400 bounds="one thread holds an address, read or write; another asks for any of the 766 addresses that differ from it in one of three bytes, read or write; no (1) preemption"
//@ case property=L02 name=case_lock_reuse reach=done quick="--preempt=0 --param=n=600" thorough="--preempt=0 --param=n=3000" qtime=60 ttime=600 bounds="600 (3000) lock/unlock rounds of ever new addresses that share a hash slot do not grow the lock storage"
//@ case property=L01 name=case_lock_nested reach=blocked,free quick="--preempt=1" thorough="--preempt=3" qtime=120 ttime=1200 bounds="a thread takes an address two or three times, each time read or write, and releases it bit by bit; another thread asks for it, read or write, and a third releases what it does not hold; up to 1 (3) preemptions"
//@ case property=L02 name=case_lock_readers reach=done quick="--preempt=1 --param=readers=2" thorough="--preempt=2 --param=readers=3" qtime=120 ttime=1200 bounds="2 (3) readers that ask while a writer holds the address, or at any time around that, and need each other to get on; up to 1 (2) preemptions"
#include "lock_model.h"
#define COLLIDE1 0x8b80
#define COLLIDE2 0x13500
static char *const A = (char *)0x400000100000;
static char *addr[3];
static unsigned prog[3][2]; static int rounds;
static void worker(void *p) {
  unsigned *pr = (unsigned *)p;
  for (int r = 0; r < rounds; r++) { int a = pr[r] & 1, w = pr[r] >> 1; SASLock(addr[a], w ? SasUserLock__WRITE : SasUserLock__READ); granted(a, w); releasing(a, w); SASUnlock(addr[a]); } }
#include "sasmlock.h"
static void setup(void) { region_join(); addr[0] = A; addr[1] = A + COLLIDE1; addr[2] = A + COLLIDE2; se_shared(LOCKMEM, 0x100000); }
static void quiet(void) { for (int i = 0; i < 3; i++) { SASLock(addr[i], SasUserLock__WRITE); SASUnlock(addr[i]); } }
static void run(int n) {
  setup(); for (int i = 0; i < n; i++) for (int r = 0; r < rounds; r++) { prog[i][r] = se_u8("prog"); se_assume(prog[i][r] < 4); if (i && r == 0 && rounds == 1) se_assume(prog[i][0] >= prog[i - 1][0]); }
  for (int i = 0; i < n; i++) se_spawn(worker, prog[i]); se_join_all(); quiet(); se_reach("done"); }
extern "C" void case_lock_pair(void) { rounds = se_param("rounds", 1); env.sem_intr = (int)se_choose("interrupts", 2); run(2); }
extern "C" void case_lock_three(void) { rounds = 1; env.sem_intr = (int)se_choose("interrupts", 2); run(3); }

/* any address against a held one: the same address excludes (and the grant comes with the release), any other is free */
static volatile int phase; static char *B; static int bw, aw;
static void other(void *p) { (void)p; SASLock(B, bw ? SasUserLock__WRITE : SasUserLock__READ); granted(B == A ? 0 : 1, bw); phase = 1; releasing(B == A ? 0 : 1, bw); SASUnlock(B); }
extern "C" void case_lock_any(void) {
  region_join(); addr[0] = A; se_shared(LOCKMEM, 0x100000); se_shared((void *)&phase, 4);
  aw = se_bool("aw"); bw = se_bool("bw"); B = A + ((unsigned long)se_u8("off") << (se_choose("byte", 3) * 20));
  SASLock(A, aw ? SasUserLock__WRITE : SasUserLock__READ); granted(0, aw);
  int t = se_spawn(other, 0); int conflict = B == A && (aw || bw);
  if (!conflict) { se_reach("other"); se_wait_ne(&phase, 0); }   /* another address, or another reader: must get through while A is held */
  else se_reach("same");
  releasing(0, aw); SASUnlock(A); se_join(t); }
extern "C" void case_lock_reuse(void) {
  region_join(); int n = (int)se_param("n", 600); char *P = A; int w = se_bool("w");
  SASLock(P, SasUserLock__WRITE); SASUnlock(P); block_size_t f = SASSimpleHeapFreeSpace((SASSimpleHeap_t)LOCKMEM);
  for (int i = 0; i < n; i++) { P = A + (unsigned long)i * 0x10000; SASLock(P, w ? SasUserLock__WRITE : SasUserLock__READ); SASUnlock(P); }
  for (int i = 0; i < n; i++) { P = A + (unsigned long)i * 0x10000; SASLock(P, SasUserLock__READ); SASUnlock(P); }
  block_size_t g = SASSimpleHeapFreeSpace((SASSimpleHeap_t)LOCKMEM);
  se_assert(g == f || f - g <= 256 * 512, "[L02] released lock records are not reused"); se_reach("done"); }

/* a hold of several requests ends with the last release only */
static volatile int asked;
static void asker(void *p) { (void)p; SASLock(A, bw ? SasUserLock__WRITE : SasUserLock__READ); granted(0, bw); releasing(0, bw); SASUnlock(A); asked = 1; }
static void stranger(void *p) { (void)p; SASUnlock(A); }
extern "C" void case_lock_nested(void) {
  setup(); se_shared((void *)&asked, 4); int n = se_bool("three") ? 3 : 2; aw = se_bool("aw"); bw = se_bool("bw");
  for (int i = 0; i < n; i++) { int w = aw ? (i ? se_bool("inner") : 1) : 0; SASLock(A, w ? SasUserLock__WRITE : SasUserLock__READ); }
  granted(0, aw); int s = se_spawn(stranger, 0), t = se_spawn(asker, 0);
  for (int i = 0; i < n - 1; i++) SASUnlock(A);
  if (!aw && !bw) { se_reach("free"); se_wait_ne(&asked, 0); } else se_reach("blocked");
  se_atomic_begin(); releasing(0, aw); se_atomic_end(); SASUnlock(A); se_join(t); se_join(s); }
/* readers are let in together */
static volatile int in, all;
static void together(void *p) { (void)p; SASLock(A, SasUserLock__READ); granted(0, 0); se_atomic_begin(); if (++in == (int)se_param("readers", 2)) all = 1; se_atomic_end(); se_wait_ne(&all, 0); releasing(0, 0); SASUnlock(A); }
extern "C" void case_lock_readers(void) {
  setup(); se_shared((void *)&in, 4); se_shared((void *)&all, 4); SASLock(A, SasUserLock__WRITE); granted(0, 1);
  for (int i = 0; i < (int)se_param("readers", 2); i++) se_spawn(together, 0);
  if (se_bool("wait")) se_yield(); releasing(0, 1); SASUnlock(A); se_join_all(); quiet(); se_reach("done"); }
