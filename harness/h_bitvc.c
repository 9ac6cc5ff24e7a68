/* Two or three threads on one bit vector. */
//@ case property=B02 name=case_bitv_pair reach=done,got quick="--preempt=3" thorough="--preempt=5 --param=wide=1" qtime=120 ttime=2400 bounds="two threads, each one allocation (1..3 units, plain or marked, or aligned to 2) followed by its release or not, in a vector with any subset of 4 (8) units free, up to 3 (5) preemptions"
//@ case property=B02 name=case_bitv_three reach=done,got quick="--preempt=2" thorough="--preempt=3 --param=wide=1" qtime=120 ttime=2400 bounds="three threads: two allocate 1 or 2 units in any subset of 3 (8) units and keep or release them, one releases an allocation made before; up to 2 (3) preemptions"
#include "common.h"
#include "bitv_priv.h"
static bitv_cb_t cb; static unsigned long w, e, w0; static unsigned long owned[4], endm[4]; static int kind[3], keep[3]; static unsigned long units[3]; static long preoff; static unsigned long preu;
static unsigned long msk(unsigned long p, unsigned long u) { return ((unsigned long)((long)0x8000000000000000ul >> (u - 1))) >> p; }
static void user(void *a) {
  int t = (int)(long)a; unsigned long u = units[t]; long r;
  switch (kind[t]) { case 0: r = bitv_alloc(&cb, &w, u * 128); break; case 1: r = bitv_alloc_marked(&cb, &w, &e, u * 128); break; case 2: r = bitv_aligned_alloc(&cb, &w, u * 128, 256); break; case 3: r = bitv_aligned_alloc_marked(&cb, &w, &e, u * 128, 256); break;
    default: se_assert(bitv_free_marked(&cb, &w, &e, preoff * 128) == 0, "[B02] releasing a live allocation succeeds"); owned[3] = 0; endm[3] = 0; return; }
  if (r == -1) return; se_reach("got"); unsigned long p = (unsigned long)r / 128; se_assert((unsigned long)r % 128 == 0 && p + u <= 64, "[B02] the range lies inside the vector"); if (p + u > 64) return; if (kind[t] & 2) se_assert((p & 1) == 0, "[B02] the range is aligned"); unsigned long m = msk(p, u);
  for (int i = 0; i < 4; i++) if (i != t) se_assert((owned[i] & m) == 0, "[B02] a bit is granted twice");
  se_atomic_begin(); owned[t] = m; endm[t] = kind[t] & 1 ? m & -m : 0; se_atomic_end();
  if (!keep[t]) { se_atomic_begin(); owned[t] = 0; endm[t] = 0; se_atomic_end(); int rc = kind[t] & 1 ? bitv_free_marked(&cb, &w, &e, r) : bitv_dealloc(&cb, &w, r, u * 128); se_assert(rc == 0, "[B02] releasing a live allocation succeeds"); } }
static void start(int n) {
  bitv_init(&cb, 128); unsigned k = se_u8("free"); unsigned bits = se_param("wide", 0) ? 8 : n > 2 ? 3 : 4; int two = n > 2; if (two) n = 2; se_assume(k < (1u << bits)); w = (unsigned long)k << (se_choose("low", 2) ? 0 : 64 - bits); e = 0; w0 = w; preoff = -1;
  for (int t = 0; t < n; t++) { kind[t] = two ? (int)se_choose("marked", 2) : (int)se_choose("kind", 4); units[t] = 1 + se_choose("units", two ? 2 : 3); keep[t] = (int)se_choose("keep", 2); }
}
static void finish(int n) {
  se_shared(&w, 8); se_shared(&e, 8); for (int t = 0; t < n; t++) se_spawn(user, (void *)(long)t); se_join_all();
  unsigned long all = 0, ends = 0; for (int i = 0; i < 4; i++) { se_assert((all & owned[i]) == 0, "[B02] a bit is granted twice"); all |= owned[i]; ends |= endm[i]; }
  se_assert(w == (w0 & ~all), "[B02] bits are lost or given back twice"); se_assert(e == ends, "[B02] the end marks are not those of the live allocations"); se_reach("done"); }
void case_bitv_pair(void) { start(2); finish(2); }
void case_bitv_three(void) {
  start(3); preu = 1 + se_choose("pre", 2); unsigned long m; w |= 7ul << 30; w0 = w; preoff = 31; m = msk(preoff, preu); w &= ~m; e |= m & -m; owned[3] = m; endm[3] = m & -m; kind[2] = 9; finish(3); }
