#ifndef LOCKSTUB_H
#define LOCKSTUB_H
/* Stand-in for saslock.cpp (the lock manager is decided by L01-L03): address-keyed, re-entrant read/write locks with a ledger of who holds what. */
#include "common.h"
#include "saslock.h"
#define NLK 32
static struct { unsigned long a; int w, wt; short r[8]; } lk[NLK]; static int nlk, lk_total, lk_bad, lk_takes; static volatile int lk_change;
static int lk_find(unsigned long a) { for (int i = 0; i < nlk; i++) if (lk[i].a == a) return i; se_assert(nlk < NLK, "harness: too many lock addresses"); lk[nlk].a = a; return nlk++; }
/* called when a thread's hold of an address begins (took = 1) and ends (took = 0, write = it was held for writing at some time) */
/* called before a thread that holds nothing takes a lock: what another thread does while this one waits for it */
static void (*lk_before)(unsigned long a); static int lk_skip;
static void (*lk_hook)(unsigned long a, int took, int write); static int lk_mode[NLK];
#ifdef __cplusplus
extern "C" {
#endif
void SASLock(vm_address_t addr, sas_userlock_request_t t) {
  int me = se_tid(), write = t == SasUserLock__WRITE; if (lk_before && !lk_total && lk_skip-- == 0) { void (*f)(unsigned long) = lk_before; lk_before = 0; f(U(addr)); }
  for (;;) { se_atomic_begin(); int i = lk_find(U(addr)), ok = lk[i].w == 0 || lk[i].wt == me; if (write) for (int k = 0; k < 8; k++) if (k != me && lk[i].r[k]) ok = 0;
    if (ok) { int first = !lk[i].w && !lk[i].r[me]; if (first) lk_mode[i] = 0; lk_mode[i] |= write; if (write || lk[i].w) { lk[i].w++; lk[i].wt = me; } else lk[i].r[me]++; lk_total++; lk_takes++; if (first && lk_hook) lk_hook(U(addr), 1, write); se_atomic_end(); return; }
    int v = lk_change; se_atomic_end(); se_wait_ne(&lk_change, v); } }
void SASUnlock(vm_address_t addr) {
  int me = se_tid(); se_atomic_begin(); int i = lk_find(U(addr));
  if (lk[i].w && lk[i].wt == me) { lk[i].w--; lk_total--; } else if (lk[i].r[me]) { lk[i].r[me]--; lk_total--; } else { lk_bad++; se_assert(0, "[H05] a lock is released that is not held"); }
  if (lk_hook && !lk[i].w && !lk[i].r[me]) lk_hook(U(addr), 0, lk_mode[i]);
  lk_change++; se_atomic_end(); }
int SasLockOwner = 1; void SASLockReset(void) {} int SASLockInit(void) { return 0; } void SASLockDetach(void) {} void SASLockRemove(void) {}
#ifdef __cplusplus
}
#endif
#endif
