/* Nested requests and releases by the wrong thread, against a per-thread count of what each thread holds. */
//@ case property=L03 name=case_lock_nest reach=blocked,free,foreign quick="--preempt=1 --param=steps=3" thorough="--preempt=2 --param=steps=6" qtime=200 ttime=2400 bounds="every history of 3 (6) read/write/unlock calls by two threads on one address that none of them can block on, then a third thread's read or write request, then a nested request of a holder and the releases"
//@ case property=L03 name=case_lock_two reach=done quick="--preempt=0 --param=steps=5" thorough="--preempt=1 --param=steps=7" qtime=200 ttime=2400 bounds="every history of 5 (7) lock/unlock calls by one thread on two addresses that share a hash slot, another thread then asks for each"
#include "lock_model.h"
static char *const A = (char *)0x400000100000; static char *addr[2] = {A, A + 0x8b80};
static volatile int box[3], got[2];
static struct { int r, w; } h[2][2];   /* [thread][address] */
static void act(int op, int a) { if (op == 0) SASLock(addr[a], SasUserLock__READ); else if (op == 1) SASLock(addr[a], SasUserLock__WRITE); else SASUnlock(addr[a]); }
static void servant(void *p) { int t = (int)(long)p; for (;;) { se_wait_ne(&box[t], 0); int op = box[t] - 1; if (op == 9) return; act(op, 0); box[t] = 0; } }
static void command(int t, int op) { if (t == 0) act(op, 0); else { box[1] = op + 1; se_wait_ne(&box[1], op + 1); } }
static int readers(int a, int but) { return (but != 0 && h[0][a].r > 0) + (but != 1 && h[1][a].r > 0); }
static int blocks(int t, int a, int w) { int o = 1 - t; if (h[t][a].w) return 0; if (h[o][a].w) return 1; if (w) return h[o][a].r > 0 || h[t][a].r > 0; return 0; }
static void model(int t, int a, int op) {
  if (op == 0) { if (h[t][a].w) h[t][a].w++; else h[t][a].r++; } else if (op == 1) h[t][a].w++;
  else if (h[t][a].w) h[t][a].w--; else if (h[t][a].r) h[t][a].r--; }
static int pw;
static void prober(void *p) { int a = (int)(long)p; SASLock(addr[a], pw ? SasUserLock__WRITE : SasUserLock__READ);
  se_assert(!h[0][a].w && !h[1][a].w, "[L03] another thread is admitted before the writer released as often as it locked");
  if (pw) se_assert(!h[0][a].r && !h[1][a].r, "[L03] a writer is admitted before every reader released as often as it locked");
  got[a] = 1; SASUnlock(addr[a]); }
static void shared(void) { se_shared(LOCKMEM, 0x100000); se_shared((void *)box, sizeof box); se_shared((void *)got, sizeof got); }
extern "C" void case_lock_nest(void) {
  region_join(); shared(); int n = (int)se_param("steps", 3), s = se_spawn(servant, (void *)1);
  for (int i = 0; i < n; i++) { unsigned op = se_u8("op"), t = se_bool("thread"); se_assume(op < 3);
    if (op < 2 && blocks(t, 0, op)) se_assume(0);
    if (op == 2 && !h[t][0].w && !h[t][0].r) se_reach("foreign");   /* must change nothing */
    if (op == 2) model(t, 0, op); command(t, op); if (op != 2) model(t, 0, op); }
  pw = se_bool("probe"); int busy = h[0][0].w || h[1][0].w || (pw && (h[0][0].r || h[1][0].r)), q = se_spawn(prober, 0);
  if (!busy) { se_reach("free"); se_wait_ne(&got[0], 0); }
  else { se_reach("blocked"); se_yield(); int t = h[0][0].w || h[0][0].r ? 0 : 1; int op = h[t][0].w ? se_bool("nested") : 0; command(t, op); model(t, 0, op); }   /* a holder gets in again although another thread waits */
  for (int t = 0; t < 2; t++) while (h[t][0].w || h[t][0].r) { model(t, 0, 2); command(t, 2); }
  box[1] = 10; se_join(q); se_join(s); }
extern "C" void case_lock_two(void) {
  region_join(); shared(); int n = (int)se_param("steps", 4);
  for (int i = 0; i < n; i++) { unsigned op = se_u8("op"), a = se_bool("addr"); se_assume(op < 3); if (op == 1 && h[0][a].r && !h[0][a].w) se_assume(0); if (op == 2) model(0, a, op); act(op, a); if (op != 2) model(0, a, op); }
  pw = se_bool("probe"); int q[2]; for (int a = 0; a < 2; a++) { int busy = h[0][a].w || (pw && h[0][a].r); q[a] = se_spawn(prober, (void *)(long)a); if (!busy) se_wait_ne(&got[a], 0); }
  for (int a = 0; a < 2; a++) while (h[0][a].w || h[0][a].r) { model(0, a, 2); act(2, a); }
  se_join_all(); se_reach("done"); }
