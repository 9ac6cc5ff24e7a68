// Log portals (src/sphlogportal.cpp): exactly the logs added, in order, up to the capacity; entries go to the logs in turn.
//@ case property=Q07 name=case_portal_hist reach=added,full,refused,other quick="--param=ops=3" thorough="--param=ops=5" qtime=100 ttime=1200 bounds="portals of 16 logs on dirty storage holding 0, 1 or 14..16 logs, 3 (5) adds of loggers and other blocks, every 64 bit index asked for after each"
//@ case property=Q07 name=case_portal_fill reach=moved,exhausted,wide quick="--param=ops=6" thorough="--param=ops=8" qtime=100 ttime=1200 bounds="portals with 0..3 logs of 1 or 2 entries, 6 (8) requests of the strided, sized and raw forms, sizes that fit a log and do not; iterated in the end"
//@ case property=Q07 name=case_portal_make reach=made,refused qtime=60 bounds="block sizes from 128 bytes to 1 MB; portals created in region blocks of 4 and 8 KB with dirty contents, filled to capacity and destroyed"
//@ case property=Q07 name=case_portal_add reach=done,full quick="--preempt=3 --param=n=1" thorough="--preempt=5 --param=n=2" qtime=200 ttime=2400 bounds="two threads adding 1 (2) logs each to portals holding 0, 13, 14 or 15 of 16 logs while a third one reads them, up to 3 (5) preemptions"
//@ case property=Q07 name=case_portal_threads reach=done,exhausted quick="--preempt=3 --param=n=2" thorough="--preempt=5 --param=n=3" qtime=200 ttime=2400 bounds="two threads making 2 (3) requests each from a portal of three logs with 1 entry each, both forms, up to 3 (5) preemptions"
//@ case property=Q07 name=case_portal_iterate reach=done,full qtime=60 bounds="portals of 16 logs holding 1, 15 or 16 logs of one entry each, all used, iterated to the end and beyond, dirty storage behind the list"
#include <string.h>
#include "common.h"
#include "sphlogportal.h"
#include "sphlflogentry.h"
#define BUF 0x30000000ul
#define LOGS 0x31000000ul
#define P ((SPHLogPortal_t)BUF)
#define LOG(i) ((SPHLFLogger_t)(LOGS + 512ul * (unsigned long)(i)))
#define CAP 16
static int n, cur; static SPHLFLogger_t list[CAP + 8];
static void dirty(unsigned long at, unsigned long sz) { for (unsigned long i = 0; i < sz; i += 8) *(volatile unsigned long *)(at + i) = LOGS + 512 * 19 + 8; }
static void setup(int logs) { se_map(BUF, 512); dirty(BUF, 512); se_map(LOGS, 512 * 20); dirty(LOGS + 512 * 19, 512); for (int i = 0; i < logs; i++) se_assert(SPHLFLoggerInitWithStride(LOG(i), 512, 128, 0) == LOG(i), "a log is made"); se_assert(SPHLogPortalInit((void *)BUF, 512) == P, "a portal is made"); n = cur = 0; }
static void add(SPHLFLogger_t l) { SPHLFLogger_t r = SPHLogPortalAddLogger(P, l); if (n < CAP) { se_reach("added"); se_assert(r == l, "a log is added"); list[n++] = l; } else { se_reach("full"); se_assert(!r, "a log is added to a full portal"); } }
static void state(void) {
  se_assert(SPHLogPortalEntries(P) == n, "the number of logs is reported wrongly"); se_assert(SPHLogPortalCapacity(P) == CAP, "the capacity is reported wrongly"); se_assert(SPHLogPortalEmpty(P) == (n == 0), "empty is reported wrongly");
  for (int i = 0; i < n; i++) se_assert(SPHLogPortalGetLoggerByIndex(P, i) == list[i], "a log is not found under its number");
  se_assert(SPHLogPortalGetCurrentIndex(P) == (n ? cur : -1), "the current log's number is wrong"); se_assert(SPHLogPortalGetCurrentLogger(P) == (n ? list[cur] : 0), "the current log is wrong"); }
void case_portal_hist(void) {
  setup(19); static const int start[] = { 0, 1, 14, 15, 16 }; int k = start[se_choose("logs", 5)], ops = (int)se_param("ops", 3), next = 0; while (next < k) add(LOG(next++)); state(); SPHLFPortalIterator_t it; if (!k) se_assert(!SPHLFPortalCreateIterator(P, &it), "an empty portal has nothing to iterate over");
  for (int i = 0; i < ops; i++) { switch (se_choose("op", 3)) { case 0: add(next < 19 ? LOG(next++) : LOG(0)); break; case 1: se_reach("refused"); se_assert(!SPHLogPortalAddLogger(P, (SPHLFLogger_t)(LOGS + 512 * 19)) && !SPHLogPortalAddLogger(P, (SPHLFLogger_t)P), "a block that is no log is added"); break; default: se_reach("other"); se_assert(!SPHLogPortalAddLogger((SPHLogPortal_t)LOG(3), LOG(4)) && SPHLogPortalEntries((SPHLogPortal_t)LOG(3)) == -1, "a block that is no portal is refused"); }
    state(); unsigned long x = se_u64("index"); se_assume(x >= (unsigned long)n); se_assert(!SPHLogPortalGetLoggerByIndex(P, x), "a log is returned that was not added"); } }
static struct { unsigned long at; unsigned long v; int done; } m[16]; static int nm;
void case_portal_fill(void) { /* entries of 128 bytes: two to a log, one when the log holds 128 to 255 bytes */
  se_map(BUF, 512); dirty(BUF, 512); se_map(LOGS, 512 * 4); int logs = (int)se_choose("logs", 4), per = 1 + (int)se_choose("per", 2), ops = (int)se_param("ops", 6); unsigned long len = per == 1 ? 256 : 128; se_assert(SPHLogPortalInit((void *)BUF, 512) == P, "a portal is made");
  for (int i = 0; i < logs; i++) { se_assert(SPHLFLoggerInitWithStride(LOG(i), 512, (unsigned short)len, 0) == LOG(i), "a log is made"); add(LOG(i)); }
  int form = (int)se_choose("form", 3), used = 0;
  for (int i = 0; i < ops; i++) { SPHLFLoggerHandle_t h, *r = 0; unsigned long at = 0; if (form == 2) at = U(SPHLogPortalAllocRaw(P, len - se_range("less", 0, 15))); else if (i == 1 && se_choose("wide", 2)) { se_reach("wide"); se_assert(!SPHLogPortalAllocTimeStamped(P, 1, 2, 256, &h) && !SPHLogPortalAllocRaw(P, 257), "an entry is granted that fits no log"); continue; } else { r = form ? SPHLogPortalAllocTimeStamped(P, 1, i, len - 16 - se_range("less", 0, 15), &h) : SPHLogPortalAllocStrideTimeStamped(P, 1, i, &h); if (r) { se_assert(r == &h && h.total_size == len, "the caller's handle is filled"); at = U(h.entry); } }
    if (used == logs * per) { se_reach("exhausted"); se_assert(!at, "an entry is granted by a portal whose logs are full"); continue; }
    cur = used / per; if (cur && used % per == 0) se_reach("moved"); se_assert(at >= U(LOG(cur)) + 256 && at + len <= U(LOG(cur)) + 512, "an entry does not lie in the next log with room"); for (int k = 0; k < nm; k++) se_assert(at + len <= m[k].at || m[k].at + len <= at, "two entries overlap");
    m[nm].at = at; if (r) { m[nm].v = se_u64("payload"); memcpy(h.next, &m[nm].v, 8); SPHLFLoggerEntryComplete(&h); } nm++; used++; state(); }
  if (form < 2 && logs) { SPHLFPortalIterator_t it; SPHLFLoggerHandle_t h; unsigned long v; se_assert(SPHLFPortalCreateIterator(P, &it) == &it, "an iterator is made"); for (int k = 0; k < nm; k++) { se_assert(SPHLFPortalIteratorNext(&it, &h) == &h, "the iteration ends too early"); se_assert(U(h.entry) == m[k].at && h.total_size == len, "the iteration does not return the next entry"); memcpy(&v, h.next, 8); se_assert(v == m[k].v, "an entry's contents changed"); } se_assert(!SPHLFPortalIteratorNext(&it, &h) && !SPHLFPortalIteratorNext(&it, &h), "the iteration returns more than what is in the logs"); } }
void case_portal_make(void) {
  if (se_choose("region", 2)) { region_join(); unsigned long bs = 4096ul << se_choose("size", 2); void *d = SASBlockAlloc(bs); for (unsigned long i = 0; i < bs; i += 64) *(unsigned long *)(U(d) + i) = ~0ul; SASBlockDealloc(d, bs); SPHLogPortal_t p = SPHLogPortalCreate(bs); se_assert(p == d, "a portal is made"); SPHLFPortalIterator_t it; int cap = (int)(bs - 256) / 16; se_assert(!SPHLFPortalCreateIterator(p, &it) && SPHLogPortalEntries(p) == 0 && SPHLogPortalEmpty(p) && SPHLogPortalCapacity(p) == cap, "a new portal is empty"); SPHLFLogger_t l = SPHLFLoggerCreate(4096); for (int i = 0; i < cap; i++) se_assert(SPHLogPortalAddLogger(p, l) == l, "a log is added"); se_assert(!SPHLogPortalAddLogger(p, l) && SPHLogPortalEntries(p) == cap, "a log is added to a full portal"); se_assert(SPHLFLoggerEmpty(l) && SPHLFLoggerDestroy(l) == 0, "the log is intact"); se_assert(SPHLogPortalDestroy(p) == 0 && SASBlockAlloc(bs) == d, "a portal is destroyed"); se_reach("made"); return; }
  unsigned long size = 128ul << se_choose("size", 14); se_map(BUF, size < 256 ? 256 : size); SPHLogPortal_t p = SPHLogPortalInit((void *)BUF, size); if (!p) { se_reach("refused"); se_assert(size <= 256, "a portal is refused"); return; } se_reach("made"); int cap = SPHLogPortalCapacity(p); se_assert(cap >= 0 && (unsigned long)cap * sizeof(SPHLFLogger_t) <= size - 256 && (size < 512 || cap > 0), "the list does not fit the block"); se_map(LOGS, 512); SPHLFLogger_t l = SPHLFLoggerInit((void *)LOGS, 512); if (cap < 300) { for (int i = 0; i < cap; i++) se_assert(SPHLogPortalAddLogger(p, l) == l, "a log is added"); se_assert(!SPHLogPortalAddLogger(p, l), "a log is added to a full portal"); } }
void case_portal_iterate(void) {
  se_map(BUF, 1024); dirty(BUF, 1024); se_map(LOGS, 512 * 20); for (int i = 0; i < 20; i++) se_assert(SPHLFLoggerInitWithStride(LOG(i), 512, 256, 0) == LOG(i), "a log is made"); for (unsigned long i = 0; i < 1024; i += 8) *(unsigned long *)(BUF + i) = U(LOG(19)); SPHLFLoggerHandle_t h, *r = SPHLFLoggerAllocStrideTimeStamped(LOG(19), 3, 3, &h); se_assert(r != 0, "an entry is granted"); SPHLFLoggerEntryComplete(r); se_assert(SPHLogPortalInit((void *)BUF, 512) == P, "a portal is made");
  static const int start[] = { 1, 15, 16 }; int k = start[se_choose("logs", 3)]; for (int i = 0; i < k; i++) add(LOG(i)); static unsigned long at[16], v[16]; for (int i = 0; i < k; i++) { r = SPHLogPortalAllocStrideTimeStamped(P, 1, i, &h); se_assert(r != 0, "an entry is granted"); at[i] = U(h.entry); v[i] = se_u64("payload"); memcpy(h.next, &v[i], 8); SPHLFLoggerEntryComplete(r); }
  SPHLFPortalIterator_t it; se_assert(SPHLFPortalCreateIterator(P, &it) == &it, "an iterator is made"); for (int i = 0; i < k; i++) { unsigned long x; se_assert(SPHLFPortalIteratorNext(&it, &h) == &h, "the iteration ends too early"); memcpy(&x, h.next, 8); se_assert(U(h.entry) == at[i] && x == v[i], "the iteration does not return the next entry"); }
  for (int i = 0; i < 3; i++) se_assert(!SPHLFPortalIteratorNext(&it, &h), "the iteration returns more than what is in the logs"); if (k == 16) se_reach("full"); se_reach("done"); }
/* threads */
static int per, pre, added[3], formt, gotn[2]; static unsigned long got[2][4];
static void adder(void *a) { int t = (int)U(a); for (int i = 0; i < per; i++) { SPHLFLogger_t r = SPHLogPortalAddLogger(P, LOG(16 + t * per + i - 1 + 0)); se_assert(r == 0 || r == LOG(16 + t * per + i - 1), "a log is added"); if (r) { se_atomic_begin(); added[t]++; se_atomic_end(); } } }
static void reader(void *a) { (void)a; int e = SPHLogPortalEntries(P); se_assert(e >= pre && e <= CAP, "the number of logs is reported wrongly"); for (int i = pre ? pre - 1 : 0; i < e; i++) se_assert(SPHLogPortalGetLoggerByIndex(P, i) != 0, "a log is counted before it is there"); se_assert(!SPHLogPortalGetLoggerByIndex(P, CAP) && !SPHLogPortalGetLoggerByIndex(P, CAP + 1), "a log is returned beyond the capacity"); }
void case_portal_add(void) {
  setup(19); static const int start[] = { 0, 13, 14, 15 }; pre = start[se_choose("logs", 4)]; per = (int)se_param("n", 1); for (int i = 0; i < pre; i++) add(LOG(i)); se_shared((void *)BUF, 512); se_shared((void *)LOGS, 512 * 20); se_spawn(adder, (void *)0); se_spawn(adder, (void *)1); se_spawn(reader, 0); se_join_all();
  int room = CAP - pre, want = 2 * per < room ? 2 * per : room, last[2] = { -1, -1 }; if (want < 2 * per) se_reach("full"); se_assert(added[0] + added[1] == want, "as many logs are added as there is room"); se_assert(SPHLogPortalEntries(P) == pre + want && SPHLogPortalCapacity(P) == CAP, "the number of logs is reported wrongly");
  for (int i = 0; i < pre; i++) se_assert(SPHLogPortalGetLoggerByIndex(P, i) == LOG(i), "a log is not found under its number");
  for (int i = pre; i < pre + want; i++) { SPHLFLogger_t l = SPHLogPortalGetLoggerByIndex(P, i); int k = -1; for (int j = 0; j < 2 * per; j++) if (l == LOG(15 + j)) k = j; se_assert(k >= 0, "a log is returned that was not added"); int t = k / per; se_assert(k % per > last[t], "the logs are not in order"); last[t] = k % per; }
  se_assert(!SPHLogPortalGetLoggerByIndex(P, (unsigned long)(pre + want)), "a log is returned that was not added"); se_reach("done"); }
static void writer(void *a) { int t = (int)U(a); for (int i = 0; i < per; i++) { SPHLFLoggerHandle_t h, *r = formt >> t & 1 ? SPHLogPortalAllocStrideTimeStamped(P, 1 + t, i, &h) : SPHLogPortalAllocTimeStamped(P, 1 + t, i, 240, &h); if (r) { got[t][gotn[t]++] = U(h.entry); *(volatile unsigned long *)h.next = 1000ul * t + i; SPHLFLoggerEntryComplete(&h); } } }
void case_portal_threads(void) {
  se_map(BUF, 512); se_map(LOGS, 512 * 4); se_assert(SPHLogPortalInit((void *)BUF, 512) == P, "a portal is made"); for (int i = 0; i < 3; i++) { se_assert(SPHLFLoggerInitWithStride(LOG(i), 512, 256, 0) == LOG(i), "a log is made"); add(LOG(i)); } per = (int)se_param("n", 2); formt = (int)se_choose("form", 4);
  se_shared((void *)BUF, 512); se_shared((void *)LOGS, 512 * 4); se_spawn(writer, (void *)0); se_spawn(writer, (void *)1); se_join_all(); int seen[3] = { 0, 0, 0 }; for (int t = 0; t < 2; t++) for (int i = 0; i < gotn[t]; i++) for (int k = 0; k < 3; k++) if (got[t][i] == U(LOG(k)) + 256) seen[k]++;
  int want = 2 * per < 3 ? 2 * per : 3; if (want < 2 * per) se_reach("exhausted"); se_assert(gotn[0] + gotn[1] == want && seen[0] == 1 && seen[1] == 1 && seen[2] == (want == 3), "every entry of the logs is granted once");
  SPHLFPortalIterator_t it; SPHLFLoggerHandle_t h; SPHLFPortalCreateIterator(P, &it); for (int i = 0; i < want; i++) se_assert(SPHLFPortalIteratorNext(&it, &h) == &h && U(h.entry) == U(LOG(i)) + 256, "the iteration returns every entry"); se_assert(!SPHLFPortalIteratorNext(&it, &h), "the iteration returns more than what is in the logs"); se_reach("done"); }
