// Lock free loggers (src/sphlflogger.cpp): entries granted are contained, disjoint and large enough, iteration returns what is in the log.
//@ case property=Q05,Q06 name=case_log_hist reach=got,full,reset,nolock quick="--param=ops=3" thorough="--param=ops=5" qtime=200 ttime=2400 bounds="non circular logs of 256 bytes of data on dirty storage, 3 (5) calls of the four time stamped forms, sizes of 0 to 256 bytes of any residue, oversized ones, completions in any order, resets; iterated after every call"
//@ case property=Q05,Q06 name=case_log_circ reach=got,wrapped,twice,gap quick="--param=ops=4" thorough="--param=ops=6" qtime=200 ttime=2400 bounds="circular logs with 1..4 slots of any stride (16 to 256 bytes) on dirty storage, filled to any position, 4 (6) more calls of the strided and sized forms, completed or left open; iterated after every call"
//@ case property=Q05 name=case_log_raw reach=got,full qtime=60 bounds="three raw and time stamped requests of every 64 bit size"
//@ case property=Q05 name=case_log_make reach=made,refused,circular,plain qtime=120 bounds="every 16 bit stride, block sizes of 128 bytes to 128 KB, circular or not, on dirty storage"
//@ case property=Q05 name=case_log_create reach=made,refused qtime=60 bounds="logs created in region blocks of 4 and 8 KB with strides that fit and do not; prefetch options; destroyed"
//@ case property=Q05 name=case_log_threads reach=done,full quick="--preempt=3 --param=n=2" thorough="--preempt=5 --param=n=3" qtime=200 ttime=2400 bounds="two threads with 2 (3) requests each on a non circular log of 3 slots, both forms, up to 3 (5) preemptions"
//@ case property=Q05 name=case_log_wrap reach=done quick="--preempt=3 --param=n=2" thorough="--preempt=5 --param=n=3" qtime=200 ttime=2400 bounds="two threads with 2 (3) requests each on a circular log of 2 or 3 slots that is nearly full, both forms, up to 3 (5) preemptions"
//@ case property=Q05 name=case_log_wrap3 reach=done quick="--preempt=2 --param=threads=3 --param=n=1" thorough="--preempt=4 --param=threads=3 --param=n=2" qtime=200 ttime=2400 bounds="as case_log_wrap with three threads of 1 (2) requests, up to 2 (4) preemptions"
//@ case property=Q05 name=case_log_raw_threads reach=done,full quick="--preempt=3 --param=n=2" thorough="--preempt=4 --param=n=3" qtime=100 ttime=1200 bounds="two threads with 2 (3) raw or time stamped requests each of 1 to 3 units on a log of 5 units, up to 3 (4) preemptions"
//@ case property=Q05 name=case_log_reset_threads reach=done quick="--preempt=3" thorough="--preempt=4 --param=threads=3" qtime=100 ttime=1200 bounds="two (three) threads that each reset a full log if it is full and then make a raw, strided or sized request, up to 3 (4) preemptions"
//@ case property=Q06 name=case_log_big reach=done qtime=60 bounds="entries of 4064 to 8192 bytes"
#include <string.h>
#include "common.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include "sphthread.h"
#define BUF 0x30000000ul
#define HDR 256ul
#define L ((SPHLFLogger_t)BUF)
static unsigned long size;
static void dirty(unsigned long n) { se_map(BUF, n); for (unsigned long i = 0; i < n; i += 8) *(volatile unsigned long *)(BUF + i) = i & 16 ? 0x0000000100000003ul : 0x0300000103000003ul; }
/* the entries granted since the last reset */
#define MAXM 16
static struct { unsigned long at, len, a; int done, cat, sub, seq; SPHLFLoggerHandle_t h; } m[MAXM]; static int nm, failed; static unsigned long used;
static void contained(unsigned long at, unsigned long len, unsigned long want) { se_assert(at >= BUF + HDR && at + len <= BUF + size && len <= size, "[Q05] an entry lies outside the log"); se_assert((at & 15) == 0, "[Q05] an entry is not aligned"); se_assert(len >= want, "[Q05] an entry is too small"); }
static void granted(SPHLFLoggerHandle_t *h, unsigned long want, int cat, int sub) { /* want: bytes behind the header */
  unsigned long at = U(h->entry), len = h->total_size; contained(at, len, want + 16); for (int i = 0; i < nm; i++) se_assert(at + len <= m[i].at || m[i].at + m[i].len <= at, "[Q05] two entries overlap");
  se_assert(U(h->next) == at + 16 && h->remaining == len - 16, "[Q05] the handle covers the entry"); se_assert(!SPHLFLoggerEntryIsComplete(h) && !SPHLFLoggerEntryIsTimestamped(h), "[Q05] an entry is complete too early");
  m[nm].at = at; m[nm].len = len; m[nm].cat = cat; m[nm].sub = sub; m[nm].done = 0; m[nm].h = *h; m[nm].a = se_u64("payload"); if (len >= 32) { memcpy(h->next, &m[nm].a, 8); memcpy(h->next + h->remaining - 8, &m[nm].a, 8); } nm++; used += len; }
static void attributes(SPHLFLoggerHandle_t *h, int cat, int sub) { se_assert(SPHLFLogEntryCategory(h) == cat && SPHLFLogEntrySubcat(h) == sub && SPHLFLogEntryPID(h) == (sphpid16_t)sphFastGetPID() && SPHLFLogEntryTID(h) == (sphpid16_t)sphFastGetTID(), "[Q05] the entry's attributes are recorded"); }
static void complete(int i, int how) { if (how == 0) SPHLFLoggerEntryComplete(&m[i].h); else if (how == 1) SPHLFLogEntryComplete(&m[i].h); else if (how == 2) SPHLFLogEntryStrongComplete(&m[i].h); else SPHLFLogEntryWeakComplete(&m[i].h); m[i].done = 1; se_assert(SPHLFLoggerEntryIsComplete(&m[i].h) && SPHLFLoggerEntryIsTimestamped(&m[i].h) && SPHLFLogEntryIsComplete(&m[i].h) && SPHLFLogEntryIsTimestamped(&m[i].h), "[Q05] a completed entry is complete"); attributes(&m[i].h, m[i].cat, m[i].sub); }
/* the iteration returns the model's entries from `first` on, up to the first one that is not complete */
static void iterate(int first) { SPHLFLogIterator_t it, *p = SPHLFLoggerCreateIterator(L, &it); SPHLFLoggerHandle_t h; unsigned long v; se_assert(p == &it, "[Q06] an iterator is made");
  for (int i = first; i < nm && m[i].done; i++) { SPHLFLoggerHandle_t *r = SPHLFLoggerIteratorNext(&it, &h); se_assert(r == &h, "[Q06] the iteration ends too early"); se_assert(U(h.entry) == m[i].at, "[Q06] the iteration does not return the next entry"); se_assert(h.total_size == m[i].len && U(h.next) == m[i].at + 16 && h.remaining == m[i].len - 16, "[Q06] the iteration's handle covers the entry");
    se_assert(SPHLFLogEntryCategory(&h) == m[i].cat && SPHLFLogEntrySubcat(&h) == m[i].sub, "[Q06] the entry's attributes changed"); if (m[i].len >= 32) { memcpy(&v, h.next, 8); se_assert(v == m[i].a, "[Q05] an entry's contents changed"); memcpy(&v, h.next + h.remaining - 8, 8); se_assert(v == m[i].a, "[Q05] an entry's contents changed"); } }
  se_assert(!SPHLFLoggerIteratorNext(&it, &h) && !SPHLFLoggerIteratorNext(&it, &h), "[Q06] the iteration returns more than what is in the log"); }
static int cat, sub, form;
static SPHLFLoggerHandle_t *request(int f, unsigned long n, SPHLFLoggerHandle_t *h) { cat = (int)se_u16("cat") & 0xfff; sub = se_u8("sub"); switch (f) { case 0: return SPHLFLoggerAllocTimeStamped(L, cat, sub, n, h); case 1: return SPHLFLoggerAllocStrideTimeStamped(L, cat, sub, h); case 2: se_reach("nolock"); return SPHLFLoggerAllocTimeStampedNoLock(L, cat, sub, n, h); default: se_reach("nolock"); return SPHLFLoggerAllocStrideTimeStampedNoLock(L, cat, sub, h); } }
static void state(int circ) {
  if (!failed && !circ) { unsigned long f = size - HDR - used; se_assert(SPHLFLoggerFreeSpace(L) == f, "[Q05] the free space reported is not what is free"); se_assert(SPHLFLoggerFull(L) == (f == 0), "[Q05] full is reported wrongly"); se_assert(SPHLFLoggerEmpty(L) == (used == 0), "[Q05] empty is reported wrongly"); se_assert(!SPHLFLoggerWrapped(L), "[Q05] a log that did not wrap is reported as wrapped"); } }
void case_log_hist(void) {
  size = 512; dirty(size); static const unsigned str[] = { 48, 112 }; unsigned long stride = str[se_choose("stride", 2)]; unsigned s = (unsigned)stride - (se_u8("odd") & 15u); se_assert(SPHLFLoggerInitWithStride((void *)BUF, size, (unsigned short)s, 0) == L, "[Q05] a log is made"); state(0); iterate(0); int n = (int)se_param("ops", 3);
  static const unsigned units[] = { 0, 1, 5, 7, 11, 15, 16, 17 };
  for (int i = 0; i < n; i++) { switch (se_choose("op", 3)) {
    case 0: { int f = (int)se_choose("form", 4); unsigned long u = f & 1 ? stride / 16 - 1 : units[se_choose("units", 8)], want = f & 1 ? stride - 16 : u ? u * 16 - (se_u8("less") & 15u) : 0; SPHLFLoggerHandle_t h, *r = request(f, want, &h); int fits = !failed && u * 16 + 16 <= size - HDR - used;
      if (r) { se_reach("got"); se_assert(r == &h, "[Q05] the caller's handle is filled"); granted(&h, want, cat, sub); } else { se_reach("full"); if (u * 16 + 16 <= size - HDR) failed = 1; } se_assert(!fits || r, "[Q05] a request that fits is refused"); break; }
    case 1: { int k = nm ? (int)se_choose("entry", nm) : 0; if (nm && !m[k].done) complete(k, (int)se_choose("how", 2)); break; }
    default: se_reach("reset"); if (se_choose("async", 2)) { se_assert(SPHLFLoggerResetAsync(L) == 0, "[Q05] a log is reset"); nm = failed = 0; used = 0; } else { int full = SPHLFLoggerFull(L), rc = SPHLFLoggerResetIfFullSync(L); se_assert(rc == 0 || !full, "[Q05] a full log is reset"); if (rc == 0) { nm = failed = 0; used = 0; } } }
    state(0); iterate(0); }
  for (int i = 0; i < nm; i++) if (!m[i].done) complete(i, 2 + (i & 1));
  iterate(0); }
void case_log_circ(void) { /* slots of one size */
  size = 512; int n = 1 + (int)se_choose("slots", 4); unsigned s = (unsigned)se_range("stride", 16, 256); unsigned long stride = (s + 15ul) & ~15ul; stride = se_concretize(stride); se_assume(stride * n <= size - HDR && stride * (n + 1) > size - HDR); if (stride * n != size - HDR) se_reach("gap");
  dirty(size); se_assert(SPHLFLoggerInitWithStride((void *)BUF, size, (unsigned short)s, SPHLFLOGGER_CIRCULAR) == L, "[Q05] a circular log is made"); int ops = (int)se_param("ops", 4), pre = (int)se_choose("before", n + 1), total = 0, first = 0; iterate(0);
  for (int i = 0; i < pre + ops; i++) { SPHLFLoggerHandle_t h, *r; int f = i < pre ? 1 : (int)se_choose("form", 4); r = request(f, stride - 16, &h); se_assert(r == &h, "[Q05] a circular log always has room"); se_reach("got");
    if (total >= n) { se_reach("wrapped"); if (total >= 2 * n) se_reach("twice"); first++; } /* the oldest entry gives way */
    int keep = nm; nm = 0; unsigned long at = U(h.entry); se_assert(at < BUF + HDR + stride * n, "[Q05] an entry lies outside the log"); for (int k = first; k < keep; k++) se_assert(at + stride <= m[k].at || m[k].at + stride <= at, "[Q05] an entry is reused before the log wrapped"); nm = keep; used = 0; m[nm].a = 0; int save = nm; nm = 0; { /* granted() without the overlap check */ nm = save; unsigned long len = h.total_size; contained(at, len, stride); se_assert(U(h.next) == at + 16 && h.remaining == len - 16, "[Q05] the handle covers the entry"); m[nm].at = at; m[nm].len = len; m[nm].cat = cat; m[nm].sub = sub; m[nm].done = 0; m[nm].h = h; m[nm].a = se_u64("payload"); if (len >= 32) { memcpy(h.next, &m[nm].a, 8); memcpy(h.next + h.remaining - 8, &m[nm].a, 8); } nm++; }
    total++; if (i < pre || se_choose("complete", 2)) complete(nm - 1, i & 3); if (i >= pre) { se_assert(SPHLFLoggerWrapped(L) == (total > n), "[Q05] wrapped is reported wrongly"); iterate(first); } }
  if (se_choose("reset", 2)) { se_assert(SPHLFLoggerResetAsync(L) == 0 && SPHLFLoggerEmpty(L) && !SPHLFLoggerWrapped(L), "[Q05] a log is reset"); nm = 0; iterate(0); SPHLFLoggerHandle_t h; se_assert(request(1, 0, &h) == &h, "[Q05] a circular log always has room"); granted(&h, stride - 16, cat, sub); complete(0, 0); iterate(0); } }
void case_log_raw(void) {
  size = 512; dirty(size); se_assert(SPHLFLoggerInit((void *)BUF, size) == L, "[Q05] a log is made"); unsigned long last = 0; unsigned long end[3], beg[3]; int k = 0;
  for (int i = 0; i < 3; i++) { unsigned long n = se_u64("size"); unsigned long at, len; if (se_choose("raw", 2)) { at = U(SPHLFLoggerAllocRaw(L, n)); len = n; } else { SPHLFLoggerHandle_t h, *r = SPHLFLoggerAllocTimeStamped(L, 1, 2, n, &h); at = r ? U(h.entry) : 0; len = n + 16; if (r) se_assert(h.total_size >= n + 16 && h.remaining >= n, "[Q05] an entry is too small"); }
    if (!at) { se_reach("full"); continue; }
    se_reach("got"); se_assert(n <= size - HDR && at >= BUF + HDR && at + len <= BUF + size, "[Q05] an entry lies outside the log"); for (int j = 0; j < k; j++) se_assert(at >= end[j] || at + len <= beg[j], "[Q05] two entries overlap"); beg[k] = at; end[k++] = at + len; }
  (void)last; }
static void make(int circ) {
  static const unsigned long sz[] = { 128, 256, 512, 4096, 131072 }; size = sz[se_choose("size", 5)]; unsigned s = se_u16("stride"); se_map(BUF, 131072); for (unsigned long i = 0; i < 512 && i < size; i += 8) *(unsigned long *)(BUF + i) = ~0ul;
  SPHLFLogger_t r = SPHLFLoggerInitWithStride((void *)BUF, size, (unsigned short)s, circ ? SPHLFLOGGER_CIRCULAR : 0); unsigned long stride = (s + 15ul) & ~15ul;
  if (!r) { se_reach("refused"); se_assert(size <= HDR || stride + HDR > size || stride > 65535 || circ, "[Q05] a log is refused"); se_assert(size < HDR + 16 || stride + HDR > size || stride > 65535, "[Q05] a log is refused"); return; }
  se_reach("made"); SPHLFLoggerHandle_t h, *p;
  for (int i = 0; i < 2; i++) { if (i && s > 128 && s < 65424) break; p = SPHLFLoggerAllocStrideTimeStamped(r, 3, 4, &h); if (p) { se_reach(circ ? "circular" : "plain"); se_assert(s > 0, "[Q05] an entry without a stride"); contained(U(h.entry), h.total_size, s); se_assert(h.remaining == h.total_size - 16, "[Q05] the handle covers the entry"); } else se_assert(i == 1 ? !circ || s == 0 : s == 0, "[Q05] a request that fits is refused"); }
  if (!circ) { SPHLFLoggerResetAsync(r); unsigned long n = se_u64("n"); p = SPHLFLoggerAllocTimeStamped(r, 3, 4, n, &h); if (p) { contained(U(h.entry), h.total_size, n + 16); se_assert(h.remaining >= n && n < 65536, "[Q05] an entry is too small"); } else se_assert(size < HDR + 16 || n > size - HDR - 16 || n > 65536 - 32, "[Q05] a request that fits is refused"); } }
void case_log_make(void) { make((int)se_choose("circular", 2)); }
void case_log_create(void) {
  region_join(); unsigned long bs = 4096ul << se_choose("size", 2); unsigned s = se_choose("big", 2) ? (unsigned)se_range("large", 3841, 65535) : (unsigned)se_range("stride", 1, 3840); void *before = SASBlockAlloc(bs); SASBlockDealloc(before, bs); SPHLFLogger_t r = SPHLFCircularLoggerCreate(bs, (unsigned short)s); unsigned long stride = (s + 15ul) & ~15ul;
  if (!r) { se_reach("refused"); se_assert(stride > bs - HDR || stride > 65535, "[Q05] a log is refused"); void *p = SASBlockAlloc(bs); se_assert(p == before, "[Q05] a refused log leaves no block behind"); return; }
  se_reach("made"); for (int i = 0; i < 4; i++) { unsigned opt = i; se_assert(SPHLFLoggerSetCachePrefetch(r, (int)opt) == 0, "[Q05] the prefetch options are set"); SPHLFLoggerHandle_t h; se_assert(SPHLFLoggerAllocStrideTimeStamped(r, 3, 4, &h) == &h && h.total_size == stride && U(h.entry) >= U(r) + HDR && U(h.entry) + stride <= U(r) + bs, "[Q05] a circular log always has room"); }
  se_assert(SPHLFLoggerPrefetch(r) == 0 && SPHLFLoggerDestroy(r) == 0, "[Q05] a log is destroyed"); SPHLFLogger_t q = SPHLFLoggerCreate(bs); se_assert(q == r && SPHLFLoggerEmpty(q) && SPHLFLoggerFreeSpace(q) == bs - HDR, "[Q05] the block is used again"); se_assert(SPHLFLoggerDestroy(q) == 0, "[Q05] a log is destroyed"); }
/* threads */
static unsigned long stride; static int slots, per, form0, cyc[8], order[4][4], given[4], nofit;
static void worker(void *a) { int t = (int)U(a);
  for (int i = 0; i < per; i++) { SPHLFLoggerHandle_t h, *r = form0 >> (t & 1) & 1 ? SPHLFLoggerAllocTimeStamped(L, 1 + t, i, stride - 16, &h) : SPHLFLoggerAllocStrideTimeStamped(L, 1 + t, i, &h);
    if (!r) { se_atomic_begin(); nofit++; se_atomic_end(); continue; }
    unsigned long o = U(h.entry) - BUF - HDR; int k = -1; for (int j = 0; j < slots; j++) if (o == stride * j) k = j; se_assert(k >= 0, "[Q05] an entry is not one of the log's slots"); se_atomic_begin(); cyc[k]++; order[t][given[t]++] = k; se_atomic_end(); *(volatile unsigned long *)(U(h.entry) + 16) = 1000ul * t + i; SPHLFLoggerEntryComplete(&h); } }
static void threads(int circ) {
  stride = 32; slots = circ ? 2 + (int)se_choose("slots", 2) : 3; size = 512; per = (int)se_param("n", 2); form0 = (int)se_choose("form", (int)se_param("forms", 4)); int nt = (int)se_param("threads", 2), gap = (int)se_choose("gap", 2) * 16; se_map(BUF, 512); for (int i = 0; i < 512; i += 8) *(unsigned long *)(BUF + i) = 0x0300000103000003ul;
  se_assert(SPHLFLoggerInitWithStride((void *)BUF, HDR + stride * slots + gap, (unsigned short)stride, circ ? SPHLFLOGGER_CIRCULAR : 0) == L, "[Q05] a log is made"); int pre = circ ? slots - (int)se_choose("left", 2) : 0, total = nt * per; SPHLFLoggerHandle_t h;
  for (int i = 0; i < pre; i++) { se_assert(SPHLFLoggerAllocStrideTimeStamped(L, 9, i, &h) == &h, "[Q05] a request that fits is refused"); SPHLFLoggerEntryComplete(&h); }
  se_shared((void *)BUF, 512); for (int t = 0; t < nt; t++) se_spawn(worker, (void *)(unsigned long)t); se_join_all();
  int n = 0; for (int k = 0; k < slots; k++) { n += cyc[k]; if (!circ) se_assert(cyc[k] <= 1, "[Q05] a slot is granted twice"); }
  if (!circ) { se_assert(n + nofit == total && n == (total < slots ? total : slots), "[Q05] a request that fits is refused"); if (nofit) se_reach("full"); }
  else { se_assert(nofit == 0, "[Q05] a circular log always has room"); for (int k = 0; k < slots; k++) { int before = k < pre, all = pre + total, want = all / slots + (k < all % slots); se_assert(cyc[k] + before == want, "[Q05] an entry is reused before the log wrapped"); } se_assert(SPHLFLoggerWrapped(L) == (pre + total > slots), "[Q05] wrapped is reported wrongly"); }
  SPHLFLogIterator_t it; SPHLFLoggerCreateIterator(L, &it); int c = 0; while (SPHLFLoggerIteratorNext(&it, &h)) { se_assert(c < slots, "[Q05] the log holds too many entries"); c++; } se_assert(c == (pre + total < slots ? pre + total : slots), "[Q05] the log holds every entry"); se_reach("done"); }
void case_log_threads(void) { threads(0); }
void case_log_wrap(void) { threads(1); }
void case_log_wrap3(void) { threads(1); }
/* raw requests beside each other and beside time stamped ones */
static unsigned long rat[2][4], rlen[2][4]; static int rraw[2];
static void raw_worker(void *a) { int t = (int)U(a);
  for (int i = 0; i < per; i++) { unsigned long n = 64ul * (1 + se_choose("units", 3)); if (rraw[t]) rat[t][i] = U(SPHLFLoggerAllocRaw(L, n)); else { SPHLFLoggerHandle_t h, *r = SPHLFLoggerAllocTimeStamped(L, 1, 2, n - 16, &h); rat[t][i] = r ? U(h.entry) : 0; } rlen[t][i] = n; if (rat[t][i]) *(volatile unsigned long *)(rat[t][i] + 16) = 10 * t + i; } }
void case_log_raw_threads(void) { size = HDR + 320; per = (int)se_param("n", 2); rraw[0] = 1; rraw[1] = (int)se_choose("raw", 2); se_map(BUF, size); for (unsigned long i = 0; i < size; i += 8) *(unsigned long *)(BUF + i) = 0; se_assert(SPHLFLoggerInitWithStride((void *)BUF, size, 64, 0) == L, "[Q05] a log is made");
  se_shared((void *)BUF, size); se_spawn(raw_worker, (void *)0); se_spawn(raw_worker, (void *)1); se_join_all(); unsigned long sum = 0, ok = 0;
  for (int t = 0; t < 2; t++) for (int i = 0; i < per; i++) { sum += rlen[t][i]; if (!rat[t][i]) { se_reach("full"); continue; } ok += rlen[t][i]; contained(rat[t][i], rlen[t][i], 0); for (int u = 0; u <= t; u++) for (int j = 0; j < (u < t ? per : i); j++) se_assert(!rat[u][j] || rat[t][i] >= rat[u][j] + rlen[u][j] || rat[t][i] + rlen[t][i] <= rat[u][j], "[Q05] two entries overlap");
    se_assert(*(unsigned long *)(rat[t][i] + 16) == 10ul * t + i, "[Q05] an entry's contents changed"); }
  se_assert(sum > 320 || ok == sum, "[Q05] a request that fits is refused"); se_reach("done"); }
/* a full log is reset by one thread only, and what is granted afterwards is disjoint */
static unsigned long zat[3]; static int zrc[3], zform[3];
static void resetter(void *a) { int t = (int)U(a); SPHLFLoggerHandle_t h, *r; zrc[t] = SPHLFLoggerResetIfFullSync(L); if (zform[t] == 0) zat[t] = U(SPHLFLoggerAllocRaw(L, 64)); else { r = zform[t] == 1 ? SPHLFLoggerAllocStrideTimeStamped(L, 1, 2, &h) : SPHLFLoggerAllocTimeStamped(L, 1, 2, 48, &h); zat[t] = r ? U(h.entry) : 0; } }
void case_log_reset_threads(void) { size = HDR + 512; int nt = (int)se_param("threads", 2), n0 = 0; for (int t = 0; t < nt; t++) zform[t] = (int)se_choose("form", 3); se_map(BUF, size); for (unsigned long i = 0; i < size; i += 8) *(unsigned long *)(BUF + i) = 0; se_assert(SPHLFLoggerInitWithStride((void *)BUF, size, 64, 0) == L, "[Q05] a log is made");
  SPHLFLoggerHandle_t h; while (SPHLFLoggerAllocStrideTimeStamped(L, 9, 9, &h)) SPHLFLoggerEntryComplete(&h); se_assert(SPHLFLoggerFull(L), "[Q05] full is reported wrongly");
  se_shared((void *)BUF, size); for (int t = 0; t < nt; t++) se_spawn(resetter, (void *)(unsigned long)t); se_join_all();
  for (int t = 0; t < nt; t++) { n0 += zrc[t] == 0; se_assert(zrc[t] == 0 || zrc[t] == 1, "[Q05] a reset reports whether this thread did it"); se_assert(zat[t] != 0, "[Q05] a request that fits is refused"); contained(zat[t], 64, 64); for (int u = 0; u < t; u++) se_assert(zat[t] != zat[u], "[Q05] two entries overlap"); }
  se_assert(n0 == 1, "[Q05] a full log is reset by exactly one thread"); se_assert(SPHLFLoggerFreeSpace(L) == 512 - 64ul * nt, "[Q05] the free space reported is not what is free"); se_reach("done"); }
void case_log_big(void) {
  size = 16384; se_map(BUF, size); se_assert(SPHLFLoggerInit((void *)BUF, size) == L, "[Q06] a log is made"); SPHLFLoggerHandle_t h; unsigned long n = se_range("size", 4040, 8192); int big = n > 4064; if (SPHLFLoggerAllocTimeStamped(L, 1, 2, n, &h)) { unsigned long at = U(h.entry), len = h.total_size; SPHLFLoggerEntryComplete(&h); SPHLFLogIterator_t it; SPHLFLoggerCreateIterator(L, &it); se_reach("done"); SPHLFLoggerHandle_t g, *r = SPHLFLoggerIteratorNext(&it, &g);
    if (big) se_assert(r && U(g.entry) == at && g.total_size == len && !SPHLFLoggerIteratorNext(&it, &g), "[Q06] an entry of more than 4080 bytes is iterated over"); else se_assert(r && U(g.entry) == at && g.total_size == len && !SPHLFLoggerIteratorNext(&it, &g), "[Q06] a long entry is iterated over"); } }
