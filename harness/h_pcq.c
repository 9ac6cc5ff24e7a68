/* Single producer, single consumer queue: every geometry, operation histories against a ring model, and a producer and a consumer thread. */
//@ case property=Q01 name=case_pcq_hist reach=got,full,empty,wrapped quick="--param=ops=4" thorough="--param=ops=6 --param=many=1" qtime=200 ttime=2400 bounds="dirty blocks of 512 bytes and 4 KB with 2..4 slots of any stride, starting at the first or last slot, 4 (6) calls of the handle interface (plain and time stamped entries), completions in any order, symbolic payloads, categories and subcategories"
//@ case property=Q03 name=case_pcq_direct reach=got,full,empty,wrapped quick="--param=ops=4 --param=slots=3" thorough="--param=ops=6" qtime=200 ttime=2400 bounds="as case_pcq_hist with the direct interface, spinning forms included"
//@ case property=Q03 name=case_pcq_mixed reach=got,full,empty,wrapped quick="--param=ops=4 --param=slots=3" thorough="--param=ops=6" qtime=200 ttime=2400 bounds="as case_pcq_hist with both interfaces mixed on one queue"
//@ case property=Q01 name=case_pcq_make reach=made,refused,reset qtime=120 bounds="every stride (16 bit) and every block size of 128 bytes to 8 KB with up to 4 slots on dirty storage, filled, reset in any state, filled again; refused geometries; queues without a stride"
//@ case property=Q01 name=case_pcq_large reach=got qtime=60 bounds="two or three slots of the strides that round to 4096, 4112, 8192, 32768, 65504 and 65520 bytes"
//@ case property=Q01 name=case_pcq_create reach=made,refused qtime=60 bounds="queues created in region blocks of 4 and 8 KB, strides that fit and do not; prefetch options; destroyed and the block reused"
//@ case property=Q01 name=case_pcq_type reach=done qtime=30 bounds="every call on a block that is no queue"
//@ case property=Q02 name=case_pcq_threads reach=done quick="--preempt=3 --param=n=3" thorough="--preempt=6 --param=n=4" qtime=200 ttime=2400 bounds="one producer and one consumer, 2 or 3 slots of a stride of 20 to 64 bytes, 3 (4) entries, each side spinning or polling in either interface, up to 3 (6) preemptions, symbolic payloads"
//@ case property=Q03 name=case_direct_addr reach=done qtime=60 bounds="every entry address, offset and power-of-two alignment up to 64"
#include <string.h>
#include "common.h"
#include "sphsinglepcqueue.h"
#include "sphdirectpcqueue.h"
#include "sphgettime.h"
#define BUF 0x30000000ul
#define HDR 256ul
#define Q ((SPHSinglePCQueue_t)BUF)
static unsigned long size, stride; static int nslot, many;
static void dirty(unsigned long n) { se_map(BUF, n); for (unsigned long i = 0; i < n; i += 8) *(volatile unsigned long *)(BUF + i) = 0xfffffffffffffff7ul; }
static unsigned long slot(int i) { return BUF + HDR + stride * (unsigned long)i; }
static void geometry(int maxslot) { /* a stride that gives nslot slots */
  size = 512ul << (many ? se_choose("size", 4) : 3 * se_choose("size", 2)); nslot = 2 + (int)se_choose("slots", maxslot - 1);
  unsigned s = se_u16("stride"); stride = (s + 15ul) & ~15ul; se_assume(s > 0 && stride * nslot <= size - HDR && stride * (nslot + 1) > size - HDR);
  dirty(size); se_assert(SPHSinglePCQueueInitWithStride((void *)BUF, size, (unsigned short)s, SPHSPCQUEUE_CIRCULAR) == Q, "a queue is made"); se_assert(SPHSinglePCQueueGetStride(Q) == (int)stride, "the stride is rounded up to 16 bytes"); }
/* the model: a ring of nslot slots, `used` of them from `tail` on; one slot stays free */
static int tail, used; static struct { int done, ts, cat, sub; unsigned long a, b; SPHLFEntryHandle_t h; } m[8]; static sphLFEntryID_t tmpl; static int direct, spins, how;
static int nth(int i) { int k = tail + i; return k >= nslot ? k - nslot : k; }
static void state(void) {
  se_assert(SPHSinglePCQueueEmpty(Q) == !(used && m[tail].done), "empty is reported wrongly"); se_assert(SPHSinglePCQueueFull(Q) == (used == nslot - 1), "full is reported wrongly");
  se_assert(SPHSinglePCQueueFreeSpace(Q) == (unsigned long)(nslot - 1 - used) * stride, "the free space reported is not what is free"); }
/* payload: the first and the last eight bytes behind the header */
static void put(int k, unsigned long at) { m[k].a = se_u64("first"); m[k].b = se_u64("last"); memcpy((void *)at, &m[k].a, 8); memcpy((void *)(slot(k) + stride - 8), &m[k].b, 8); }
static void check(int k, unsigned long at) { unsigned long v; if (stride >= 32) { memcpy(&v, (void *)at, 8); se_assert(v == m[k].a, "an entry's contents changed"); memcpy(&v, (void *)(slot(k) + stride - 8), 8); se_assert(v == m[k].b, "an entry's contents changed"); } }
static void alloc(void) {
  int k = nth(used), cat = (int)se_u16("cat") & 0xfff, sub = se_u8("sub"), ts = 0, ok; unsigned long at = 0; SPHLFEntryHandle_t h, *r = 0; void *d = 0; h.entry = 0;
  int form = direct == 2 ? (int)se_choose("form", 3) : direct ? 2 : (int)se_choose("form", 2);
  if (form == 2) { int spin = used == nslot - 1 ? 0 : spins; d = spin == 2 ? SPHSinglePCQueueAllocStrideDirectSpinPause(Q) : spin ? SPHSinglePCQueueAllocStrideDirectSpin(Q) : SPHSinglePCQueueAllocStrideDirect(Q); ok = d != 0; }
  else { ts = form; r = ts ? SPHSinglePCQueueAllocStrideTimeStamped(Q, cat, sub, &h) : SPHSinglePCQueueAllocStrideEntry(Q, cat, sub, &h); ok = r != 0; }
  if (used == nslot - 1) { se_reach("full"); se_assert(!ok, "an entry is handed out by a full queue"); return; }
  se_assert(ok, "a queue that is not full hands out an entry"); if (k == 0 && used) se_reach("wrapped");
  if (r) { at = slot(k) + (ts ? 16 : 4); se_assert(r == &h && U(h.entry) == slot(k), "the next free slot is handed out"); se_assert(U(h.next) == at && h.total_size == stride && h.remaining == slot(k) + stride - at, "the handle covers the entry"); }
  else { se_assert(U(d) == slot(k), "the next free slot is handed out"); at = U(SPHLFEntryDirectGetFreePtr(d)); se_assert(at == slot(k) + 4, "the data follow the header"); m[k].h.entry = d; h.entry = d; }
  if (stride >= 32) put(k, at);
  m[k].done = 0; m[k].ts = ts; m[k].cat = cat; m[k].sub = sub; m[k].h = h; if (!r) m[k].h.next = 0; used++; }
static void complete(void) {
  int i = used ? (int)se_choose("entry", used) : 0, k = nth(i); if (!used || m[k].done) return;
  if (!m[k].h.next) { se_assert(!SPHSinglePCQueueEntryIsCompleteDirect(m[k].h.entry) && !SPHLFEntryDirectIsComplete(m[k].h.entry), "an entry is complete too early"); SPHLFEntryDirectComplete(m[k].h.entry, tmpl, m[k].cat, m[k].sub); se_assert(SPHSinglePCQueueEntryIsCompleteDirect(m[k].h.entry) && SPHLFEntryDirectIsComplete(m[k].h.entry), "a completed entry is complete"); }
  else { se_assert(!SPHSinglePCQueueEntryIsComplete(&m[k].h), "an entry is complete too early"); switch (how) { case 0: SPHSinglePCQueueEntryComplete(&m[k].h); break; case 1: SPHLFEntryComplete(&m[k].h); break; case 2: SPHLFEntryStrongComplete(&m[k].h); break; default: SPHLFEntryWeakComplete(&m[k].h); } se_assert(SPHSinglePCQueueEntryIsComplete(&m[k].h), "a completed entry is complete"); }
  m[k].done = 1; }
static void fetch(void) {
  SPHLFEntryHandle_t h, *r; int ready = used && m[tail].done, form = direct == 2 ? (int)se_choose("get", 2) : direct; void *d;
  if (form) {
    int spin = ready ? spins : 0; void *e = SPHSinglePCQueueGetNextEntryDirect(Q); se_assert(e == (used ? (void *)slot(tail) : 0), "the oldest allocated entry is found");
    d = spin == 2 ? SPHSinglePCQueueGetNextCompleteDirectSpinPause(Q) : spin ? SPHSinglePCQueueGetNextCompleteDirectSpin(Q) : SPHSinglePCQueueGetNextCompleteDirect(Q);
    if (!ready) { se_reach("empty"); se_assert(d == 0, "an entry is delivered that is not complete"); if (used) se_assert(SPHSinglePCQueueFreeNextEntryDirect(Q, (void *)slot(tail)) == 0, "an entry that is not complete is freed"); return; }
    se_reach("got"); se_assert(U(d) == slot(tail), "the oldest complete entry is delivered"); se_assert(SPHLFEntryDirectCategory(d) == m[tail].cat && SPHLFEntryDirectSubcat(d) == m[tail].sub, "the entry's categories changed"); se_assert(SPHLFEntryDirectIsTimestamped(d) == m[tail].ts, "the entry's kind changed"); check(tail, slot(tail) + (m[tail].ts ? 16 : 4)); }
  else { r = SPHSinglePCQueueGetNextComplete(Q, &h);
    if (!ready) { se_reach("empty"); se_assert(r == 0, "an entry is delivered that is not complete"); se_assert(SPHSinglePCQueueFreeNextEntry(Q) == 0, "an entry that is not complete is freed"); return; }
    se_reach("got"); se_assert(r == &h && U(h.entry) == slot(tail), "the oldest complete entry is delivered"); unsigned long at = slot(tail) + (m[tail].ts ? 16 : 4); se_assert(U(h.next) == at && h.total_size == stride && h.remaining == slot(tail) + stride - at, "the handle covers the entry");
    se_assert(SPHLFEntryCategory(&h) == m[tail].cat && SPHLFEntrySubcat(&h) == m[tail].sub && SPHLFEntryIsTimestamped(&h) == m[tail].ts, "the entry's header changed"); check(tail, at); }
  if (se_choose("free", 2)) { int f = direct == 2 ? (int)se_choose("freeform", 2) : direct; se_assert((f ? SPHSinglePCQueueFreeNextEntryDirect(Q, (void *)slot(tail)) : SPHSinglePCQueueFreeNextEntry(Q)) == 1, "a delivered entry is freed"); tail = nth(1); used--; } }
static void advance(int k) { /* bring the ring to a starting slot */
  while (k--) { SPHLFEntryHandle_t h; void *d;
    if (direct) { d = SPHSinglePCQueueAllocStrideDirect(Q); se_assert(U(d) == slot(tail), "an entry goes through the queue"); SPHLFEntryDirectComplete(d, tmpl, 1, 2); se_assert(SPHSinglePCQueueGetNextCompleteDirect(Q) == d && SPHSinglePCQueueFreeNextEntryDirect(Q, d) == 1, "an entry goes through the queue"); }
    else se_assert(SPHSinglePCQueueAllocStrideEntry(Q, 1, 2, &h) == &h && SPHSinglePCQueueEntryComplete(&h) == 1 && SPHSinglePCQueueGetNextComplete(Q, &h) == &h && SPHSinglePCQueueFreeNextEntry(Q) == 1, "an entry goes through the queue");
    tail = nth(1); } }
static void history(int d) {
  many = (int)se_param("many", 0); geometry((int)se_param("slots", 4)); direct = d; tmpl = SPHSinglePCQueueGetEntryTemplate(Q); spins = d == 2 ? 0 : (int)se_choose("spin", 3); how = spins + (int)se_choose("how", 2); advance(se_choose("start", 2) ? nslot - 1 : 0); state(); int n = (int)se_param("ops", 4);
  for (int i = 0; i < n; i++) { switch (se_choose("op", 3)) { case 0: alloc(); break; case 1: complete(); break; default: fetch(); } state(); }
  /* drain: everything put in comes out, once and in order */
  while (used) { int k = tail; if (!m[k].done) { if (m[k].h.next) SPHLFEntryComplete(&m[k].h); else SPHLFEntryDirectComplete(m[k].h.entry, tmpl, m[k].cat, m[k].sub); m[k].done = 1; } SPHLFEntryHandle_t h; se_assert(SPHSinglePCQueueGetNextComplete(Q, &h) == &h && U(h.entry) == slot(k), "every entry is delivered in order"); check(k, slot(k) + (m[k].ts ? 16 : 4)); se_assert(SPHSinglePCQueueFreeNextEntry(Q) == 1, "a delivered entry is freed"); tail = nth(1); used--; state(); } }
void case_pcq_hist(void) { history(0); }
void case_pcq_direct(void) { history(1); }
void case_pcq_mixed(void) { history(2); }
static void fill(void) { SPHLFEntryHandle_t h; state(); for (int i = 0; i < nslot - 1; i++) { se_assert(SPHSinglePCQueueAllocStrideEntry(Q, 3, 4, &h) == &h && U(h.entry) == slot(nth(used)), "a queue that is not full hands out an entry"); SPHSinglePCQueueEntryComplete(&h); m[nth(used)].done = 1; used++; state(); } se_assert(SPHSinglePCQueueAllocStrideEntry(Q, 3, 4, &h) == 0, "an entry is handed out by a full queue"); }
void case_pcq_make(void) {
  size = 128ul << se_choose("size", 7); unsigned s = se_u16("stride"); stride = (s + 15ul) & ~15ul; unsigned long room = size < HDR ? 0 : size - HDR; dirty(size);
  SPHSinglePCQueue_t q; int which = (int)se_choose("kind", 6);
  if (which == 5) { q = SPHSinglePCQueueInit((void *)BUF, size); if (!q) { se_assert(size < HDR, "a queue is made"); return; } SPHLFEntryHandle_t h; se_assert(SPHSinglePCQueueGetStride(q) == 0 && SPHSinglePCQueueAllocStrideEntry(q, 1, 1, &h) == 0 && SPHSinglePCQueueAllocStrideDirect(q) == 0 && SPHSinglePCQueueFull(q) && SPHSinglePCQueueEmpty(q) && SPHSinglePCQueueFreeSpace(q) == 0, "a queue without entries serves none"); se_assert(SPHSinglePCQueueResetAsync(q) == 0, "a queue is reset"); return; }
  if (which == 4) se_assume(s && (stride > room || 2 * stride > room)); else { nslot = which < 2 ? 2 : 1 + which; se_assume(s && stride * nslot <= room && stride * (nslot + 1) > room); if (which == 1) se_assume((s & 15) && s < 64); }
  q = SPHSinglePCQueueInitWithStride((void *)BUF, size, (unsigned short)s, 0);
  if (which == 4) { if (!q) { se_reach("refused"); return; } SPHLFEntryHandle_t h; se_assert(SPHSinglePCQueueAllocStrideEntry(q, 1, 1, &h) == 0 && SPHSinglePCQueueAllocStrideDirect(q) == 0, "a queue without entries serves none"); return; }
  se_assert(q == Q, "a queue is made"); se_assert(SPHSinglePCQueueGetStride(Q) == (int)stride, "the stride is rounded up to 16 bytes"); advance((int)se_choose("start", nslot)); se_reach("made"); fill();
  if (se_choose("some", 2)) { se_assert(SPHSinglePCQueueFreeNextEntry(Q) == 1, "a delivered entry is freed"); }
  se_assert(SPHSinglePCQueueResetAsync(Q) == 0, "a queue is reset"); tail = used = 0; se_reach("reset"); fill();
  se_assert(SPHSinglePCQueueResetAsync(Q) == 0, "a queue is reset"); for (int i = 0; i < nslot - 1; i++) se_assert(U(SPHSinglePCQueueAllocRaw(Q)) == slot(i), "raw entries are handed out in turn"); se_assert(SPHSinglePCQueueAllocRaw(Q) == 0, "an entry is handed out by a full queue"); }
void case_pcq_large(void) { size = 262144; nslot = 2 + (int)se_choose("slots", 2); static const unsigned top[] = { 4096, 4112, 8192, 32768, 65504, 65520 }; unsigned s = top[se_choose("stride", 6)] - (unsigned)se_range("odd", 0, 15); stride = (s + 15ul) & ~15ul; size = HDR + stride * nslot; se_assume(stride < 65536); se_map(BUF, 262144); 
  se_assert(SPHSinglePCQueueInitWithStride((void *)BUF, size, (unsigned short)s, 0) == Q, "a queue is made"); advance((int)se_choose("start", nslot)); alloc(); m[tail].done = 1; if (m[tail].h.next) SPHLFEntryComplete(&m[tail].h); fetch(); state(); }
void case_pcq_create(void) {
  region_join(); unsigned long bs = 4096ul << se_choose("size", 2); unsigned s = se_u16("stride"); stride = (s + 15ul) & ~15ul; int big = (int)se_choose("big", 2); if (big) se_assume(stride > (bs - HDR) / 2); else { se_assume(s && stride * 3 <= bs - HDR && stride * 4 > bs - HDR); nslot = 3; }
  SPHSinglePCQueue_t q = SPHSinglePCQueueCreateWithStride(bs, (unsigned short)s); if (!q) { se_assert(big, "a queue is made"); void *p = SASBlockAlloc(bs); se_assert(p != 0, "a refused queue keeps no storage"); se_reach("refused"); return; } se_assert(!big, "a queue that can hold an entry");
  for (int i = 0; i < 2; i++) { SPHLFEntryHandle_t h; se_assert(SPHSinglePCQueueAllocStrideEntry(q, 1, 2, &h) == &h && U(h.entry) >= U(q) + HDR && U(h.entry) + stride <= U(q) + bs, "entries lie in the queue"); SPHSinglePCQueueEntryComplete(&h); } SPHLFEntryHandle_t h; se_assert(SPHSinglePCQueueAllocStrideEntry(q, 1, 2, &h) == 0, "an entry is handed out by a full queue");
  se_assert(SPHSinglePCQueueSetCachePrefetch(q, (int)se_choose("prefetch", 5)) == 0 && SPHSinglePCQueuePrefetch(q) == 0, "a queue can be prefetched"); se_assert(SPHSinglePCQueueFull(q) && !SPHSinglePCQueueEmpty(q), "prefetching changes nothing"); se_reach("made"); se_assert(SPHSinglePCQueueDestroy(q) == 0, "a queue is destroyed"); se_assert(SPHSinglePCQueueDestroy(q) != 0, "a queue is destroyed once");
  SPHSinglePCQueue_t q2 = SPHSinglePCQueueCreateWithStride(bs, 64); se_assert(q2 != 0, "a destroyed queue gives its storage back"); int n = 0; while (n < 1000 && SPHSinglePCQueueAllocStrideEntry(q2, 1, 2, &h)) n++; se_assert(n == (int)((bs - HDR) / 64) - 1, "a queue on used storage serves all its entries"); }
void case_pcq_type(void) { se_map(BUF, 4096); SPHLFEntryHandle_t h; se_assert(SPHSinglePCQueueGetStride(Q) == -1 && SPHSinglePCQueueResetAsync(Q) && SPHSinglePCQueueFull(Q) && SPHSinglePCQueueFreeSpace(Q) == 0 && !SPHSinglePCQueueAllocStrideDirect(Q) && !SPHSinglePCQueueAllocRaw(Q) && !SPHSinglePCQueueGetNextCompleteDirect(Q) && !SPHSinglePCQueueGetNextEntryDirect(Q) && !SPHSinglePCQueueFreeNextEntryDirect(Q, (void *)(BUF + 512)) && !SPHSinglePCQueueFreeNextEntry(Q) && !SPHSinglePCQueueGetEntryTemplate(Q) && SPHSinglePCQueueSetCachePrefetch(Q, 1) && SPHSinglePCQueuePrefetch(Q) && SPHSinglePCQueueDestroy(Q), "a block that is no queue is refused"); se_reach("done"); (void)h; }
/* threads */
static int pf, cf, total; static unsigned long data[8]; static int freed, given;
static void producer(void *a) { (void)a;
  for (int i = 0; i < total; i++) { unsigned long at; SPHLFEntryHandle_t h; void *d = 0; int g;
    switch (pf) { case 0: while (!SPHSinglePCQueueAllocStrideEntry(Q, 1 + i, 7, &h)) se_yield(); at = U(h.entry); break; case 1: d = SPHSinglePCQueueAllocStrideDirectSpin(Q); at = U(d); break; case 2: d = SPHSinglePCQueueAllocStrideDirectSpinPause(Q); at = U(d); break; case 3: while (!SPHSinglePCQueueAllocStrideTimeStamped(Q, 1 + i, 7, &h)) se_yield(); at = U(h.entry); break; default: while (!(d = SPHSinglePCQueueAllocStrideDirect(Q))) se_yield(); at = U(d); }
    se_atomic_begin(); g = given++; se_assert(at == slot(g % nslot), "slots are handed out in turn"); se_assert(g - freed < nslot - 1 + 1, "a slot is handed out again before it was freed"); se_atomic_end();
    *(volatile unsigned long *)(at + 16) = data[i]; if (d) SPHLFEntryDirectComplete(d, tmpl, 1 + i, 7); else if (pf == 3) SPHSinglePCQueueEntryComplete(&h); else SPHLFEntryComplete(&h); } }
static void consumer(void *a) { (void)a;
  for (int i = 0; i < total; i++) { SPHLFEntryHandle_t h; void *d = 0; unsigned long at;
    switch (cf) { case 0: while (!SPHSinglePCQueueGetNextComplete(Q, &h)) se_yield(); at = U(h.entry); break; case 1: d = SPHSinglePCQueueGetNextCompleteDirectSpin(Q); at = U(d); break; case 2: d = SPHSinglePCQueueGetNextCompleteDirectSpinPause(Q); at = U(d); break; default: while (!(d = SPHSinglePCQueueGetNextCompleteDirect(Q))) se_yield(); at = U(d); }
    se_assert(at == slot(i % nslot), "entries are delivered in order"); se_assert(*(volatile unsigned long *)(at + 16) == data[i], "an entry is seen before its data"); se_assert(SPHLFEntryDirectCategory((void *)at) == 1 + i && SPHLFEntryDirectSubcat((void *)at) == 7, "an entry is seen before its header");
    se_atomic_begin(); freed++; se_atomic_end(); se_assert((d ? SPHSinglePCQueueFreeNextEntryDirect(Q, d) : SPHSinglePCQueueFreeNextEntry(Q)) == 1, "a delivered entry is freed"); } }
void case_pcq_threads(void) {
  unsigned s = (unsigned)se_range("stride", 20, 64); stride = (s + 15ul) & ~15ul; nslot = 2 + (int)se_choose("slots", 2); total = (int)se_param("n", 3); pf = (int)se_choose("producer", 5); cf = (int)se_choose("consumer", 4); dirty(512); se_assert(SPHSinglePCQueueInitWithStride((void *)BUF, HDR + stride * nslot, (unsigned short)s, 0) == Q, "a queue is made"); tmpl = SPHSinglePCQueueGetEntryTemplate(Q); for (int i = 0; i < total; i++) data[i] = se_u64("data");
  se_shared((void *)BUF, 512); se_spawn(producer, 0); se_spawn(consumer, 0); se_join_all(); se_assert(given == total && freed == total, "every entry is delivered"); se_assert(SPHSinglePCQueueEmpty(Q) && !SPHSinglePCQueueFull(Q) && SPHSinglePCQueueFreeSpace(Q) == (unsigned long)(nslot - 1) * stride, "the queue is empty in the end"); se_reach("done"); }
void case_direct_addr(void) { unsigned long e = se_u64("entry"), al = 1ul << se_choose("align", 7), inc = se_u16("size"); se_assume(e < 1ul << 47 && (e & 15) == 0); unsigned long p = U(SPHLFEntryDirectGetPtrAligned((void *)e, al)), n = e + 4; se_assert(p >= n && p < n + al && p % al == 0, "the first aligned address behind the header"); unsigned long c = e + 4 + se_u16("at"), r = U(SPHLFEntryDirectIncAndAlign((void *)c, inc, al)); se_assert(r >= c + inc && r < c + inc + al && r % al == 0, "the next aligned address"); se_reach("done"); }
