/* Multi producer, multi consumer queue: every geometry, operation histories against a ring model, and producer and consumer threads. The lock manager is a stand-in (decided by L01-L03). */
//@ build exclude=saslock.cpp
//@ case property=Q04 name=case_mpmc_hist reach=got,full,empty,wrapped quick="--param=ops=6" thorough="--param=ops=8 --param=slots=4" qtime=200 ttime=2400 bounds="dirty blocks of 640 bytes for 1..3 (4) slots of any stride, starting at the first or last slot, 6 (8) calls of both the locked and the single-sided forms, entries completed and freed in any order, symbolic payloads, categories and subcategories"
//@ case property=Q04 name=case_mpmc_make reach=made,refused,reset qtime=120 bounds="every block size of 128 bytes to 8 KB with up to 4 slots of the smallest, middle and largest stride on dirty storage, filled, reset in any state, filled again; every stride that does not fit; queues without a stride; a block that is no queue"
//@ case property=Q04 name=case_mpmc_large reach=made qtime=60 bounds="two or three slots of the strides that round to 4096, 32768, 65504 and 65520 bytes"
//@ case property=Q04 name=case_mpmc_create reach=made,refused qtime=60 bounds="queues created in region blocks of 4 and 8 KB, strides that fit and do not; destroyed and the block reused"
//@ case property=Q04 name=case_mpmc_22 reach=done quick="--preempt=2" thorough="--preempt=4 --param=n=2" qtime=200 ttime=2400 bounds="two producers and two consumers with one entry (two entries) each on 1..3 slots, up to 2 (4) preemptions"
//@ case property=Q04 name=case_mpmc_12 reach=done quick="--preempt=2" thorough="--preempt=4 --param=n=3" qtime=200 ttime=2400 bounds="one producer using the unlocked form with 2 (3) entries per consumer, two consumers, up to 2 (4) preemptions"
//@ case property=Q04 name=case_mpmc_21 reach=done quick="--preempt=2" thorough="--preempt=4 --param=n=3" qtime=200 ttime=2400 bounds="two producers with 2 (3) entries each, one consumer using the unlocked form, up to 2 (4) preemptions"
#include <string.h>
#include "lockstub.h"
#define SPH_INTERNAL
#include "sphmultipcqueue.h"
#define BUF 0x30000000ul
#define Q ((SPHMPMCQ_t)BUF)
static unsigned long size, stride, HDR; static int nslot;
static void dirty(unsigned long n) { se_map(BUF, n); for (unsigned long i = 0; i < n; i += 8) *(volatile unsigned long *)(BUF + i) = 0xfffffffffffffff7ul; }
static unsigned odd(void) { return (unsigned)stride - 15 + (se_u8("odd") & 15); } /* rounds up to stride */
static unsigned long first; static unsigned long slot(int i) { return first + stride * (unsigned long)i; }
enum { FREE, ALLOC, DONE, TAKEN };
static struct { int st, cat, sub; unsigned long a, b; } m[8]; static int head, tail; static sphLFEntryID_t tmpl;
static int next(int i) { return i + 1 == nslot ? 0 : i + 1; }
static int nfree(void) { int n = 0; for (int i = 0, k = head; i < nslot && m[k].st == FREE; i++, k = next(k)) n++; return n; }
static void state(void) {
  int f = nfree(), all = 0; for (int i = 0; i < nslot; i++) all += m[i].st == FREE;
  se_assert((SPHMPMCQIsFull(Q) != 0) == (f == 0), "full is reported wrongly"); se_assert(SPHMPMCQFreeSpace(Q) == stride * (unsigned long)f, "the free space reported is not what can be allocated");
  if (all == nslot) se_assert(SPHMPMCQIsEmpty(Q) == 1, "a queue without entries is empty"); if (m[tail].st == DONE) se_assert(SPHMPMCQIsEmpty(Q) == 0, "a queue with a complete entry is not empty"); }
static void fresh(void) { head = tail = 0; for (int i = 0; i < nslot; i++) m[i].st = FREE; }
/* the header's length is found by the first entry: entries fill the rest of the block */
static SPHMPMCQ_t init(unsigned s, unsigned opt) { SPHMPMCQ_t q = SPHMPMCQInitWithStride((void *)BUF, size, (unsigned short)s, opt); if (!q) return q; se_assert(q == Q, "a queue is made in its block"); se_assert(SPHMPMCQGetStride(Q) == (int)stride, "the stride is rounded up to 16 bytes"); tmpl = SPHMPMCQGetEntryTemplate(Q); fresh(); return q; }
static void put(int k) { m[k].a = se_u64("first"); m[k].b = se_u64("last"); if (stride >= 32) { memcpy(SPHLFEntryDirectGetFreePtr((void *)slot(k)), &m[k].a, 8); memcpy((void *)(slot(k) + stride - 8), &m[k].b, 8); } }
static void check(int k) { unsigned long v; if (stride >= 32) { memcpy(&v, SPHLFEntryDirectGetFreePtr((void *)slot(k)), 8); se_assert(v == m[k].a, "an entry's contents changed"); memcpy(&v, (void *)(slot(k) + stride - 8), 8); se_assert(v == m[k].b, "an entry's contents changed"); } se_assert(SPHLFEntryDirectCategory((void *)slot(k)) == m[k].cat && SPHLFEntryDirectSubcat((void *)slot(k)) == m[k].sub, "an entry's categories changed"); }
static void alloc(int solo) { SPHLFEntryDirect_t d = solo ? SPHSPMCQAllocStrideDirect(Q) : SPHMPMCQAllocStrideDirectSync(Q);
  if (m[head].st != FREE) { se_reach("full"); se_assert(d == 0, "an entry is handed out that is not free"); return; }
  se_assert(U(d) == slot(head), "the next free slot is handed out"); se_assert(!SPHMPMCQEntryDirectIsComplete(d), "an entry is complete too early"); if (head == 0 && tail) se_reach("wrapped"); m[head].st = ALLOC; put(head); head = next(head); }
static void complete(int k, int cat, int sub) { m[k].cat = cat; m[k].sub = sub; SPHLFEntryDirectComplete((void *)slot(k), tmpl, cat, sub); se_assert(SPHMPMCQEntryDirectIsComplete((void *)slot(k)), "a completed entry is complete"); m[k].st = DONE; }
static void take(int solo) { SPHLFEntryDirect_t d = solo ? SPHMPSCQGetNextCompleteDirect(Q) : SPHMPMCQGetNextCompleteDirectSync(Q);
  if (m[tail].st != DONE) { se_reach("empty"); se_assert(d == 0, "an entry is delivered that is not complete"); return; }
  se_reach("got"); se_assert(U(d) == slot(tail), "the oldest complete entry is delivered"); check(tail); m[tail].st = TAKEN; tail = next(tail); }
static void release(int k) { check(k); se_assert(SPHMPMCQFreeEntryDirect(Q, (void *)slot(k)) == 1, "a delivered entry is freed"); m[k].st = FREE; }
static int probe(unsigned s, unsigned opt, int want) { /* makes the queue; the first slot tells where entries begin */
  if (!init(s, opt)) return 0; SPHLFEntryDirect_t d = SPHMPMCQAllocStrideDirectSync(Q); if (!d) { se_assert(SPHMPMCQGetEntries(Q) == 0, "a fresh queue hands out an entry"); return 0; } first = U(d); HDR = first - BUF; se_assert(HDR >= 360 && HDR < 1024 && (HDR & 15) == 0, "entries begin behind the header");
  nslot = want; if (stride * (unsigned long)want > size - HDR) nslot--; if (!nslot) return 0; se_assert(SPHMPMCQGetEntries(Q) == nslot, "as many entries as fit the block"); se_assert(SPHMPMCQResetAsync(Q) == 0, "a queue is reset"); fresh(); return 1; }
static void advance(int k) { while (k--) { int t = tail; alloc(0); complete(t, 1, 2); take(0); release(t); } }
void case_mpmc_hist(void) {
  int want = 1 + (int)se_choose("slots", (int)se_param("slots", 3)); size = 1024; stride = (640 / want & ~15ul) - 16 * se_choose("less", 1 + (640 / want - 640 / (want + 1)) / 16); if (!stride || stride * (want + 1) <= 640) return; unsigned s = odd(); dirty(size);
  se_assert(probe(s, 1, want), "a queue is made"); advance(se_choose("start", 2) ? nslot - 1 : 0); state(); int n = (int)se_param("ops", 4), solo = (int)se_choose("solo", 2);
  for (int i = 0; i < n; i++) { switch (se_choose("op", 4)) { case 0: alloc(solo); break; case 1: { int k = (int)se_choose("entry", nslot); if (m[k].st == ALLOC) { int cat = se_u16("cat") & 0xfff, sub = se_u8("sub"); complete(k, cat, sub); } else return; break; } case 2: take(solo); break; default: { int k = (int)se_choose("entry", nslot); if (m[k].st == TAKEN) release(k); else return; } } state(); } }
static void fill(void) { state(); for (int i = 0; i < nslot; i++) { alloc(i & 1); state(); } alloc(0); se_assert(SPHSPMCQAllocStrideDirect(Q) == 0, "an entry is handed out that is not free"); for (int i = 0; i < nslot; i++) complete(i, 5, 6); for (int i = 0; i < nslot; i++) { take(i & 1); state(); } take(1); }
void case_mpmc_make(void) {
  size = 128ul << se_choose("size", 7); unsigned s = se_u16("stride"); stride = (s + 15ul) & ~15ul; unsigned long room = size < 384 ? 0 : size - 384; dirty(size); int which = (int)se_choose("kind", 6);
  if (which == 5) { SPHMPMCQ_t q = SPHMPMCQInit((void *)BUF, size); if (!q) { se_assert(size < 1024, "a queue is made"); return; } se_assert(SPHMPMCQGetStride(q) == 0 && SPHMPMCQGetEntries(q) == 0, "a queue without a stride has no entries"); se_assert(SPHMPMCQResetAsync(q) == 0, "a queue is reset"); initSOMSASBlock((SASBlockHeader *)BUF, SAS_RUNTIME_SIMPLESTACK, size, 0);
    se_assert(SPHMPMCQGetStride(q) == -1 && SPHMPMCQGetEntries(q) == -1 && SPHMPMCQResetAsync(q) && SPHMPMCQIsFull(q) && !SPHMPMCQFreeSpace(q) && !SPHMPMCQAllocStrideDirectSync(q) && !SPHSPMCQAllocStrideDirect(q) && !SPHMPMCQGetNextCompleteDirectSync(q) && !SPHMPSCQGetNextCompleteDirect(q) && !SPHMPMCQFreeEntryDirect(q, (void *)(BUF + 64)) && !SPHMPMCQGetEntryTemplate(q) && SPHMPMCQPrefetch(q) && SPHMPMCQDestroy(q), "a block that is no queue is refused"); return; }
  if (which == 4) se_assume(s && stride > room); else { nslot = which + 1; unsigned long hi = room / nslot & ~15ul, lo = room / (nslot + 1) & ~15ul; if (hi <= lo) return; switch (se_choose("stride", 3)) { case 0: stride = hi; break; case 1: stride = lo + 16; break; default: stride = ((hi + lo) / 2 & ~15ul) + 16; } if (stride > hi) return; s = odd(); }
  if (!probe(s, 0, nslot)) { se_assert(which == 4 || stride + 512 > room, "a queue is made"); se_reach("refused"); return; }
  advance((int)se_choose("start", nslot)); se_reach("made"); if (!tail) fill(); else { alloc(1); complete(tail, 1, 2); alloc(0); state(); } if (se_choose("some", 2) && m[0].st == TAKEN) release(0);
  se_assert(SPHMPMCQPrefetch(Q) == 0, "a queue can be prefetched"); se_assert(SPHMPMCQResetAsync(Q) == 0, "a queue is reset"); fresh(); se_reach("reset"); fill(); }
void case_mpmc_large(void) { static const unsigned top[] = { 4096, 32768, 65504, 65520 }; stride = top[se_choose("stride", 4)]; unsigned s = odd(); int n = 2 + (int)se_choose("slots", 2); size = 384 + stride * n; se_map(BUF, size); se_assert(probe(s, 0, n), "a queue is made"); advance((int)se_choose("start", nslot)); alloc(0); complete(tail, 7, 8); take(0); state(); se_reach("made"); }
void case_mpmc_create(void) {
  region_join(); unsigned long bs = 4096ul << se_choose("size", 2); unsigned s = se_u16("stride"); stride = (s + 15ul) & ~15ul; int big = (int)se_choose("big", 2); if (big) se_assume(stride > bs - 360); else { stride = (bs / 4 & ~15ul) + 16 * se_choose("more", 3); s = odd(); }
  SPHMPMCQ_t q = SPHMPMCQCreateWithStride(bs, (unsigned short)s); if (!q) { se_assert(big, "a queue is made"); void *p = SASBlockAlloc(bs); se_assert(p != 0, "a refused queue keeps no storage"); se_reach("refused"); return; } se_assert(!big, "a queue that can hold an entry");
  SPHLFEntryDirect_t d; unsigned long last = U(q) + 359; int n = 0; while (n < 9 && (d = SPHMPMCQAllocStrideDirectSync(q))) { se_assert(U(d) > last && U(d) + stride <= U(q) + bs, "entries lie in the queue"); last = U(d) + stride - 1; n++; SPHLFEntryDirectComplete(d, SPHMPMCQGetEntryTemplate(q), 1, 1); } se_assert(n == SPHMPMCQGetEntries(q) && n >= 2, "a queue hands out all its entries"); se_reach("made");
  se_assert(SPHMPMCQDestroy(q) == 0 && SPHMPMCQDestroy(q) != 0, "a queue is destroyed once"); SPHMPMCQ_t q2 = SPHMPMCQCreateWithStride(bs, 64); se_assert(q2 != 0, "a destroyed queue gives its storage back"); n = 0; while (n < 1000 && SPHMPMCQAllocStrideDirectSync(q2)) n++; se_assert(n == SPHMPMCQGetEntries(q2) && n >= (int)((bs - 512) / 64), "a queue on used storage serves all its entries"); se_assert(lk_total == 0, "no lock is left held"); }
/* threads: payload = producer * 16 + sequence number; a thread that finds nothing sleeps until an entry is completed or freed */
static volatile int ev;
static int np, nc, per, soloP, soloC, ctake[3]; static unsigned long val[64]; static int seen[64], owner[8]; 
static void producer(void *a) { int t = (int)(long)a;
  for (int i = 0; i < per; i++) { SPHLFEntryDirect_t d; for (;;) { int v = ev; if ((d = soloP ? SPHSPMCQAllocStrideDirect(Q) : SPHMPMCQAllocStrideDirectSync(Q))) break; se_wait_ne(&ev, v); }
    int k = (int)((U(d) - first) / stride); se_assert(U(d) >= first && k < nslot && slot(k) == U(d), "an entry lies in the queue"); se_atomic_begin(); se_assert(owner[k] == 0, "a slot is handed out twice"); owner[k] = 1; se_atomic_end();
    int id = t * 16 + i; unsigned char *p = (unsigned char *)SPHLFEntryDirectGetFreePtr(d); *(volatile unsigned *)p = (unsigned)id; *(volatile unsigned long *)(U(d) + 8) = val[id]; SPHLFEntryDirectComplete(d, tmpl, id + 1, t); se_atomic_begin(); ev++; se_atomic_end(); } }
static void consumer(void *a) { int t = (int)(long)a, last[4] = { -1, -1, -1, -1 };
  for (int i = 0; i < ctake[t]; i++) { SPHLFEntryDirect_t d; for (;;) { int v = ev; if ((d = soloC ? SPHMPSCQGetNextCompleteDirect(Q) : SPHMPMCQGetNextCompleteDirectSync(Q))) break; se_wait_ne(&ev, v); }
    int k = (int)((U(d) - first) / stride); se_assert(U(d) >= first && k < nslot && slot(k) == U(d), "an entry lies in the queue"); unsigned char *p = (unsigned char *)SPHLFEntryDirectGetFreePtr(d); int id = (int)*(volatile unsigned *)p;
    se_assert(id >= 0 && id < 64 && id / 16 < np && id % 16 < per, "an entry is delivered before its data"); se_assert(*(volatile unsigned long *)(U(d) + 8) == val[id] && SPHLFEntryDirectCategory(d) == id + 1 && SPHLFEntryDirectSubcat(d) == id / 16, "an entry is delivered with other data");
    se_atomic_begin(); se_assert(owner[k] == 1, "an entry is delivered that nobody produced"); se_assert(seen[id] == 0, "an entry is delivered twice"); seen[id] = 1; se_assert(last[id / 16] < id % 16, "a producer's entries are delivered out of order"); last[id / 16] = id % 16; owner[k] = 0; se_atomic_end(); se_assert(SPHMPMCQFreeEntryDirect(Q, d) == 1, "a delivered entry is freed"); se_atomic_begin(); ev++; se_atomic_end(); } }
static void threads(void) {
  stride = 32; unsigned s = odd(); int n = 1 + (int)se_choose("slots", 3); size = 384 + 32 * n; dirty(size); se_assert(probe(s, 0, n), "a queue is made"); for (int p = 0; p < np; p++) for (int i = 0; i < per; i++) val[p * 16 + i] = se_u64("data"); advance((int)se_choose("start", 2) % nslot);
  int all = np * per; if (nc == 2) { ctake[0] = all / 2; ctake[1] = all - ctake[0]; } else ctake[0] = all;
  se_shared((void *)BUF, 1024); for (int t = 0; t < np; t++) se_spawn(producer, (void *)(long)t); for (int t = 0; t < nc; t++) se_spawn(consumer, (void *)(long)t); se_join_all();
  for (int p = 0; p < np; p++) for (int i = 0; i < per; i++) se_assert(seen[p * 16 + i] == 1, "an entry is lost"); se_assert(SPHMPMCQFreeSpace(Q) == stride * nslot && SPHMPMCQIsEmpty(Q) && !SPHMPMCQIsFull(Q), "the queue is empty in the end"); se_assert(lk_total == 0, "no lock is left held"); se_reach("done"); }
void case_mpmc_22(void) { np = nc = 2; per = (int)se_param("n", 1); threads(); }
void case_mpmc_12(void) { np = 1; nc = 2; per = (int)se_param("n", 2); soloP = 1; threads(); }
void case_mpmc_21(void) { np = 2; nc = 1; per = (int)se_param("n", 2); soloC = 1; threads(); }
