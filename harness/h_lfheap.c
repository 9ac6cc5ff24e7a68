/* Lock-free heap: every unit taken, a symbolic subset of six given back, then calls against a model; and threads. */
//@ case property=H06 name=case_lfheap reach=got,none,freed,refused quick="--param=ops=2" thorough="--param=ops=3 --param=bits=6" qtime=120 ttime=2400 bounds="4 KB heaps of 16 and 32 byte units created by the real region code, any subset of 4 (6) units in two words free, 2 (3) calls of every allocation and free form, sizes of 1..3 units (exact or not) and refused sizes, alignments of 1, 2 and 4 units"
//@ case property=H06 name=case_lfheap_make reach=made,refused qtime=60 bounds="every power-of-two heap size of 4 KB to 1 MB with every power-of-two unit from 16 bytes; odd sizes"
//@ case property=H06 name=case_lfheap_pair reach=done,got quick="--preempt=2" thorough="--preempt=4 --param=bits=4" qtime=150 ttime=2400 bounds="two threads allocating (plain or aligned to two units) and keeping or releasing, any subset of 3 (4) units in two words free, up to 2 (4) preemptions"
//@ case property=H06 name=case_lfheap_three reach=done,got quick="--preempt=1" thorough="--preempt=2 --param=bits=4" qtime=150 ttime=2400 bounds="two allocating threads and one releasing older storage, up to 1 (2) preemptions"
#include "common.h"
#include "sphlockfreeheap.h"
#include "bitv.h"
#define HS 4096ul
static unsigned char *h; static unsigned long un, nu; static unsigned char owner[256]; static struct { unsigned char *p; unsigned long n; } blk[16]; static int nblk; static unsigned long pos[8];
static unsigned long free_units(void) { unsigned long f = 0; for (unsigned long i = 0; i < nu; i++) f += !owner[i]; return f; }
static void totals(void) { unsigned long f = free_units(); se_assert(SPHLockFreeHeapFreeSpace(h) == f * un, "[H06] the free space reported is not what is free"); se_assert((SPHLockFreeHeapFull(h) != 0) == (f == 0), "[H06] full is reported wrongly"); }
static void setup(int which, int bits) {
  region_join(); un = 16ul << which; nu = HS / un; h = (unsigned char *)SPHLockFreeHeapCreate(HS, un); se_assert(h != 0, "[H06] a heap is created");
  se_assert(SPHLockFreeHeapEmpty(h) && !SPHLockFreeHeapFull(h), "[H06] a fresh heap is empty"); unsigned long f = SPHLockFreeHeapFreeSpace(h) / un, last = U(h); se_assert(f < nu && f * un >= HS - 512, "[H06] a fresh heap has its storage free");
  for (unsigned long i = 0; i < nu; i++) owner[i] = 1;
  for (unsigned long i = 0; i < f; i++) { unsigned long p = U(SPHLockFreeHeapAlloc(h, un)); se_assert(p > U(h) + 128 && p < U(h) + HS && ((p - U(h)) & (un - 1)) == 0, "[H06] storage lies inside the heap"); se_assert(p > last, "[H06] storage is handed out twice"); last = p; }
  se_assert(SPHLockFreeHeapFull(h) && SPHLockFreeHeapAlloc(h, 1) == 0, "[H06] a full heap serves nothing");
  /* half of the units at the end of one word, half at the start of the next */
  for (int i = 0; i < bits; i++) pos[i] = (nu == 256 ? 128 : 64) - (bits + 1) / 2 + i;
  unsigned k = se_u8("free"); se_assume(k < (1u << bits));
  for (int i = 0; i < bits; i++) if (k >> i & 1) { se_assert(SPHLockFreeHeapFree(h, h + pos[i] * un) == 0, "[H06] releasing live storage succeeds"); owner[pos[i]] = 0; } }
static int room(unsigned long u, unsigned long al) { for (unsigned long p = 0; p + u <= nu; p += al) { if (p / 64 != (p + u - 1) / 64) continue; int ok = 1; for (unsigned long i = 0; i < u; i++) ok &= !owner[p + i]; if (ok) return 1; } return 0; }
static void got(unsigned char *p, unsigned long u, unsigned long al) {
  if (!p) { se_reach("none"); se_assert(u >= 32 || !room(u, al), "[H06] storage is refused although a large enough range is free"); return; }
  se_reach("got"); unsigned long o = (U(p) - U(h)) / un; se_assert(U(p) >= U(h) && o + u <= nu && (U(p) - U(h)) % un == 0, "[H06] storage lies inside the heap"); se_assert(o % al == 0, "[H06] storage is aligned as asked"); for (unsigned long i = 0; i < u; i++) { se_assert(!owner[o + i], "[H06] storage is handed out twice"); owner[o + i] = 1; } blk[nblk].p = p; blk[nblk++].n = u; }
void case_lfheap(void) {
  setup((int)se_choose("unit", 2), (int)se_param("bits", 4)); int n = (int)se_param("ops", 2); SPHLockFreeHeap_t other = SPHLockFreeHeapCreate(HS, 32); unsigned long ofree = SPHLockFreeHeapFreeSpace(other);
  for (int i = 0; i < n; i++) { switch (se_choose("op", 3)) {
    case 0: { unsigned long u = 1 + se_choose("units", 3), s = se_choose("odd", 2) ? (u - 1) * un + 1 : u * un, al = 1;
      switch (se_choose("form", 3)) { case 0: got(SPHLockFreeHeapAlloc(h, s), u, 1); break; case 1: got(SPHLockFreeHeapNearAlloc(h + 300, (long)s), u, 1); break; default: al = 1ul << se_choose("align", 3); got(SPHLockFreeHeapAlignAlloc(h, s, al * un), u, al); } break; }
    case 1: { unsigned long s = se_u64("huge"); se_assume(s == 0 || s > 64 * un); void *p = se_choose("aligned", 2) ? SPHLockFreeHeapAlignAlloc(h, s, un) : SPHLockFreeHeapAlloc(h, s); se_assert(p == 0, "[H06] a request that no range can hold is refused"); se_reach("refused"); break; }
    default: if (nblk) { int k = (int)se_choose("which", nblk); unsigned char *p = blk[k].p; unsigned long u = blk[k].n, o = (U(p) - U(h)) / un; int rc;
        switch (se_choose("free", 6)) { case 0: rc = SPHLockFreeHeapFree(h, p); break; case 1: rc = SPHLockFreeHeapFreeNear(p); break; case 2: rc = SPHLockFreeHeapFreeIn(h, p); break; case 3: rc = SPHLockFreeHeapFreeChk(h, p, u * un); break; case 4: rc = SPHLockFreeHeapFreeNearChk(p, (u - 1) * un + 1); break;
          default: se_assert(SPHLockFreeHeapFreeChk(h, p, u * un + 1 + se_range("more", 0, 4096)) != 0, "[H06] a free of more than was allocated is refused"); se_assert(SPHLockFreeHeapFree(other, p) != 0, "[H06] a free to another heap is refused"); rc = SPHLockFreeHeapFree(h, p); }
        se_assert(rc == 0, "[H06] releasing live storage succeeds"); for (unsigned long i = 0; i < u; i++) owner[o + i] = 0; blk[k] = blk[--nblk]; se_reach("freed"); } }
    totals(); }
  se_assert(SPHLockFreeHeapNearFind(h + se_range("addr", 0, HS - 1)) == (SPHLockFreeHeap_t)h, "[H06] an address in the heap leads to it"); se_assert(SPHLockFreeHeapFreeSpace(other) == ofree, "[H06] another heap is left alone");
  se_assert(SPHLockFreeHeapDestroy(other) == 0 && SPHLockFreeHeapDestroy(h) == 0, "[H06] a heap is destroyed"); se_assert(SPHLockFreeHeapDestroy(h) != 0, "[H06] a heap is destroyed once"); }
void case_lfheap_make(void) {
  region_join(); unsigned long hs = 4096ul << se_choose("size", 9), u = 16ul << se_choose("unit", 16); if (u >= hs) return; unsigned long odd = se_choose("odd", 3); SPHLockFreeHeap_t p = SPHLockFreeHeapCreate(odd == 1 ? hs + 48 : hs, odd == 2 ? u + 8 : u);
  if (odd) { se_assert(p == 0, "[H06] sizes that are no powers of two are refused"); se_reach("refused"); return; }
  if (!p) { se_assert(hs / 64 <= u || hs / 64 / u * 16 > 63 * u, "[H06] a heap whose vectors fit its first units is made"); se_reach("refused"); return; } 
  se_reach("made"); unsigned long f = SPHLockFreeHeapFreeSpace(p), hdr = hs - f; se_assert(hdr % u == 0 && hdr >= 128 && (hdr <= 4096 || hdr == u || hdr <= 64 * u), "[H06] all but the header is free"); unsigned long a = U(SPHLockFreeHeapAlloc(p, 1)); se_assert(a == U(p) + hdr, "[H06] storage begins behind the header"); se_assert(SPHLockFreeHeapFreeSpace(p) == f - u, "[H06] an allocation takes one unit"); se_assert(!SPHLockFreeHeapEmpty(p), "[H06] a used heap is not empty"); se_assert(SPHLockFreeHeapFree(p, (void *)a) == 0 && SPHLockFreeHeapFreeSpace(p) == f && SPHLockFreeHeapEmpty(p), "[H06] released storage is free again"); }
/* threads */
static int kind[3], keep[3]; static unsigned long units[3], mine[3], minen[3];
static void user(void *a) { int t = (int)(long)a; unsigned long u = units[t];
  if (kind[t] == 9) { se_assert(SPHLockFreeHeapFreeNear(h + 10 * un) == 0, "[H06] releasing live storage succeeds"); owner[10] = 0; return; }
  unsigned long p = U(kind[t] ? SPHLockFreeHeapAlignAlloc(h, u * un, 2 * un) : SPHLockFreeHeapAlloc(h, u * un)); if (!p) return; se_reach("got");
  unsigned long o = (p - U(h)) / un; se_assert(p >= U(h) && o + u <= nu && (p - U(h)) % un == 0 && (!kind[t] || o % 2 == 0), "[H06] storage lies inside the heap, aligned");
  for (int i = 0; i < 3; i++) if (i != t && minen[i]) se_assert(o + u <= mine[i] || mine[i] + minen[i] <= o, "[H06] storage is handed out twice");
  for (unsigned long i = 0; i < u; i++) se_assert(owner[o + i] == 0 || o + i == 10, "[H06] live storage is handed out");
  se_atomic_begin(); mine[t] = o; minen[t] = u; se_atomic_end();
  if (!keep[t]) { se_atomic_begin(); minen[t] = 0; se_atomic_end(); se_assert(SPHLockFreeHeapFree(h, (void *)p) == 0, "[H06] releasing live storage succeeds"); } }
static void threads(int n) {
  for (int t = 0; t < n; t++) { if (kind[t] != 9) kind[t] = (int)se_choose("kind", 2); units[t] = kind[t] == 9 ? 0 : n == 3 && t == 1 ? 1 : 1 + se_choose("units", 2); keep[t] = n == 3 && t == 1 ? 1 : kind[t] == 9 ? 0 : (int)se_choose("keep", 2); }
  se_shared(h, 512); for (int t = 0; t < n; t++) se_spawn(user, (void *)(long)t); se_join_all();
  for (int t = 0; t < 3; t++) for (unsigned long i = 0; i < minen[t]; i++) { se_assert(!owner[mine[t] + i], "[H06] storage is handed out twice"); owner[mine[t] + i] = 1; }
  totals(); for (int t = 0; t < 3; t++) if (minen[t]) se_assert(SPHLockFreeHeapFreeChk(h, h + mine[t] * un, minen[t] * un) == 0, "[H06] releasing live storage succeeds"); se_reach("done"); }
void case_lfheap_pair(void) { setup(1, (int)se_param("bits", 3)); threads(2); }
void case_lfheap_three(void) { setup(1, (int)se_param("bits", 3)); kind[2] = 9; threads(3); }
