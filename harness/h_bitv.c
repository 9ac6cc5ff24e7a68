/* One 64-bit allocation word: every state of the word, each request against the set of free ranges. */
//@ case property=B01 name=case_bitv_alloc reach=got,full quick="--steps=300000" thorough="--steps=300000 --param=all=1" qtime=200 ttime=3000 bounds="every 64-bit state of the word; request sizes 1,2,3,7,33,63,64,65 units (thorough: 1..66); plain and marked; units of 128 and 2^27 bytes (thorough: and 1)"
//@ case property=B01 name=case_bitv_aligned reach=got,full quick="--steps=300000" thorough="--steps=300000 --param=all=1" qtime=200 ttime=3000 bounds="as case_bitv_alloc with alignments of 1..64 units (powers of two) and half/quarter units"
//@ case property=B01 name=case_bitv_free reach=ok,refused qtime=100 bounds="every state of the word, every 64-bit offset and size >= 1, units of 1, 128, 4096 and 2^27 bytes"
//@ case property=B01 name=case_bitv_marked reach=ok qtime=150 bounds="every consistent pair of words within the window; two marked allocations of 1, 3 or 9 units within 12 free-or-taken units at the top, middle or bottom, free by offset; sizes reported"
//@ case property=B01 name=case_bitv_huge reach=refused quick="--steps=300000" qtime=60 bounds="every 64-bit size of more than 64 units incl. sizes that wrap when rounded"
//@ case property=B01 name=case_bitv_bad_align reach=refused quick="--steps=300000" qtime=60 bounds="every 64-bit alignment"
#include "common.h"
#include "bitv_priv.h"
static bitv_cb_t cb;
static unsigned long msk(unsigned long p, unsigned long u) { return ((unsigned long)((long)0x8000000000000000ul >> (u - 1))) >> p; }
static void check(long r, unsigned long w0, unsigned long w1, unsigned long e0, unsigned long e1, int marked, unsigned long u, unsigned long al, unsigned long unit) {
  if (r == -1) { se_reach("full"); se_assert(w0 == w1 && e0 == e1, "[B01] a failed allocation changes nothing"); int fit = 0; if (u <= 64) for (unsigned long p = 0; p + u <= 64; p += al) fit |= (w0 & msk(p, u)) == msk(p, u); se_assert(!fit, "[B01] an allocation fails although a large enough aligned free range exists"); return; }
  se_reach("got"); unsigned long p = (unsigned long)r / unit; se_assert((unsigned long)r % unit == 0 && (unsigned long)r < 64 * unit, "[B01] the offset is a whole number of units inside the vector"); se_assert(u <= 64 && p + u <= 64, "[B01] the range lies inside the vector"); if (u > 64) return;
  se_assert((p & (al - 1)) == 0, "[B01] the range is aligned as asked"); se_assert((w0 & msk(p, u)) == msk(p, u), "[B01] the range granted was free"); se_assert(w1 == (w0 & ~msk(p, u)), "[B01] exactly the granted bits are taken");
  se_assert(e1 == (marked ? e0 | (0x8000000000000000ul >> (p + u - 1)) : e0), "[B01] exactly the end of the range is marked"); }
static unsigned long units(void) { static const unsigned char us[] = {1, 2, 3, 7, 33, 63, 64, 65}; return se_param("all", 0) ? 1 + se_choose("units", 66) : us[se_choose("units", 8)]; }
static unsigned long unit(void) { static const unsigned char sh[] = {27, 7, 0}; unsigned long n = 1ul << sh[se_choose("unit", se_param("all", 0) ? 3 : 2)]; bitv_init(&cb, n); return n; }
void case_bitv_alloc(void) {
  unsigned long un = unit(), u = units(), w = se_u64("word"), e = se_u64("ends"), w1 = w, e1 = e; int marked = (int)se_choose("marked", 2); se_assume((w & e) == 0);
  unsigned long size = (u - 1) * un + 1 + (un - 1) * se_choose("exact", 2);
  long r = marked ? bitv_alloc_marked(&cb, &w1, &e1, size) : bitv_alloc(&cb, &w1, size); check(r, w, w1, e, e1, marked, u, 1, un); }
void case_bitv_aligned(void) {
  unsigned long un = unit(), u = units(), w = se_u64("word"), e = se_u64("ends"), w1 = w, e1 = e; int marked = (int)se_choose("marked", 2); long a = (long)se_choose("align", 9) - 2; se_assume((w & e) == 0);
  if (a < 0 && (un >> -a) == 0) return; unsigned long align = a < 0 ? un >> -a : un << a, al = a < 0 ? 1 : 1ul << a;
  long r = marked ? bitv_aligned_alloc_marked(&cb, &w1, &e1, u * un, align) : bitv_aligned_alloc(&cb, &w1, u * un, align); check(r, w, w1, e, e1, marked, u, al, un); }
void case_bitv_free(void) {
  static const unsigned char sh[] = {7, 0, 12, 27}; unsigned s = sh[se_choose("unit", 4)]; bitv_init(&cb, 1ul << s);
  unsigned long w = se_u64("word"), w1 = w, at = se_u64("at"), n = se_u64("size"); se_assume(n >= 1); int rc = bitv_dealloc(&cb, &w1, at, n);
  unsigned long off = (at >> s) & 63, m = (1ul << s) - 1, u = (n >> s) + ((n & m) != 0);
  if (u > 64 - off) { se_reach("refused"); se_assert(rc != 0 && w1 == w, "[B01] a free that does not fit the vector is refused and changes nothing"); }
  else { se_reach("ok"); unsigned long k = msk(off, u); se_assert(w1 == (w | k), "[B01] a free returns exactly the named bits"); se_assert((rc == 0) == ((w & k) == 0), "[B01] a free of bits that were not allocated is reported"); }
  se_assert(bitv_free_space(&cb, &w1) == (unsigned long)__builtin_popcountl(w1) << s, "[B01] free space counts the free bits"); }
void case_bitv_marked(void) {
  bitv_init(&cb, 128); static const unsigned char us[] = {1, 3, 9}; unsigned long u = us[se_choose("units", 3)], v = us[se_choose("units2", 2)], w = se_u64("word"), e = se_u64("ends"), w1 = w, e1 = e; se_assume((w & e) == 0); unsigned long win = 0xfffull << (26 * se_choose("window", 3)); se_assume((w & ~win) == 0); se_assume((e & ~win) == 0);
  long a = bitv_alloc_marked(&cb, &w1, &e1, u * 128); if (a < 0) return; unsigned long w2 = w1, e2 = e1;
  long b = bitv_alloc_marked(&cb, &w2, &e2, v * 128); if (b < 0) return; se_reach("ok");
  se_assert(bitv_allocated_size(&cb, &w2, &e2, a) == u * 128 && bitv_allocated_size(&cb, &w2, &e2, b) == v * 128, "[B01] the size of an allocation reads back");
  se_assert(bitv_free_marked(&cb, &w2, &e2, a) == 0, "[B01] freeing a live allocation succeeds"); se_assert(w2 == ((w1 & ~msk(b / 128, v)) | msk(a / 128, u)), "[B01] a free returns exactly the named bits"); se_assert((w2 & e2) == 0, "[B01] the end mark is taken back with the bits");
  unsigned long w3 = w2, e3 = e2; se_assert(bitv_free_marked(&cb, &w2, &e2, a) != 0 && w2 == w3 && e2 == e3, "[B01] freeing a range twice is refused");
  se_assert(bitv_free_marked(&cb, &w2, &e2, b) == 0 && w2 == w && e2 == e, "[B01] freeing everything restores the word"); }
void case_bitv_huge(void) {
  unsigned long un = unit(), n = se_u64("size"), w = se_u64("word"), e = 0, w1 = w; se_assume(n > 64 * un); long r = 0;
  switch (se_choose("op", 4)) { case 0: r = bitv_alloc(&cb, &w1, n); break; case 1: r = bitv_alloc_marked(&cb, &w1, &e, n); break; case 2: r = bitv_aligned_alloc(&cb, &w1, n, un); break; default: r = bitv_aligned_alloc_marked(&cb, &w1, &e, n, un); }
  se_reach("refused"); se_assert(r == -1 && w1 == w && e == 0, "[B01] a request larger than the vector is refused and changes nothing"); }
void case_bitv_bad_align(void) {
  unsigned long un = unit(), a = se_u64("align"), w = se_u64("word"), e = 0, w1 = w; se_assume((a & (a - 1)) != 0 || a == 0 || a > 64 * un);
  long r = se_choose("op", 2) ? bitv_aligned_alloc(&cb, &w1, un, a) : bitv_aligned_alloc_marked(&cb, &w1, &e, un, a);
  if (r == -1) { se_reach("refused"); se_assert(w1 == w && e == 0, "[B01] a failed allocation changes nothing"); }
  else { se_assert(a != 0 && (a & (a - 1)) == 0, "[B01] an alignment that is no power of two is refused"); se_assert(r == 0, "[B01] the range is aligned as asked"); } }
