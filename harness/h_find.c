/* From an address to the header of the block around it. */
//@ case property=R04 name=case_find reach=inside qtime=200 bounds="a block of each power-of-two size from 4 KB to 256 MB, every address in it"
//@ case property=R04 name=case_find_nested reach=inner,outer,innermost qtime=200 bounds="blocks of 512 bytes to 64 KB at four positions inside a 1 MB block, a third block at the end of the inner one, every address"
//@ case property=R04 name=case_find_none reach=none qtime=100 bounds="every 64-bit address outside the region and the lock area"
//@ case property=R04 name=case_find_near reach=got,full qtime=200 bounds="near allocation of seven sizes, from one byte to 1 TB, from every address of a block with 64 KB of free storage beside another block, and its release"
//@ case property=R01 name=case_som reach=done qtime=100 bounds="sizes around the block sizes up to 1 MB"
#include "region_model.h"
#include "sasalloc.h"
#include "freenode.h"
static SASBlockHeader *mk(unsigned long a, unsigned long n) { SASBlockHeader *b = (SASBlockHeader *)a; initSOMSASBlock(b, SAS_RUNTIME_SIMPLEHEAP, n, (char *)b + 128); return b; }
static unsigned long total(SASBlockHeader *b) { return b->blockFreeSpace ? freeNode_freeSpaceTotal(b->blockFreeSpace) : 0; }
static unsigned long block(unsigned long n) { void *b = SASBlockAlloc(n); se_assert(b != 0, "[R04] there is room"); return U(b); }
void case_find(void) {
  region_join(); unsigned long n = 4096ul << se_choose("log2", 17), a = block(n); SASBlockHeader *b = mk(a, n); unsigned long o = se_u64("offset"); se_assume(o < n);
  se_assert(SASFindHeader((void *)(a + o)) == b, "[R04] an address inside a block leads to the block's header"); se_reach("inside"); }
void case_find_nested(void) {
  /* the space of a block is divided among blocks of its own: the address of any of them leads to that one, and below the first of them to the outer block */
  region_join(); unsigned long n = 1ul << 20, a = block(n); SASBlockHeader *b = mk(a, n), *c, *d, *x; unsigned long m = 512ul << se_choose("log2", 8), k = 1ul << se_choose("position", 3), co;
  if (k == 4) k = n / m - 1;
  co = k * m; if (co + m > n) return; c = mk(a + co, m); unsigned long l = m >> se_choose("third", 3); if (l < 512) return;
  d = l < m ? mk(a + co + m - l, l) : 0; unsigned long o = se_u64("offset"); se_assume(o < (k == 2 ? co + m : n)); /* space behind a block that is aligned beyond its size counts as its own: it has a sibling there */
  x = SASFindHeader((void *)(a + o));
  if (d && o >= co + m - l && o < co + m) { se_reach("innermost"); se_assert(x == d, "[R04] an address leads to the innermost block around it"); }
  else if (o >= co && o < co + m) { se_reach("inner"); se_assert(x == c, "[R04] an address leads to the innermost block around it"); }
  else { se_reach("outer"); se_assert(x == b, "[R04] an address outside the nested blocks leads to the block around it"); } }
void case_find_none(void) {
  region_join(); unsigned long a = se_u64("address");
  se_assume(a < BASE || a >= BASE + REGSZ); se_assume(a < U(__SAS_TEMP_ADDRESS) || a >= U(__SAS_TEMP_FREE));
  se_assert(SASFindHeader((void *)a) == 0, "[R04] an address outside every block leads to no header"); se_reach("none"); }
void case_find_near(void) {
  static const unsigned long sz[] = {1, 16, 100, 4096, 65536 - 128, 65536 - 127, 1ul << 40};
  region_join(); unsigned long n = 65536, a = block(n); SASBlockHeader *b = mk(a, n), *c = mk(block(n), n); unsigned long before = total(b), other = total(c);
  unsigned long o = se_u64("offset"), s = sz[se_choose("size", 7)]; se_assume(o < n); unsigned long r = U(SASNearAlloc((void *)(a + o), s));
  if (r) { se_reach("got"); se_assert(r >= a + 128 && r < a + n && s <= a + n - r, "[R04] near storage comes from the block that holds the address"); se_assert(total(b) < before, "[R04] near storage is taken from the block"); SASNearDealloc((void *)r, s); }
  else { se_reach("full"); se_assert(s > n - 128, "[R04] near storage is found where there is some"); }
  se_assert(total(b) == before, "[R04] released near storage returns to its block"); se_assert(total(c) == other, "[R04] another block is left alone"); }
void case_som(void) {
  static const unsigned long lim[] = {1, 4096, 4097, 16384, 16385, 65536, 65537, 262144, 262145, 1ul << 20}; unsigned long z = lim[se_choose("size", 10)];
  region_join(); unsigned char *p = SASSOMAlloc(z, 0); se_assert(p != 0, "[R01] there is room"); unsigned long n = 4096; while (n < z) n *= 4; took(p, n); se_assert(p[n - 1] == 0 && p[0] == 0, "[R01] a fresh block is zero"); p[n - 1] = 1; check_region(0); SASSOMDestroy(p, z); nlive = 0; check_region(0); p = SASSOMAlloc(z, 0); se_assert(p && p[n - 1] == 0, "[R01] a recycled block is zero"); se_reach("done"); }
