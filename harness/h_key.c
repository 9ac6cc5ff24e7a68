// Binary index keys (src/sasindexkey.h).
//@ case property=I01 name=case_key_types reach=less,greater,equal qtime=60 bounds="every pair of values of each key type (reference, signed and unsigned 64 bit, double without NaN), every sign of zero and infinity"
//@ case property=I01 name=case_key_order reach=mixed,same,partial quick="--param=max=24" thorough="--param=max=40" qtime=200 ttime=2400 bounds="every triple of keys of 8 to 24 (40) bytes, all contents"
//@ case property=I01 name=case_key_long reach=same,mixed qtime=120 bounds="pairs of keys of every length from 8 to 120 bytes, all contents; copies"
#include <string.h>
#include "common.h"
#include "sasindexkey.h"
static int sgn(int c) { return (c > 0) - (c < 0); }
void case_key_types(void) {
  SASIndexKey_t a, b, c; int t = (int)se_choose("type", 4), want; unsigned long u = se_u64("u"), v = se_u64("v");
  memset(&a, 0x5a, sizeof a); memset(&b, 0x33, sizeof b); memset(&c, 0x77, sizeof c);
  switch (t) {
    case 0: SASIndexKeyInitRef(&a, (void *)u); SASIndexKeyInitRef(&b, (void *)v); want = (u > v) - (u < v); break;
    case 1: SASIndexKeyInitUInt64(&a, u); SASIndexKeyInitUInt64(&b, v); want = (u > v) - (u < v); se_assert(SASIndexKeyReturn1stUInt64(&a) == u, "a key reads back differently"); break;
    case 2: SASIndexKeyInitInt64(&a, (long long)u); SASIndexKeyInitInt64(&b, (long long)v); want = ((long)u > (long)v) - ((long)u < (long)v); se_assert(SASIndexKeyReturn1stInt64(&a) == (long long)u, "a key reads back differently"); break;
    default: { double x, y, r; memcpy(&x, &u, 8); memcpy(&y, &v, 8); se_assume((u & ~(1ul << 63)) <= 0x7ff0000000000000ul && (v & ~(1ul << 63)) <= 0x7ff0000000000000ul); SASIndexKeyInitDouble(&a, x); SASIndexKeyInitDouble(&b, y);
      /* the order of doubles on their bits: sign and magnitude */
      long i = u >> 63 ? -(long)(u & ~(1ul << 63)) : (long)u, j = v >> 63 ? -(long)(v & ~(1ul << 63)) : (long)v; want = (i > j) - (i < j); r = SASIndexKeyReturn1stDouble(&a); unsigned long w; memcpy(&w, &r, 8); long k = w >> 63 ? -(long)(w & ~(1ul << 63)) : (long)w; se_assert(k == i, "a key reads back differently"); if (i) se_assert(w == u, "a key reads back differently"); } }
  int r = SASIndexKeyCompare(&a, &b), q = SASIndexKeyCompare(&b, &a); se_assert(sgn(r) == want && sgn(q) == -want, "keys do not compare in the order of their values"); if (want < 0) se_reach("less"); else if (want) se_reach("greater"); else se_reach("equal");
  SASIndexKeyCopy(&c, &a); se_assert(SASIndexKeyCompare(&a, &c) == 0 && SASIndexKeyCompare(&c, &a) == 0 && sgn(SASIndexKeyCompare(&c, &b)) == want && SASIndexKeySize(&c) == SASIndexKeySize(&a), "a copied key compares differently"); se_assert(SASIndexKeySize(&a) <= sizeof a, "a key is larger than its storage"); }
static void key(SASIndexKey_t *k, const char *n, unsigned len) { memset(k, 0, sizeof *k); k->compare_size = len; k->copy_size = ((len + 7u) & ~7u) + 8u; for (unsigned i = 0; i * 8 < len; i++) k->data[i] = se_u64(n); }
static int same(const SASIndexKey_t *a, const SASIndexKey_t *b) { if (a->compare_size != b->compare_size) return 0; int r = 1; for (unsigned i = 0; i < a->compare_size; i++) r &= ((unsigned char *)a->data)[i] == ((unsigned char *)b->data)[i]; return r; }
void case_key_order(void) {
  SASIndexKey_t k[3]; unsigned len[3], max = (unsigned)se_param("max", 24); for (int i = 0; i < 3; i++) { len[i] = 8 + (unsigned)se_choose("words", (int)(max / 8)) * 8; if (len[i] > 8 && se_choose("part", 2)) { se_reach("partial"); len[i] -= 4 + (unsigned)se_choose("bytes", 2); } key(&k[i], "k", len[i]); } se_reach(len[0] == len[1] && len[1] == len[2] ? "same" : "mixed");
  int ab = sgn(SASIndexKeyCompare(&k[0], &k[1])), ba = sgn(SASIndexKeyCompare(&k[1], &k[0])), bc = sgn(SASIndexKeyCompare(&k[1], &k[2])), ac = sgn(SASIndexKeyCompare(&k[0], &k[2]));
  se_assert(ab == -ba, "the order of two keys depends on their position"); if (ab <= 0 && bc <= 0) se_assert(ac <= 0, "the order of keys is not transitive"); if (ab < 0 && bc < 0) se_assert(ac < 0, "the order of keys is not transitive"); if (ab == 0) se_assert(ac == bc, "equal keys compare differently");
  se_assert((ab == 0) == same(&k[0], &k[1]), "keys are equal exactly when their contents are"); }
void case_key_long(void) {
  SASIndexKey_t a, b, c; unsigned n = 1 + (unsigned)se_choose("words", 15), m = se_choose("mixed", 2) ? 1 + (unsigned)se_choose("other", 15) : n; key(&a, "a", n * 8); key(&b, "b", m * 8); int want = 0; for (unsigned i = 0; i < n && i < m && !want; i++) want = (a.data[i] > b.data[i]) - (a.data[i] < b.data[i]); if (!want) want = (n > m) - (n < m); se_reach(n == m ? "same" : "mixed");
  a.copy_size = n * 8 + 8; memset(&c, 0x77, sizeof c); se_assert(sgn(SASIndexKeyCompare(&a, &b)) == want, "keys do not compare word by word"); SASIndexKeyCopy(&c, &a); se_assert(sgn(SASIndexKeyCompare(&c, &b)) == want && SASIndexKeyCompare(&c, &a) == 0, "a copied key compares differently"); }
