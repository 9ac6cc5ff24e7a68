/* Enumeration of string trees (node capacity scaled from 63 to 3). */
//@ build exclude=saslock.cpp define=default_max=3
//@ case property=S02 name=case_senum_full reach=done,empty quick="--param=height=3" thorough="--param=height=3 --param=wide=1" qtime=200 ttime=3000 bounds="every tree of up to 3 levels of nodes of 3 names around a chosen leaf, enumerated with either form or both in turn"
//@ case property=S02 name=case_senum_start reach=started,refused quick="--param=height=3" thorough="--param=height=3 --param=wide=1" qtime=300 ttime=3000 bounds="every tree of up to 3 levels around a chosen leaf, enumerated from any name in the range of that leaf"
//@ case property=S02 name=case_senum_modify reach=put,removed,replaced,emptied,more quick="--param=ops=1 --param=height=2" thorough="--param=ops=2 --param=height=3" qtime=300 ttime=3000 bounds="every tree of up to 2 (3) levels, enumerated to any point, then 1 (2) operations with any name, then enumerated to the end"
//@ case property=S02 name=case_senum_history reach=done qtime=300 ttime=3000 quick="--param=ops=2 --param=fill=3" thorough="--param=ops=3 --param=fill=6" bounds="a string tree of 0 to 3 (6) names and 2 (3) operations with any names, each followed by a step of the enumeration"
#include "string_model.h"
/* the position in the model of the smallest key above the last one returned */
static int any, started; static unsigned long last, from;
static int expect(void) { for (int i = 0; i < mn; i++) if (any ? mk[i] > last : !started || mk[i] >= from) return i; return mn; }
static unsigned long current(SASStringBTreeEnum_t e) { const unsigned char *s = (const unsigned char *)SASStringBTreeEnumCurrent(e); for (int i = 0; i < plen; i++) if (s[i] != 'm') return ~0ul; s += plen; unsigned long v = 0; for (int i = 0; i < 3; i++) { v = v << 8 | *s; if (*s) s++; } return *s ? ~0ul : v; }
static int step(SASStringBTreeEnum_t e, int lock, int claim) {
  int i = expect(), more = SASStringBTreeEnumHasMore(e); if (claim) se_assert((more != 0) == (i < mn), "[S02] an enumeration of an unmodified tree has more exactly while names are left"); if (claim && i == mn) return 0;
  void *r = lock ? SASStringBTreeEnumNext(e) : SASStringBTreeEnumNext_nolock(e); se_assert(lk_total == 0, "[H05,S02] a step of an enumeration leaves a lock held"); se_assert(U(r) == (i < mn ? mv[i] : 0), "[S02] an enumeration returns the value of the next larger name");
  if (i == mn) { se_assert(!SASStringBTreeEnumHasMore(e), "[S02] an enumeration ends"); return 0; } any = 1; last = mk[i]; se_assert(current(e) == last, "[S02] the current name matches the value returned"); return 1; }
extern "C" void case_senum_full(void) {
  tree(65536, (int)se_choose("height", 1 + (int)se_param("height", 3))); int lock = (int)se_choose("lock", 3), n = 0, all = mn; SASStringBTreeEnum_t e = SASStringBTreeEnumCreate(t); se_assert(e != 0, "[S02] an enumeration is created"); if (!mn) se_reach("empty");
  se_assert(SASStringBTreeEnumCount(e) == all, "[S02] a new enumeration counts every name"); while (step(e, lock == 2 ? n & 1 : lock, 1)) { n++; se_assert(SASStringBTreeEnumCount(e) == all - n, "[S02] an enumeration of an unmodified tree counts the names that are left"); } se_assert(n == all, "[S02] an enumeration returns every name once"); for (int i = 0; i < 2; i++) se_assert(SASStringBTreeEnumNext(e) == 0 && SASStringBTreeEnumNext_nolock(e) == 0 && !SASStringBTreeEnumHasMore(e), "[S02] an enumeration stays at its end"); SASStringBTreeEnumDestroy(e); se_reach("done"); }
/* an enumeration that starts at any name: refused exactly when there is no name at or after it */
static SASStringBTreeEnum_t start(unsigned long k) { name_t s; mkkey(&s, k); started = 1; from = k; SASStringBTreeEnum_t e = SASStringBTreeEnumCreateStartAt(t, s.s); mkkey(&s, 0); se_assert(lk_total == 0, "[H05,S02] creating an enumeration leaves a lock held"); se_assert((e != 0) == (mn && k <= mk[mn - 1]), "[S02] an enumeration starts exactly when there is a name at or after the given one"); return e; }
extern "C" void case_senum_start(void) {
  tree(65536, (int)se_choose("height", 1 + (int)se_param("height", 3))); int lock = (int)se_choose("lock", 2); SASStringBTreeEnum_t e = start(key_in("from")); if (!e) { se_reach("refused"); return; } se_reach("started"); while (step(e, lock, 1)) ; SASStringBTreeEnumDestroy(e); }
static void modify(int lock) { unsigned long k = any_key("key"); switch (se_choose("op", 3)) { case 0: put(k, val_of(k), lock); se_reach("put"); break; case 1: if (remove_(k, lock)) { se_reach("removed"); if (!mn) se_reach("emptied"); } break; default: replace(k, se_u64("value"), lock); se_reach("replaced"); } }
extern "C" void case_senum_modify(void) {
  tree(65536, (int)se_choose("height", 1 + (int)se_param("height", 3))); int lock = (int)se_choose("lock", 2), at = (int)se_choose("steps", mn + 1); SASStringBTreeEnum_t e = SASStringBTreeEnumCreate(t); for (int i = 0; i < at; i++) step(e, lock, 1);
  for (int i = 0; i < (int)se_param("ops", 1); i++) modify(0); if (step(e, lock, 0)) { se_reach("more"); while (step(e, lock, 1)) ; } SASStringBTreeEnumDestroy(e); }
extern "C" void case_senum_history(void) {
  tree(65536, 0); int fill = (int)se_choose("fill", 1 + (int)se_param("fill", 3)); for (int i = 0; i < fill; i++) put(nth(i), val_of(nth(i)), 0); SASStringBTreeEnum_t e = SASStringBTreeEnumCreate(t);
  for (int i = 0; i < (int)se_param("ops", 3); i++) { modify(1); step(e, i & 1, 0); } if (step(e, 1, 0)) while (step(e, 1, 1)) ; SASStringBTreeEnumDestroy(e); se_reach("done"); }
