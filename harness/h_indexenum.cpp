/* Enumeration of binary indexes (node capacity scaled from 63 to 3). */
//@ build exclude=saslock.cpp define=default_max=3
//@ case property=I04 name=case_enum_full reach=done,empty quick="--param=height=3" thorough="--param=height=3 --param=wide=1" qtime=200 ttime=3000 bounds="every tree of up to 3 levels of nodes of 3 keys around a chosen leaf, enumerated with either form or both in turn"
//@ case property=I04,H05 name=case_enum_modify reach=put,removed,replaced,emptied,more quick="--param=ops=1 --param=height=2" thorough="--param=ops=2 --param=height=3" qtime=300 ttime=3000 bounds="every tree of up to 2 (3) levels, enumerated to any point, then 1 (2) operations with any key, then enumerated to the end"
//@ case property=I04 name=case_enum_history reach=done qtime=300 ttime=3000 quick="--param=ops=3 --param=fill=3" thorough="--param=ops=4 --param=fill=9" bounds="an index of 0 to 3 (9) keys and 3 (4) operations with any keys, each followed by a step of the enumeration"
#include "index_model.h"
/* the position in the model of the smallest key above the last one returned */
static int expect(int any, unsigned long last) { for (int i = 0; i < mn; i++) if (!any || mk[i] > last) return i; return mn; }
static int any; static unsigned long last;
static int step(SASIndexEnum_t e, int lock, int claim) {
  int i = expect(any, last), more = SASIndexEnumHasMore(e); if (claim) se_assert((more != 0) == (i < mn), "[I04] an enumeration of an unmodified index has more exactly while keys are left"); if (claim && i == mn) return 0;
  void *r = lock ? SASIndexEnumNext(e) : SASIndexEnumNext_nolock(e); se_assert(lk_total == 0, "[H05,I04] a step of an enumeration leaves a lock held"); se_assert(U(r) == (i < mn ? mv[i] : 0), "[I04] an enumeration returns the value of the next larger key");
  if (i == mn) { se_assert(!SASIndexEnumHasMore(e), "[I04] an enumeration ends"); return 0; } any = 1; last = mk[i]; return 1; }
extern "C" void case_enum_full(void) {
  tree(65536, (int)se_choose("height", 1 + (int)se_param("height", 3))); int lock = (int)se_choose("lock", 3), n = 0, all = mn; SASIndexEnum_t e = SASIndexEnumCreate(t); se_assert(e != 0, "[I04] an enumeration is created"); if (!mn) se_reach("empty");
  while (step(e, lock == 2 ? n & 1 : lock, 1)) n++; se_assert(n == all, "[I04] an enumeration returns every key once"); for (int i = 0; i < 2; i++) se_assert(SASIndexEnumNext(e) == 0 && SASIndexEnumNext_nolock(e) == 0 && !SASIndexEnumHasMore(e), "[I04] an enumeration stays at its end"); SASIndexEnumDestroy(e); se_reach("done"); }
static void modify(int lock) { unsigned long k = se_u64("key"); switch (se_choose("op", 3)) { case 0: put(k, val_of(k), lock); se_reach("put"); break; case 1: if (remove_(k, lock)) { se_reach("removed"); if (!mn) se_reach("emptied"); } break; default: replace(k, se_u64("value"), lock); se_reach("replaced"); } }
extern "C" void case_enum_modify(void) {
  tree(65536, (int)se_choose("height", 1 + (int)se_param("height", 3))); int lock = (int)se_choose("lock", 2), at = (int)se_choose("steps", mn + 1); SASIndexEnum_t e = SASIndexEnumCreate(t); for (int i = 0; i < at; i++) step(e, lock, 1);
  for (int i = 0; i < (int)se_param("ops", 1); i++) modify(0); if (step(e, lock, 0)) { se_reach("more"); while (step(e, lock, 1)) ; } SASIndexEnumDestroy(e); }
extern "C" void case_enum_history(void) {
  tree(65536, 0); int fill = (int)se_choose("fill", 1 + (int)se_param("fill", 3)); for (int i = 0; i < fill; i++) put(0x100 * i, val_of(0x100 * i), 0); SASIndexEnum_t e = SASIndexEnumCreate(t);
  for (int i = 0; i < (int)se_param("ops", 3); i++) { modify(1); step(e, i & 1, 0); } if (step(e, 1, 0)) while (step(e, 1, 1)) ; SASIndexEnumDestroy(e); se_reach("done"); }
