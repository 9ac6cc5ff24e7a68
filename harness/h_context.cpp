/* Contexts: histories of add, rename and remove with any names and addresses, and project contexts. */
//@ build exclude=saslock.cpp define=default_max=3
//@ case property=C01 name=case_context_history reach=added,refused,renamed,removed,byaddr,stored,done quick="--param=ops=1 --param=fill=5" thorough="--param=ops=2 --param=fill=5" qtime=300 ttime=3000 bounds="a context of 0 to 5 associations, then 1 (2) operations with any names (up to 2 bytes behind an empty or a 14 byte prefix) and any addresses, or the stored name itself, both forms"
//@ case property=C01 name=case_context_pairs reach=added,refused,renamed,removed,byaddr,stored,done quick="--param=ops=2 --param=fill=2" thorough="--param=ops=3 --param=fill=1" qtime=300 ttime=3000 bounds="a context of 0 to 2 (0 or 1) associations, then 2 (3) operations with any names and addresses"
//@ case property=C01,H05 name=case_context_full reach=full,again qtime=200 bounds="a context filled to its end with names of 17 or 300 bytes, any further add or rename, everything removed, filled again"
//@ case property=C01,H05 name=case_context_project reach=created,found,removed,destroyed qtime=300 quick="--param=ops=3" thorough="--param=ops=5" bounds="3 (5) operations on project contexts of 2 names"
//@ case property=H07 tag=C01 name=case_context_interfere reach=done qtime=300 ttime=2000 quick="--param=fill=2" thorough="--param=fill=3" bounds="every locked operation on a context of 0 to 2 (3) associations with any names and addresses, while another thread adds, renames or removes any name between the call and the lock"
#include "lockstub.h"
#include "sphcontext.h"
#include "sphcontextpriv.h"
extern int SPHContextAddNameNoLock(SPHContext_t, const char *, void *); extern void *SPHContextFindByNameNoLock(SPHContext_t, const char *); extern void *SPHContextFindByAddrNoLock(SPHContext_t, const void *); extern int SPHContextRemoveByNameNoLock(SPHContext_t, const char *); extern int SPHContextRemoveByAddrNoLock(SPHContext_t, const void *); extern block_size_t SPHContextFreeSpaceNoLock(SPHContext_t);
extern "C" block_size_t SPHContextFreeSpace(SPHContext_t);
/* a name is a common prefix and up to two bytes, held as a number whose order is that of the names */
typedef struct { char s[320]; } name_t; static int plen; static SPHContext_t c; static unsigned long mk[160], mv[160], room0; static int mn;
static void mkname(name_t *n, unsigned long k) { for (int i = 0; i < plen; i++) n->s[i] = 'm'; n->s[plen] = (char)(k >> 8); n->s[plen + 1] = (char)k; n->s[plen + 2] = 0; }
static int is_name(const char *p, unsigned long k) { name_t n; mkname(&n, k); int i = 0; for (; n.s[i]; i++) if (p[i] != n.s[i]) return 0; return p[i] == 0; }
static unsigned long any_name(const char *n) { unsigned long k = se_u16(n); se_assume((k >= 0x100) | (k == 0)); return k; }
static unsigned long any_addr(const char *n) { unsigned long v = se_u64(n); se_assume(v != 0); return v; }
static unsigned long size_of(unsigned long k) { return (plen + 1 + ((k & 0xff00) != 0) + ((k & 0xff) != 0) + 15) & ~15ul; }
static int by_name(unsigned long k) { for (int i = 0; i < mn; i++) if (mk[i] == k) return i; return -1; } static int by_addr(unsigned long v) { for (int i = 0; i < mn; i++) if (mv[i] == v) return i; return -1; }
static void m_drop(int i) { mn--; mk[i] = mk[mn]; mv[i] = mv[mn]; }
static void look(unsigned long k, unsigned long v) {
  name_t s; mkname(&s, k); int i = by_name(k), j = by_addr(v); void *a = SPHContextFindByName(c, s.s), *a2 = SPHContextFindByNameNoLock(c, s.s); se_assert(U(a) == (i < 0 ? 0 : mv[i]) && a2 == a, "[C01] a name yields its address, and nothing when it has none");
  const char *p = (const char *)SPHContextFindByAddr(c, (void *)v), *p2 = (const char *)SPHContextFindByAddrNoLock(c, (void *)v); se_assert((p != 0) == (j >= 0) && p2 == p, "[C01] an address yields a name exactly when it has one"); if (p && j >= 0) se_assert(is_name(p, mk[j]), "[C01] an address yields its name with the text intact"); }
static void check(void) {
  unsigned long room = SPHContextFreeSpace(c); se_assert(SPHContextFreeSpaceNoLock(c) == room, "[C01] both forms report the same"); for (int i = 0; i < mn; i++) { look(mk[i], mv[i]); room += size_of(mk[i]); } se_assert(lk_total == 0, "[H05,C01] an operation on a context leaves a lock held");
  se_assert(room == room0, "[C01] storage that holds no name is free again"); }
static void open_context(unsigned long size) { region_join(); c = SPHContextCreate(size); se_assert(c != 0, "a context is created"); room0 = SPHContextFreeSpace(c); mn = 0; check(); }
static int add(unsigned long k, unsigned long v, int lock) { name_t s; mkname(&s, k); int r = lock ? SPHContextAddName(c, s.s, (void *)v) : SPHContextAddNameNoLock(c, s.s, (void *)v); int fresh = by_name(k) < 0 && by_addr(v) < 0; mkname(&s, 0); se_assert((r != 0) == fresh, "[C01] a name is added exactly when name and address are new"); if (fresh) { mk[mn] = k; mv[mn++] = v; } return fresh; }
static void op(void) {
  int lock = plen != 0, i, stored = 0; unsigned long k, v; name_t s, n; const char *p = s.s;
  switch (se_choose("op", 5)) {
    case 0: k = any_name("name"); v = any_addr("address"); if (add(k, v, lock)) se_reach("added"); else se_reach("refused"); break;
    case 1: k = any_name("name"); mkname(&s, k); i = by_name(k); if (i >= 0 && se_choose("stored", 2)) { p = (const char *)SPHContextFindByAddr(c, (void *)mv[i]); se_reach("stored"); } { int r = lock ? SPHContextRemoveByName(c, p) : SPHContextRemoveByNameNoLock(c, p); se_assert((r == 0) == (i >= 0), "[C01] removal of a name reports whether it was present"); if (i >= 0) { m_drop(i); se_reach("removed"); } } break;
    case 2: v = any_addr("address"); i = by_addr(v); { int r = lock ? SPHContextRemoveByAddr(c, (void *)v) : SPHContextRemoveByAddrNoLock(c, (void *)v); se_assert((r == 0) == (i >= 0), "[C01] removal of an address reports whether it was present"); if (i >= 0) { m_drop(i); se_reach("byaddr"); } } break;
    default: { k = any_name("name"); unsigned long to = any_name("newname"); v = any_addr("address"); mkname(&s, k); mkname(&n, to); i = by_name(k); int ok = i >= 0 && mv[i] == v, j = by_name(to); if (j >= 0 && j != i) ok = 0; const char *q = n.s;
      if (i >= 0 && se_choose("stored", 2)) { stored = 1; p = (const char *)SPHContextFindByAddr(c, (void *)mv[i]); if (j == i) q = p; } int r = SPHContextRename(c, p, q, (void *)v); se_assert((r != 0) == ok, "[C01] a name is replaced exactly when it belongs to the address and the new one is not in use"); if (ok) { mk[i] = to; se_reach("renamed"); } else se_reach("refused"); (void)stored; } }
  check(); }
static void run(void) {
  plen = 14 * (int)se_choose("prefix", 2); open_context(65536); int fill = (int)se_choose("fill", 1 + (int)se_param("fill", 4)); for (int i = 0; i < fill; i++) add(i * 7 % 5 * 0x1000 + 0x1000 + (i & 1 ? 0x80 : 0), 0x1000 * (5 - i), plen != 0); check();
  for (int i = 0; i < (int)se_param("ops", 2); i++) op(); 
  while (mn) { int i = mn - 1; name_t s; mkname(&s, mk[i]); if (mn & 1) SPHContextRemoveByName(c, s.s); else SPHContextRemoveByAddr(c, (void *)mv[i]); mn = i; } check();
  int r = SPHContextDestroy(c); se_assert(r == 0 && lk_total == 0, "[C01,H05] a context is destroyed, and no lock left held"); se_reach("done"); }
extern "C" void case_context_history(void) { run(); }
extern "C" void case_context_pairs(void) { run(); }
extern "C" void case_context_full(void) {
  plen = se_choose("long", 2) ? 298 : 15; open_context(2048); for (int round = 0; round < 2; round++) {
    for (unsigned long i = 0; ; i++) { name_t s; unsigned long k = 0x0101 + (i % 100) + (i / 100 << 8); mkname(&s, k); if (!SPHContextAddName(c, s.s, (void *)(0x1000 + i))) break; mk[mn] = k; mv[mn++] = 0x1000 + i; se_assert(mn < 150, "harness: the context does not become full"); } se_assert(mn == (int)(room0 / size_of(0x0101)), "[C01] a name is added while there is room for it"); check(); if (!round) se_reach("full"); else se_reach("again");
    if (round) { unsigned long k = any_name("name"); name_t s, n; mkname(&s, k); int i = by_name(k);
    if (se_choose("rename", 2)) { mkname(&n, mk[1]); int r = SPHContextRename(c, n.s, s.s, (void *)mv[1]); se_assert(i < 0 || (r != 0) == (i == 1), "[C01] a name is replaced exactly when it belongs to the address and the new one is not in use"); if (r) mk[1] = k; }
    else { unsigned long v = se_choose("known", 2) ? mv[mn / 2] : 0x10; int r = SPHContextAddName(c, s.s, (void *)v); se_assert((i < 0 && v == 0x10) || !r, "[C01] a name is added exactly when name and address are new"); if (r) { mk[mn] = k; mv[mn++] = v; } }
    check(); }
    while (mn) { int i = mn - 1; name_t s; mkname(&s, mk[i]); int r = mn & 1 ? SPHContextRemoveByName(c, s.s) : SPHContextRemoveByAddr(c, (void *)mv[i]); se_assert(r == 0, "[C01] removal of a name reports whether it was present"); mn = i; } check(); } }
extern "C" void case_context_project(void) {
  region_join(); SPHContext_t have[2] = { 0, 0 }, current = 0; const char *names[2] = { "first project", "second" };
  for (int i = 0; i < (int)se_param("ops", 3); i++) {
    int w = (int)se_choose("name", 2); char nm[20]; int l = 0; do nm[l] = names[w][l]; while (names[w][l++]); SPHContext_t r;
    switch (se_choose("op", 4)) {
      case 0: case 1: { int alt = 0; if (i & 1) { alt = 1; r = SPHSetupAltProjectContext(nm); } else r = SPHSetupProjectContext(nm); se_assert(r != 0, "[C01] a project context is found or created"); if (have[w]) { se_assert(r == have[w], "[C01] a project name keeps its context"); se_reach("found"); } else se_reach("created"); have[w] = r; if (!alt) current = r; break; }
      case 2: r = SPHRemoveProjectContext(nm); se_assert(r == have[w], "[C01] the removal of a project name returns its context"); if (r) { if (current == r) current = 0; have[w] = 0; int d = SPHContextDestroy(r); se_assert(d == 0, "[C01] a removed project context is intact"); se_reach("removed"); } break;
      default: { int d = SPHDestroyProjectContext(nm); se_assert((d == 0) == (have[w] != 0), "[C01] the destruction of a project context reports whether it was there"); if (have[w]) { if (current == have[w]) current = 0; have[w] = 0; se_reach("destroyed"); } } }
    for (int j = 0; j < 2; j++) { SPHContext_t g = getProjectContextByName(names[j]); se_assert(g == have[j], "[C01] a project name yields its context"); } se_assert(getCurrentProjectContext() == current, "[C01] the current project context is the one set up last"); se_assert(lk_total == 0, "[H05,C01] an operation on project contexts leaves a lock held"); } }
/* H07: what another thread does to the context between the call of an operation and its lock is seen by it */
static void act(int w, unsigned long k, unsigned long to, unsigned long v) { name_t s, n; mkname(&s, k); mkname(&n, to); int r, i, j;
  switch (w) { case 0: add(k, v, 1); break;
    case 1: r = SPHContextRemoveByName(c, s.s); i = by_name(k); se_assert((r == 0) == (i >= 0), "[C01] removal of a name reports whether it was present"); if (i >= 0) m_drop(i); break;
    case 2: r = SPHContextRemoveByAddr(c, (void *)v); i = by_addr(v); se_assert((r == 0) == (i >= 0), "[C01] removal of an address reports whether it was present"); if (i >= 0) m_drop(i); break;
    case 3: { r = SPHContextRename(c, s.s, n.s, (void *)v); i = by_name(k); j = by_name(to); int ok = i >= 0 && mv[i] == v && (j < 0 || j == i); se_assert((r != 0) == ok, "[C01] a name is replaced exactly when it belongs to the address and the new one is not in use"); if (ok) mk[i] = to; break; }
    case 4: { void *a = SPHContextFindByName(c, s.s); i = by_name(k); se_assert(U(a) == (i < 0 ? 0 : mv[i]), "[C01] a name yields its address, and nothing when it has none"); break; }
    default: { const char *p = (const char *)SPHContextFindByAddr(c, (void *)v); i = by_addr(v); se_assert((p != 0) == (i >= 0), "[C01] an address yields a name exactly when it has one"); if (p && i >= 0) se_assert(is_name(p, mk[i]), "[C01] an address yields its name with the text intact"); } } }
static unsigned long nm[3], ad[2]; static int other_did;
static void other(unsigned long a) { if (a != U(c)) return; other_did = 1; act((int)se_choose("other", 4), nm[2], nm[1], ad[1]); }
extern "C" void case_context_interfere(void) {
  plen = 0; open_context(65536); int fill = (int)se_choose("fill", 1 + (int)se_param("fill", 2)); for (int i = 0; i < fill; i++) add(i * 7 % 5 * 0x1000 + 0x1000 + (i & 1 ? 0x80 : 0), 0x1000 * (5 - i), 1);
  nm[0] = any_name("name"); nm[1] = any_name("newname"); nm[2] = any_name("othername"); ad[0] = any_addr("address"); ad[1] = any_addr("otheraddress"); int w = (int)se_choose("op", 6); int skip = lk_skip = (int)se_choose("when", 2); lk_before = other; act(w, nm[0], nm[1], ad[0]); lk_before = 0; se_assert(other_did || skip, "[C01] an operation on a context takes its lock"); check(); se_reach("done"); }
