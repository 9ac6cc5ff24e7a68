/* Free-list space manager against a unit map of the arena. */
//@ case property=H01,H02 name=case_freelist reach=alloc_ok,alloc_none,freed,merged_all,hole quick="--param=ops=4 --param=units=8" thorough="--param=ops=6 --param=units=10" qtime=100 ttime=1500 bounds="arena of 8 (10) 16-byte units, every sequence of 4 (6) allocations of 1..200 bytes and frees of live blocks"
//@ case property=H01,H02 name=case_freelist_lists reach=freed,coalesced quick="--param=units=8" thorough="--param=units=12" qtime=60 ttime=900 bounds="every set of live/free units of an arena of 8 (12) units, then one free or one allocation of any size"
//@ case property=H01,H02 name=case_freelist_huge reach=refused qtime=30 bounds="any 64-bit request larger than the arena"
#include "common.h"
#include "freenode.h"
#define MAXU 16
static unsigned char arena[MAXU * 16] __attribute__((aligned(16)));
static unsigned char used[MAXU]; static int units;
static FreeNode *head;
/* the list must describe exactly the maximal free runs of the map, in address order */
static void check_list(void) {
  FreeNode *p = head; int i = 0; unsigned long total = 0, frag = 0, mx = 0;
  while (i < units) {
    if (used[i]) { i++; continue; }
    int j = i; while (j < units && !used[j]) j++;
    se_assert(p != 0, "[H02] free space is missing from the list");
    se_assert((unsigned char *)p == arena + 16 * i, "[H02] free fragment does not start where free space starts");
    se_assert(p->nodeSize == 16ul * (j - i), "[H02] free fragment does not cover the maximal free run");
    total += 16ul * (j - i); frag++; if (16ul * (j - i) > mx) mx = 16ul * (j - i);
    p = p->nextNode; i = j; }
  se_assert(p == 0, "[H02] list holds space that is not free");
  if (head) { se_assert(freeNode_freeSpaceTotal(head) == total, "[H02] free total"); se_assert(freeNode_freeFragmentsTotal(head) == frag, "[H02] fragment count"); se_assert(freeNode_maxFragment(head) == mx, "[H02] largest fragment"); } }
static int max_run(void) { int m = 0, r = 0; for (int i = 0; i < units; i++) { r = used[i] ? 0 : r + 1; if (r > m) m = r; } return m; }
static struct { unsigned char *p; unsigned long n; } blk[16]; static int nblk;
static void do_alloc(unsigned long n) {
  unsigned need = (unsigned)se_concretize((n + 15) / 16);
  unsigned char *p = (unsigned char *)freeNode_allocSpace(head, &head, n);
  if (!p) { se_reach("alloc_none"); se_assert((int)need > max_run(), "[H02] allocation refused although a fragment is large enough"); return; }
  se_reach("alloc_ok");
  se_assert(p >= arena && p + 16 * need <= arena + 16 * units, "[H01] block lies inside the arena"); se_assert(((p - arena) & 15) == 0, "[H01] block is aligned");
  int u = (int)((p - arena) / 16); for (unsigned i = 0; i < need; i++) { se_assert(!used[u + i], "[H01] block overlaps a live block"); used[u + i] = 1; }
  for (unsigned i = 0; i < 16 * need; i++) p[i] = 0xC3;   /* the owner may write every byte */
  blk[nblk].p = p; blk[nblk++].n = n; check_list(); }
static void do_free(int k) {
  unsigned char *p = blk[k].p; unsigned long n = blk[k].n; int u = (int)((p - arena) / 16), need = (int)se_concretize((n + 15) / 16);
  for (int i = 0; i < need; i++) used[u + i] = 0;
  blk[k] = blk[--nblk];
  freeNode_deallocSpace((FreeNode *)p, &head, n); se_reach("freed"); check_list();
  if (max_run() == units) se_reach("merged_all"); else se_reach("hole"); }
void case_freelist(void) {
  int ops = (int)se_param("ops", 4); units = (int)se_param("units", 8);
  head = (FreeNode *)arena; freeNode_init(head, 16ul * units); check_list();
  for (int i = 0; i < ops; i++) {
    int k = (int)se_choose("op", nblk + 1);
    if (k == 0) do_alloc(se_range("size", 1, 200)); else do_free(k - 1); } }
/* any reachable free/live partition, then one operation */
void case_freelist_lists(void) {
  units = (int)se_param("units", 8); FreeNode *last = 0;
  for (int i = 0; i < units; i++) used[i] = se_choose("used", 2);
  head = 0; for (int i = 0; i < units; i++) if (!used[i] && (i == 0 || used[i - 1])) { int j = i; while (j < units && !used[j]) j++; FreeNode *p = (FreeNode *)(arena + 16 * i); p->nodeSize = 16ul * (j - i); p->nextNode = 0; if (last) last->nextNode = p; else head = p; last = p; }
  check_list();
  if (se_choose("op", 2)) { unsigned long n = se_range("size", 1, 16ul * (units + 1)); if (head) do_alloc(n); else se_assert(freeNode_allocSpace(head, &head, n) == 0, "allocation from an empty list"); }
  else { int u = (int)se_choose("unit", units), n = 1 + (int)se_choose("len", units); if (u + n > units) return;
    for (int i = 0; i < n; i++) if (!used[u + i]) return;
    int nb = (u > 0 && !used[u - 1]) || (u + n < units && !used[u + n]); if (nb) se_reach("coalesced");
    blk[0].p = arena + 16 * u; blk[0].n = 16ul * n - se_range("slack", 0, 15); nblk = 1; do_free(0); } }
void case_freelist_huge(void) {
  units = 8; head = (FreeNode *)arena; freeNode_init(head, 16ul * units);
  unsigned long n = se_u64("size"); se_assume(n > 16ul * units);
  se_assert(freeNode_allocSpace(head, &head, n) == 0, "[H01] a request larger than the arena is refused"); se_reach("refused"); check_list(); }
