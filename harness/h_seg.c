/* Segments: where each one is mapped, what backs it, and what a failing system call leaves behind. */
//@ case property=R05 name=case_join_fault reach=failed,joined qtime=100 bounds="each of the first 4 calls of open, ftruncate, mmap, close, shmget and shmat made by a join fails in turn; then a second join"
//@ case property=R05,R01,R02 name=case_grow_fault reach=failed,grown qtime=100 bounds="1 or 2 segments grown, each of the first 3 calls of open, ftruncate, mmap and close fails in turn; then again without a failure"
//@ case property=R05 name=case_segments reach=done qtime=100 bounds="segments 1..3 in turn, blocks of 256 MB and 128 MB"
//@ case property=R05 name=case_rejoin reach=done qtime=100 bounds="1..3 segments; detach, join again; a join whose first open or mmap fails; stored values symbolic"
//@ case property=R05 name=case_fault_attach reach=mapped,unmapped,outside,inside,cannot qtime=200 bounds="a memory fault at any 64-bit address with any one of segments 1..3 detached, by the process and the thread handler; opening or mapping its file works or fails"
//@ case property=R05 name=case_fault_threads reach=inside,outside,second,left qtime=100 bounds="two threads that enter and leave fault handling in every order, one fault by either of them or by the process's first thread at every point, below, in and above the region"
//@ case property=R05 name=case_store_path reach=joined,refused qtime=100 bounds="store names of 1, 4080 to 4090, 4095, 4096 and 5000 characters, with and without a slash at the end"
//@ case property=R05 name=case_remove reach=removed,left qtime=100 bounds="a region of 1..4 segments, all or all but one of them attached, is removed or left, faults, is joined and left again"
//@ case property=R05 name=case_names reach=done qtime=100 bounds="every pair of segment numbers of the region"
#include "region_model.h"
#include "sasstname.h"
static int one_ok(unsigned long n) { unsigned long *p = SASBlockAlloc(n); if (p) { se_assert(se_valid(p, n), "[R05] storage that is handed out is mapped"); took(p, n); p[0] = 1; p[n / 8 - 1] = 2; } return p != 0; }
static void clean(const char *m) { se_assert(env.open_fds == 0, m); se_assert(env.bad_map == 0, "[R05] a segment is not mapped shared, writable, at offset 0 and at its one address, or its file is shorter than the mapping"); }
static void usable(void) { SASSeize(); SASRelease(); unsigned long a = 0x400000100000ul; SASLock((void *)a, SasUserLock__WRITE); SASUnlock((void *)a); check_region(0); se_assert(one_ok(4096), "[R05] a joined region serves requests"); se_assert(env_file_exists("store/SAS00000.DAT"), "[R05] a joined region is backed by its file"); }
void case_join_fault(void) {
  env.fail_op = ENV_OPEN + (int)se_choose("op", 6); env.fail_skip = (int)se_choose("skip", 4);
  int rc = SASJoinRegionByName("store"); clean("[R05] a join leaves a file open");
  if (env.fail_op == ENV_MMAP && env.fail_skip != 0 && rc == 0) env.fail_op = ENV_NONE;   /* the guard page is no storage */
  if (rc) { se_reach("failed"); se_assert(!se_valid((void *)BASE, SEG), "[R05] a failed join leaves the region mapped"); se_assert(env_file_count() == 0, "[R05] a failed join of a new store leaves files behind"); env.fail_op = ENV_NONE; rc = SASJoinRegionByName("store"); se_assert(rc == 0, "[R05] a store can be joined after a failed attempt"); }
  else { se_assert(env.fail_op == ENV_NONE || env.fail_op == ENV_CLOSE || env.fail_skip >= 0, "[R05] a join whose system call fails reports failure"); }
  env.fail_op = ENV_NONE; se_reach("joined"); usable(); clean("[R05] a join leaves a file open"); }
void case_grow_fault(void) {
  region_join(); int two = (int)se_choose("two", 2); se_assert(one_ok(SEG / 2), "[R05] there is room"); if (two) se_assert(one_ok(SEG), "[R05] there is room");
  int files = env_file_count(); env.fail_op = ENV_OPEN + (int)se_choose("op", 3); if (se_choose("close", 2)) env.fail_op = ENV_CLOSE; env.fail_skip = (int)se_choose("skip", 3);
  unsigned long n = se_choose("half", 2) ? SEG / 2 : SEG; if (n == SEG / 2 && !two) se_assert(1, "");
  if (!one_ok(n)) { se_reach("failed"); se_assert(env_file_count() == files, "[R05] a failed extension leaves its file behind"); check_region(0); env.fail_op = ENV_NONE; se_assert(one_ok(n), "[R05] the region can be extended after a failed attempt"); }
  else if (env.fail_skip < 0 && env.fail_op != ENV_CLOSE) se_assert(0, "[R05] an extension whose system call fails reports failure");
  env.fail_op = ENV_NONE; se_reach("grown"); clean("[R05] an extension leaves a file open"); check_region(0); }
static void mapping(unsigned long k) { static char nm[32]; sprintf(nm, "store/SAS%05lX.DAT", k, 0, 0, 0);
  se_assert(env.map_addr == BASE + k * SEG && env.map_len == SEG, "[R05] a segment is mapped at the address its number determines"); se_assert(strcmp(env.map_name, nm) == 0 && env_file_exists(nm), "[R05] a segment is backed by the file its number determines"); se_assert(env.map_file_size == SEG, "[R05] a segment's file has the full segment size");
  se_assert((env.map_flags & MAP_SHARED) && (env.map_flags & MAP_FIXED) && env.map_prot == (PROT_READ | PROT_WRITE) && env.map_off == 0, "[R05] a segment is mapped shared, at its own address, for reading and writing"); }
void case_segments(void) {
  int r = SASJoinRegionByName(se_choose("slash", 2) ? "store/" : "store"); se_assert(r == 0, "[R05] joining a new store succeeds"); se_assert(env_file_exists("store/SAS00000.DAT") && env_file_count() == 1, "[R05] a new region is backed by one file");
  for (unsigned long k = 1; k <= 3; k++) { int m = env.maps; unsigned long n = se_choose("half", 2) ? SEG / 2 : SEG; if (n < SEG && k == 1) { se_assert(one_ok(n), "[R05] there is room"); se_assert(env.maps == m, "[R05] room in a mapped segment needs no new one"); }
    m = env.maps; while (env.maps == m) se_assert(one_ok(n), "[R05] there is room"); se_assert(env.maps == m + 1, "[R05] one segment at a time is mapped"); mapping(k); clean("[R05] an extension leaves a file open"); }
  se_assert(getMemLow() == BASE && getMemHigh() == BASE + REGSZ, "[R05] the region's bounds"); se_reach("done"); }
void case_rejoin(void) {
  region_join(); int k = 1 + (int)se_choose("segments", 3); unsigned long *p[3], v[3];
  for (int i = 0; i < k; i++) { p[i] = SASBlockAlloc(SEG); se_assert(p[i] != 0, "[R05] there is room"); took(p[i], SEG); v[i] = se_u64("value"); p[i][0] = v[i]; p[i][SEG / 8 - 1] = ~v[i]; }
  int files = env_file_count(); SASCleanUp(); for (int i = 0; i < k; i++) se_assert(!se_valid(p[i], 8), "[R05] leaving the region unmaps every segment"); se_assert(!se_valid((void *)BASE, 8), "[R05] leaving the region unmaps it"); clean("[R05] leaving keeps a file open");
  if (se_choose("fail", 2)) { env.fail_op = se_choose("mmap", 2) ? ENV_MMAP : ENV_OPEN; env.fail_skip = 0; int rc = SASJoinRegionByName("store"); se_assert(rc != 0, "[R05] a join whose system call fails reports failure"); env.fail_op = ENV_NONE; clean("[R05] a failed join leaves a file open"); se_assert(env_file_count() == files, "[R05] a failed join removes or adds a file"); }
  se_assert(SASJoinRegionByName("store") == 0, "[R05] an existing store can be joined"); se_assert(env_file_count() == files, "[R05] joining an existing store adds no file"); clean("[R05] a join leaves a file open");
  for (int i = 0; i < k; i++) { se_assert(se_valid(p[i], SEG), "[R05] a join maps every segment of the region"); se_assert(p[i][0] == v[i] && p[i][SEG / 8 - 1] == ~v[i], "[R05] stored values are found at their addresses after joining again"); }
  check_region(0); usable(); se_reach("done"); }
static int app_calls; static void app(int s, siginfo_t *i, void *c) { (void)s; (void)i; (void)c; app_calls++; }
void case_fault_attach(void) {
  env.sa.sa_flags = SA_SIGINFO; env.sa.sa_sigaction = app; region_join(); unsigned long *p[3], v = se_u64("value"); for (int i = 0; i < 3; i++) { p[i] = SASBlockAlloc(SEG); se_assert(p[i] != 0, "[R05] there is room"); p[i][1] = v; }
  int th = (int)se_choose("thread", 2); if (th) SASThreadSetUp();
  int k = (int)se_choose("gone", 3); munmap(p[k], SEG); int m = env.maps, bad = (int)se_choose("fail", 3); unsigned long a = se_u64("fault"); if (bad) { env.fail_op = bad == 1 ? ENV_OPEN : ENV_MMAP; env.fail_all = 1; } se_assert(env_fault(a) == 0, "[R05] a fault handler is installed");
  env.fail_op = ENV_NONE; env.fail_all = 0; int seg = a >= U(p[k]) && a < U(p[k]) + SEG, in = a >= BASE && a < BASE + 4 * SEG && !(bad && a >= BASE && a < BASE + 4 * SEG);
  if (seg && !bad) { se_reach("mapped"); se_assert(env.maps == m + 1 && se_valid(p[k], SEG) && p[k][1] == v, "[R05] touching a segment that is not attached attaches it at its own address"); mapping((U(p[k]) - BASE) / SEG); }
  else { se_assert(!se_valid(p[k], 8), "[R05] a fault attaches only the segment it lies in"); if (a >= BASE + 4 * SEG) se_assert(env.maps == m, "[R05] a fault outside the allocated segments maps nothing"); se_reach("unmapped"); }
  se_assert(app_calls == !in, "[R05] a fault where no segment can be attached goes to the application's handler"); if (!in) { if (a < BASE || a >= BASE + REGSZ) se_reach("outside"); else if (a < BASE + 4 * SEG) se_reach("cannot"); else se_reach("inside"); } clean("[R05] a fault leaves a file open");
  if (th) { SASThreadCleanUp(); se_assert(env.sa.sa_sigaction != app && env_fault(BASE + 4096) == 0 && app_calls == !in, "[R05] the process keeps its fault handler when a thread leaves"); }
  SASCleanUp(); se_assert(env.sa.sa_sigaction == app, "[R05] leaving the region puts the application's fault handler back"); clean("[R05] leaving keeps a file open"); }
/* Faults in several threads: workers do one step at a time, in the order the first thread chooses. */
static volatile int cmd[2]; static unsigned long fault_at;
static void fault_step(int op) { if (op == 1) SASThreadSetUp(); else if (op == 2) SASThreadCleanUp(); else if (op == 3) se_assert(env_fault(fault_at) == 0, "[R05] a fault handler is installed"); }
static void faulter(void *x) { int i = (int)U(x); for (;;) { se_wait_ne(&cmd[i], 0); int op = cmd[i]; if (op != 4) fault_step(op); cmd[i] = 0; if (op == 4) return; } }
static void order(int i, int op) { if (i == 2) { fault_step(op); return; } cmd[i] = op; se_wait_ne(&cmd[i], op); }
void case_fault_threads(void) {
  env.sa.sa_flags = SA_SIGINFO; env.sa.sa_sigaction = app; region_join(); unsigned long *p = SASBlockAlloc(SEG); se_assert(p != 0, "[R05] there is room"); munmap(p, SEG);
  for (int i = 0; i < 2; i++) se_spawn(faulter, (void *)(unsigned long)i);
  int when = (int)se_choose("when", 5), who = (int)se_choose("who", 3), place = (int)se_choose("place", 3), st[2] = {0, 0}; fault_at = place == 0 ? BASE - 8 : place == 1 ? BASE + REGSZ : U(p) + 64;
  for (int k = 0; k < 5; k++) {
    if (k == when) { order(who, 3); if (place == 2) { se_reach("inside"); se_assert(app_calls == 0 && se_valid(p, SEG), "[R05] touching a segment that is not attached attaches it, in every thread"); } else { se_reach("outside"); if (st[0] && st[1]) se_reach("second"); if (st[0] == 2 && st[1] == 2) se_reach("left"); se_assert(app_calls == 1 && !se_valid(p, 8), "[R05] a fault outside the region goes to the application's handler, once, in every thread"); } }
    if (k == 4) break; int i = st[0] == 2 ? 1 : st[1] == 2 ? 0 : (int)se_choose("next", 2); order(i, ++st[i]); }
  order(0, 4); order(1, 4); se_join_all(); SASCleanUp(); se_assert(env.sa.sa_sigaction == app, "[R05] leaving the region puts the application's fault handler back"); clean("[R05] leaving keeps a file open"); }
void case_store_path(void) { /* a store's name may be too long for the names of its files */
  static const int len[] = {1, 4080, 4081, 4082, 4083, 4084, 4085, 4086, 4087, 4088, 4089, 4090, 4095, 4096, 5000}; int n = len[se_choose("length", 15)], slash = n > 1 && se_choose("slash", 2); char *path = (char *)0x60000000ul; se_map(U(path), 8192); for (int i = 0; i < n; i++) path[i] = 'p'; path[n] = 0; if (slash) path[n - 1] = '/';
  int rc = SASJoinRegionByName(path); if (rc) { se_reach("refused"); se_assert(n > 4080, "[R05] a join that can succeed succeeds"); clean("[R05] a failed join leaves a file open"); se_assert(env_file_count() == 0, "[R05] a failed join removes or adds a file"); return; }
  se_reach("joined"); se_assert(n - slash + 13 < 4096, "[R05] a store whose file names are too long is refused"); se_assert(se_valid((void *)BASE, SEG) && env_file_count() == 1, "[R05] a join maps the region"); SASCleanUp(); clean("[R05] leaving keeps a file open"); }
void case_remove(void) {
  env.sa.sa_flags = SA_SIGINFO; env.sa.sa_sigaction = app; region_join(); int k = (int)se_choose("segments", 4); unsigned long *p[3];
  for (int i = 0; i < k; i++) { p[i] = SASBlockAlloc(SEG); se_assert(p[i] != 0, "[R05] there is room"); p[i][1] = 1; }
  if (k && se_choose("gone", 2)) munmap(p[se_choose("which", 3) % k], SEG);
  int files = env_file_count(), rm = (int)se_choose("remove", 2); se_assert(files == k + 1 && env.shm_made == 1 && env.shm_att == 1, "[R05] a region has one file for each segment and one lock table");
  if (rm) { SASRemove(); se_reach("removed"); } else { SASCleanUp(); se_reach("left"); }
  se_assert(env_file_count() == (rm ? 0 : files), "[R05] removing a region removes its files, leaving it keeps them"); se_assert(env.shm_att == 0 && env.shm_made == !rm, "[R05] removing a region removes its lock table, leaving it detaches it");
  se_assert(!se_valid((void *)BASE, 8), "[R05] leaving the region unmaps it"); for (int i = 0; i < k; i++) se_assert(!se_valid(p[i], 8), "[R05] leaving the region unmaps every segment"); clean("[R05] leaving keeps a file open");
  unsigned long a = se_choose("below", 2) ? BASE - 8 : BASE + 4096; se_assert(env_fault(a) == 0 && app_calls == 1, "[R05] leaving the region puts the application's fault handler back");
  se_assert(SASJoinRegionByName("store") == 0, "[R05] a store can be joined after its region was removed or left"); if (!rm) for (int i = 0; i < k; i++) se_assert(se_valid(p[i], SEG) && p[i][1] == 1, "[R05] stored values are found at their addresses after joining again");
  se_assert(env_file_count() == (rm ? 1 : files), "[R05] joining an existing store adds no file"); SASSeize(); SASRelease(); SASLock((void *)BASE, SasUserLock__WRITE); SASUnlock((void *)BASE); char *q = SASBlockAlloc(4096); se_assert(q && se_valid(q, 4096), "[R05] a joined region serves requests");
  se_assert(env_fault(BASE - 8) == 0 && app_calls == 2, "[R05] a fault outside the region goes to the application's handler"); SASCleanUp(); se_assert(env.sa.sa_sigaction == app, "[R05] leaving the region puts the application's fault handler back"); }
void case_names(void) {
  static char a[64], b[64]; sasStorePath = (char *)"store"; unsigned long i = se_u64("i"), j = se_u64("j"); se_assume(i < REGSZ / SEG); se_assume(j < REGSZ / SEG); se_assume(i != j);
  SASSegNameIndexed(a, i); SASSegNameIndexed(b, j); int d = 0; for (int k = 0; k < 63; k++) { d |= a[k] ^ b[k]; if (!a[k] && !b[k]) break; } se_assert(d != 0, "[R05] different segments have different files"); se_reach("done"); }
