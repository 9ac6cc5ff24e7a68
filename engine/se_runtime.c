/* Native implementation of the harness API: replays one counterexample against the real code.
   SE_REPLAY names the replay file. Exit codes: 0 finished without violation, 77 assertion failed,
   78 an assumption of the harness does not hold, 79 replay diverged. */
#define _GNU_SOURCE
#include "se.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/mman.h>
#include <errno.h>

static struct { char name[64]; unsigned long long v; } *vars; static int nvars, vpos;
static unsigned char *sched; static int nsched; static volatile int spos;
static char params[32][64]; static long long pvals[32]; static int nparams;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static __thread int tid, atomicDepth; static volatile int alive = 1, ntid;
static struct { uintptr_t a, e; } shr[64]; static int nshr;
static pthread_t pt[64];
static void init(void) {
  static int done; if (done) return; done = 1;
  const char *fn = getenv("SE_REPLAY"); FILE *f = fn ? fopen(fn, "r") : 0; if (!f) { fprintf(stderr, "no replay file\n"); _exit(79); }
  char *line = 0; size_t cap = 0; int vc = 0;
  while (getline(&line, &cap, f) > 0) {
    if (!strncmp(line, "var ", 4)) { if (nvars >= vc) { vc = vc ? vc * 2 : 64; vars = realloc(vars, vc * sizeof *vars); }
      char n[256]; unsigned long long v; if (sscanf(line + 4, "%255s %llu", n, &v) == 2) { n[63] = 0; char *h = strrchr(n, '#'); if (h) *h = 0; strcpy(vars[nvars].name, n); vars[nvars++].v = v; } }
    else if (!strncmp(line, "param ", 6)) { sscanf(line + 6, "%63s %lld", params[nparams], &pvals[nparams]); nparams++; }
    else if (!strncmp(line, "sched", 5)) { char *p = line + 5; sched = malloc(strlen(line)); while (*p) { char *q; long t = strtol(p, &q, 10); if (q == p) break; sched[nsched++] = t; p = q; } } }
  fclose(f); }
static unsigned long long next(const char *name) {
  pthread_mutex_lock(&mx); init(); if (vpos >= nvars) { fprintf(stderr, "SE-DIVERGED: no value left for %s\n", name); _exit(79); }
  if (strcmp(vars[vpos].name, "choice") && strncmp(vars[vpos].name, name, 60)) { fprintf(stderr, "SE-DIVERGED: expected %s got %s\n", vars[vpos].name, name); _exit(79); }
  unsigned long long v = vars[vpos++].v; pthread_mutex_unlock(&mx); return v; }
uint64_t se_u64(const char *n) { return next(n); } uint32_t se_u32(const char *n) { return next(n); } uint16_t se_u16(const char *n) { return next(n); } uint8_t se_u8(const char *n) { return next(n); } uint8_t se_bool(const char *n) { return next(n); }
void se_bytes(void *p, uint64_t n, const char *name) { for (uint64_t i = 0; i < n; i++) ((unsigned char *)p)[i] = next(name); }
uint64_t se_range(const char *n, uint64_t lo, uint64_t hi) { uint64_t v = next(n); if (v < lo || v > hi) { fprintf(stderr, "SE-DIVERGED: range %s\n", n); _exit(79); } return v; }
uint64_t se_choose(const char *n, uint64_t k) { return next(n) % (k ? k : 1); }
uint64_t se_concretize(uint64_t v) { return v; }
void se_assume(int c) { if (!c) { fprintf(stderr, "SE-ASSUME-FALSE\n"); _exit(78); } }
void se_assert(int c, const char *m) { if (!c) { const char *t = getenv("SE_TAG"), *e = strchr(m, ']'); if (t && *t && m[0] == '[' && e) { char b[64] = ""; if (e - m < 63) strncpy(b, m, e - m); if (!strstr(b, t)) return; } fprintf(stderr, "SE-ASSERT-FAIL: %s\n", m); _exit(77); } }
void se_reach(const char *l) { (void)l; }
static struct { uint64_t a, e; int on; } rng[256]; static int nrng;   /* the last entry that covers a page decides */
void se_map(uint64_t a, uint64_t n) { uint64_t e = (a + n + 4095) & ~4095ULL, b = a & ~4095ULL; /* contents of pages mapped before are kept */
  if (mprotect((void *)b, e - b, PROT_READ | PROT_WRITE)) for (uint64_t p = b; p < e;) {
    if (mmap((void *)p, e - p, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != MAP_FAILED) break;
    if (errno != EEXIST) { perror("se_map"); _exit(79); }
    if (mmap((void *)p, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { if (errno != EEXIST) { perror("se_map"); _exit(79); } mprotect((void *)p, 4096, PROT_READ | PROT_WRITE); }
    p += 4096; }
  if (nrng < 256) { rng[nrng].a = a; rng[nrng].e = a + n; rng[nrng++].on = 1; } }
void se_unmap(uint64_t a, uint64_t n) { uint64_t b = (a + 4095) & ~4095ULL, e = (a + n) & ~4095ULL; if (b < e) mprotect((void *)b, e - b, PROT_NONE); if (nrng < 256) { rng[nrng].a = a; rng[nrng].e = a + n; rng[nrng++].on = 0; } }
void se_zero(uint64_t a, uint64_t n) { uint64_t b = (a + 4095) & ~4095ULL, e = (a + n) & ~4095ULL; if (b > a) memset((void *)a, 0, b - a < n ? b - a : n); if (b < e) madvise((void *)b, e - b, MADV_DONTNEED); if (e > a && e < a + n && e >= b) memset((void *)e, 0, a + n - e); }
static int validByte(uint64_t p) { for (int i = nrng; i-- > 0;) if (p >= rng[i].a && p < rng[i].e) return rng[i].on; unsigned char v; return !mincore((void *)(p & ~4095ULL), 1, &v); }
int se_valid(const void *p, uint64_t n) { uint64_t a = (uint64_t)p; if (!n) return 1; if (!validByte(a) || !validByte(a + n - 1)) return 0; for (uint64_t q = (a & ~4095ULL) + 4096; q < a + n; q += 4096) if (!validByte(q)) return 0; return 1; }
int64_t se_param(const char *n, int64_t d) { init(); for (int i = 0; i < nparams; i++) if (!strcmp(params[i], n)) return pvals[i]; return d; }
int se_is_symbolic(uint64_t v) { (void)v; return 1; } int se_feasible(int c) { return c; }
int se_tid(void) { return tid; } void se_yield(void) {} void se_pause(void) {} uint64_t se_rdtsc(void) { static uint64_t t; return ++t; }
void se_shared(const volatile void *p, uint64_t n) { shr[nshr].a = (uintptr_t)p; shr[nshr++].e = (uintptr_t)p + n; }
static int isShared(uintptr_t a, uint64_t n) { for (int i = 0; i < nshr; i++) if (a < shr[i].e && a + n > shr[i].a) return 1; return 0; }
static int turn(void) { pthread_mutex_lock(&mx); while (spos < nsched && sched[spos] != tid) pthread_cond_wait(&cv, &mx); int g = spos < nsched; pthread_mutex_unlock(&mx);
  /* behind the end of the recorded schedule the thread that came last goes first: what the trace ends in is its doing */
  static __thread int waited; if (!g && nsched && tid != sched[nsched - 1] && !waited++) usleep(300000);
  return g; }
static void doneTurn(void) { pthread_mutex_lock(&mx); spos++; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mx); }
uint64_t se_rt_pre(void *p, uint64_t n, uint64_t at) { if (alive < 2 || atomicDepth) return 0; if (!at && !isShared((uintptr_t)p, n)) return 0; return turn(); }
uint64_t se_rt_pre2(void *p, void *q, uint64_t n) { if (!n || alive < 2 || atomicDepth) return 0; if (!isShared((uintptr_t)p, n) && !isShared((uintptr_t)q, n)) return 0; return turn(); }
void se_rt_post(uint64_t h) { if (h) doneTurn(); }
static __thread int atomicTurn;
void se_atomic_begin(void) { if (atomicDepth++ == 0) atomicTurn = alive >= 2 ? turn() : 0; }
void se_atomic_end(void) { if (--atomicDepth == 0 && atomicTurn) doneTurn(); }
struct sp { void (*f)(void *); void *a; int t; };
static void *tramp(void *x) { struct sp s = *(struct sp *)x; tid = s.t; s.f(s.a); __sync_fetch_and_sub(&alive, 1); return 0; }
int se_spawn(void (*f)(void *), void *a) { struct sp *s = malloc(sizeof *s); int t = ++ntid; s->f = f; s->a = a; s->t = t; __sync_fetch_and_add(&alive, 1); pthread_create(&pt[t], 0, tramp, s); return t; }
void se_join(int t) { pthread_join(pt[t], 0); }
void se_join_all(void) { for (int i = 1; i <= ntid; i++) if (pt[i]) { pthread_join(pt[i], 0); pt[i] = 0; } }
void se_wait_ne(volatile int *p, int v) { while (*p == v) usleep(20); }
extern void SE_ENTRY(void);
int main(void) { init(); setvbuf(stdout, 0, _IONBF, 0); SE_ENTRY(); return 0; }
