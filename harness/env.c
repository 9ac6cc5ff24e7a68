/* Model of the operating system below the code under test: an in-memory file store, mmap at fixed
   addresses, System V shared memory, POSIX semaphores, signal registration, string functions.
   The same model runs under the symbolic engine and in the native replay. */
#define ENV_NO_RENAME
#include "env.h"
#include "env_ctl.h"
#include "se.h"

struct env_state env; __thread int env_errno;
static struct { char name[64]; int exists, fresh; unsigned long addr, size; } fs[96]; static int nfs;
enum { PROC = 95 };   /* the file /proc/PID/cmdline, when a harness supplies one */
static int fdfile[16], fdused[16]; static unsigned long procpos[16];

static int streq(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static const char *tail(const char *n) { unsigned long l = 0; while (n[l]) l++; return l > 63 ? n + l - 63 : n; } /* the end of a long name tells the files apart */
static int lookup(const char *n) { n = tail(n); for (int i = 0; i < nfs; i++) if (streq(fs[i].name, n)) return i; return -1; }
static int fail_now(int op) { return env.fail_op == op && (env.fail_all || env.fail_skip-- == 0); }
int env_file_exists(const char *n) { int i = lookup(n); return i >= 0 && fs[i].exists; }
int env_file_count(void) { int c = 0; for (int i = 0; i < nfs; i++) c += fs[i].exists; return c; }
int env_open(const char *name, int flags, ...) {
  if (fail_now(ENV_OPEN)) { errno = EACCES; return -1; }
  int i = lookup(name); if (env.proc_name && (streq(env.proc_name, name) || streq("/proc/self/cmdline", name))) i = PROC; else
  if (i < 0 || !fs[i].exists) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (i < 0) { i = nfs++; name = tail(name); char *d = fs[i].name; int k = 0; while (name[k] && k < 63) { d[k] = name[k]; k++; } d[k] = 0; }
    fs[i].exists = 1; fs[i].fresh = 1; fs[i].addr = 0; fs[i].size = 0; env.creates++;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  for (int f = 0; f < 16; f++) if (!fdused[f]) { fdused[f] = 1; fdfile[f] = i; procpos[f] = 0; env.open_fds++; return f + 3; }
  errno = EMFILE; return -1; }
int env_close(int fd) { if (fail_now(ENV_CLOSE)) { fdused[fd - 3] = 0; env.open_fds--; errno = EIO; return -1; } fd -= 3; if (fd < 0 || fd >= 16 || !fdused[fd]) { errno = EBADF; return -1; } fdused[fd] = 0; env.open_fds--; return 0; }
int env_stat(const char *n, struct stat *b) { (void)b; if (env_file_exists(n)) return 0; errno = ENOENT; return -1; }
int env_remove(const char *n) { int i = lookup(n); if (i < 0 || !fs[i].exists) { errno = ENOENT; return -1; } fs[i].exists = 0; env.removes++; return 0; }
int env_ftruncate(int fd, long n) { if (fail_now(ENV_FTRUNCATE)) { errno = ENOSPC; return -1; } if (fd < 3 || fd > 18 || !fdused[fd - 3]) { errno = EBADF; return -1; } fs[fdfile[fd - 3]].size = n; return 0; }
long env_read(int fd, void *b, unsigned long n) { if (fd < 3 || fd > 18 || !fdused[fd - 3]) { errno = EBADF; return -1; } if (fdfile[fd - 3] != PROC) return 0;
  if (env.proc_len < 0) { errno = EIO; return -1; } unsigned long k = env.proc_len - procpos[fd - 3]; if (k > n) k = n; for (unsigned long i = 0; i < k; i++) ((char *)b)[i] = env.proc_data[procpos[fd - 3] + i]; procpos[fd - 3] += k; env.proc_reads++; return k; }
void *env_mmap(void *a, unsigned long n, int prot, int flags, int fd, long off) {
  if (fail_now(ENV_MMAP)) { errno = ENOMEM; return (void *)-1; }
  if (!(flags & MAP_FIXED)) a = (char *)a + 0x10000000000ul;   /* a hint only */
  if (fd >= 3) { int i = fdfile[fd - 3]; if (!fdused[fd - 3] || !fs[i].exists || fs[i].size < n + off || (fs[i].addr && fs[i].addr != (unsigned long)a) || !(flags & MAP_SHARED) || (prot & (PROT_READ | PROT_WRITE)) != (PROT_READ | PROT_WRITE) || off) env.bad_map++;
    se_map((unsigned long)a, n); if (fs[i].fresh) se_zero((unsigned long)a, n); fs[i].fresh = 0; fs[i].addr = (unsigned long)a;
    env.map_addr = (unsigned long)a; env.map_len = n; env.maps++; env.map_name = fs[i].name; env.map_file_size = fs[i].size; env.map_flags = flags; env.map_prot = prot; env.map_off = off; }
  else { se_map((unsigned long)a, n); se_zero((unsigned long)a, n); }
  return a; }
int env_munmap(void *a, unsigned long n) { se_unmap((unsigned long)a, n); env.unmaps++; env.unmap_addr = (unsigned long)a; env.unmap_len = n; return 0; }
int env_msync(void *a, unsigned long n, int fl) { if ((unsigned long)a & 4095) { errno = EINVAL; return -1; } env.ms_addr = (unsigned long)a; env.ms_len = n; env.ms_flags = fl; env.ms_calls++; return env.ms_rc; }
int env_madvise(void *a, unsigned long n, int adv) { if ((unsigned long)a & 4095) { errno = EINVAL; return -1; } env.ma_addr = (unsigned long)a; env.ma_len = n; env.ma_advice = adv; env.ma_calls++; return env.ma_rc; }
static struct { int key, used; unsigned long size; } shm[8];
int env_shmget(int key, unsigned long size, int flags) {
  if (fail_now(ENV_SHMGET)) { errno = ENOSPC; return -1; }
  for (int i = 0; i < 8; i++) if (shm[i].used && shm[i].key == key) { if ((flags & IPC_CREAT) && (flags & IPC_EXCL)) { errno = EEXIST; return -1; } return i + 1; }
  if (!(flags & IPC_CREAT)) { errno = ENOENT; return -1; }
  for (int i = 0; i < 8; i++) if (!shm[i].used) { shm[i].used = 2; env.shm_made++; shm[i].key = key; shm[i].size = size; return i + 1; }
  errno = ENOSPC; return -1; }
void *env_shmat(int id, const void *a, int fl) { (void)fl; if (fail_now(ENV_SHMAT)) { errno = ENOMEM; return (void *)-1; } id--; if (id < 0 || id >= 8 || !shm[id].used) { errno = EINVAL; return (void *)-1; } se_map((unsigned long)a, shm[id].size); if (shm[id].used == 2) { se_zero((unsigned long)a, shm[id].size); shm[id].used = 1; } env.shm_att++; return (void *)a; }
int env_shmdt(const void *a) { (void)a; if (env.shm_att) { env.shm_att--; return 0; } errno = EINVAL; return -1; }
int env_shmctl(int id, int cmd, void *b) { (void)b; id--; if (id < 0 || id >= 8 || !shm[id].used) { errno = EINVAL; return -1; } if (cmd == IPC_RMID) { if (shm[id].used) env.shm_made--; shm[id].used = 0; } return 0; }
int env_ftok(const char *n, int proj) { int h = proj; while (*n) h = h * 31 + *n++; return h & 0x7fffffff; }

int env_sem_init(void *s, int ps, unsigned v) { (void)ps; env.last_sem = s; *(volatile int *)s = v; return 0; }
int env_sem_wait(void *s) { volatile int *v = (volatile int *)s;
  if (env.sem_intr > 0 && *v == 0) { env.sem_intr--; errno = EINTR; return -1; } /* a signal arrives while it waits */
  for (;;) { se_wait_ne(v, 0); se_atomic_begin(); if (*v > 0) { (*v)--; env.sem_waits++; env.last_sem = s; if (s == env.mutex && ++env.mutex_holders != 1) env.mutex_bad++; se_atomic_end(); return 0; } se_atomic_end(); } }
int env_sem_trywait(void *s) { volatile int *v = (volatile int *)s; int r = 0; se_atomic_begin(); if (*v > 0) (*v)--; else r = -1; se_atomic_end(); if (r) errno = EAGAIN; return r; }
int env_sem_post(void *s) { volatile int *v = (volatile int *)s; se_atomic_begin(); (*v)++; env.sem_posts++; if (s == env.mutex && --env.mutex_holders != 0) env.mutex_bad++; se_atomic_end(); return 0; }
int env_sem_destroy(void *s) { (void)s; return 0; }

int env_sigaction(int sig, const struct sigaction *n, struct sigaction *o) { if (sig == SIGSEGV) { struct sigaction old = env.sa; if (n) env.sa = *n; if (o) *o = old; } return 0; }
int env_getpagesize(void) { return env.page_size ? env.page_size : 4096; }
int env_getpid(void) { return env.pid ? env.pid : 4242; }
long env_syscall(long n, ...) { if (n == SYS_getpid) return env_getpid(); if (n != SYS_gettid) { errno = ENOSYS; return -1; } return env.pid && se_tid() == 0 ? env.pid : 5000 + env.fork_base + se_tid(); }
int env_atfork(void (*prepare)(void), void (*parent)(void), void (*child)(void)) { (void)prepare; (void)parent; if (child) { for (int i = 0; i < 4; i++) if (!env.atfork_child[i]) { env.atfork_child[i] = child; break; } } return 0; }
/* what the child of a fork sees: its own identity, the registered handlers run, one thread */
void env_pthread_exit(void *v) { (void)v; env.thread_exits++; } /* goes on */
void env_fork_child(int pid) { env.pid = pid; env.fork_base += 100; for (int i = 3; i >= 0; i--) if (env.atfork_child[i]) env.atfork_child[i](); }
static void tick(void) { if (!env.clock_step) return; env.now_nsec += env.clock_step; if (env.now_nsec >= 1000000000) { env.now_nsec -= 1000000000; env.now_sec++; } }
int env_clock_gettime(int c, struct timespec *t) { (void)c; tick(); t->tv_sec = env.now_sec; t->tv_nsec = env.now_nsec; return 0; }
int env_gettimeofday(struct timeval *t, void *z) { (void)z; tick(); t->tv_sec = env.now_sec + env.rt_off; t->tv_usec = env.now_nsec / 1000; return 0; }
char *env_getenv(const char *n) { (void)n; return 0; }
char *env_getcwd(char *b, unsigned long n) { (void)n; b[0] = '.'; b[1] = 0; return b; }
int env_backtrace(void **a, int n) { (void)a; (void)n; return 0; }
char **env_backtrace_symbols(void *const *a, int n) { (void)a; (void)n; return (char **)malloc(8); }
int env_sched_yield(void) { se_pause(); return 0; }
char *env_strerror(int e) { (void)e; return (char *)"error"; }
int env_memcmp(const void *a, const void *b, unsigned long n) { const unsigned char *p = a, *q = b; for (unsigned long i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int env_strcmp(const char *a, const char *b) { const unsigned char *p = (const unsigned char *)a, *q = (const unsigned char *)b; for (;; p++, q++) { if (*p != *q) return *p < *q ? -1 : 1; if (!*p) return 0; } }
int env_strncmp(const char *a, const char *b, unsigned long n) { for (unsigned long i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
void *env_memchr(const void *s, int c, unsigned long n) { const unsigned char *p = s; for (unsigned long i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
unsigned long env_strlen(const char *s) { unsigned long n = 0; while (s[n]) n++; return n; }
char *env_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *env_strncpy(char *d, const char *s, unsigned long n) { unsigned long i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *env_strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
char *env_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
/* the subset of sprintf the library uses: %s %d %ld %lu %lx %lX with optional 0-padding */
int env_sp(char *o, const char *f, unsigned long a0, unsigned long a1, unsigned long a2, unsigned long a3) {
  unsigned long av[4] = {a0, a1, a2, a3}; int ai = 0; char *s = o;
  while (*f) { if (*f != '%') { *o++ = *f++; continue; } f++; int z = 0, w = 0; if (*f == '0') { z = 1; f++; } while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0'; while (*f == 'l') f++;
    char c = *f++; unsigned long v = av[ai++ & 3];
    if (c == 's') { const char *p = (const char *)v; while (*p) *o++ = *p++; continue; }
    if (c == '%') { *o++ = '%'; continue; }
    unsigned b = c == 'x' || c == 'X' ? 16 : 10; char t[24]; int n = 0; if (c == 'd' && (long)v < 0) { *o++ = '-'; v = -v; }
    do { unsigned d = v % b; t[n++] = d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10; v /= b; } while (v);
    while (n < w) t[n++] = z ? '0' : ' ';
    while (n) *o++ = t[--n]; }
  *o = 0; return o - s; }
/* deliver a SIGSEGV for an address to the handler the library registered */
int env_fault(unsigned long addr) { if (!(env.sa.sa_flags & SA_SIGINFO)) return -1; siginfo_t si; char *p = (char *)&si; for (unsigned i = 0; i < sizeof si; i++) p[i] = 0; si.si_signo = SIGSEGV; si.si_addr = (void *)addr; env.sa.sa_sigaction(SIGSEGV, &si, 0); return 0; }
