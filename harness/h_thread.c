/* Process and thread identification, and the command line text. */
//@ case property=P01 name=case_thread_ids reach=thread quick="--preempt=2" thorough="--preempt=4" qtime=60 bounds="three threads, every order of three calls in each (the caching form, the fast form after it), two pre-emptions"
//@ case property=P01 name=case_process_id reach=first,later qtime=60 bounds="before and after the initialisation of the library, any process number"
//@ case property=P01 name=case_fork reach=child,grandchild qtime=60 bounds="any subset of the identification calls made before the fork, any process number, two generations"
//@ case property=P01 name=case_fork_thread reach=child qtime=60 bounds="a fork from a second thread, any subset of the calls made before"
//@ case property=P01 name=case_cmdline reach=short,cut,none qtime=200 bounds="every content and every length from a failed read to 300 bytes; the text asked for first, after the process number, or initialised at load time"
#include "common.h"
#include "env_ctl.h"
#include "sphthread.h"
extern void sph_init_procinfo(void);
static pid_t self(void) { return env_syscall(SYS_gettid); }
static pid_t seen[4];
static void ids(void *a) { int k = (int)(long)a; for (int i = 0; i < 3; i++) { int fast = i && se_choose("fast", 2); pid_t t = fast ? sphFastGetTID() : sphdeGetTID();
    se_assert(t == self(), "[P01] a thread is given its own identification, in every call and form"); seen[k] = t; }
  se_assert(sphdeGetPID() == env_getpid() && sphFastGetPID() == env_getpid(), "[P01] every thread is given the number of its process"); se_reach("thread"); }
void case_thread_ids(void) { for (int k = 0; k < 3; k++) se_spawn(ids, (void *)(long)k); se_join_all();
  se_assert(sphdeGetTID() == self(), "[P01] a thread is given its own identification, in every call and form");
  se_assert(seen[0] != seen[1] && seen[0] != seen[2] && seen[1] != seen[2], "[P01] two threads never have the same identification"); }
static int pidval(const char *n) { int p = se_u32(n); se_assume(p > 5200 && p <= 4194304); return p; }
void case_process_id(void) { int p = pidval("pid"); if (se_bool("loaded")) { se_assert(sphFastGetPID() == 4242, "[P01] the fast form gives the number of the process once the library is loaded"); se_reach("later"); }
  else { env.pid = p; procID = 0; se_reach("first"); se_assert(sphdeGetPID() == p, "[P01] the number of the process is the system's"); }
  for (int i = 0; i < 2; i++) { int e = env_getpid(); se_assert(sphdeGetPID() == e && sphFastGetPID() == e, "[P01] the number of the process is the system's, in every call and form"); } }
static void some_calls(const char *n) { unsigned u = se_choose(n, 8); if (u & 1) sphdeGetTID(); if (u & 2) sphdeGetPID(); if (u & 4) sphdeGetCmdLine(); }
static void in_child(void) { unsigned o = se_choose("order", 2); if (o) se_assert(sphFastGetPID() == env_getpid(), "[P01] the child of a fork is given its own process number by the fast form");
  se_assert(sphdeGetTID() == self(), "[P01] the child of a fork is given its own thread identification"); se_assert(sphFastGetTID() == self(), "[P01] the child of a fork is given its own thread identification by the fast form");
  se_assert(sphdeGetPID() == env_getpid(), "[P01] the child of a fork is given its own process number"); se_assert(sphFastGetPID() == env_getpid(), "[P01] the child of a fork is given its own process number by the fast form"); }
void case_fork(void) { int p = pidval("child"), q = pidval("grandchild"); se_assume(p != q); some_calls("before"); env_fork_child(p); if (se_bool("again")) { some_calls("between"); env_fork_child(q); in_child(); se_reach("grandchild"); } else { in_child(); se_reach("child"); } }
static void forker(void *a) { int p = *(int *)a; some_calls("before"); env_fork_child(p); in_child(); se_reach("child"); }
void case_fork_thread(void) { int p = pidval("child"); some_calls("main"); se_spawn(forker, &p); se_join_all(); }
static unsigned char text[300];
void case_cmdline(void) { se_bytes(text, 300, "text"); long n = (int)se_u32("length"); se_assume(n >= -1 && n <= 300); int p = 4242; env.proc_name = "/proc/4242/cmdline"; env.proc_data = (char *)text; n = se_concretize(n + 1) - 1; env.proc_len = n;
  char *c; switch (se_choose("how", 3)) { case 0: procID = 0; c = sphdeGetCmdLine(); break; case 1: procID = 0; se_assert(sphdeGetPID() == p, "[P01] the number of the process is the system's"); c = sphdeGetCmdLine(); break; default: sph_init_procinfo(); c = sphdeGetCmdLine(); }
  int want = n < 0 ? 0 : n > 255 ? 255 : n; unsigned bad = 0; for (int i = 0; i < want; i++) bad |= c[i] ^ (char)text[i];
  se_assert(!bad, "[P01] the command line is the beginning of the system's record"); se_assert(c[want] == 0, "[P01] the command line is terminated where the record ends, or at the size of the buffer");
  se_assert(env.open_fds == 0, "[P01] reading the command line leaves no descriptor open"); se_assert(sphdeGetCmdLine() == c, "[P01] the command line stays where it is");
  if (n < 1) se_reach("none"); else if (n > 255) se_reach("cut"); else se_reach("short"); }
