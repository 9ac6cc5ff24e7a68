/* Timer value to seconds and sub-second part, both conversions, at several timer frequencies. */
//@ case property=T01 name=case_gettime reach=done qtime=300 ttime=3000 bounds="every 64-bit timer value and offset; 8 timer frequencies from 1 MHz to 5 GHz"
//@ case property=T01 name=case_gtod reach=done qtime=300 ttime=3000 bounds="as case_gettime, microseconds"
//@ case property=T01 name=case_gettime_mono reach=done qtime=300 ttime=3000 bounds="every ordered pair of 64-bit timer values"
//@ case property=T01 name=case_gtod_mono reach=done qtime=300 ttime=3000 bounds="as case_gettime_mono, microseconds"
//@ case property=T02 name=case_track_gettime reach=done qtime=400 ttime=3000 bounds="initialisation at 24 times and with 5 delays (0 to 1 ms) of its clock reads, asked at any later time below 2^33 s"
//@ case property=T02 name=case_track_gtod reach=done qtime=400 ttime=3000 bounds="as case_track_gettime, for the microsecond form; 4 distances between the two system clocks"
//@ build sources=sphgettime.c,sphgtod.c
#include "common.h"
#include "env_ctl.h"
#include "sphtimer.h"
#include "sphgettime.h"
#include "sphgtod.h"
extern void __sphgettime_init(void), __sphgtod_init(void);
static const unsigned long fr[] = {1000000000ul, 512000000ul, 1000000ul, 2400000000ul, 19200000ul, 4999999937ul, 33333333ul, 999999937ul};
static unsigned long setup(void) { unsigned long f = fr[se_choose("freq", 8)]; sph_cpu_frequency = f; __sphgettime_init(); __sphgtod_init(); return f; }
static void exact(unsigned long f, unsigned long t, unsigned long sec, unsigned long sub, unsigned long per) {
  se_assert(sub < per, "[T01] the sub-second part is below one second");
  unsigned long s = t / f, r = t % f; se_assert(sec == s, "[T01] whole seconds are exact");
  /* r/f and sub/per differ by less than one unit: |r*per - sub*f| < f */
  unsigned long a = r * per, b = sub * f; se_assert(a - b < f || b - a < f, "[T01] the sub-second part is within one unit of the exact quotient"); }
void case_gettime(void) { unsigned long f = setup(), t = se_u64("timer"), k = se_u64("offset"); struct timespec ts;
  se_assert(sphtb2gettime_withfactor(&ts, t, k) == 0, "[T01] conversion succeeds"); exact(f, t + k, ts.tv_sec, ts.tv_nsec, 1000000000ul); se_reach("done"); }
void case_gtod(void) { unsigned long f = setup(), t = se_u64("timer"), k = se_u64("offset"); struct timeval tv;
  se_assert(sphtb2gtod_withfactor(&tv, t, k) == 0, "[T01] conversion succeeds"); exact(f, t + k, tv.tv_sec, tv.tv_usec, 1000000ul); se_reach("done"); }
void case_gettime_mono(void) { setup(); unsigned long t = se_u64("t1"), u = se_u64("t2"); struct timespec a, b; se_assume(t <= u); sphtb2gettime_withfactor(&a, t, 0); sphtb2gettime_withfactor(&b, u, 0);
  se_assert((unsigned long)a.tv_sec <= (unsigned long)b.tv_sec, "[T01] a later timer value never converts to an earlier second");
  se_assume(a.tv_sec == b.tv_sec); se_assert((unsigned long)a.tv_nsec <= (unsigned long)b.tv_nsec, "[T01] a later timer value never converts to an earlier time"); se_reach("done"); }
void case_gtod_mono(void) { setup(); unsigned long t = se_u64("t1"), u = se_u64("t2"); struct timeval a, b; se_assume(t <= u); sphtb2gtod_withfactor(&a, t, 0); sphtb2gtod_withfactor(&b, u, 0);
  se_assert((unsigned long)a.tv_sec <= (unsigned long)b.tv_sec, "[T01] a later timer value never converts to an earlier second");
  se_assume(a.tv_sec == b.tv_sec); se_assert((unsigned long)a.tv_usec <= (unsigned long)b.tv_usec, "[T01] a later timer value never converts to an earlier time"); se_reach("done"); }

/* The library's clocks against the system's: the timer is read around the system clock once, at initialisation. */
static unsigned long now(void) { return env.now_sec * 1000000000ul + env.now_nsec; }
static unsigned long begin(void) { static const long sec[] = {0, 1, 123456, 4294967295l}, nsec[] = {0, 1, 2, 500000001, 999999998, 999999999}, step[] = {0, 1, 2, 1000, 999999};
  sph_cpu_frequency = 1000000000ul; env.now_sec = sec[se_choose("init_sec", 4)]; env.now_nsec = nsec[se_choose("init_nsec", 6)]; env.clock_step = step[se_choose("read_delay", 5)]; return 3 * env.clock_step; }
static void later(void) { unsigned long s = se_u64("now_sec"), n = se_u64("now_nsec"); se_assume(s < (1ul << 33) && n < 1000000000ul); se_assume(s > (unsigned long)env.now_sec || (s == (unsigned long)env.now_sec && n >= (unsigned long)env.now_nsec)); env.now_sec = s; env.now_nsec = n; env.clock_step = 0; }
void case_track_gettime(void) { unsigned long slack = begin(); __sphgettime_init(); later(); struct timespec ts; sphgettime(&ts);
  se_assert((unsigned long)ts.tv_nsec < 1000000000ul, "[T02] the time reported is normalised");
  unsigned long t = ts.tv_sec * 1000000000ul + ts.tv_nsec, w = now(); se_assert(t - w <= slack + 2 || w - t <= slack + 2, "[T02] the time reported is the system's, within the duration of the initialisation's clock reads and two nanoseconds"); se_reach("done"); }
void case_track_gtod(void) { unsigned long slack = begin(); static const long off[] = {0, 1, 1700000000l, 4294967295l}; env.rt_off = off[se_choose("epoch", 4)]; __sphgtod_init(); later(); struct timeval tv; sphgtod(&tv, 0);
  se_assert((unsigned long)tv.tv_usec < 1000000ul, "[T02] the time reported is normalised");
  unsigned long t = tv.tv_sec * 1000000ul + tv.tv_usec, w = (env.now_sec + env.rt_off) * 1000000ul + (unsigned long)env.now_nsec / 1000, sl = slack / 1000 + 3;
  se_assert(t - w <= sl || w - t <= sl, "[T02] the time of day reported is the system's, within the duration of the initialisation's clock reads and three microseconds"); se_reach("done"); }
