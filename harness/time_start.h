/* The clocks as the program finds them when it starts, wherever the library stands on the command line of the linker. */
#include "common.h"
#include "env_ctl.h"
#include "sphtimer.h"
#include "sphgettime.h"
#include "sphgtod.h"
static void started(void) {
  se_assert(sph_cpu_frequency == 1000000000ul && sphfastcpufreq() == sphgetcpufreq(), "[T02] the timer's frequency is known when the program starts");
  unsigned long s = se_u64("now_sec"), n = se_u64("now_nsec"); se_assume(s < (1ul << 33) && n < 1000000000ul && s > (unsigned long)env.now_sec); env.now_sec = s; env.now_nsec = n;
  struct timespec ts; struct timeval tv; sphgettime(&ts); sphgtod(&tv, 0);
  se_assert((unsigned long)ts.tv_nsec < 1000000000ul && (unsigned long)tv.tv_usec < 1000000ul, "[T02] the time reported is normalised");
  unsigned long t = ts.tv_sec * 1000000000ul + ts.tv_nsec, w = s * 1000000000ul + n, u = tv.tv_sec * 1000000ul + tv.tv_usec, x = (s + env.rt_off) * 1000000ul + n / 1000;
  se_assert(t - w <= 2 || w - t <= 2, "[T02] the program finds the monotonic clock not initialised"); se_assert(u - x <= 3 || x - u <= 3, "[T02] the program finds the time of day not initialised"); se_reach("done"); }
