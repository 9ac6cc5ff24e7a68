/* What harnesses may set in, and read from, the operating system model. */
#ifndef ENV_CTL_H
#define ENV_CTL_H
#ifdef __cplusplus
extern "C" {
#endif
enum { ENV_NONE, ENV_OPEN, ENV_FTRUNCATE, ENV_MMAP, ENV_SHMGET, ENV_SHMAT, ENV_CLOSE };
struct env_state {
  int fail_op, fail_skip, fail_all;                       /* fault injection: the fail_skip-th next call of fail_op fails, or every one */
  int creates, removes, maps, unmaps, open_fds, shm_made, shm_att;
  unsigned long map_addr, map_len, unmap_addr, unmap_len; const char *map_name; unsigned long map_file_size, map_off; int map_flags, map_prot, bad_unmaps;
  unsigned long ms_addr, ms_len, ma_addr, ma_len; int ms_flags, ms_calls, ms_rc, ma_advice, ma_calls, ma_rc;
  int sem_waits, sem_posts, sem_intr, page_size, bad_map; void *last_sem, *mutex; int mutex_holders, mutex_bad; long now_sec, now_nsec, clock_step, rt_off;   /* the clocks, advanced by clock_step at every read; rt_off: distance of the time of day from the monotonic clock */
  const char *proc_name, *proc_data; long proc_len; int proc_reads, thread_exits, pid, fork_base; void (*atfork_child[4])(void);
  struct sigaction sa;
};
extern struct env_state env;
void env_fork_child(int pid); int env_file_exists(const char *n); int env_file_count(void); int env_fault(unsigned long addr);
#ifdef __cplusplus
}
#endif
#endif
