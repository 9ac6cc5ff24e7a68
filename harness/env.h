/* Forced include for every unit: OS calls of the code under test go to the model in env.c. */
#ifndef ENV_H
#define ENV_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <semaphore.h>
#include <time.h>
#include <pthread.h>
#include <execinfo.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <sys/time.h>
#include <sys/syscall.h>
#ifdef __cplusplus
extern "C" {
#endif
int env_open(const char *, int, ...); int env_close(int); int env_stat(const char *, struct stat *); int env_remove(const char *); int env_ftruncate(int, long);
long env_read(int, void *, unsigned long);
void *env_mmap(void *, unsigned long, int, int, int, long); int env_munmap(void *, unsigned long); int env_msync(void *, unsigned long, int); int env_madvise(void *, unsigned long, int);
int env_shmget(int, unsigned long, int); void *env_shmat(int, const void *, int); int env_shmdt(const void *); int env_shmctl(int, int, void *); int env_ftok(const char *, int);
int env_sem_init(void *, int, unsigned); int env_sem_wait(void *); int env_sem_post(void *); int env_sem_destroy(void *); int env_sem_trywait(void *);
int env_sigaction(int, const struct sigaction *, struct sigaction *); int env_getpagesize(void); int env_getpid(void); long env_gettid(void);
int env_clock_gettime(int, struct timespec *); int env_gettimeofday(struct timeval *, void *); char *env_getenv(const char *); char *env_getcwd(char *, unsigned long); int env_backtrace(void **, int); char **env_backtrace_symbols(void *const *, int);
int env_sched_yield(void); void env_exit(int); int env_memcmp(const void *, const void *, unsigned long); int env_strcmp(const char *, const char *); unsigned long env_strlen(const char *); void *env_memchr(const void *, int, unsigned long); char *env_strcpy(char *, const char *); char *env_strncpy(char *, const char *, unsigned long); int env_strncmp(const char *, const char *, unsigned long); char *env_strerror(int);
char *env_strcat(char *, const char *); char *env_strchr(const char *, int); void *env_memchr(const void *, int, unsigned long); int env_sp(char *, const char *, unsigned long, unsigned long, unsigned long, unsigned long);
int env_atfork(void (*)(void), void (*)(void), void (*)(void)); long env_syscall(long n, ...); extern __thread int env_errno; void env_pthread_exit(void *);
void se_pause(void);
#ifdef __cplusplus
}
#endif
#undef errno
#define errno env_errno
#ifndef ENV_NO_RENAME
#define open env_open
#define close env_close
#define stat(a,b) env_stat(a,b)
#define remove(a) env_remove(a)
#define ftruncate(a,b) env_ftruncate(a,b)
#define read(a,b,c) env_read(a,b,c)
#define mmap env_mmap
#define munmap env_munmap
#define msync env_msync
#define madvise env_madvise
#define shmget env_shmget
#define shmat env_shmat
#define shmdt env_shmdt
#define shmctl env_shmctl
#define ftok env_ftok
#define sem_init env_sem_init
#define sem_wait env_sem_wait
#define sem_post env_sem_post
#define sem_destroy env_sem_destroy
#define sem_trywait env_sem_trywait
#define getpagesize env_getpagesize
#define getpid env_getpid
#define clock_gettime(a,b) env_clock_gettime(a,b)
#define gettimeofday(a,b) env_gettimeofday(a,b)
#define getenv env_getenv
#define getcwd env_getcwd
#define backtrace env_backtrace
#define backtrace_symbols env_backtrace_symbols
#define sched_yield env_sched_yield
#define strerror env_strerror
#define memcmp env_memcmp
#define strcmp env_strcmp
#define strlen env_strlen
#define memchr env_memchr
#define strcpy env_strcpy
#define strncpy env_strncpy
#define strncmp env_strncmp
#define strcat env_strcat
#define strchr env_strchr
#define pthread_atfork env_atfork
#define pthread_exit env_pthread_exit
#define syscall env_syscall
#define sprintf(...) env_sp_n(__VA_ARGS__, 0, 0, 0, 0)
#define snprintf(b, n, ...) env_sp_n(b, __VA_ARGS__, 0, 0, 0, 0)
#define env_sp_n(b, f, a, c, d, e, ...) env_sp(b, f, (unsigned long)(a), (unsigned long)(c), (unsigned long)(d), (unsigned long)(e))
#define sigaction(a,b,c) env_sigaction(a,b,c)
#define sigemptyset(a) ((void)(a))
#endif
#ifdef __clang__   /* the code under test selects features by gcc version; system headers are all read by now */
#undef __GNUC__
#undef __GNUC_MINOR__
#undef __GNUC_PATCHLEVEL__
#define __GNUC__ 13
#define __GNUC_MINOR__ 3
#define __GNUC_PATCHLEVEL__ 0
#endif
#endif
