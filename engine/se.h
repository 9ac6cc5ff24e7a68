/* Harness API: interpreted symbolically by sphse, natively by se_runtime.c (replay). */
#ifndef SE_H
#define SE_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t se_u64(const char *name); uint32_t se_u32(const char *name); uint16_t se_u16(const char *name); uint8_t se_u8(const char *name); uint8_t se_bool(const char*name);
void se_bytes(void *p, uint64_t n, const char *name);
uint64_t se_range(const char *name, uint64_t lo, uint64_t hi);   /* lo <= result <= hi, symbolic */
uint64_t se_choose(const char *name, uint64_t n);                /* 0..n-1, one path per value */
uint64_t se_concretize(uint64_t v);
void se_assume(int cond);
void se_assert(int cond, const char *msg);
void se_reach(const char *label);                                /* vacuity witness */
void se_map(uint64_t addr, uint64_t len); void se_unmap(uint64_t addr, uint64_t len);
void se_zero(uint64_t addr, uint64_t len);                      /* contents become zero */
int se_valid(const void *p, uint64_t len);
int se_spawn(void (*fn)(void *), void *arg); void se_join(int tid); void se_join_all(void);
void se_atomic_begin(void); void se_atomic_end(void); void se_yield(void); int se_tid(void);
void se_shared(const volatile void *p, uint64_t len);
void se_wait_ne(volatile int *p, int v);                         /* block while *p == v */
int64_t se_param(const char *name, int64_t dflt);
int se_is_symbolic(uint64_t v);
int se_feasible(int cond);
#ifdef __cplusplus
}
#endif
#endif
