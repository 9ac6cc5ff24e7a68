/* The atomic primitives as the library uses them on x86-64. */
//@ case property=A01 name=case_x86_seq reach=done qtime=60 bounds="every operation, all 64-bit values and operands"
//@ case property=A01 name=case_x86_conc reach=done quick="--preempt=3" thorough="--preempt=4 --param=mix=4" qtime=120 ttime=1200 bounds="two threads, two operations each of each kind (thorough: also mixed with compare-and-swap, add and swap), all values and operands, every interleaving of up to 3 (4) preemptions"
//@ case property=A01 name=case_x86_lock reach=done quick="--preempt=2" thorough="--preempt=3 --param=threads=3" qtime=100 ttime=1200 bounds="two (three) threads through any of the blocking, trying and yielding lock forms, plain and pointer, up to 2 (3) preemptions"
//@ case property=A01 name=case_x86_lock_seq reach=done qtime=60 bounds="all even pointer values"
#include "common.h"
#include "sasatom.h"
#define CASE(n) case_x86_##n
#include "atomic_body.h"
