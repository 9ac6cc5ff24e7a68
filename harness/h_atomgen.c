/* The same primitives from the portable header, for compilers without a port of their own. */
//@ case property=A01 name=case_gen_seq reach=done qtime=60 bounds="as case_x86_seq, portable header"
//@ case property=A01 name=case_gen_conc reach=done quick="--preempt=3" thorough="--preempt=4 --param=mix=4" qtime=120 ttime=1200 bounds="as case_x86_conc, portable header"
//@ case property=A01 name=case_gen_lock reach=done quick="--preempt=2" thorough="--preempt=3 --param=threads=3" qtime=100 ttime=1200 bounds="as case_x86_lock, portable header"
//@ case property=A01 name=case_gen_lock_seq reach=done qtime=60 bounds="as case_x86_lock_seq, portable header"
#include <sched.h>
#include "se.h"
#undef __x86_64__
#include "sasatom.h"
#define __x86_64__ 1
#define CASE(n) case_gen_##n
#include "atomic_body.h"
