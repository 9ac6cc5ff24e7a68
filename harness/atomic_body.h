typedef struct { unsigned long v; } cell_t;
static unsigned long mem[4] __attribute__((aligned(16)));
enum { ADD, ADDP, AND, ANDL, OR, ORL, CAS, SWAP, INC, DEC, INCL, DECL, NOPS };
static __attribute__((noinline,noipa)) unsigned long run(unsigned long *cell, int op, unsigned long a, unsigned long b) {
  switch (op) {
  case ADD: return (unsigned long)sas_fetch_and_add((long *)cell, (long)a);
  case ADDP: return (unsigned long)sas_fetch_and_add_ptr((void **)cell, (long)a);
  case AND: return (unsigned int)sas_fetch_and_and((unsigned int *)cell, (int)a);
  case ANDL: return (unsigned long)sas_fetch_and_and_long(cell, (long)a);
  case OR: return (unsigned int)sas_fetch_and_or((unsigned int *)cell, (int)a);
  case ORL: return (unsigned long)sas_fetch_and_or_long(cell, (long)a);
  case CAS: return sas_compare_and_swap((volatile long *)cell, (long)b, (long)a) != 0;
  case SWAP: return (unsigned long)sas_atomic_swap((long *)cell, (long)a);
  case INC: sas_atomic_inc((long *)cell); return 0;
  case DEC: sas_atomic_dec((long *)cell); return 0;
  case INCL: return (unsigned long)sas_atomic_inc_long((volatile long *)cell);
  default: return (unsigned long)sas_atomic_dec_long((volatile long *)cell); } }
/* the documented effect: previous value returned, new value stored */
static unsigned long model(int op, unsigned long *m, unsigned long a, unsigned long b) {
  unsigned long o = *m;
  switch (op) {
  case ADD: case ADDP: *m = o + a; return o;
  case AND: *m = (o & ~0xfffffffful) | ((unsigned)o & (unsigned)a); return (unsigned)o;
  case ANDL: *m = o & a; return o;
  case OR: *m = o | (unsigned)a; return (unsigned)o;
  case ORL: *m = o | a; return o;
  case CAS: if (o == b) { *m = a; return 1; } return 0;
  case SWAP: *m = a; return o;
  case INC: *m = o + 1; return 0;
  case DEC: *m = o - 1; return 0;
  case INCL: *m = o + 1; return o;
  default: *m = o - 1; return o; } }
void CASE(seq)(void) {
  int op = (int)se_choose("op", NOPS); unsigned long v = se_u64("value"), a = se_u64("operand"), b = se_u64("expected"), m = v, g = se_u64("guard");
  mem[0] = mem[2] = g; mem[1] = v; unsigned long r = run(&mem[1], op, a, b), w = model(op, &m, a, b);
  se_assert(r == w, "[A01] a primitive returns something else than the previous value (or whether it swapped)"); se_assert(mem[1] == m, "[A01] a primitive stores the wrong value"); se_assert(mem[0] == g && mem[2] == g, "[A01] a primitive writes beside its operand"); se_reach("done"); }
/* two threads, two operations each: the results and the final value are those of some one-after-another order */
static int ops[4]; static unsigned long va[4], vb[4], res[4];
static void worker(void *p) { int t = (int)(long)p; for (int i = 2 * t; i < 2 * t + 2; i++) res[i] = run(&mem[1], ops[i], va[i], vb[i]); }
void CASE(conc)(void) {
  unsigned long v = se_u64("value"); mem[1] = v; for (int i = 0; i < 4; i++) { va[i] = se_u64("operand"); vb[i] = se_u64("expected"); }
  int k = (int)se_choose("op", NOPS), l = (int)se_choose("op2", (int)se_param("mix", 1)); static const int other[] = {-1, CAS, ADD, SWAP}; for (int i = 0; i < 4; i++) ops[i] = (i & 1) && l ? other[l] : k;
  se_shared(mem, sizeof mem); se_spawn(worker, (void *)0); se_spawn(worker, (void *)1); se_join_all();
  static const unsigned char ord[6][4] = {{0,1,2,3},{0,2,1,3},{0,2,3,1},{2,0,1,3},{2,0,3,1},{2,3,0,1}}; int ok = 0;
  for (int o = 0; o < 6; o++) { unsigned long m = v; int good = 1; for (int i = 0; i < 4; i++) { int j = ord[o][i]; good &= model(ops[j], &m, va[j], vb[j]) == res[j]; } ok |= good & (m == mem[1]); }
  se_assert(ok, "[A01] concurrent operations do not behave as if executed one after another"); se_reach("done"); }
/* locks */
static volatile sas_spin_lock_t sl; static volatile sas_lock_ptr_t pl; static volatile int inside, entered; static int how[3], max_in; static void *mark;
static void critical(void) { inside++; if (inside > max_in) max_in = inside; int e = entered; se_yield(); entered = e + 1; inside--; }
static void locker(void *p) { int t = (int)(long)p;
  switch (how[t]) {
  case 0: sas_spin_lock(&sl); critical(); sas_spin_unlock(&sl); break;
  case 1: if (sas_spin_trylock(&sl) == 0) { critical(); sas_spin_unlock(&sl); } break;
  case 2: sas_spin_lock_with_yield(&sl); critical(); sas_spin_unlock(&sl); break;
  case 3: se_assert(sas_lock_ptr(&pl) == mark, "[A01] locking a pointer returns its value"); critical(); sas_unlock_ptr(&pl); break;
  case 4: if (sas_trylock_ptr(&pl) == 0) { critical(); sas_unlock_ptr(&pl); } break;
  default: sas_lock_ptr_with_yield(&pl); critical(); sas_unlock_ptr(&pl); } }
void CASE(lock)(void) {
  int n = (int)se_param("threads", 2), kind = (int)se_choose("pointer", 2), must = 0; sas_spin_lock_init(&sl); sas_lock_ptr_init(&pl); se_assert(sl == 0 && pl == 0, "[A01] a fresh lock is free");
  unsigned long w = se_u64("pointer"); se_assume((w & 1) == 0); mark = (void *)w; pl = mark;
  for (int t = 0; t < n; t++) { how[t] = 3 * kind + (int)se_choose("how", 3); must += how[t] % 3 != 1; }
  se_shared((void *)&sl, sizeof sl); se_shared((void *)&pl, sizeof pl); se_shared((void *)&inside, sizeof inside); se_shared((void *)&entered, sizeof entered);
  for (int t = 0; t < n; t++) se_spawn(locker, (void *)(long)t); se_join_all();
  se_assert(max_in <= 1, "[A01] two threads hold one spin lock"); se_assert(entered >= must && entered <= n, "[A01] an update inside a lock is lost"); se_assert(sl == 0 && pl == mark, "[A01] an unlocked lock has its value back"); se_reach("done"); }
/* single-threaded lock states */
void CASE(lock_seq)(void) {
  unsigned long w = se_u64("pointer"), x = se_u64("new"); se_assume((w & 1) == 0); se_assume((x & 1) == 0); pl = (void *)w; sl = 0;
  se_assert(sas_spin_trylock(&sl) == 0, "[A01] a free lock is taken at the first try"); for (int i = 0; i < 3; i++) se_assert(sas_spin_trylock(&sl) != 0, "[A01] a held lock is refused"); sas_spin_unlock(&sl); se_assert(sas_spin_trylock(&sl) == 0, "[A01] a released lock is free again");
  se_assert(sas_trylock_ptr(&pl) == 0, "[A01] a free lock is taken at the first try"); for (int i = 0; i < 3; i++) se_assert(sas_trylock_ptr(&pl) != 0, "[A01] a held lock is refused"); sas_set_locked_ptr(&pl, (void *)x); se_assert(pl == (void *)(x | 1), "[A01] a held pointer takes its new value and stays held"); sas_unlock_ptr(&pl); se_assert(pl == (void *)x, "[A01] unlocking leaves the pointer");
  sas_set_unlocked_ptr(&pl, (void *)w); se_assert(pl == (void *)(w | 1), "[A01] setting a free pointer leaves it held"); sas_unlock_ptr(&pl); se_assert(pl == (void *)w, "[A01] unlocking leaves the pointer"); se_reach("done"); }
