// Controlled scheduling of real threads. The code under test and everything it is built from is
// compiled with calls to the __tsan_* functions below at every atomic operation; here they are
// scheduling points. Exactly one thread runs at a time; which one goes on at each point is taken
// from the list of deviations the explorer passed in. Futexes, thread creation, sleeping and the
// clocks are replaced as well, so that blocking and time are part of the model.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 40
#define MAXP (1 << 20)
#define MAXDEV 64

struct point { uint64_t addr; uint16_t n; uint8_t kind, tid, write, pad[3]; };
struct shm {
  uint32_t ndev; uint32_t dev[MAXDEV][2];
  uint32_t npts, truncated, status, switches; // status: 0 running, 1 done, 2 deadlock, 3 diverged, 4 too long
  uint64_t ops;
  char msg[8192];
  char obs[8192];
  struct point pts[MAXP];
};
enum { K_ATOMIC, K_CLOCK, K_YIELD, K_FUTEX, K_BLOCK, K_DATA };
enum { RUN, WAIT, JOIN, SLEEP, DONE };
struct th { int state; uint32_t *addr; uint32_t bits; int64_t deadline; int woken, joins; int go, quiet; uint64_t seq; pthread_t p; };

static struct shm *S;
static struct th T[MAXT];
static int nt, cur;
static uint32_t next_dev;
static uint64_t seqno, runlen, maxops = 50000000;
static __thread int me = -1;
static int64_t vmono = 1000000000ll, vreal = 1700000000000000000ll, real_step[8];
static int n_steps = 1;
static uint64_t rnd = 88172645463325252ull;
static pthread_key_t key;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void finish(int st) {
  __atomic_store_n(&S->status, st, __ATOMIC_SEQ_CST);
  raw(SYS_exit_group, st == 1 ? 0 : 100 + st, 0, 0, 0, 0, 0);
}
static void wait_go(int i) {
  while (!__atomic_load_n(&T[i].go, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&T[i].go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&T[i].go, 0, __ATOMIC_RELAXED);
}
static void give(int i) {
  cur = i;
  __atomic_store_n(&T[i].go, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)&T[i].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
// records a point with n options and returns the chosen one
static unsigned option(unsigned n, int kind, uint64_t addr, int write) {
  unsigned c = 0;
  if (S->npts < MAXP) {
    struct point *p = &S->pts[S->npts];
    p->addr = addr; p->n = n; p->kind = kind; p->tid = me; p->write = write;
  } else S->truncated = 1;
  if (next_dev < S->ndev && S->dev[next_dev][0] == S->npts) {
    c = S->dev[next_dev++][1];
    if (c >= n) finish(3);
  }
  if (!S->truncated) S->npts++;
  return c;
}
static int enabled(int *v, int from) { // in round-robin order after `from`, `from` itself last
  int k = 0;
  for (int j = 1; j <= nt; j++) { int i = (from + j) % nt; if (T[i].state == RUN) v[k++] = i; }
  return k;
}
static void advance_time(void) {
  int b = -1;
  for (int i = 0; i < nt; i++)
    if ((T[i].state == WAIT || T[i].state == SLEEP) && T[i].deadline >= 0 && (b < 0 || T[i].deadline < T[b].deadline)) b = i;
  if (b < 0) {
    char *m = S->msg; int o = 0;
    o += snprintf(m + o, 200, "[deadlock] every thread waits for another:");
    for (int i = 0; i < nt; i++) o += snprintf(m + o, 60, " %d:%s", i, T[i].state == WAIT ? "lock" : T[i].state == JOIN ? "join" : "done");
    finish(2);
  }
  if (T[b].deadline > vmono) { vreal += T[b].deadline - vmono; vmono = T[b].deadline; }
  T[b].state = RUN; T[b].woken = 0;
}
// the current thread is at a point (still == 1) or cannot go on (still == 0)
static void reschedule(int still, int kind, uint64_t addr, int write) {
  int v[MAXT], n;
  while ((n = enabled(v, me)) == 0) advance_time();
  int order[MAXT], k = 0;
  int rotate = kind == K_YIELD || ++runlen > 3000;
  if (still && !rotate) order[k++] = me;
  for (int i = 0; i < n; i++) if (v[i] != me) order[k++] = v[i];
  if (still && rotate) order[k++] = me;
  int to = order[0];
  to = order[option(n, kind, addr, write)];
  if (to == me) return;
  runlen = 0;
  S->switches++;
  int self = me, ended = T[self].state == DONE;
  give(to);
  if (!ended) wait_go(self);
}
// harness code has no points, but when it waits for another thread that one has to go on
static void quiet_point(void) {
  static uint64_t n;
  if (nt == 1 || ++n % 3000) return;
  int v[MAXT], self = me;
  enabled(v, me);
  if (v[0] == self) return;
  S->switches++;
  runlen = 0;
  give(v[0]);
  wait_go(self);
}
static void point(int kind, const volatile void *addr, int write) {
  if (me < 0) return;
  if (T[me].quiet) { quiet_point(); return; }
  if (++S->ops > maxops) { snprintf(S->msg, 100, "[hang] %lu operations without an end", (unsigned long)S->ops); finish(4); }
  if (nt == 1) return;
  reschedule(1, kind, (uint64_t)addr, write);
}

// ------------------------------------------------------------------ interface of the explorer
void mcrt_start(void *shm) {
  S = shm; me = 0; nt = 1; cur = 0;
  T[0].state = RUN; T[0].p = pthread_self();
}
void mcrt_clock(int64_t real, int64_t *steps, int n) { vreal = real; n_steps = n; for (int i = 0; i < n; i++) real_step[i] = steps[i]; }
void mcrt_set_real(int64_t real) { vreal = real; }
void mcrt_maxops(uint64_t n) { maxops = n; }
unsigned mcrt_choose(unsigned n) { return me < 0 || n < 2 ? 0 : option(n, K_DATA, 0, 1); }
void mcrt_quiet(int d) { if (me >= 0) T[me].quiet += d; }
int mcrt_me(void) { return me; }
void mcrt_done(void) { finish(1); }
int64_t mcrt_now(void) { return vmono; }

// ------------------------------------------------------------------ threads
struct start { void *(*f)(void *); void *arg; int id; };
static void ended(void *x) {
  if (me < 0) return;
  T[me].state = DONE;
  for (int i = 0; i < nt; i++) if (T[i].state == JOIN && T[i].joins == me) T[i].state = RUN;
  int self = me;
  reschedule(0, K_BLOCK, 0, 1);
  (void)self;
  me = -1;
}
static void *tramp(void *x) {
  struct start s = *(struct start *)x;
  free(x);
  me = s.id;
  pthread_setspecific(key, (void *)1);
  wait_go(me);
  return s.f(s.arg);
}
__attribute__((constructor)) static void init(void) { pthread_key_create(&key, ended); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  static int (*rc)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!rc) rc = dlsym(RTLD_NEXT, "pthread_create");
  if (me < 0) return rc(t, a, f, arg);
  if (nt == MAXT) { snprintf(S->msg, 100, "[harness] too many threads"); finish(5); }
  struct start *s = malloc(sizeof *s);
  s->f = f; s->arg = arg; s->id = nt;
  memset(&T[nt], 0, sizeof T[nt]);
  T[nt].state = RUN; T[nt].deadline = -1;
  int r = rc(t, a, tramp, s);
  if (r) return r;
  T[nt].p = *t;
  nt++;
  point(K_BLOCK, &T[nt - 1], 1);
  return 0;
}
int pthread_join(pthread_t t, void **ret) {
  static int (*rj)(pthread_t, void **);
  if (!rj) rj = dlsym(RTLD_NEXT, "pthread_join");
  if (me >= 0) {
    int id = -1;
    for (int i = 0; i < nt; i++) if (T[i].p == t && i != me) id = i; // the last one with this handle
    if (id >= 0 && T[id].state != DONE) {
      T[me].state = JOIN; T[me].joins = id; T[me].deadline = -1;
      reschedule(0, K_BLOCK, 0, 1);
    }
    // slots of joined threads at the end of the table are used again
    int r = rj(t, ret);
    if (id >= 0) T[id].p = 0;
    while (nt > 1 && T[nt - 1].state == DONE && T[nt - 1].p == 0) nt--;
    return r;
  }
  return rj(t, ret);
}
int sched_yield(void) {
  if (me < 0) return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  point(K_YIELD, 0, 0);
  return 0;
}
static int sleep_for(int64_t d) {
  T[me].state = SLEEP; T[me].deadline = vmono + (d < 0 ? 0 : d);
  reschedule(0, K_BLOCK, 0, 1);
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
  if (me < 0) return -raw(SYS_clock_nanosleep, c, flags, (long)t, (long)rem, 0, 0);
  int64_t v = t->tv_sec * 1000000000ll + t->tv_nsec;
  return sleep_for(flags & TIMER_ABSTIME ? v - vmono : v);
}
int nanosleep(const struct timespec *t, struct timespec *rem) { return clock_nanosleep(CLOCK_MONOTONIC, 0, t, rem); }
int clock_gettime(clockid_t c, struct timespec *t) {
  if (me < 0) { long r = raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
  int64_t v;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    point(K_CLOCK, &vreal, 1);
    if (n_steps > 0) vreal += real_step[n_steps > 1 ? option(n_steps, K_CLOCK, (uint64_t)&vreal, 1) : 0];
    v = vreal;
  } else v = vmono;
  t->tv_sec = v / 1000000000ll; t->tv_nsec = v % 1000000000ll;
  if (t->tv_nsec < 0) { t->tv_nsec += 1000000000ll; t->tv_sec--; }
  return 0;
}
static uint64_t rnd_next(void) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = rnd_next() >> 24;
  return n;
}
static long futex(uint32_t *a, int op, uint32_t val, long to, uint32_t *a2, uint32_t val3) {
  int cmd = op & 127;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point(K_FUTEX, a, 0);
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    const struct timespec *ts = (void *)to;
    int64_t d = -1;
    if (ts) {
      d = ts->tv_sec * 1000000000ll + ts->tv_nsec;
      if (cmd == FUTEX_WAIT) d += vmono;
      else if (op & FUTEX_CLOCK_REALTIME) d = d - vreal + vmono;
      if (d < 0) d = 0;
    }
    T[me].state = WAIT; T[me].addr = a; T[me].deadline = d; T[me].woken = 0; T[me].seq = seqno++;
    T[me].bits = cmd == FUTEX_WAIT ? ~0u : val3;
    reschedule(0, K_BLOCK, 0, 1);
    T[me].addr = 0;
    if (T[me].woken) return 0;
    errno = ETIMEDOUT; return -1;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int n = 0;
    while (n < (int)val) {
      int b = -1;
      for (int i = 0; i < nt; i++)
        if (T[i].state == WAIT && T[i].addr == a && (cmd == FUTEX_WAKE || (T[i].bits & val3)) && (b < 0 || T[i].seq < T[b].seq)) b = i;
      if (b < 0) break;
      T[b].state = RUN; T[b].woken = 1; n++;
    }
    point(K_FUTEX, a, 1);
    return n;
  }
  snprintf(S->msg, 100, "[harness] futex operation %d", op); finish(5);
  return -1;
}
long syscall(long n, ...) {
  va_list l; va_start(l, n);
  long a = va_arg(l, long), b = va_arg(l, long), c = va_arg(l, long), d = va_arg(l, long), e = va_arg(l, long), f = va_arg(l, long);
  va_end(l);
  if (n == SYS_futex && me >= 0) return futex((uint32_t *)a, b, c, d, (uint32_t *)e, f);
  if (n == SYS_getrandom) return getrandom((void *)a, b, c);
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

// ------------------------------------------------------------------ instrumentation
#define SEQ __ATOMIC_SEQ_CST
#define OPS(N, U) \
  U __tsan_atomic##N##_load(const volatile U *a, int m) { point(K_ATOMIC, a, 0); return __atomic_load_n(a, SEQ); } \
  void __tsan_atomic##N##_store(volatile U *a, U v, int m) { point(K_ATOMIC, a, 1); __atomic_store_n(a, v, SEQ); } \
  U __tsan_atomic##N##_exchange(volatile U *a, U v, int m) { point(K_ATOMIC, a, 1); return __atomic_exchange_n(a, v, SEQ); } \
  U __tsan_atomic##N##_fetch_add(volatile U *a, U v, int m) { point(K_ATOMIC, a, 1); return __atomic_fetch_add(a, v, SEQ); } \
  U __tsan_atomic##N##_fetch_sub(volatile U *a, U v, int m) { point(K_ATOMIC, a, 1); return __atomic_fetch_sub(a, v, SEQ); } \
  U __tsan_atomic##N##_fetch_and(volatile U *a, U v, int m) { point(K_ATOMIC, a, 1); return __atomic_fetch_and(a, v, SEQ); } \
  U __tsan_atomic##N##_fetch_or(volatile U *a, U v, int m) { point(K_ATOMIC, a, 1); return __atomic_fetch_or(a, v, SEQ); } \
  U __tsan_atomic##N##_fetch_xor(volatile U *a, U v, int m) { point(K_ATOMIC, a, 1); return __atomic_fetch_xor(a, v, SEQ); } \
  U __tsan_atomic##N##_fetch_nand(volatile U *a, U v, int m) { point(K_ATOMIC, a, 1); return __atomic_fetch_nand(a, v, SEQ); } \
  U __tsan_atomic##N##_compare_exchange_val(volatile U *a, U e, U v, int m, int f) { point(K_ATOMIC, a, 1); __atomic_compare_exchange_n(a, &e, v, 0, SEQ, SEQ); return e; }
OPS(8, uint8_t) OPS(16, uint16_t) OPS(32, uint32_t) OPS(64, uint64_t)
void __tsan_atomic_thread_fence(int m) {}
void __tsan_atomic_signal_fence(int m) {}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
#define RW(N) \
  void __tsan_read##N(void *a) {} \
  void __tsan_write##N(void *a) {} \
  void __tsan_read_write##N(void *a) {} \
  void __tsan_unaligned_read##N(void *a) {} \
  void __tsan_unaligned_write##N(void *a) {} \
  void __tsan_unaligned_read_write##N(void *a) {} \
  void __tsan_volatile_read##N(void *a) {} \
  void __tsan_volatile_write##N(void *a) {} \
  void __tsan_unaligned_volatile_read##N(void *a) {} \
  void __tsan_unaligned_volatile_write##N(void *a) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) {}
void __tsan_write_range(void *a, size_t n) {}
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}
