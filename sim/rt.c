// Deterministic-simulation runtime: a token-passing scheduler for real OS threads, and
// interposed libc entry points (threads, futex, clocks, entropy, file I/O) that are live
// only on threads that belong to a simulated run.  Compiled by gcc, never instrumented.
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <pthread.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <linux/futex.h>

#define MAXT 96
#define MAXDEV 200000
#define MAXFAULT 64
#define NKIND 16
#define EXPORT __attribute__((visibility("default")))

enum { K_LOAD, K_STORE, K_RMW, K_CAS, K_FUTEX, K_SPAWN, K_JOIN, K_YIELD, K_IO, K_CLOCK, K_USER, K_OP, K_EXIT, K_FENCE };
enum { POL_RANDOM, POL_PCT, POL_BURST, POL_REPLAY, POL_NONE };
enum { T_FREE, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
// I/O operation classes, the coordinate system of the fault plan
enum { IO_OPEN, IO_READ, IO_WRITE, IO_MMAP, IO_SEEK, IO_CLOSE, IO_STAT, IO_RENAME, IO_CLOCK, IO_SYNC, IO_WOPEN, NIO };
// fault actions
enum { F_NONE, F_ERRNO, F_SHORT, F_CRASH, F_JUMP, F_FULL };
enum { OUT_NONE = 0, OUT_OK = 1, OUT_VIOLATION = 2, OUT_HARNESS = 3 };

typedef struct { uint32_t tid, to; uint64_t lidx; } dev_t_;
typedef struct { uint32_t cls, action; uint64_t nth; int64_t arg; uint32_t persistent; uint32_t fired; } fault_t;

typedef struct {
  // ---- configuration, written by the harness before a run
  uint64_t sched_seed, entropy_seed;
  uint32_t policy; uint32_t prob[NKIND];
  uint32_t pct_depth; uint32_t pct_est; uint32_t burst_mean;
  uint32_t stall_n; uint32_t stall_est; uint32_t stall_len;
  uint32_t hot_mod, hot_cls, hot_pick, hot_prob, hot_len; // threads are held back at a few chosen addresses
  uint64_t max_steps; uint64_t tick_ns;
  uint32_t nfault; fault_t fault[MAXFAULT];
  int64_t disk_budget;            // bytes that may still be written, -1: unlimited
  uint32_t entropy_same;          // every generator is seeded with the same bytes
  char scratch[256];
  uint32_t ndev_in;
  // ---- results
  uint32_t outcome; char cls[160]; char msg[8192];
  uint64_t steps, switches, hash, ihash, now_ns;
  uint32_t nthreads, max_runnable; uint32_t ndev_out, dev_overflow;
  uint64_t kinds[NKIND]; uint64_t ioc[NIO];
  uint64_t fired[NIO][6];         // [class][action]
  uint64_t stalls, clock_jumps, full_hits, elsewhere; // elsewhere: files opened for writing outside the scratch directory
  uint64_t probes[64];
  uint64_t live_bytes, live_allocs, peak_bytes, total_allocs;
  uint32_t note_len; char note[65536];
  char panicmsg[2048];
  uint32_t trace_len; char trace[262144];
  uint32_t trace_on;
  dev_t_ dev_in[MAXDEV];
  dev_t_ dev_out[MAXDEV];
} shared_t;

typedef struct thr {
  int tid; volatile int state; uint32_t park;
  uint64_t lidx; void *waddr; uint32_t wbits; uint64_t deadline; int timedout; struct thr *jtarget;
  int64_t prio; uint64_t stalled_until; pthread_t pt; int detached;
  void *(*fn)(void *); void *arg; int dtor_round; char label[64];
  uint32_t dcur, dend;     // replay cursor
} thr;

static shared_t *G;
static thr T[MAXT]; static int NT;
static thr *CUR;
static int active; // a run is in progress in this process
static __thread thr *me;
static __thread int quiet;
static pthread_key_t endkey; static int have_key;
static uint64_t rs[2], es; static uint64_t e32cnt, eothcnt;
static uint64_t now_ns; static int64_t real_off;
static uint64_t cp[64]; static int ncp, icp; static uint64_t stp[64]; static int nst, ist;
static int64_t lowprio; static uint32_t burst_left;
static unsigned char scratch_fd[1024]; static int crashed; static int io_armed; static int64_t disk_budget;
static uint64_t ioc[NIO]; static int ntimers;
static dev_t_ *devs; // sorted by (tid,lidx)

static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_pthread_detach)(pthread_t);
static void (*real_exit)(int) __attribute__((noreturn));

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static inline long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
#define RAW(n,a,b,c,d,e,f) raw6((n),(long)(a),(long)(b),(long)(c),(long)(d),(long)(e),(long)(f))

static inline uint64_t sm(uint64_t *x) { uint64_t z = (*x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline uint64_t rng(void) { uint64_t a = rs[0], b = rs[1]; rs[0] = b; a ^= a << 23; rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return rs[1] + b; }
static inline uint32_t rnd(uint32_t n) { return n ? (uint32_t)(((rng() >> 32) * (uint64_t)n) >> 32) : 0; }

static void resolve(void) {
  if (!real_pthread_create) {
    real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
    real_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach");
    real_exit = dlsym(RTLD_NEXT, "exit");
  }
}

static void trace(const char *fmt, ...) {
  if (!G || !G->trace_on || G->trace_len > sizeof G->trace - 300) return;
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(G->trace + G->trace_len, 256, fmt, ap); va_end(ap);
  if (n > 0) G->trace_len += n < 256 ? n : 255;
}

static void publish(void) {
  G->now_ns = now_ns; G->nthreads = NT;
  memcpy(G->ioc, ioc, sizeof ioc);
}
static __attribute__((noreturn)) void die(int code) { publish(); for (;;) RAW(SYS_exit_group, code, 0, 0, 0, 0, 0); }

EXPORT void rt_fail(const char *cls, const char *msg) {
  if (G->outcome == OUT_NONE) {
    G->outcome = OUT_VIOLATION;
    strncpy(G->cls, cls, sizeof G->cls - 1); strncpy(G->msg, msg, sizeof G->msg - 1);
  }
  die(0);
}
EXPORT void rt_harness_error(const char *msg) {
  if (G->outcome == OUT_NONE) { G->outcome = OUT_HARNESS; strncpy(G->msg, msg, sizeof G->msg - 1); }
  die(0);
}

// ------------------------------------------------------------------ scheduler
static void wait_token(thr *t) {
  while (!__atomic_load_n(&t->park, __ATOMIC_ACQUIRE))
    RAW(SYS_futex, &t->park, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&t->park, 0, __ATOMIC_RELAXED);
}
static void give_token(thr *t) {
  CUR = t; __atomic_store_n(&t->park, 1, __ATOMIC_RELEASE);
  RAW(SYS_futex, &t->park, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void expire(void) {
  if (!ntimers) return;
  for (int i = 0; i < NT; i++) {
    thr *t = &T[i];
    if ((t->state == T_FUTEX || t->state == T_SLEEP) && t->deadline <= now_ns) {
      t->timedout = 1; t->state = T_RUN; t->deadline = UINT64_MAX; ntimers--;
    }
  }
}
static const char *stname(int s) { static const char *n[] = {"free", "run", "futex-wait", "join-wait", "sleep", "done"}; return n[s]; }
static void deadlock(void) {
  char b[4096]; int n = 0; b[0] = 0;
  for (int i = 0; i < NT && n < 3800; i++) if (T[i].state != T_DONE)
    n += snprintf(b + n, sizeof b - n, "[t%d %s %s] ", i, T[i].label, stname(T[i].state));
  rt_fail("deadlock", b);
}
static void record(int from, uint64_t lidx, int to) {
  if (G->ndev_out < MAXDEV) { dev_t_ *d = &G->dev_out[G->ndev_out++]; d->tid = from; d->lidx = lidx; d->to = to; }
  else G->dev_overflow = 1;
}
static thr *pick(int kind, int can_stay) {
  expire();
  thr *c[MAXT], *a[MAXT]; int n = 0, na = 0;
  for (;;) {
    for (int i = 0; i < NT; i++) if (T[i].state == T_RUN) {
      a[na++] = &T[i];
      if (G->steps >= T[i].stalled_until) c[n++] = &T[i];
    }
    if (na) break;
    uint64_t best = UINT64_MAX;
    for (int i = 0; i < NT; i++) if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline < best) best = T[i].deadline;
    if (best == UINT64_MAX) deadlock();
    now_ns = best; expire();
  }
  if ((uint32_t)na > G->max_runnable) G->max_runnable = na;
  // default decision
  thr *def = NULL;
  if (can_stay && kind != K_YIELD) def = me;
  else {
    int base = me ? me->tid : 0;
    for (int k = 1; k <= NT && !def; k++) { thr *t = &T[(base + k) % NT]; if (t->state == T_RUN) def = t; }
  }
  thr *ch = def;
  if (G->policy == POL_REPLAY) {
    if (me) {
      while (me->dcur < me->dend && devs[me->dcur].lidx < me->lidx) me->dcur++;
      if (me->dcur < me->dend && devs[me->dcur].lidx == me->lidx) {
        uint32_t to = devs[me->dcur].to; me->dcur++;
        if (to < (uint32_t)NT && T[to].state == T_RUN) ch = &T[to];
      }
    }
  } else if (G->policy != POL_NONE) {
    thr **l = n ? c : a; int ln = n ? n : na;
    if (G->policy == POL_PCT) {
      if (kind == K_YIELD && me) me->prio = --lowprio;
      ch = l[0];
      for (int i = 1; i < ln; i++) if (l[i]->prio > ch->prio) ch = l[i];
    } else if (kind == K_YIELD && can_stay) {
      if (rnd(4)) { ch = l[rnd(ln)]; }
    } else ch = l[rnd(ln)];
  }
  if (ch != def) record(me ? me->tid : 0, me ? me->lidx : 0, ch->tid);
  return ch;
}
static void do_switch(thr *n) {
  if (n == me) return;
  thr *self = me;
  G->switches++;
  G->ihash = (G->ihash ^ (((uint64_t)self->tid << 56) ^ (self->lidx << 8) ^ n->tid)) * 0x100000001b3ull; G->ihash ^= G->ihash >> 29;
  if (G->trace_on) trace("%lu: t%d@%lu -> t%d\n", G->steps, self->tid, self->lidx, n->tid);
  give_token(n);
  wait_token(self);
}
static inline void tickstep(int kind) {
  G->steps++; me->lidx++; now_ns += G->tick_ns; G->kinds[kind]++;
  G->hash = (G->hash ^ ((uint64_t)me->tid << 8) ^ kind) * 0x100000001b3ull; G->hash ^= G->hash >> 31;
  if (G->steps > G->max_steps) {
    char b[4096]; int n = snprintf(b, sizeof b, "no completion within %lu steps: ", G->max_steps);
    for (int i = 0; i < NT && n < 3800; i++) if (T[i].state != T_DONE) n += snprintf(b + n, sizeof b - n, "[t%d %s %s] ", i, T[i].label, stname(T[i].state));
    rt_fail("livelock", b);
  }
}
#define ABASE ((char *)0x200000000000ull)
#define ASIZE (768ull << 20)
static uint64_t hot_addr; static uint32_t hot_left;
// a run may concentrate on a few shared addresses: those of one hash class, or the one a chosen operation touches
static inline int is_hot(const volatile void *p) {
  if ((char *)p < ABASE || (char *)p >= ABASE + ASIZE) return 0;
  uint64_t a = (uint64_t)(uintptr_t)p >> 3;
  if (hot_left) { if (--hot_left == 0) hot_addr = a; }
  if (hot_addr) return a == hot_addr;
  return G->hot_mod && ((a * 0x9E3779B97F4A7C15ull) >> 40) % G->hot_mod == G->hot_cls;
}
static inline void point_at(int kind, const volatile void *addr) {
  tickstep(kind);
  int pre = 0;
  if (addr && G->hot_prob && G->policy < POL_REPLAY && is_hot(addr) && (uint32_t)(rng() >> 32) < G->hot_prob) {
    me->stalled_until = G->steps + 1 + rnd(1 + rnd(G->hot_len)); G->stalls++;
    thr *n = pick(kind, 1);
    if (n != me) do_switch(n);
    return;
  }
  switch (G->policy) {
  case POL_NONE: break;
  case POL_REPLAY:
    while (me->dcur < me->dend && devs[me->dcur].lidx < me->lidx) me->dcur++;
    pre = me->dcur < me->dend && devs[me->dcur].lidx == me->lidx; break;
  case POL_RANDOM: pre = (uint32_t)(rng() >> 32) < G->prob[kind]; break;
  case POL_BURST: if (burst_left) burst_left--; else { burst_left = 1 + rnd(2 * G->burst_mean); pre = G->prob[kind] != 0; } break;
  case POL_PCT:
    if (icp < ncp && G->steps >= cp[icp] && G->prob[kind]) { icp++; me->prio = --lowprio; }
    pre = 1; break;
  }
  if (G->policy < POL_REPLAY && ist < nst && G->steps >= stp[ist]) {
    ist++; me->stalled_until = G->steps + 1 + rnd(G->stall_len); G->stalls++; pre = 1;
  }
  if (kind == K_YIELD) pre = 1;
  if (!pre) return;
  thr *n = pick(kind, 1);
  if (n != me) do_switch(n);
}
static inline void point_(int kind) { point_at(kind, NULL); }
static void block_(int kind) { // current thread's state is already not T_RUN
  tickstep(kind);
  if (burst_left == 0) burst_left = 1;
  thr *n = pick(kind, 0);
  if (n != me) do_switch(n);
  // when a timer of this very thread fired, pick() may return it directly
}
#define LIVE (me && !quiet)
EXPORT void rt_point(int kind) { if (LIVE) point_(kind); }
EXPORT void rt_quiet(int d) { quiet += d; }
EXPORT int rt_in_sim(void) { return me != NULL; }
EXPORT int rt_tid(void) { return me ? me->tid : -1; }
EXPORT uint64_t rt_step(void) { return G ? G->steps : 0; }
EXPORT uint64_t rt_now(void) { return now_ns; }
EXPORT void rt_label(const char *s) { if (me) { strncpy(me->label, s, sizeof me->label - 1); if (G->trace_on) trace("%lu: t%d: %s\n", G->steps, me->tid, s); } }
EXPORT void rt_probe(int i) { if (G) G->probes[i]++; }
EXPORT void rt_trace(const char *s) { trace("%s\n", s); }
EXPORT int rt_alive(void) { int n = 0; for (int i = 0; i < NT; i++) if (T[i].state != T_DONE) n++; return n; }
EXPORT void rt_set_scratch(const char *s) { strncpy(G->scratch, s, sizeof G->scratch - 1); }
EXPORT void rt_io_arm(int on) { io_armed = on; if (on) memset(ioc, 0, sizeof ioc); }
EXPORT void rt_crashed_reset(void) { crashed = 0; }
EXPORT int rt_crashed(void) { return crashed; }
EXPORT void rt_disk_budget(int64_t b) { disk_budget = b; }
EXPORT shared_t *rt_shared(void) {
  if (!G) { G = mmap(NULL, sizeof *G, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (G == MAP_FAILED) { G = NULL; } }
  return G;
}
EXPORT size_t rt_shared_size(void) { return sizeof(shared_t); }

static void end_dtor(void *v) {
  thr *t = v;
  if (!active || me != t) return;
  if (t->dtor_round++ < 2) { pthread_setspecific(endkey, t); return; }
  // last round of thread-specific destructors: the thread leaves the simulation
  tickstep(K_EXIT);
  t->state = T_DONE;
  for (int i = 0; i < NT; i++) if (T[i].state == T_JOIN && T[i].jtarget == t) T[i].state = T_RUN;
  thr *n = pick(K_EXIT, 0);
  G->switches++;
  me = NULL;
  give_token(n);
}
static void *tramp(void *v) {
  thr *t = v; me = t; pthread_setspecific(endkey, t);
  wait_token(t);
  return t->fn(t->arg);
}
static thr *newthr(void) {
  if (NT >= MAXT) rt_harness_error("too many simulated threads");
  thr *t = &T[NT]; memset(t, 0, sizeof *t);
  t->tid = NT; t->deadline = UINT64_MAX; t->state = T_RUN; NT++;
  if (G->policy == POL_PCT) t->prio = 1000 + rnd(1000000);
  if (G->policy == POL_REPLAY) {
    uint32_t i = 0; while (i < G->ndev_in && devs[i].tid < (uint32_t)t->tid) i++;
    t->dcur = i; while (i < G->ndev_in && devs[i].tid == (uint32_t)t->tid) i++; t->dend = i;
  }
  return t;
}
static int cmpdev(const void *a, const void *b) {
  const dev_t_ *x = a, *y = b;
  if (x->tid != y->tid) return x->tid < y->tid ? -1 : 1;
  return x->lidx < y->lidx ? -1 : x->lidx > y->lidx;
}
static int cmpu(const void *a, const void *b) { uint64_t x = *(uint64_t *)a, y = *(uint64_t *)b; return x < y ? -1 : x > y; }
// begin a run on the calling thread, which becomes simulated thread 0
EXPORT void rt_begin(void) {
  resolve();
  if (!have_key) { pthread_key_create(&endkey, end_dtor); have_key = 1; }
  uint64_t s = G->sched_seed; rs[0] = sm(&s); rs[1] = sm(&s) | 1; es = G->entropy_seed; e32cnt = eothcnt = 0;
  now_ns = 1000000000ull; real_off = 0; NT = 0; lowprio = 0; burst_left = 0; crashed = 0; io_armed = 0; ntimers = 0;
  disk_budget = G->disk_budget; memset(ioc, 0, sizeof ioc); memset(scratch_fd, 0, sizeof scratch_fd);
  G->outcome = OUT_NONE; G->steps = G->switches = 0; G->hash = G->ihash = 0xcbf29ce484222325ull; G->ndev_out = 0; G->dev_overflow = 0; G->max_runnable = 0;
  if (!G->tick_ns) G->tick_ns = 1000;
  ncp = icp = nst = ist = 0; hot_addr = 0; hot_left = G->policy < POL_REPLAY && G->hot_pick ? 1 + rnd(G->hot_pick) : 0;
  if (G->policy == POL_PCT) { ncp = G->pct_depth < 64 ? G->pct_depth : 64; for (int i = 0; i < ncp; i++) cp[i] = 1 + rnd(G->pct_est); qsort(cp, ncp, sizeof *cp, cmpu); }
  if (G->policy < POL_REPLAY) { nst = G->stall_n < 64 ? G->stall_n : 64; for (int i = 0; i < nst; i++) stp[i] = 1 + rnd(G->stall_est); qsort(stp, nst, sizeof *stp, cmpu); }
  devs = G->dev_in;
  if (G->policy == POL_REPLAY) qsort(devs, G->ndev_in, sizeof *devs, cmpdev);
  active = 1;
  thr *t = newthr(); strcpy(t->label, "main"); t->pt = pthread_self(); me = t; CUR = t; quiet = 0;
}
EXPORT void rt_end(void) { // run finished with every oracle satisfied
  if (G->outcome == OUT_NONE) G->outcome = OUT_OK;
  die(0);
}

// ------------------------------------------------------------------ futex
static int is_rt_clock(int op) { return op & FUTEX_CLOCK_REALTIME; }
static int64_t real_base(void) { return 1700000000ll * 1000000000ll + real_off; }
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t *a2, uint32_t v3) {
  int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  (void)a2;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point_(K_FUTEX);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    me->waddr = addr; me->wbits = cmd == FUTEX_WAIT_BITSET ? v3 : 0xffffffffu; me->timedout = 0; me->deadline = UINT64_MAX;
    if (ts) {
      uint64_t d = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
      if (ts->tv_sec > 4000000000ll) d = UINT64_MAX / 2;
      if (cmd == FUTEX_WAIT) d += now_ns; else if (is_rt_clock(op)) d -= real_base();
      me->deadline = d; ntimers++;
    }
    me->state = T_FUTEX;
    block_(K_FUTEX);
    if (me->timedout) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t bits = cmd == FUTEX_WAKE_BITSET ? v3 : 0xffffffffu; long n = 0;
    // which waiter a wake selects is not specified: start the scan at a seeded position
    int st = (G->policy < POL_REPLAY) ? 0 : 0;
    for (int k = 0; k < NT && n < (long)(int)val; k++) {
      thr *t = &T[(st + k) % NT];
      if (t->state == T_FUTEX && t->waddr == addr && (t->wbits & bits)) {
        if (t->deadline != UINT64_MAX) { t->deadline = UINT64_MAX; ntimers--; }
        t->state = T_RUN; n++;
      }
    }
    point_(K_FUTEX);
    return n;
  }
  if (cmd == FUTEX_REQUEUE || cmd == FUTEX_CMP_REQUEUE) {
    if (cmd == FUTEX_CMP_REQUEUE && __atomic_load_n(addr, __ATOMIC_SEQ_CST) != v3) { errno = EAGAIN; return -1; }
    long n = 0, lim = (long)(intptr_t)ts;
    for (int k = 0; k < NT; k++) { thr *t = &T[k]; if (t->state == T_FUTEX && t->waddr == addr) {
      if (n < (long)val) { if (t->deadline != UINT64_MAX) { t->deadline = UINT64_MAX; ntimers--; } t->state = T_RUN; n++; } else if (n < (long)val + lim) { t->waddr = a2; n++; } } }
    point_(K_FUTEX); return n;
  }
  errno = ENOSYS; return -1;
}

// ------------------------------------------------------------------ entropy
static void fill_entropy(void *buf, size_t len) {
  unsigned char *p = buf; uint64_t x;
  // requests of 32 bytes (generator seeds) and all others (hash keys) come from separate
  // streams, so that removing one kind of request leaves the other stream unchanged
  if (len == 32) x = es ^ (0xABCDEF12345678ull * (G->entropy_same ? 1 : ++e32cnt)); else x = es ^ 0x5555555555555555ull ^ (0x9E3779B97F4A7C15ull * ++eothcnt);
  while (len) { uint64_t v = sm(&x); size_t n = len < 8 ? len : 8; memcpy(p, &v, n); p += n; len -= n; }
}
EXPORT ssize_t getrandom(void *buf, size_t len, unsigned fl) {
  if (me) { if (len) fill_entropy(buf, len); return (ssize_t)len; }
  return ret(RAW(SYS_getrandom, buf, len, fl, 0, 0, 0));
}
EXPORT int getentropy(void *buf, size_t len) {
  if (me) { fill_entropy(buf, len); return 0; }
  return RAW(SYS_getrandom, buf, len, 0, 0, 0, 0) == (long)len ? 0 : -1;
}

// ------------------------------------------------------------------ clocks
static fault_t *fault(int cls) {
  ioc[cls]++;
  if (!io_armed) return NULL;
  for (uint32_t i = 0; i < G->nfault; i++) {
    fault_t *f = &G->fault[i];
    if (f->cls != (uint32_t)cls) continue;
    if (f->persistent ? ioc[cls] >= f->nth : ioc[cls] == f->nth) {
      f->fired++; G->fired[cls][f->action]++;
      trace("%lu: t%d: fault class=%d nth=%lu action=%d arg=%ld\n", G->steps, me ? me->tid : -1, cls, (unsigned long)ioc[cls], f->action, (long)f->arg);
      return f;
    }
  }
  return NULL;
}
static int sim_clock(clockid_t c, struct timespec *ts) {
  int64_t v;
  point_(K_CLOCK);
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    fault_t *f = fault(IO_CLOCK);
    if (f && f->action == F_JUMP) { real_off += f->arg; G->clock_jumps++; }
    v = real_base() + (int64_t)now_ns;
    if (v < 0) v = 0;
  } else v = (int64_t)now_ns;
  ts->tv_sec = v / 1000000000ll; ts->tv_nsec = v % 1000000000ll;
  return 0;
}
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  if (LIVE) return sim_clock(c, ts);
  return (int)ret(RAW(SYS_clock_gettime, c, ts, 0, 0, 0, 0));
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts; (void)tz;
  if (LIVE) sim_clock(CLOCK_REALTIME, &ts); else RAW(SYS_clock_gettime, CLOCK_REALTIME, &ts, 0, 0, 0, 0);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
EXPORT time_t time(time_t *t) {
  struct timespec ts;
  if (LIVE) sim_clock(CLOCK_REALTIME, &ts); else RAW(SYS_clock_gettime, CLOCK_REALTIME, &ts, 0, 0, 0, 0);
  if (t) *t = ts.tv_sec; return ts.tv_sec;
}
static void sim_sleep(uint64_t ns) { me->timedout = 0; me->deadline = now_ns + ns; ntimers++; me->state = T_SLEEP; block_(K_YIELD); }
EXPORT int nanosleep(const struct timespec *r, struct timespec *m) {
  if (LIVE) { sim_sleep((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec); return 0; }
  return (int)ret(RAW(SYS_nanosleep, r, m, 0, 0, 0, 0));
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *m) {
  if (LIVE) {
    uint64_t v = (uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec;
    if (fl & TIMER_ABSTIME) { uint64_t cur = c == CLOCK_REALTIME ? (uint64_t)real_base() + now_ns : now_ns; v = v > cur ? v - cur : 0; }
    sim_sleep(v); return 0;
  }
  return (int)-RAW(SYS_clock_nanosleep, c, fl, r, m, 0, 0);
}
EXPORT int sched_yield(void) { if (LIVE) { point_(K_YIELD); return 0; } return (int)ret(RAW(SYS_sched_yield, 0, 0, 0, 0, 0, 0)); }

// ------------------------------------------------------------------ threads
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  resolve();
  if (!LIVE) return real_pthread_create(pt, at, fn, arg);
  thr *t = newthr(); t->fn = fn; t->arg = arg; snprintf(t->label, sizeof t->label, "thread%d", t->tid);
  int r = real_pthread_create(pt, at, tramp, t);
  if (r) rt_harness_error("pthread_create failed");
  t->pt = *pt;
  point_(K_SPAWN);
  return 0;
}
EXPORT int pthread_join(pthread_t pt, void **rv) {
  resolve();
  if (me) {
    thr *t = NULL; for (int i = 0; i < NT; i++) if (T[i].pt == pt && !T[i].detached) t = &T[i];
    if (t) {
      if (quiet) rt_harness_error("join in quiet section");
      point_(K_JOIN);
      if (t->state != T_DONE) { me->jtarget = t; me->state = T_JOIN; block_(K_JOIN); }
      t->detached = 1;
    }
  }
  return real_pthread_join(pt, rv);
}
EXPORT int pthread_detach(pthread_t pt) {
  resolve();
  if (me) for (int i = 0; i < NT; i++) if (T[i].pt == pt) T[i].detached = 1;
  return real_pthread_detach(pt);
}
EXPORT __attribute__((noreturn)) void exit(int code) {
  resolve();
  if (me) { char b[2300]; snprintf(b, sizeof b, "the library called exit(%d) inside t%d %s", code, me->tid, me->label); rt_fail("process-exit", b); }
  real_exit(code);
}

// ------------------------------------------------------------------ file I/O
static int cwd_scratch; // the working directory is the scratch directory: relative paths lie under it
EXPORT void rt_cwd_scratch(int on) { cwd_scratch = on; }
static int is_scratch(const char *p) { if (cwd_scratch && p[0] != '/') return 1; size_t n = strlen(G->scratch); return n && strncmp(p, G->scratch, n) == 0; }
#define SFD(fd) ((fd) >= 0 && (fd) < 1024 && scratch_fd[fd])
static int sim_open(int dfd, const char *path, int fl, mode_t mode) {
  int wants = fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC);
  if (LIVE && wants && !is_scratch(path) && strncmp(path, "/dev/", 5)) { G->elsewhere++; trace("%lu: t%d: open for writing elsewhere: %s\n", G->steps, me->tid, path); }
  if (!LIVE || !is_scratch(path)) return (int)ret(RAW(SYS_openat, dfd, path, fl, mode, 0, 0));
  point_(K_IO);
  fault_t *f = fault(IO_OPEN);
  if (f && f->action == F_ERRNO) { errno = (int)f->arg; return -1; }
  if (wants) {
    fault_t *w = fault(IO_WOPEN);
    if (w && w->action == F_ERRNO) { errno = (int)w->arg; return -1; }
  }
  if (f && f->action == F_CRASH) crashed = 1;
  long r;
  if (crashed && (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) r = RAW(SYS_memfd_create, "dead", 0, 0, 0, 0, 0);
  else r = RAW(SYS_openat, dfd, path, fl, mode, 0, 0);
  if (r >= 0 && r < 1024) scratch_fd[r] = 1 + (crashed && (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)));
  trace("%lu: t%d: open %s fl=%x -> %ld\n", G->steps, me->tid, path[0] == '/' ? path + strlen(G->scratch) : path, fl, r);
  return (int)ret(r);
}
#define MODE va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap)
EXPORT int open(const char *p, int fl, ...) { MODE; return sim_open(AT_FDCWD, p, fl, m); }
EXPORT int open64(const char *p, int fl, ...) { MODE; return sim_open(AT_FDCWD, p, fl, m); }
EXPORT int openat(int d, const char *p, int fl, ...) { MODE; return sim_open(d, p, fl, m); }
EXPORT int openat64(int d, const char *p, int fl, ...) { MODE; return sim_open(d, p, fl, m); }
// copies inside the kernel are taken apart into reads and writes by their callers
EXPORT ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) {
  if (LIVE) { errno = ENOSYS; return -1; }
  return ret(RAW(SYS_copy_file_range, a, x, b, y, n, f));
}
EXPORT ssize_t sendfile64(int o, int i, off_t *x, size_t n) {
  if (LIVE) { errno = EINVAL; return -1; }
  return ret(RAW(SYS_sendfile, o, i, x, n, 0, 0));
}
EXPORT ssize_t splice(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  if (LIVE) { errno = EINVAL; return -1; }
  return ret(RAW(SYS_splice, a, x, b, y, n, f));
}
EXPORT int close(int fd) {
  if (LIVE && SFD(fd)) { point_(K_IO); (void)fault(IO_CLOSE); }
  if (fd >= 0 && fd < 1024) scratch_fd[fd] = 0;
  return (int)ret(RAW(SYS_close, fd, 0, 0, 0, 0, 0));
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (LIVE && SFD(fd)) {
    point_(K_IO);
    fault_t *f = fault(IO_READ);
    if (f && f->action == F_ERRNO) { errno = (int)f->arg; return -1; }
    if (f && f->action == F_SHORT && n > 1) { size_t k = (size_t)(f->arg < 1 ? 1 : f->arg); if (k < n) n = k; }
  }
  return ret(RAW(SYS_read, fd, b, n, 0, 0, 0));
}
static ssize_t wr(int fd, const struct iovec *iov, int cnt, off_t off) {
  size_t tot = 0; for (int i = 0; i < cnt; i++) tot += iov[i].iov_len;
  size_t lim = tot; int die_after = 0;
  point_(K_IO);
  fault_t *f = fault(IO_WRITE);
  if (crashed) return (ssize_t)tot;
  if (f && f->action == F_ERRNO) { errno = (int)f->arg; return -1; }
  if (f && f->action == F_SHORT && tot > 1) { size_t k = (size_t)(f->arg < 1 ? 1 : f->arg); if (k < lim) lim = k; }
  if (f && f->action == F_CRASH) { size_t k = (size_t)(f->arg < 0 ? 0 : f->arg); if (k < lim) lim = k; die_after = 1; }
  if (disk_budget >= 0 && io_armed) {
    if ((int64_t)lim > disk_budget) {
      G->full_hits++; G->fired[IO_WRITE][F_FULL]++;
      trace("%lu: disk full\n", G->steps);
      if (disk_budget == 0) { errno = ENOSPC; return -1; }
      lim = (size_t)disk_budget;
    }
    disk_budget -= (int64_t)lim;
  }
  size_t left = lim, done = 0; long r = 0;
  for (int i = 0; i < cnt && left; i++) {
    size_t k = iov[i].iov_len < left ? iov[i].iov_len : left; if (!k) continue;
    r = off < 0 ? RAW(SYS_write, fd, iov[i].iov_base, k, 0, 0, 0) : RAW(SYS_pwrite64, fd, iov[i].iov_base, k, off + done, 0, 0);
    if (r < 0) break;
    done += r; left -= r; if ((size_t)r < k) break;
  }
  if (die_after) { crashed = 1; return (ssize_t)tot; }
  if (r < 0 && !done) return ret(r);
  return (ssize_t)done;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (LIVE && SFD(fd)) { struct iovec v = {(void *)b, n}; return wr(fd, &v, 1, -1); }
  return ret(RAW(SYS_write, fd, b, n, 0, 0, 0));
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (LIVE && SFD(fd)) return wr(fd, v, c, -1);
  return ret(RAW(SYS_writev, fd, v, c, 0, 0, 0));
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  if (LIVE && SFD(fd)) { struct iovec v = {(void *)b, n}; return wr(fd, &v, 1, o); }
  return ret(RAW(SYS_pwrite64, fd, b, n, o, 0, 0));
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  if (LIVE && SFD(fd)) {
    point_(K_IO); fault_t *f = fault(IO_READ);
    if (f && f->action == F_ERRNO) { errno = (int)f->arg; return -1; }
    if (f && f->action == F_SHORT) { for (int i = 0; i < c; i++) if (v[i].iov_len) { size_t k = (size_t)(f->arg < 1 ? 1 : f->arg); if (k > v[i].iov_len) k = v[i].iov_len; return ret(RAW(SYS_read, fd, v[i].iov_base, k, 0, 0, 0)); } }
  }
  return ret(RAW(SYS_readv, fd, v, c, 0, 0, 0));
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) {
  if (LIVE && SFD(fd)) {
    point_(K_IO); fault_t *f = fault(IO_READ);
    if (f && f->action == F_ERRNO) { errno = (int)f->arg; return -1; }
    if (f && f->action == F_SHORT && n > 1) { size_t k = (size_t)(f->arg < 1 ? 1 : f->arg); if (k < n) n = k; }
  }
  return ret(RAW(SYS_pread64, fd, b, n, o, 0, 0));
}
EXPORT off_t lseek64(int fd, off_t o, int w) {
  if (LIVE && SFD(fd)) { point_(K_IO); fault_t *f = fault(IO_SEEK); if (f && f->action == F_ERRNO) { errno = (int)f->arg; return -1; } }
  return ret(RAW(SYS_lseek, fd, o, w, 0, 0, 0));
}
EXPORT off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
static int sync_(int nr, int fd) {
  if (LIVE && SFD(fd)) { point_(K_IO); fault_t *f = fault(IO_SYNC); if (f && f->action == F_ERRNO) { errno = (int)f->arg; return -1; } if (crashed) return 0; }
  return (int)ret(RAW(nr, fd, 0, 0, 0, 0, 0));
}
EXPORT int fsync(int fd) { return sync_(SYS_fsync, fd); }
EXPORT int fdatasync(int fd) { return sync_(SYS_fdatasync, fd); }
EXPORT int ftruncate64(int fd, off_t l) {
  if (LIVE && SFD(fd)) { point_(K_IO); if (crashed) return 0; }
  return (int)ret(RAW(SYS_ftruncate, fd, l, 0, 0, 0, 0));
}
EXPORT int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
static int path_op(const char *p) { // 1: swallow (process already dead), -1: error set
  if (!LIVE || !is_scratch(p)) return 0;
  point_(K_IO); fault_t *f = fault(IO_RENAME);
  if (f && f->action == F_ERRNO) { errno = (int)f->arg; return -1; }
  if (f && f->action == F_CRASH) crashed = 1;
  return crashed ? 1 : 0;
}
EXPORT int rename(const char *a, const char *b) { int r = path_op(b); if (r) return r < 0 ? -1 : 0; return (int)ret(RAW(SYS_rename, a, b, 0, 0, 0, 0)); }
EXPORT int unlink(const char *a) { int r = path_op(a); if (r) return r < 0 ? -1 : 0; return (int)ret(RAW(SYS_unlink, a, 0, 0, 0, 0, 0)); }
EXPORT void *mmap(void *a, size_t l, int p, int fl, int fd, off_t o) {
  if (LIVE && fd >= 0 && SFD(fd)) {
    point_(K_IO); fault_t *f = fault(IO_MMAP);
    if (f && f->action == F_ERRNO) { errno = (int)f->arg; return MAP_FAILED; }
  }
  long r = RAW(SYS_mmap, a, l, p, fl, fd, o);
  if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
  return (void *)r;
}
EXPORT void *mmap64(void *a, size_t l, int p, int fl, int fd, off_t o) { return mmap(a, l, p, fl, fd, o); }
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *st) {
  if (LIVE && ((p && p[0] && is_scratch(p)) || (p && !p[0] && SFD(d)))) {
    point_(K_IO); fault_t *f = fault(IO_STAT);
    if (f && f->action == F_ERRNO) { errno = (int)f->arg; return -1; }
  }
  return (int)ret(RAW(SYS_statx, d, p, fl, mask, st, 0));
}

EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
  // entropy is simulated even in quiet sections: hash keys are cached per thread
  if (me && n == SYS_getrandom) { if (a[1]) fill_entropy((void *)a[0], (size_t)a[1]); return a[1]; }
  if (LIVE) {
    if (n == SYS_futex) return sim_futex((uint32_t *)a[0], (int)a[1], (uint32_t)a[2], (const struct timespec *)a[3], (uint32_t *)a[4], (uint32_t)a[5]);
    if (n == SYS_statx) return statx((int)a[0], (const char *)a[1], (int)a[2], (unsigned)a[3], (struct statx *)a[4]);
  }
  return ret(raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}

// ------------------------------------------------------------------ arena allocator for runs
// A fixed-address, never-shared arena: in-run heap addresses are a pure function of the run.
static char *abump; static void *afree[64]; static int amapped;
EXPORT int rt_arena_init(void) {
  if (amapped) return 0;
  void *p = (void *)RAW(SYS_mmap, ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != ABASE) return -1;
  amapped = 1; abump = ABASE; return 0;
}
static inline int clsof(size_t n) { // 16-byte steps to 256, then powers of two quarters
  if (n <= 256) return (int)((n + 15) / 16) - 1 + (n == 0);
  int lg = 63 - __builtin_clzll(n - 1); return 16 + (lg - 8);
}
static inline size_t csize(int c) { return c < 16 ? (size_t)(c + 1) * 16 : 1ull << (c - 16 + 9); }
EXPORT int rt_arena_owns(void *p) { return (char *)p >= ABASE && (char *)p < ABASE + ASIZE; }
EXPORT void *rt_arena_alloc(size_t n, size_t al) {
  if (!me || !amapped) return NULL;
  int c = clsof(n); size_t sz = csize(c); void *p;
  if (al <= 16 && afree[c]) { p = afree[c]; afree[c] = *(void **)p; }
  else {
    char *q = (char *)(((uintptr_t)abump + al - 1) & ~(uintptr_t)(al - 1));
    if (al < 16) q = (char *)(((uintptr_t)abump + 15) & ~15ull);
    if (q + sz > ABASE + ASIZE) return NULL;
    abump = q + sz; p = q;
  }
  memset(p, 0xA5, n);
  G->live_bytes += n; G->live_allocs++; G->total_allocs++; if (G->live_bytes > G->peak_bytes) G->peak_bytes = G->live_bytes;
  return p;
}
EXPORT void rt_arena_free(void *p, size_t n) {
  int c = clsof(n); memset(p, 0xDD, n);
  G->live_bytes -= n; G->live_allocs--;
  *(void **)p = afree[c]; afree[c] = p;
}

// ------------------------------------------------------------------ instrumented atomics
#define AT(N, TY) \
EXPORT TY __tsan_atomic##N##_load(const volatile TY *p, int mo) { (void)mo; if (LIVE) point_at(K_LOAD, p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
EXPORT void __tsan_atomic##N##_store(volatile TY *p, TY v, int mo) { (void)mo; if (LIVE) point_at(K_STORE, p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
EXPORT TY __tsan_atomic##N##_exchange(volatile TY *p, TY v, int mo) { (void)mo; if (LIVE) point_at(K_CAS, p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
EXPORT TY __tsan_atomic##N##_fetch_add(volatile TY *p, TY v, int mo) { (void)mo; if (LIVE) point_at(K_RMW, p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
EXPORT TY __tsan_atomic##N##_fetch_sub(volatile TY *p, TY v, int mo) { (void)mo; if (LIVE) point_at(K_RMW, p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
EXPORT TY __tsan_atomic##N##_fetch_and(volatile TY *p, TY v, int mo) { (void)mo; if (LIVE) point_at(K_CAS, p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
EXPORT TY __tsan_atomic##N##_fetch_or(volatile TY *p, TY v, int mo) { (void)mo; if (LIVE) point_at(K_CAS, p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
EXPORT TY __tsan_atomic##N##_fetch_xor(volatile TY *p, TY v, int mo) { (void)mo; if (LIVE) point_at(K_CAS, p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
EXPORT TY __tsan_atomic##N##_fetch_nand(volatile TY *p, TY v, int mo) { (void)mo; if (LIVE) point_at(K_CAS, p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int mo, int fmo) { (void)mo; (void)fmo; if (LIVE) point_at(K_CAS, p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int mo, int fmo) { (void)mo; (void)fmo; if (LIVE) point_at(K_CAS, p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
EXPORT TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY e, TY v, int mo, int fmo) { (void)mo; (void)fmo; if (LIVE) point_at(K_CAS, p); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo) { (void)mo; if (LIVE) point_(K_FENCE); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int mo) { (void)mo; }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *p) { (void)p; }
EXPORT void __tsan_func_exit(void) {}
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
EXPORT void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
