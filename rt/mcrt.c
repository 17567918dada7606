// mcrt: a controlled runtime linked into the instrumented qlc binary.
//
// The binary is compiled with the ThreadSanitizer pass (atomics only) but without the TSan
// runtime, so every atomic operation of qlc and of the crates it uses arrives here as a call.
// Thread creation/join, futexes, sleeps and yields, randomness and the file system calls are
// interposed by symbol.  No source line of qlc is changed.
//
// Three uses, all driven through a shared memory block (struct Ctl):
//   * controlled scheduling: one thread runs at a time; every atomic operation and every file
//     system call is a point at which the explorer may switch threads;
//   * environment answers: hash seed, directory order, unknown d_type, and I/O faults, short
//     transfers, EINTR or a crash at the k-th file system operation;
//   * containment and logging of everything the program writes.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXT 320
#define MAXPTS 65536
#define MAXPRE 65536
#define MAXIO 4096
#define PATHN 240

// ---------------------------------------------------------------- shared control block
struct Point {
  uint8_t nalts, chosen, cur_enabled, kind;
};
struct Io {
  uint8_t kind;     // see IO_*
  uint8_t wr;       // opened for writing / mutating
  uint8_t denied;   // outside the write root: refused
  uint8_t faulted;
  int32_t res;      // result or -errno
  char path[PATHN];
};
struct Ctl {
  // in
  uint32_t magic, sched, n_prefix, alarm_s;
  uint64_t hashseed;
  uint32_t dirperm, dtype_unknown;
  int32_t f_at[2];   // index of the I/O operation to disturb, -1 none
  int32_t f_kind[2]; // see FK_*
  int32_t f_arg[2];
  uint32_t short_all; // every transfer at most this many bytes (0: off)
  uint32_t max_points;
  uint32_t out_stop;  // standard output fails after this many bytes, less one (0: off)
  int32_t out_errno;
  uint32_t out_piece; // at most this many bytes of standard output at once (0: off)
  uint8_t prefix[MAXPRE];
  // out
  uint32_t n_points, n_io, end, n_threads, switches, diverged, denied, steps;
  struct Point points[MAXPTS];
  struct Io io[MAXIO];
};
enum { END_RUNNING, END_EXIT, END_DEADLOCK, END_LIVELOCK, END_HORIZON, END_CRASHED };
enum { IO_OPEN = 1, IO_READ, IO_WRITE, IO_OPENDIR, IO_READDIR, IO_RENAME, IO_UNLINK, IO_MKDIR, IO_OTHER, IO_CLOSE, IO_STAT };
enum { FK_NONE, FK_ERRNO, FK_SHORT, FK_CRASH_BEFORE, FK_CRASH_AFTER, FK_TORN, FK_DROP };

static struct Ctl *C;
static int active; // controlled scheduling on
static char wroot[512];
static size_t wroot_n;

// ---------------------------------------------------------------- raw syscalls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
#define RAW(n, a, b, c, d, e, f) raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static void die(int code) {
  for (;;) RAW(SYS_exit_group, code, 0, 0, 0, 0, 0);
}
static void fin(int end, int code) {
  if (C) C->end = (uint32_t)end;
  die(code);
}

// ---------------------------------------------------------------- scheduler
enum { RUNNABLE, WAITFUTEX, WAITJOIN, NAPPING, FINISHED };
struct Thr {
  int state, baton, timed, woken, join_target;
  uint32_t *faddr;
  uint64_t nap_version;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
  // spin detection
  uint64_t spin_version;
  struct { void *pc, *addr; int n; } spin[8];
};
static struct Thr T[MAXT];
static int nthr, cur;
static uint64_t version; // bumped by every change of shared memory
static int idle_rounds;
static __thread int me = -1;

static void baton_wait(int t) {
  while (__atomic_load_n(&T[t].baton, __ATOMIC_SEQ_CST) == 0)
    RAW(SYS_futex, &T[t].baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  __atomic_store_n(&T[t].baton, 0, __ATOMIC_SEQ_CST);
}
static void baton_give(int t) {
  cur = t;
  __atomic_store_n(&T[t].baton, 1, __ATOMIC_SEQ_CST);
  RAW(SYS_futex, &T[t].baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static int ready(int t) {
  switch (T[t].state) {
    case RUNNABLE: return 1;
    case NAPPING: return T[t].nap_version != version;
    case WAITFUTEX: return T[t].timed && T[t].nap_version != version;
    default: return 0;
  }
}
static int choose(int n, int cur_enabled, int kind) {
  int ch = 0;
  if (n <= 1) return 0;
  uint32_t i = C->n_points;
  if (C->max_points == 0xffffffffu && (i >= MAXPTS || C->n_prefix == 0)) { // one default schedule, no record
    C->n_points = i + 1;
    return 0;
  }
  if (i >= MAXPTS || i >= C->max_points) fin(END_HORIZON, 250);
  if (i < C->n_prefix) ch = C->prefix[i];
  if (ch >= n) {
    C->diverged = 1;
    fin(END_CRASHED, 251);
  }
  C->points[i].nalts = (uint8_t)n;
  C->points[i].chosen = (uint8_t)ch;
  C->points[i].cur_enabled = (uint8_t)cur_enabled;
  C->points[i].kind = (uint8_t)kind;
  C->n_points = i + 1;
  return ch;
}
// Hand over to some ready thread.  Called with T[me].state already updated.
static void resched(int kind) {
  int self = me, list[MAXT], n = 0;
  if (++C->steps > 40000000) fin(END_HORIZON, 250);
  for (;;) {
    int ce = ready(self);
    if (ce) list[n++] = self;
    for (int d = 1; d <= nthr; d++) {
      int t = (self + d) % nthr;
      if (t != self && ready(t)) list[n++] = t;
    }
    if (n) {
      if (ce) idle_rounds = 0;
      int t = list[choose(n, ce, kind)];
      if (T[t].state != RUNNABLE) { // a nap or a timed wait ends
        T[t].state = RUNNABLE;
      }
      if (t != self) {
        C->switches++;
        baton_give(t);
        if (T[self].state == FINISHED) return;
        baton_wait(self);
      }
      return;
    }
    // Nobody can run: let time pass, so that naps and timed waits end.
    for (int t = 0; t < nthr; t++)
      if (T[t].state == NAPPING || (T[t].state == WAITFUTEX && T[t].timed)) n++;
    if (!n) fin(END_DEADLOCK, 252);
    if (++idle_rounds > 12 * (nthr + 1)) fin(END_LIVELOCK, 253);
    // Wake them one at a time, round robin from the current thread.
    n = 0;
    for (int d = 1; d <= nthr; d++) {
      int t = (self + d) % nthr;
      if (T[t].state == NAPPING || (T[t].state == WAITFUTEX && T[t].timed)) {
        T[t].nap_version = version - 1;
        break;
      }
    }
  }
}
static int sched_on(void) { return active && me >= 0; }
static void point(int kind) {
  if (sched_on() && nthr > 1) resched(kind);
}
static void changed(void) {
  // destructors of thread locals run when a thread is over for the scheduler
  if (!sched_on()) return;
  version++;
  idle_rounds = 0;
}
static void nap(int kind) {
  if (!sched_on()) return;
  if (nthr == 1) return;
  T[me].state = NAPPING;
  T[me].nap_version = version;
  resched(kind);
}
static void loaded(void *pc, void *addr) { // after a load that changed nothing
  if (!sched_on() || nthr <= 1) return;
  struct Thr *t = &T[me];
  if (t->spin_version != version) {
    memset(t->spin, 0, sizeof t->spin);
    t->spin_version = version;
  }
  int i = (int)((((uintptr_t)pc >> 2) ^ ((uintptr_t)addr >> 3)) & 7);
  if (t->spin[i].pc == pc && t->spin[i].addr == addr) {
    if (++t->spin[i].n >= 12) {
      t->spin[i].n = 0;
      nap('s');
    }
  } else {
    t->spin[i].pc = pc;
    t->spin[i].addr = addr;
    t->spin[i].n = 1;
  }
}

// ---------------------------------------------------------------- atomics
#define PC __builtin_return_address(0)
#define ATOMICS(N, TY)                                                                         \
  TY __tsan_atomic##N##_load(const volatile TY *a, int mo) {                                   \
    point('l');                                                                                \
    TY v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                               \
    if (active) loaded(PC, (void *)a);                                                         \
    return v;                                                                                  \
  }                                                                                            \
  void __tsan_atomic##N##_store(volatile TY *a, TY v, int mo) {                                \
    point('w');                                                                                \
    TY o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                        \
    if (o != v) changed();                                                                     \
  }                                                                                            \
  TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int mo) {                               \
    point('w');                                                                                \
    TY o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                        \
    if (o != v) changed();                                                                     \
    else if (active) loaded(PC, (void *)a);                                                    \
    return o;                                                                                  \
  }                                                                                            \
  TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int mo) {                              \
    point('w');                                                                                \
    if (v) changed();                                                                          \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                         \
  }                                                                                            \
  TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int mo) {                              \
    point('w');                                                                                \
    if (v) changed();                                                                          \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                         \
  }                                                                                            \
  TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int mo) {                              \
    point('w');                                                                                \
    TY o = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                         \
    if ((o & v) != o) changed();                                                               \
    else if (active) loaded(PC, (void *)a);                                                    \
    return o;                                                                                  \
  }                                                                                            \
  TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int mo) {                               \
    point('w');                                                                                \
    TY o = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                          \
    if ((o | v) != o) changed();                                                               \
    else if (active) loaded(PC, (void *)a);                                                    \
    return o;                                                                                  \
  }                                                                                            \
  TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int mo) {                              \
    point('w');                                                                                \
    if (v) changed();                                                                          \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                         \
  }                                                                                            \
  TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, int mo) {                             \
    point('w');                                                                                \
    changed();                                                                                 \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                        \
  }                                                                                            \
  int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int f) { \
    point('w');                                                                                \
    TY o = *c;                                                                                 \
    int ok = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);      \
    if (ok && o != v) changed();                                                               \
    else if (active) loaded(PC, (void *)a);                                                    \
    return ok;                                                                                 \
  }                                                                                            \
  int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int f) {   \
    point('w');                                                                                \
    TY o = *c;                                                                                 \
    int ok = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);      \
    if (ok && o != v) changed();                                                               \
    else if (active) loaded(PC, (void *)a);                                                    \
    return ok;                                                                                 \
  }                                                                                            \
  TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int f) {      \
    point('w');                                                                                \
    TY o = c;                                                                                  \
    int ok = __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);     \
    if (ok && o != v) changed();                                                               \
    else if (active) loaded(PC, (void *)a);                                                    \
    return ok ? o : c;                                                                         \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) {}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define NOP1(n) void n(void *a) {}
NOP1(__tsan_read1) NOP1(__tsan_read2) NOP1(__tsan_read4) NOP1(__tsan_read8) NOP1(__tsan_read16)
NOP1(__tsan_write1) NOP1(__tsan_write2) NOP1(__tsan_write4) NOP1(__tsan_write8) NOP1(__tsan_write16)
NOP1(__tsan_unaligned_read2) NOP1(__tsan_unaligned_read4) NOP1(__tsan_unaligned_read8) NOP1(__tsan_unaligned_read16)
NOP1(__tsan_unaligned_write2) NOP1(__tsan_unaligned_write4) NOP1(__tsan_unaligned_write8) NOP1(__tsan_unaligned_write16)
void __tsan_vptr_update(void **p, void *v) {}
void __tsan_vptr_read(void **p) {}
void __tsan_read_range(void *a, unsigned long n) {}
void __tsan_write_range(void *a, unsigned long n) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { return memset(d, c, n); }

// ---------------------------------------------------------------- threads
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static void thread_done(void) {
  int self = me;
  T[self].state = FINISHED;
  for (int t = 0; t < nthr; t++)
    if (T[t].state == WAITJOIN && T[t].join_target == self) T[t].state = RUNNABLE;
  changed();
  resched('e');
  me = -1;
}
static void *tramp(void *p) {
  struct Thr *t = p;
  me = (int)(t - T);
  baton_wait(me);
  void *r = t->fn(t->arg);
  thread_done();
  return r;
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!sched_on()) return real_create(out, attr, fn, arg);
  if (nthr >= MAXT) return EAGAIN;
  struct Thr *t = &T[nthr];
  memset(t, 0, sizeof *t);
  t->state = RUNNABLE;
  t->fn = fn;
  t->arg = arg;
  int r = real_create(&t->pt, attr, tramp, t);
  if (r) return r;
  *out = t->pt;
  nthr++;
  C->n_threads = (uint32_t)nthr;
  changed();
  point('c');
  return 0;
}
int pthread_join(pthread_t pt, void **rv) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (sched_on()) {
    for (int t = 0; t < nthr; t++)
      if (t != me && T[t].pt == pt) {
        point('j');
        if (T[t].state != FINISHED) {
          T[me].state = WAITJOIN;
          T[me].join_target = t;
          resched('j');
        }
        break;
      }
  }
  return real_join(pt, rv);
}
// Time is part of the schedule: it moves on by a little whenever it is asked for, and to the end
// of a nap or of a timed wait that nobody ended.
static uint64_t vnow;
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!active || (c != CLOCK_MONOTONIC && c != CLOCK_REALTIME && c != CLOCK_BOOTTIME && c != CLOCK_MONOTONIC_RAW && c != CLOCK_MONOTONIC_COARSE && c != CLOCK_REALTIME_COARSE))
    return (int)ret(RAW(SYS_clock_gettime, c, ts, 0, 0, 0, 0));
  uint64_t t = __atomic_add_fetch(&vnow, 1000, __ATOMIC_SEQ_CST);
  ts->tv_sec = (time_t)(1000000 + t / 1000000000u);
  ts->tv_nsec = (long)(t % 1000000000u);
  return 0;
}
static uint64_t span(const struct timespec *a) { return (uint64_t)a->tv_sec * 1000000000u + (uint64_t)a->tv_nsec; }
static void slept(uint64_t until) {
  if (until > vnow) vnow = until;
}
int sched_yield(void) {
  if (sched_on()) {
    nap('y');
    return 0;
  }
  return (int)ret(RAW(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (sched_on()) {
    uint64_t until = vnow + span(a);
    nap('z');
    slept(until);
    return 0;
  }
  return (int)ret(RAW(SYS_nanosleep, a, b, 0, 0, 0, 0));
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (sched_on()) {
    uint64_t until = fl & TIMER_ABSTIME ? span(a) - 1000000ull * 1000000000u : vnow + span(a);
    nap('z');
    slept(until);
    return 0;
  }
  long r = RAW(SYS_clock_nanosleep, c, fl, a, b, 0, 0);
  return r < 0 ? (int)-r : 0;
}
int usleep(useconds_t u) {
  if (sched_on()) {
    uint64_t until = vnow + u * 1000ull;
    nap('z');
    slept(until);
    return 0;
  }
  struct timespec ts = {u / 1000000, (u % 1000000) * 1000L};
  return (int)ret(RAW(SYS_nanosleep, &ts, 0, 0, 0, 0, 0));
}
static long do_futex(uint32_t *addr, int op, uint32_t val, void *timeout, void *a2, uint32_t v3) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point('f');
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
      errno = EAGAIN;
      return -1;
    }
    struct Thr *t = &T[me];
    t->state = WAITFUTEX;
    t->faddr = addr;
    t->timed = timeout != 0;
    t->woken = 0;
    t->nap_version = version;
    uint64_t until = !timeout ? 0 : cmd == FUTEX_WAIT_BITSET ? span(timeout) - 1000000ull * 1000000000u : vnow + span(timeout);
    resched('f');
    t->timed = 0;
    if (!t->woken) {
      slept(until);
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int n = 0;
    for (int t = 0; t < nthr && (uint32_t)n < val; t++)
      if (T[t].state == WAITFUTEX && T[t].faddr == addr) {
        T[t].state = RUNNABLE;
        T[t].woken = 1;
        n++;
      }
    if (n) changed();
    point('k');
    return n;
  }
  return ret(RAW(SYS_futex, addr, op, val, timeout, a2, v3));
}

// ---------------------------------------------------------------- randomness
static uint64_t rng_state;
static void fill_random(void *buf, size_t n) {
  unsigned char *p = buf;
  uint64_t s = C ? C->hashseed : 0;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) {
      uint64_t z = (s + 1 + i / 8) * 0x9E3779B97F4A7C15ull;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      rng_state = z ^ (z >> 31);
    }
    p[i] = (unsigned char)(rng_state >> (8 * (i % 8)));
  }
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  fill_random(buf, n);
  return (ssize_t)n;
}
int getentropy(void *buf, size_t n) {
  fill_random(buf, n);
  return 0;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && sched_on()) return do_futex((uint32_t *)a, (int)b, (uint32_t)c, (void *)d, (void *)e, (uint32_t)f);
  if (n == SYS_getrandom) {
    fill_random((void *)a, (size_t)b);
    return b;
  }
  if (n == SYS_sched_yield) return sched_yield();
  return ret(raw6(n, a, b, c, d, e, f));
}

// ---------------------------------------------------------------- file system
#define MAXFD 1024
static char fdpath[MAXFD][PATHN];
static uint8_t fdtrack[MAXFD];
static pthread_mutex_t io_mx = PTHREAD_MUTEX_INITIALIZER;

static void absnorm(const char *p, char *out, size_t n) {
  char tmp[2048];
  if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
  else {
    char cwd[1024];
    long r = RAW(SYS_getcwd, cwd, sizeof cwd, 0, 0, 0, 0);
    if (r < 0) cwd[0] = 0;
    snprintf(tmp, sizeof tmp, "%s/%s", cwd, p);
  }
  // lexical normalisation
  char *parts[256];
  int np = 0;
  char *save = 0;
  for (char *q = strtok_r(tmp, "/", &save); q; q = strtok_r(0, "/", &save)) {
    if (!strcmp(q, ".")) continue;
    if (!strcmp(q, "..")) {
      if (np) np--;
      continue;
    }
    if (np < 256) parts[np++] = q;
  }
  size_t o = 0;
  out[0] = '/';
  out[1] = 0;
  for (int i = 0; i < np; i++) {
    int w = snprintf(out + o, n - o, "/%s", parts[i]);
    if (w < 0 || (size_t)w >= n - o) break;
    o += (size_t)w;
  }
}
static int under(const char *abs, const char *root, size_t n) {
  return !strncmp(abs, root, n) && (abs[n] == 0 || abs[n] == '/');
}
static int uninteresting(const char *p) {
  if (!p) return 1;
  if (wroot_n && under(p, wroot, wroot_n)) return 0;
  return !strncmp(p, "/proc", 5) || !strncmp(p, "/sys", 4) || !strncmp(p, "/etc", 4) || !strncmp(p, "/dev", 4) || !strncmp(p, "/lib", 4) || !strncmp(p, "/usr", 4);
}
// Returns the fault kind for this operation; the log entry is in *slot.
static int io_begin(int kind, const char *path, int wr, struct Io **slot, int *arg) {
  static struct Io dummy;
  *slot = &dummy;
  *arg = 0;
  if (!C) return FK_NONE;
  if (kind != IO_STAT) point('i'); // asking for attributes is not worth a switch
  pthread_mutex_lock(&io_mx);
  uint32_t i = C->n_io++;
  pthread_mutex_unlock(&io_mx);
  if (i < MAXIO) {
    struct Io *e = &C->io[i];
    memset(e, 0, sizeof *e);
    e->kind = (uint8_t)kind;
    e->wr = (uint8_t)wr;
    snprintf(e->path, PATHN, "%s", path ? path : "");
    *slot = e;
  }
  for (int k = 0; k < 2; k++)
    if (C->f_at[k] >= 0 && (uint32_t)C->f_at[k] == i) {
      *arg = C->f_arg[k];
      (*slot)->faulted = 1;
      if (C->f_kind[k] == FK_CRASH_BEFORE) fin(END_CRASHED, 137);
      return C->f_kind[k];
    }
  return FK_NONE;
}
static long io_end(struct Io *e, int fk, long r) {
  e->res = (int32_t)r;
  if (e->wr) changed();
  if (fk == FK_CRASH_AFTER) fin(END_CRASHED, 137);
  return r;
}
// 1 when the write must be refused
static int contained(const char *path, struct Io *e) {
  if (!wroot_n) return 0;
  char a[2048];
  absnorm(path, a, sizeof a);
  if (under(a, wroot, wroot_n)) return 0;
  e->denied = 1;
  if (C) __atomic_fetch_add(&C->denied, 1, __ATOMIC_SEQ_CST);
  return 1;
}
static long do_open(int dfd, const char *path, int flags, mode_t mode) {
  if (!C || uninteresting(path)) {
    if (wroot_n && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && (strncmp(path, "/dev/", 5) || !strncmp(path, "/dev/shm", 8)) && strncmp(path, "/proc/self", 10)) {
      struct Io d;
      memset(&d, 0, sizeof d);
      if (contained(path, &d)) {
        struct Io *e;
        int a;
        io_begin(IO_OPEN, path, 1, &e, &a);
        e->denied = 1;
        io_end(e, 0, -EACCES);
        errno = EACCES;
        return -1;
      }
    }
    return ret(RAW(SYS_openat, dfd, path, flags, mode, 0, 0));
  }
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  struct Io *e;
  int arg, fk = io_begin((flags & O_DIRECTORY) ? IO_OPENDIR : IO_OPEN, path, wr, &e, &arg);
  if (fk == FK_ERRNO) {
    io_end(e, fk, -arg);
    errno = arg;
    return -1;
  }
  if (wr && contained(path, e)) {
    io_end(e, fk, -EACCES);
    errno = EACCES;
    return -1;
  }
  long r = RAW(SYS_openat, dfd, path, flags, mode, 0, 0);
  if (r >= 0 && r < MAXFD) {
    fdtrack[r] = (uint8_t)(1 + (wr ? 1 : 0));
    snprintf(fdpath[r], PATHN, "%s", path);
  }
  return ret(io_end(e, fk, r));
}
#define OPENFN(name)                           \
  int name(const char *path, int flags, ...) { \
    mode_t m = 0;                              \
    va_list ap;                                \
    va_start(ap, flags);                       \
    m = va_arg(ap, mode_t);                    \
    va_end(ap);                                \
    return (int)do_open(AT_FDCWD, path, flags, m); \
  }
OPENFN(open)
OPENFN(open64)
#define OPENATFN(name)                                  \
  int name(int dfd, const char *path, int flags, ...) { \
    mode_t m = 0;                                       \
    va_list ap;                                         \
    va_start(ap, flags);                                \
    m = va_arg(ap, mode_t);                             \
    va_end(ap);                                         \
    return (int)do_open(dfd, path, flags, m);           \
  }
OPENATFN(openat)
OPENATFN(openat64)

int close(int fd) {
  if (fd >= 0 && fd < MAXFD) fdtrack[fd] = 0;
  return (int)ret(RAW(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int tracked(int fd) { return C && fd >= 0 && fd < MAXFD && fdtrack[fd]; }

ssize_t read(int fd, void *b, size_t n) {
  if (!tracked(fd)) return ret(RAW(SYS_read, fd, b, n, 0, 0, 0));
  struct Io *e;
  int arg, fk = io_begin(IO_READ, fdpath[fd], 0, &e, &arg);
  if (fk == FK_ERRNO) {
    io_end(e, fk, -arg);
    errno = arg;
    return -1;
  }
  if (fk == FK_SHORT && n > (size_t)arg) n = (size_t)arg;
  if (C->short_all && n > C->short_all) n = C->short_all;
  return ret(io_end(e, fk, RAW(SYS_read, fd, b, n, 0, 0, 0)));
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return ret(RAW(SYS_pread64, fd, b, n, o, 0, 0)); }
static ssize_t do_write(int fd, const void *b, size_t n) {
  struct Io *e;
  int arg, fk = io_begin(IO_WRITE, fdpath[fd], 1, &e, &arg);
  if (fk == FK_ERRNO) {
    io_end(e, fk, -arg);
    errno = arg;
    return -1;
  }
  if (fk == FK_TORN) {
    size_t k = arg == 0 ? 1 : arg == 1 ? n / 2 : n ? n - 1 : 0;
    if (k > n) k = n;
    RAW(SYS_write, fd, b, k, 0, 0, 0);
    fin(END_CRASHED, 137);
  }
  if (fk == FK_SHORT && n > (size_t)arg) n = (size_t)arg;
  if (C->short_all && n > C->short_all) n = C->short_all;
  return ret(io_end(e, fk, RAW(SYS_write, fd, b, n, 0, 0, 0)));
}
// Standard output that fails after so many bytes, or takes few at once
static ssize_t do_print(const void *b, size_t n) {
  static size_t done;
  static int told;
  if (C->out_piece && n > C->out_piece) n = C->out_piece;
  if (C->out_stop) {
    size_t left = C->out_stop - 1 > done ? C->out_stop - 1 - done : 0;
    if (C->out_errno == EINTR && told) left = n;
    if (n && !left) {
      told = 1;
      errno = C->out_errno;
      return -1;
    }
    if (n > left) n = left;
  }
  long r = RAW(SYS_write, 1, b, n, 0, 0, 0);
  if (r > 0) done += (size_t)r;
  return ret(r);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (fd == 1 && C && (C->out_stop || C->out_piece)) return do_print(b, n);
  if (!tracked(fd)) return ret(RAW(SYS_write, fd, b, n, 0, 0, 0));
  return do_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (fd == 1 && C && (C->out_stop || C->out_piece)) {
    for (int i = 0; i < c; i++)
      if (v[i].iov_len) return do_print(v[i].iov_base, v[i].iov_len);
    return 0;
  }
  if (!tracked(fd)) return ret(RAW(SYS_writev, fd, v, c, 0, 0, 0));
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  if (!tracked(fd)) return ret(RAW(SYS_pwrite64, fd, b, n, o, 0, 0));
  struct Io *e;
  int arg, fk = io_begin(IO_WRITE, fdpath[fd], 1, &e, &arg);
  if (fk == FK_ERRNO) {
    io_end(e, fk, -arg);
    errno = arg;
    return -1;
  }
  return ret(io_end(e, fk, RAW(SYS_pwrite64, fd, b, n, o, 0, 0)));
}
#define PATHOP(decl, kind, path, call)          \
  decl {                                        \
    struct Io *e;                               \
    int arg, fk = io_begin(kind, path, 1, &e, &arg); \
    if (fk == FK_ERRNO) {                       \
      io_end(e, fk, -arg);                      \
      errno = arg;                              \
      return -1;                                \
    }                                           \
    if (contained(path, e)) {                   \
      io_end(e, fk, -EACCES);                   \
      errno = EACCES;                           \
      return -1;                                \
    }                                           \
    return (int)ret(io_end(e, fk, call));       \
  }
PATHOP(int unlink(const char *p), IO_UNLINK, p, RAW(SYS_unlink, p, 0, 0, 0, 0, 0))
PATHOP(int unlinkat(int d, const char *p, int f), IO_UNLINK, p, RAW(SYS_unlinkat, d, p, f, 0, 0, 0))
PATHOP(int rmdir(const char *p), IO_UNLINK, p, RAW(SYS_rmdir, p, 0, 0, 0, 0, 0))
PATHOP(int mkdir(const char *p, mode_t m), IO_MKDIR, p, RAW(SYS_mkdir, p, m, 0, 0, 0, 0))
PATHOP(int mkdirat(int d, const char *p, mode_t m), IO_MKDIR, p, RAW(SYS_mkdirat, d, p, m, 0, 0, 0))
PATHOP(int rename(const char *a, const char *p), IO_RENAME, p, contained(a, e) ? -EACCES : RAW(SYS_rename, a, p, 0, 0, 0, 0))
PATHOP(int link(const char *a, const char *p), IO_OTHER, p, RAW(SYS_link, a, p, 0, 0, 0, 0))
PATHOP(int linkat(int x, const char *a, int y, const char *p, int f), IO_OTHER, p, RAW(SYS_linkat, x, a, y, p, f, 0))
PATHOP(int symlink(const char *a, const char *p), IO_OTHER, p, RAW(SYS_symlink, a, p, 0, 0, 0, 0))
PATHOP(int chmod(const char *p, mode_t m), IO_OTHER, p, RAW(SYS_chmod, p, m, 0, 0, 0, 0))
PATHOP(int truncate64(const char *p, off_t n), IO_OTHER, p, RAW(SYS_truncate, p, n, 0, 0, 0, 0))
#define FDOP(decl, fd, call)                                            \
  decl {                                                                \
    struct Io *e;                                                       \
    if (!tracked(fd)) return (int)ret(call);                            \
    int arg, fk = io_begin(IO_OTHER, fdpath[fd], 1, &e, &arg);          \
    if (fk == FK_ERRNO) {                                               \
      io_end(e, fk, -arg);                                              \
      errno = arg;                                                      \
      return -1;                                                        \
    }                                                                   \
    return (int)ret(io_end(e, fk, call));                               \
  }
FDOP(int ftruncate64(int fd, off_t n), fd, RAW(SYS_ftruncate, fd, n, 0, 0, 0, 0))
FDOP(int fsync(int fd), fd, RAW(SYS_fsync, fd, 0, 0, 0, 0, 0))
FDOP(int fdatasync(int fd), fd, RAW(SYS_fdatasync, fd, 0, 0, 0, 0, 0))

// Attributes: Rust's metadata() and canonicalize().
int statx(int dfd, const char *restrict path0, int flags, unsigned mask, struct statx *restrict st0) {
  // the header says that these are never null, but they are
  const char *volatile path_v = path0;
  struct statx *volatile st_v = st0;
  const char *path = path_v;
  struct statx *st = st_v;
  // a call without a buffer only asks whether there is such a call
  if (!C || !st || !path || (path[0] && uninteresting(path)) || (!path[0] && !tracked(dfd))) return (int)ret(RAW(SYS_statx, dfd, path, flags, mask, st, 0));
  struct Io *e;
  char full[PATHN * 2];
  if (!path[0]) snprintf(full, sizeof full, "%s", fdpath[dfd]);
  else if (path[0] == '/' || dfd < 0 || dfd >= MAXFD) snprintf(full, sizeof full, "%s", path);
  else snprintf(full, sizeof full, "%s/%s", fdpath[dfd], path);
  int arg, fk = io_begin(IO_STAT, full, 0, &e, &arg);
  if (!path[0]) e->wr = 2; // by descriptor
  if (fk == FK_ERRNO) {
    e->res = -arg;
    errno = arg;
    return -1;
  }
  long r = RAW(SYS_statx, dfd, path, flags, mask, st, 0);
  e->res = (int32_t)r;
  if (fk == FK_CRASH_AFTER) fin(END_CRASHED, 137);
  return (int)ret(r);
}
static char *(*r_realpath)(const char *, char *);
char *realpath(const char *path, char *out) {
  if (!r_realpath) r_realpath = dlsym(RTLD_NEXT, "realpath");
  if (!C || uninteresting(path)) return r_realpath(path, out);
  struct Io *e;
  int arg, fk = io_begin(IO_STAT, path, 0, &e, &arg);
  e->wr = 3; // to resolve it
  if (fk == FK_ERRNO) {
    e->res = -arg;
    errno = arg;
    return 0;
  }
  char *r = r_realpath(path, out);
  if (fk == FK_CRASH_AFTER) fin(END_CRASHED, 137);
  return r;
}

// Directory streams are owned here, so that their order and d_type are environment answers.
struct Dir {
  int n, pos, fd, errpos, err;
  struct dirent64 *ents;
  char path[PATHN];
};
static int cmpent(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
static struct Dir *load_dir(int fd, const char *path) {
  struct Dir *d = calloc(1, sizeof *d);
  int cap = 0;
  char *buf = malloc(1 << 16);
  d->fd = fd;
  snprintf(d->path, PATHN, "%s", path);
  if (fd >= 0 && fd < MAXFD && path != fdpath[fd]) snprintf(fdpath[fd], PATHN, "%s", path);
  for (;;) {
    long r = RAW(SYS_getdents64, fd, buf, 1 << 16, 0, 0, 0);
    if (r <= 0) break;
    for (long o = 0; o < r;) {
      struct linux_dirent64 {
        uint64_t ino;
        int64_t off;
        uint16_t reclen;
        uint8_t type;
        char name[];
      } *x = (void *)(buf + o);
      o += x->reclen;
      if (d->n == cap) d->ents = realloc(d->ents, sizeof(struct dirent64) * (size_t)(cap = cap ? cap * 2 : 16));
      struct dirent64 *e = &d->ents[d->n++];
      memset(e, 0, sizeof *e);
      e->d_ino = x->ino;
      e->d_off = x->off;
      e->d_reclen = sizeof *e;
      e->d_type = (C && C->dtype_unknown) ? DT_UNKNOWN : x->type;
      snprintf(e->d_name, sizeof e->d_name, "%s", x->name);
    }
  }
  free(buf);
  qsort(d->ents, (size_t)d->n, sizeof *d->ents, cmpent);
  // "." and ".." first, then the permutation with index dirperm (factorial number system).
  int b = 0;
  for (int i = 0; i < d->n; i++)
    if (!strcmp(d->ents[i].d_name, ".") || !strcmp(d->ents[i].d_name, "..")) {
      struct dirent64 t = d->ents[i];
      memmove(&d->ents[b + 1], &d->ents[b], sizeof(t) * (size_t)(i - b));
      d->ents[b++] = t;
    }
  uint32_t k = C ? C->dirperm : 0;
  int m = d->n - b;
  struct dirent64 *v = d->ents + b;
  if (k == 0xffffffffu) { // reversed
    for (int i = 0; i < m / 2; i++) {
      struct dirent64 t = v[i];
      v[i] = v[m - 1 - i];
      v[m - 1 - i] = t;
    }
    k = 0;
  }
  for (int i = 0; i < m && k; i++) {
    int j = (int)(k % (uint32_t)(m - i));
    k /= (uint32_t)(m - i);
    struct dirent64 t = v[i + j];
    memmove(&v[i + 1], &v[i], sizeof(t) * (size_t)j);
    v[i] = t;
  }
  return d;
}
static DIR *(*r_opendir)(const char *);
static DIR *(*r_fdopendir)(int);
static struct dirent64 *(*r_readdir64)(DIR *);
static int (*r_closedir)(DIR *);
static int (*r_dirfd)(DIR *);
DIR *opendir(const char *path) {
  if (!C) {
    if (!r_opendir) r_opendir = dlsym(RTLD_NEXT, "opendir");
    return r_opendir(path);
  }
  struct Io *e;
  int arg, fk = io_begin(IO_OPENDIR, path, 0, &e, &arg);
  if (fk == FK_ERRNO) {
    io_end(e, fk, -arg);
    errno = arg;
    return 0;
  }
  long fd = io_end(e, fk, RAW(SYS_openat, AT_FDCWD, path, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0, 0, 0));
  if (fd < 0) {
    errno = (int)-fd;
    return 0;
  }
  return (DIR *)load_dir((int)fd, path);
}
DIR *fdopendir(int fd) {
  if (!C) {
    if (!r_fdopendir) r_fdopendir = dlsym(RTLD_NEXT, "fdopendir");
    return r_fdopendir(fd);
  }
  return (DIR *)load_dir(fd, tracked(fd) ? fdpath[fd] : "");
}
struct dirent64 *readdir64(DIR *dp) {
  if (!C) {
    if (!r_readdir64) r_readdir64 = dlsym(RTLD_NEXT, "readdir64");
    return r_readdir64(dp);
  }
  struct Dir *d = (struct Dir *)dp;
  struct Io *e;
  int arg, fk = io_begin(IO_READDIR, d->path, 0, &e, &arg);
  if (fk == FK_ERRNO) {
    io_end(e, fk, -arg);
    d->pos = d->n; // the stream is broken from here on
    errno = arg;
    return 0;
  }
  io_end(e, fk, d->pos < d->n);
  if (d->pos >= d->n) return 0;
  return &d->ents[d->pos++];
}
struct dirent *readdir(DIR *dp) { return (struct dirent *)readdir64(dp); }
int closedir(DIR *dp) {
  if (!C) {
    if (!r_closedir) r_closedir = dlsym(RTLD_NEXT, "closedir");
    return r_closedir(dp);
  }
  struct Dir *d = (struct Dir *)dp;
  RAW(SYS_close, d->fd, 0, 0, 0, 0, 0);
  free(d->ents);
  free(d);
  return 0;
}
int dirfd(DIR *dp) {
  if (!C) {
    if (!r_dirfd) r_dirfd = dlsym(RTLD_NEXT, "dirfd");
    return r_dirfd(dp);
  }
  return ((struct Dir *)dp)->fd;
}

// ---------------------------------------------------------------- start-up
static void begin_run(void) {
  C->n_points = C->n_io = C->end = C->switches = C->diverged = C->denied = C->steps = 0;
  C->n_threads = 1;
  version = 1;
  idle_rounds = 0;
  nthr = 1;
  cur = 0;
  memset(T, 0, sizeof T);
  T[0].state = RUNNABLE;
  T[0].pt = pthread_self();
  me = 0;
  active = C->sched != 0;
  vnow = 0;
  if (C->alarm_s) {
    struct itimerval it = {{0, 0}, {(long)C->alarm_s, 0}};
    setitimer(ITIMER_REAL, &it, 0);
  }
}
static void server(int ctl_r, int ctl_w, const char *out, const char *err) {
  // One byte per run: 'r' run, anything else or EOF: leave.
  for (;;) {
    char c;
    if (RAW(SYS_read, ctl_r, &c, 1, 0, 0, 0) != 1 || c != 'r') die(0);
    pid_t p = fork();
    if (p == 0) {
      RAW(SYS_close, ctl_r, 0, 0, 0, 0, 0);
      RAW(SYS_close, ctl_w, 0, 0, 0, 0, 0);
      int o = (int)RAW(SYS_openat, AT_FDCWD, out, O_WRONLY | O_CREAT | O_TRUNC, 0600, 0, 0);
      int e = (int)RAW(SYS_openat, AT_FDCWD, err, O_WRONLY | O_CREAT | O_TRUNC, 0600, 0, 0);
      RAW(SYS_dup2, o, 1, 0, 0, 0, 0);
      RAW(SYS_dup2, e, 2, 0, 0, 0, 0);
      RAW(SYS_close, o, 0, 0, 0, 0, 0);
      RAW(SYS_close, e, 0, 0, 0, 0, 0);
      begin_run();
      return; // continue into main()
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    RAW(SYS_write, ctl_w, &st, 4, 0, 0, 0);
  }
}
__attribute__((constructor(101))) static void mc_start(void) {
  const char *w = getenv("MC_WROOT");
  if (w) {
    snprintf(wroot, sizeof wroot, "%s", w);
    wroot_n = strlen(wroot);
  }
  struct rlimit rl = {2ull << 30, 2ull << 30};
  if (w) {
    setrlimit(RLIMIT_AS, &rl);
    mallopt(M_ARENA_MAX, 2); // each one reserves address space: 257 threads must fit
  }
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
  const char *shm = getenv("MC_SHM");
  if (!shm) return;
  long fd = RAW(SYS_openat, AT_FDCWD, shm, O_RDWR | O_CLOEXEC, 0, 0, 0);
  if (fd < 0) die(240);
  void *m = mmap(0, sizeof(struct Ctl), PROT_READ | PROT_WRITE, MAP_SHARED, (int)fd, 0);
  RAW(SYS_close, fd, 0, 0, 0, 0, 0);
  if (m == MAP_FAILED || ((struct Ctl *)m)->magic != 0x4d435254) die(241);
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  C = m;
  const char *srv = getenv("MC_SERVER");
  if (srv) {
    int r, wfd;
    char out[512], err[512];
    if (sscanf(srv, "%d,%d,%500[^,],%500s", &r, &wfd, out, err) != 4) die(242);
    server(r, wfd, out, err);
  } else {
    begin_run();
  }
}
__attribute__((destructor)) static void mc_stop(void) {
  if (C && C->end == END_RUNNING) C->end = END_EXIT;
}
