// The operating system as a simulated party: preloaded into a real program, it decides how every
// read, write, open, copy, rename, spawn, allocation, clock read, random draw, sleep, wake-up and
// thread switch of that program turns out, from a plan file (SIMOS_PLAN). Children get no plan.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
#define NF 64
struct log { // shared with the driver
  u64 status;      // 0 running/ended by itself, 101 deadlock, 103 no progress
  u64 ops;         // I/O operations seen
  u64 sig;         // hash of every decision and result
  u64 clock;       // simulated nanoseconds that went by
  u64 allocs, rand_draws, clock_reads, switches, threads, mut_ops, in_bytes, file_bytes;
  u64 pad[4];
  u64 fired[NF];   // per fault code
};
static struct log dummy, *L = &dummy;
static int active;

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define R(n, ...) rawn(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define rawn(n, a, b, c, d, e, f, ...) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static u64 rng_state, ent_state, sched_state;
static u64 rnd(u64 *s) {
  u64 z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static void note(u64 a, u64 b) {
  u64 h = L->sig ^ (a * 0x9E3779B97F4A7C15ull) ^ (b + 0x7F4A7C15ull);
  h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ull;
  L->sig = h ^ (h >> 32);
}
enum {
  IN_CHUNK = 1, IN_CUT, IN_EINTR, IN_DELAY, IN_ERR, IN_KIND,
  OUT_CHUNK = 11, OUT_CUT, OUT_EINTR, OUT_ERR = 15, OUT_KIND, OUT_ZERO,
  ALLOC = 20, ALLOC_BIG,
  F_RCHUNK = 30, F_WCHUNK, F_EINTR, F_OPEN, F_OPENW, F_WRITE, F_READ, F_COPY, F_CLOSE, F_SYNC, F_RENAME, F_SPAWN, F_STAT, F_KILL, F_COPYSHORT, F_NOSPC,
};
struct op { unsigned k; u64 a, b, c; unsigned used; };
static struct op ops[512];
static int nops;
static u64 budget = 50000000, in_end;

static void fire(struct op *o) { o->used++; L->fired[o->k % NF]++; note(o->k, o->used); }
static struct op *find(unsigned k, u64 a, int match) {
  for (int i = 0; i < nops; i++) if (ops[i].k == k && (!match || ops[i].a == a)) return &ops[i];
  return 0;
}
static void die(int st) {
  L->status = st;
  R(SYS_exit_group, st);
}
// ------------------------------------------------------------------ threads
#define MAXT 64
enum { T_NONE, T_RUN, T_READY, T_WAIT, T_SLEEP, T_JOIN, T_DONE };
static struct thr { int st; int go; uint32_t *addr; u64 deadline; int timed_out; int target; pthread_t h; } T[MAXT];
static int nthr = 1;
static __thread int me;
static u64 now_ns;
#define NEVER (~0ull)
static void advance(u64 t) { if (t > now_ns) { L->clock += t - now_ns; now_ns = t; } }
static int pick(void) {
  int c[MAXT], n = 0;
  for (int i = 0; i < nthr; i++) if (T[i].st == T_READY) c[n++] = i;
  if (n) return c[n == 1 ? 0 : rnd(&sched_state) % n];
  int b = -1;
  for (int i = 0; i < nthr; i++)
    if ((T[i].st == T_WAIT || T[i].st == T_SLEEP) && T[i].deadline != NEVER && (b < 0 || T[i].deadline < T[b].deadline)) b = i;
  if (b < 0) return -1;
  advance(T[b].deadline);
  T[b].timed_out = 1;
  T[b].st = T_READY;
  return b;
}
static void resume(int t) {
  T[t].st = T_RUN;
  __atomic_store_n(&T[t].go, 1, __ATOMIC_SEQ_CST);
  R(SYS_futex, &T[t].go, FUTEX_WAKE_PRIVATE, 1);
}
static void park(void) {
  while (!__atomic_exchange_n(&T[me].go, 0, __ATOMIC_SEQ_CST)) R(SYS_futex, &T[me].go, FUTEX_WAIT_PRIVATE, 0, 0);
}
static void give(void) { // my state is set: let another thread run until I am picked
  int t = pick();
  if (t < 0) die(101);
  if (t == me) { T[me].st = T_RUN; return; }
  L->switches++;
  note(900, t);
  resume(t);
  park();
}
static void preempt(void) {
  if (nthr > 1 && (rnd(&sched_state) & 1)) { T[me].st = T_READY; give(); }
}
static void sleep_ns(u64 ns) {
  T[me].deadline = now_ns + ns;
  T[me].st = T_SLEEP;
  give();
}
static int fwait(uint32_t *addr, uint32_t val, u64 deadline) {
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return EAGAIN;
  T[me].addr = addr;
  T[me].deadline = deadline;
  T[me].timed_out = 0;
  T[me].st = T_WAIT;
  give();
  return T[me].timed_out ? ETIMEDOUT : 0;
}
static int fwake(uint32_t *addr, int n) {
  int k = 0;
  for (int i = 0; i < nthr && k < n; i++)
    if (T[i].st == T_WAIT && T[i].addr == addr) { T[i].st = T_READY; T[i].timed_out = 0; k++; }
  return k;
}
struct start { void *(*f)(void *); void *a; int id; };
static void *tmain(void *p) {
  struct start s = *(struct start *)p;
  free(p);
  me = s.id;
  park();
  void *r = s.f(s.a);
  T[me].st = T_DONE;
  for (int i = 0; i < nthr; i++) if (T[i].st == T_JOIN && T[i].target == me) T[i].st = T_READY;
  int t = pick();
  if (t < 0) die(101);
  resume(t);
  return r;
}
static int in_shim;
int pthread_create(pthread_t *h, const pthread_attr_t *at, void *(*f)(void *), void *a) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  in_shim++;
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  int r;
  if (!active || nthr >= MAXT) r = real(h, at, f, a);
  else {
    struct start *s = malloc(sizeof *s);
    s->f = f; s->a = a; s->id = nthr;
    T[nthr] = (struct thr){ .st = T_READY, .deadline = NEVER };
    nthr++;
    r = real(h, at, tmain, s);
    if (r) { nthr--; free(s); } else { T[s->id].h = *h; L->threads++; }
  }
  in_shim--;
  return r;
}
int pthread_join(pthread_t h, void **rv) {
  static int (*real)(pthread_t, void **);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
  if (active)
    for (int i = 1; i < nthr; i++)
      if (pthread_equal(T[i].h, h) && T[i].st != T_DONE) { T[me].target = i; T[me].st = T_JOIN; give(); }
  return real(h, rv);
}
// ------------------------------------------------------------------ clock, entropy, sleep
static u64 ts_ns(const struct timespec *t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!active) return ret(R(SYS_clock_gettime, c, t));
  L->clock_reads++;
  advance(now_ns + 1000);
  t->tv_sec = now_ns / 1000000000ull;
  t->tv_nsec = now_ns % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval *t, void *z) {
  (void)z;
  struct timespec s;
  clock_gettime(0, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *o) {
  struct timespec s;
  clock_gettime(0, &s);
  if (o) *o = s.tv_sec;
  return s.tv_sec;
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
  (void)rem;
  if (!active) return ret(R(SYS_nanosleep, t, rem));
  sleep_ns(ts_ns(t));
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
  (void)c; (void)rem;
  if (!active) return (int)-R(SYS_clock_nanosleep, c, fl, t, rem);
  u64 n = ts_ns(t);
  sleep_ns(fl & TIMER_ABSTIME ? (n > now_ns ? n - now_ns : 0) : n);
  return 0;
}
int usleep(useconds_t u) { struct timespec t = { u / 1000000, (u % 1000000) * 1000 }; return nanosleep(&t, 0); }
unsigned sleep(unsigned s) { struct timespec t = { s, 0 }; nanosleep(&t, 0); return 0; }
int sched_yield(void) { if (active) { T[me].st = T_READY; give(); } return 0; }
static ssize_t entropy(void *b, size_t n) {
  L->rand_draws++;
  for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = rnd(&ent_state);
  return n;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!active) return ret(R(SYS_getrandom, b, n, f));
  return entropy(b, n);
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
long syscall(long n, ...) {
  va_list v;
  va_start(v, n);
  long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
  va_end(v);
  if (active && n == SYS_futex) {
    int op = b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      u64 dl = NEVER;
      if (d) { dl = ts_ns((struct timespec *)d); if (op == FUTEX_WAIT) dl += now_ns; }
      int r = fwait((uint32_t *)a, (uint32_t)c, dl);
      if (r) { errno = r; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { int k = fwake((uint32_t *)a, (int)c); return k; }
  }
  if (active && n == SYS_getrandom) return entropy((void *)a, b);
  return ret(raw6(n, a, b, c, d, e, f));
}
// ------------------------------------------------------------------ memory
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int refuse(size_t n) {
  if (!active || in_shim) return 0;
  u64 k = ++L->allocs;
  for (int i = 0; i < nops; i++) {
    struct op *o = &ops[i];
    if ((o->k == ALLOC && (k == o->a || (o->b && k > o->a))) || (o->k == ALLOC_BIG && n >= o->a)) { fire(o); errno = ENOMEM; return 1; }
  }
  return 0;
}
void *malloc(size_t n) { return refuse(n) ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return refuse(a * b) ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return refuse(n) ? 0 : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return refuse(n) ? 0 : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) {
  void *p = memalign(a, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
// ------------------------------------------------------------------ descriptors
// kind 0: not simulated; 1,2,3: the standard streams; 4: a file opened by name
#define NFD 4096
static struct fd { unsigned char kind, wr; } F[NFD];
static u64 pos[4];          // bytes moved on each standard stream
static u64 shape[4];        // 0 file, 1 pipe, 2 terminal
static u64 nth[NF];
static int kindof(int fd) { return active && fd >= 0 && fd < NFD ? F[fd].kind : 0; }
static void opseen(void) { if (++L->ops > budget) die(103); }
static int fault_nth(unsigned k) { // the nth operation of a class fails
  u64 n = ++nth[k];
  for (int i = 0; i < nops; i++)
    if (ops[i].k == k && (ops[i].a == n || (ops[i].c && n > ops[i].a))) { fire(&ops[i]); return (int)ops[i].b; }
  return 0;
}
static struct op *killer(void) { // an operation that changes the file system: does the process die at it?
  u64 n = ++L->mut_ops;
  for (int i = 0; i < nops; i++) if (ops[i].k == F_KILL && ops[i].a == n) return &ops[i];
  return 0;
}
static void suicide(struct op *o) { fire(o); long me_ = R(SYS_getpid); R(SYS_kill, me_, SIGKILL); for (;;) R(SYS_pause); }
static size_t min(size_t a, u64 b) { return b < a ? (size_t)b : a; }
static int eintr(unsigned k, u64 a, int match, u64 pm) {
  (void)a; (void)match;
  struct op *o = find(k, a, match);
  if (o && rnd(&rng_state) % 1000 < pm && o->used < 100000) { fire(o); errno = EINTR; return 1; }
  return 0;
}
static long full_read(int fd, char *b, size_t n) { // the kernel has it all: no shortness but ours
  size_t g = 0;
  while (g < n) {
    long r = R(SYS_read, fd, b + g, n - g);
    if (r == -EINTR) continue;
    if (r < 0) return g ? (long)g : r;
    if (r == 0) break;
    g += r;
  }
  return g;
}
static long full_write(int fd, const char *b, size_t n) {
  size_t g = 0;
  while (g < n) {
    long r = R(SYS_write, fd, b + g, n - g);
    if (r == -EINTR) continue;
    if (r < 0) return g ? (long)g : r;
    g += r;
  }
  return g;
}
static ssize_t do_read(int fd, void *b, size_t n) {
  int k = kindof(fd);
  if (!k) return ret(R(SYS_read, fd, b, n));
  opseen();
  preempt();
  struct op *o;
  if (k == 1) {
    for (int i = 0; i < nops; i++)
      if (ops[i].k == IN_DELAY && !ops[i].used && pos[1] >= ops[i].a) { fire(&ops[i]); sleep_ns(ops[i].b * 1000000ull); }
    if ((o = find(IN_EINTR, 0, 0)) && eintr(IN_EINTR, 0, 0, o->a)) return -1;
    for (int i = 0; i < nops; i++) {
      o = &ops[i];
      if (o->k == IN_ERR && pos[1] >= o->a && (o->c || !o->used)) { fire(o); errno = (int)o->b; return -1; }
      if (o->k == IN_ERR && pos[1] < o->a) n = min(n, o->a - pos[1]);
      if (o->k == IN_CUT && pos[1] < o->a && n > o->a - pos[1]) { n = o->a - pos[1]; fire(o); }
    }
    if ((o = find(IN_CHUNK, 0, 0)) && n > 1) { size_t m = min(n, 1 + rnd(&rng_state) % (o->a ? o->a : 1)); if (m < n) fire(o); n = m; }
    long r = full_read(fd, b, n);
    if (r > 0) { pos[1] += r; L->in_bytes += r; }
    note(1, r);
    return ret(r);
  }
  if (k == 4) {
    if ((o = find(F_EINTR, 0, 0)) && eintr(F_EINTR, 0, 0, o->a)) return -1;
    int e = fault_nth(F_READ);
    if (e) { errno = e; return -1; }
    if ((o = find(F_RCHUNK, 0, 0)) && n > 1) { size_t m = min(n, 1 + rnd(&rng_state) % (o->a ? o->a : 1)); if (m < n) fire(o); n = m; }
    long r = full_read(fd, b, n);
    note(4, r);
    return ret(r);
  }
  return ret(R(SYS_read, fd, b, n));
}
static ssize_t do_write(int fd, const void *b, size_t n) {
  int k = kindof(fd);
  if (!k) return ret(R(SYS_write, fd, b, n));
  opseen();
  preempt();
  struct op *o;
  if (k == 2 || k == 3) {
    int s = k - 1; // 1 or 2, as the plan numbers them
    if ((o = find(OUT_EINTR, s, 1)) && eintr(OUT_EINTR, s, 1, o->b)) return -1;
    for (int i = 0; i < nops; i++) {
      o = &ops[i];
      if (o->a != (u64)s) continue;
      if (o->k == OUT_ERR || o->k == OUT_ZERO) {
        if (pos[k] >= o->b && n) {
          int once = o->k == OUT_ERR && (o->c == EAGAIN || o->c == ENOBUFS);
          if (once && o->used) continue;
          fire(o);
          if (o->k == OUT_ZERO) return 0;
          if (o->c == EPIPE) raise(SIGPIPE);
          errno = (int)o->c;
          return -1;
        }
        n = min(n, o->b - pos[k]);
      }
      if (o->k == OUT_CUT && pos[k] < o->b && n > o->b - pos[k]) { n = o->b - pos[k]; fire(o); }
    }
    if ((o = find(OUT_CHUNK, s, 1)) && n > 1) { size_t m = min(n, 1 + rnd(&rng_state) % (o->b ? o->b : 1)); if (m < n) fire(o); n = m; }
    long r = full_write(fd, b, n);
    if (r > 0) pos[k] += r;
    note(2, r);
    return ret(r);
  }
  if (k == 4) {
    if ((o = find(F_EINTR, 0, 0)) && eintr(F_EINTR, 0, 0, o->a)) return -1;
    struct op *kl = killer();
    if (kl) { size_t m = n * kl->b / 1000; full_write(fd, b, m); suicide(kl); }
    int e = fault_nth(F_WRITE);
    if (e) { errno = e; return -1; }
    for (int i = 0; i < nops; i++)
      if (ops[i].k == F_NOSPC && n) {
        if (L->file_bytes >= ops[i].a && (ops[i].c || !ops[i].used)) { fire(&ops[i]); errno = (int)ops[i].b; return -1; }
        if (L->file_bytes < ops[i].a) n = min(n, ops[i].a - L->file_bytes);
      }
    if ((o = find(F_WCHUNK, 0, 0)) && n > 1) { size_t m = min(n, 1 + rnd(&rng_state) % (o->a ? o->a : 1)); if (m < n) fire(o); n = m; }
    long r = full_write(fd, b, n);
    if (r > 0) L->file_bytes += r;
    note(5, r);
    return ret(r);
  }
  return ret(R(SYS_write, fd, b, n));
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t m) { (void)m; return do_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (!kindof(fd)) return ret(R(SYS_readv, fd, v, n));
  ssize_t t = 0;
  for (int i = 0; i < n; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : -1;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (!kindof(fd)) return ret(R(SYS_writev, fd, v, n));
  ssize_t t = 0;
  for (int i = 0; i < n; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : -1;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
static int stream(int fd) { int k = kindof(fd); return k >= 1 && k <= 3 && shape[k]; }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { if (stream(fd)) { errno = ESPIPE; return -1; } return ret(R(SYS_pread64, fd, b, n, o)); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (stream(fd)) { errno = ESPIPE; return -1; }
  if (kindof(fd) == 4) {
    int e = fault_nth(F_WRITE);
    if (e) { errno = e; return -1; }
  }
  return ret(R(SYS_pwrite64, fd, b, n, o));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
off64_t lseek64(int fd, off64_t o, int w) { if (stream(fd)) { errno = ESPIPE; return -1; } return ret(R(SYS_lseek, fd, o, w)); }
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int isatty(int fd) {
  int k = kindof(fd);
  if (k >= 1 && k <= 3) { if (shape[k] == 2) return 1; errno = ENOTTY; return 0; }
  char b[256];
  return R(SYS_ioctl, fd, TCGETS, b) == 0;
}
int ioctl(int fd, unsigned long rq, ...) {
  va_list v;
  va_start(v, rq);
  void *p = va_arg(v, void *);
  va_end(v);
  if (stream(fd) && rq == FIONREAD) { *(int *)p = kindof(fd) == 1 && in_end > pos[1] ? 1 : 0; return 0; }
  return ret(R(SYS_ioctl, fd, rq, p));
}
static void mask_mode(int fd, mode_t *m, off_t *size) {
  int k = kindof(fd);
  if (k < 1 || k > 3 || !shape[k]) return;
  *m = (*m & ~S_IFMT) | (shape[k] == 2 ? S_IFCHR : S_IFIFO);
  *size = 0;
}
int fstat64(int fd, struct stat64 *s) {
  if (kindof(fd) == 4) { int e = fault_nth(F_STAT); if (e) { errno = e; return -1; } }
  int r = ret(R(SYS_newfstatat, fd, "", s, AT_EMPTY_PATH));
  if (!r) mask_mode(fd, &s->st_mode, (off_t *)&s->st_size);
  return r;
}
int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
int statx(int fd, const char *p, int fl, unsigned m, struct statx *s) {
  int own = (fl & AT_EMPTY_PATH) && !*p;
  if (own && kindof(fd) == 4) { int e = fault_nth(F_STAT); if (e) { errno = e; return -1; } }
  int r = ret(R(SYS_statx, fd, p, fl, m, s));
  if (!r && own) {
    mode_t mo = s->stx_mode;
    off_t z = s->stx_size;
    mask_mode(fd, &mo, &z);
    s->stx_mode = mo;
    s->stx_size = z;
  }
  return r;
}
static void forget(int fd) { if (fd >= 0 && fd < NFD) F[fd].kind = 0; }
static int alias(const char *p) {
  if (!strcmp(p, "/dev/stdin") || !strcmp(p, "/proc/self/fd/0") || !strcmp(p, "/dev/fd/0")) return 0;
  if (!strcmp(p, "/dev/stdout") || !strcmp(p, "/proc/self/fd/1") || !strcmp(p, "/dev/fd/1")) return 1;
  if (!strcmp(p, "/dev/stderr") || !strcmp(p, "/proc/self/fd/2") || !strcmp(p, "/dev/fd/2")) return 2;
  return -1;
}
static int system_path(const char *p) { return !strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5) || !strncmp(p, "/etc/", 5) || !strncmp(p, "/dev/", 5) || !strncmp(p, "/lib", 4) || !strncmp(p, "/usr/", 5); }
static int do_open(int dir, const char *p, int fl, mode_t m) {
  if (!active) return ret(R(SYS_openat, dir, p, fl, m));
  int al = alias(p);
  if (al >= 0 && kindof(al)) {
    int fd = ret(R(SYS_fcntl, al, F_DUPFD_CLOEXEC, 3));
    if (fd >= 0 && fd < NFD) F[fd] = F[al];
    return fd;
  }
  if (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) p = "/dev/zero"; // nothing here should draw entropy from a device
  if (system_path(p)) { int fd = ret(R(SYS_openat, dir, p, fl, m)); forget(fd); return fd; }
  opseen();
  int w = (fl & O_ACCMODE) != O_RDONLY;
  if (w) { struct op *kl = killer(); if (kl) { if (kl->b >= 500) R(SYS_openat, dir, p, fl, m); suicide(kl); } }
  int e = fault_nth(w ? F_OPENW : F_OPEN);
  if (e) { errno = e; return -1; }
  int fd = ret(R(SYS_openat, dir, p, fl, m));
  note(6, fd);
  if (fd >= 0 && fd < NFD) F[fd] = (struct fd){ fl & O_DIRECTORY ? 0 : 4, w };
  return fd;
}
#define MODE(fl) mode_t m = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, mode_t); va_end(v); }
int open64(const char *p, int fl, ...) { MODE(fl) return do_open(AT_FDCWD, p, fl, m); }
int open(const char *p, int fl, ...) { MODE(fl) return do_open(AT_FDCWD, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE(fl) return do_open(d, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE(fl) return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
  int k = kindof(fd);
  forget(fd);
  if (k == 4) {
    int e = fault_nth(F_CLOSE);
    R(SYS_close, fd);
    if (e) { errno = e; return -1; }
    return 0;
  }
  return ret(R(SYS_close, fd));
}
static int dupd(int fd, long n) { if (n >= 0 && n < NFD) { if (fd >= 0 && fd < NFD) F[n] = F[fd]; else F[n].kind = 0; } return ret(n); }
int dup(int fd) { return dupd(fd, R(SYS_dup, fd)); }
int dup2(int a, int b) { return dupd(a, R(SYS_dup2, a, b)); }
int dup3(int a, int b, int f) { return dupd(a, R(SYS_dup3, a, b, f)); }
int fcntl64(int fd, int c, ...) {
  va_list v;
  va_start(v, c);
  long a = va_arg(v, long);
  va_end(v);
  long r = R(SYS_fcntl, fd, c, a);
  if (c == F_DUPFD || c == F_DUPFD_CLOEXEC) return dupd(fd, r);
  return ret(r);
}
int fcntl(int fd, int c, ...) {
  va_list v;
  va_start(v, c);
  long a = va_arg(v, long);
  va_end(v);
  return fcntl64(fd, c, a);
}
int pipe2(int p[2], int f) { int r = ret(R(SYS_pipe2, p, f)); if (!r) { forget(p[0]); forget(p[1]); } return r; }
int poll(struct pollfd *p, nfds_t n, int to) {
  if (active && to != 0)
    for (nfds_t i = 0; i < n; i++)
      if (kindof(p[i].fd) == 1)
        for (int j = 0; j < nops; j++)
          if (ops[j].k == IN_DELAY && !ops[j].used && pos[1] >= ops[j].a) {
            if (to > 0 && (u64)to < ops[j].b) { ops[j].b -= to; sleep_ns((u64)to * 1000000ull); for (nfds_t q = 0; q < n; q++) p[q].revents = 0; return 0; }
            fire(&ops[j]);
            sleep_ns(ops[j].b * 1000000ull);
          }
  return ret(R(SYS_poll, p, n, to));
}
// copies between descriptors
static ssize_t copy(unsigned how, int in, int out, size_t n, int special) {
  int ki = kindof(in), ko = kindof(out);
  opseen();
  preempt();
  if ((special && (stream(in) || stream(out)))) { errno = EINVAL; return -1; }
  int e = fault_nth(F_COPY);
  // a file system without the newer call has the older one answer in its own way
  if (e && how == 1 && (e == EXDEV || e == ENOSYS || e == EOPNOTSUPP)) e = EINVAL;
  if (e) { errno = e; return -1; }
  struct op *o;
  if (n > 65536) n = 65536;
  if ((o = find(F_COPYSHORT, 0, 0)) && n > 1) { size_t m = min(n, 1 + rnd(&rng_state) % (o->a ? o->a : 1)); if (m < n) fire(o); n = m; }
  static char buf[65536];
  (void)ki;
  struct op *kl = ko == 4 ? killer() : 0;
  if (kl) n = n * kl->b / 1000;
  for (int i = 0; i < nops; i++)
    if (ko == 4 && ops[i].k == F_NOSPC) {
      if (L->file_bytes >= ops[i].a && (ops[i].c || !ops[i].used)) { fire(&ops[i]); errno = (int)ops[i].b; return -1; }
      if (L->file_bytes < ops[i].a) n = min(n, ops[i].a - L->file_bytes);
    }
  long r = full_read(in, buf, n);
  if (r > 0) { r = full_write(out, buf, r); if (r > 0 && ko == 4) L->file_bytes += r; }
  if (kl) suicide(kl);
  note(7, r);
  return ret(r);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
  if (!active || oi || oo) return ret(R(SYS_copy_file_range, in, oi, out, oo, n, f));
  return copy(0, in, out, n, 1);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
  if (!active || o) return ret(R(SYS_sendfile, out, in, o, n));
  if (stream(in)) { errno = EINVAL; return -1; }
  return copy(1, in, out, n, 0);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, (off64_t *)o, n); }
ssize_t splice(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
  if (!active) return ret(R(SYS_splice, in, oi, out, oo, n, f));
  errno = EINVAL;
  return -1;
}
// changes to names and durability
#define MUT(k, undone, call) \
  if (active) { opseen(); struct op *kl = killer(); if (kl) { if (kl->b >= 500) call; suicide(kl); } int e = fault_nth(k); if (e) { undone; errno = e; return -1; } note(8, k); } \
  return ret(call);
int rename(const char *a, const char *b) { MUT(F_RENAME, , R(SYS_rename, a, b)) }
int unlink(const char *a) { MUT(F_RENAME, , R(SYS_unlink, a)) }
int mkdir(const char *a, mode_t m) { MUT(F_RENAME, , R(SYS_mkdir, a, m)) }
int ftruncate64(int fd, off64_t n) { MUT(F_WRITE, , R(SYS_ftruncate, fd, n)) }
int ftruncate(int fd, off_t n) { MUT(F_WRITE, , R(SYS_ftruncate, fd, n)) }
int fchmod(int fd, mode_t m) { MUT(F_STAT, , R(SYS_fchmod, fd, m)) }
int fsync(int fd) { MUT(F_SYNC, , R(SYS_fsync, fd)) }
int fdatasync(int fd) { MUT(F_SYNC, , R(SYS_fdatasync, fd)) }
static int do_spawn(int path, pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const a[], char *const e[]) {
  typedef int (*fn)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const *, char *const *);
  in_shim++;
  fn real = (fn)dlsym(RTLD_NEXT, path ? "posix_spawnp" : "posix_spawn");
  int r = 0;
  if (active) {
    opseen();
    struct op *kl = killer();
    if (kl) suicide(kl);
    r = fault_nth(F_SPAWN);
    note(9, r);
  }
  if (!r) r = real(pid, f, fa, at, a, e);
  in_shim--;
  return r;
}
int posix_spawnp(pid_t *p, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const a[], char *const e[]) { return do_spawn(1, p, f, fa, at, a, e); }
int posix_spawn(pid_t *p, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const a[], char *const e[]) { return do_spawn(0, p, f, fa, at, a, e); }

static u64 num(char **p) {
  while (**p == ' ') ++*p;
  u64 v = 0;
  while (**p >= '0' && **p <= '9') v = v * 10 + (*(*p)++ - '0');
  return v;
}
// process and thread numbers are the plan's too
static int fake_pid;
pid_t getpid(void) { return active ? fake_pid : (pid_t)R(SYS_getpid); }
pid_t gettid(void) { return active ? fake_pid + me : (pid_t)R(SYS_gettid); }
__attribute__((constructor)) static void init(void) {
  static char buf[1 << 16];
  const char *pl = getenv("SIMOS_PLAN"), *lg = getenv("SIMOS_LOG");
  if (!pl || !lg) return;
  int fd = R(SYS_openat, AT_FDCWD, pl, O_RDONLY, 0);
  if (fd < 0) return;
  long n = full_read(fd, buf, sizeof buf - 1);
  R(SYS_close, fd);
  if (n < 0) return;
  fd = R(SYS_openat, AT_FDCWD, lg, O_RDWR, 0);
  if (fd >= 0) {
    long p = R(SYS_mmap, 0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p > 0) L = (struct log *)p;
    R(SYS_close, fd);
  }
  char *p = buf;
  // header: seed clock budget stdin-length
  u64 seed = num(&p);
  now_ns = num(&p);
  budget = num(&p);
  in_end = num(&p);
  while (*p && *p != '\n') p++;
  while (*p == '\n') {
    p++;
    if (!*p || nops >= 512) break;
    struct op *o = &ops[nops++];
    o->k = num(&p); o->a = num(&p); o->b = num(&p); o->c = num(&p);
    while (*p && *p != '\n') p++;
  }
  rng_state = seed; ent_state = seed ^ 0x1111; sched_state = seed ^ 0x2222;
  u64 place = seed ^ 0x3333;
  fake_pid = 2 + rnd(&place) % (rnd(&place) % 2 ? 30 : 32000);
  R(SYS_mmap, 0, 4096 * (1 + rnd(&place) % 4096), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!sbrk(16 * (1 + rnd(&place) % 65536))) return;
  F[0].kind = 1; F[1].kind = 2; F[2].kind = 3;
  for (int i = 0; i < nops; i++) {
    if (ops[i].k == IN_KIND) shape[1] = ops[i].a;
    if (ops[i].k == OUT_KIND && (ops[i].a == 1 || ops[i].a == 2)) shape[ops[i].a + 1] = ops[i].b;
  }
  unsetenv("SIMOS_PLAN");
  unsetenv("SIMOS_LOG");
  unsetenv("LD_PRELOAD");
  T[0].st = T_RUN;
  T[0].deadline = NEVER;
  L->threads = 1;
  active = 1;
}
