/*
 * simrt: the simulated machine that pgsim runs the real parser on.
 *
 * Everything that could make two executions of one seed differ goes through this file:
 *   - threads: real pthreads that hold a baton; exactly one runs, and it may lose the baton at every
 *     basic block edge and at every load and store of the instrumented crates (sanitizer coverage callbacks);
 *   - blocking: futex, sched_yield, sleeping and pthread_join, emulated on the simulated scheduler and clock;
 *   - clock_gettime / gettimeofday / time: a simulated clock with skew and jumps;
 *   - getrandom: a seeded stream;
 *   - memory: an arena at a fixed place with seeded padding, poisoned and never reused while a run lasts, with
 *     a shadow map against which every instrumented load and store is checked.
 * This file itself is not instrumented.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <pthread.h>
#include <dlfcn.h>
#include <limits.h>

#define MAXT 250
#define TRACE_CAP 60000

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

/* ---- interface shared with Rust (src/rt.rs mirrors these layouts) ---- */
struct sim_sw { u64 step; u8 from, to, kind, pad; u32 pad2; };      /* kind 0: preemption, 1: blocked/finished */
struct sim_cfg {
  u64 sched_seed, hash_seed, pad_seed, clock_base_ns, step_budget;
  u32 replay;            /* 1: follow sw[] instead of the generator */
  u32 strategy;          /* 0 random walk, 1 PCT, 2 rotation, 3 bursts */
  u32 quantum;           /* mean steps between decisions */
  u32 static_pm;         /* chance (per 1000) of a decision at an access to writable static data */
  u32 pct_points; u32 pct_span;
  u32 clock_jump_pm;     /* chance (per 1000) that a clock reading jumps */
  u32 nstall;            /* threads that stall for good */
  u32 stall_tid[80]; u64 stall_at[80];
  u32 nsw; u32 quarantine; u64 env_seed;
  const struct sim_sw *sw;
};
struct sim_rep {
  u32 status; u32 ntrace;
  char msg[512];
  u64 total, switches, static_hits, futex_waits, futex_wakes, clock_reads, clock_jumps, rand_draws, stalls,
      sleeps, yields, allocs, frees, threads, sig, trace_overflow, nblocks, on_waits, on_sleeps, on_clock, on_rand, env_reads, env_faked, opens, reused, new_cells;
  struct sim_sw trace[TRACE_CAP];
};
enum { ST_OK = 0, ST_DEADLOCK = 1, ST_BLOCKED_BY_STALL = 2, ST_BUDGET = 3, ST_UAF = 4, ST_DOUBLE_FREE = 5, ST_THREADS = 6, ST_BAD_FREE = 7 };

/* ---- raw system calls (never intercepted) ---- */
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void die(int st, const char *fmt, ...);

/* ---- state ---- */
enum { T_FREE = 0, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_STALL, T_DONE };
struct thr {
  int state; volatile int baton; pthread_t pt; void *(*fn)(void *); void *arg;
  u64 steps, work, next, stall_at; u32 *faddr; u32 fbits; u64 deadline; int has_deadline, timed_out, joining, stalled_once;
  u64 prio; u32 blocks; const struct sim_sw *rp, *rpend; int exit_rounds;
  uintptr_t stk_lo, stk_hi;
};
static struct {
  int active; struct sim_cfg c; struct sim_rep *r;
  struct thr t[MAXT]; int n, cur; u64 rng, hrng, crng, clock, mono_floor; u64 next_cp; u32 cps_left; u64 lowprio; int stalls_released;
} G;
static __thread struct thr *self;
static __thread int on;
static pthread_key_t exit_key;
static u8 *edge_hits, *ro_hits; static u64 n_edges;
static u64 ro_cap;
extern char __executable_start[], __data_start[], _end[], etext[];

static inline u64 rnd(u64 *s) { u64 z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline u64 mixh(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

static u64 gap(u32 mean) { /* geometric-like gap, at least 1 */
  if (mean <= 1) return 1;
  u64 r = rnd(&G.rng); u64 e = 1; /* exponential with mean `mean`, in fixed point: sum of two uniforms keeps it cheap */
  u64 u = r & 0xffffffff, v = r >> 32; u64 m = u < v ? u : v; e += (m * (u64)mean * 3) >> 32; /* E[min(u,v)] = 1/3 */
  return e;
}

/* ---- baton ---- */
static void baton_wait(struct thr *t) { while (!__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)&t->baton, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); t->baton = 0; }
static void baton_give(struct thr *t) { __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE); raw6(SYS_futex, (long)&t->baton, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void trace(int from, int to, u64 step, int kind) {
  struct sim_rep *r = G.r; G.r->sig = mixh(G.r->sig, (step << 16) ^ (u64)(from << 8) ^ (u64)to ^ ((u64)kind << 60));
  if (r->ntrace < TRACE_CAP) { struct sim_sw *s = &r->trace[r->ntrace++]; s->step = step; s->from = from; s->to = to; s->kind = kind; }
  else r->trace_overflow = 1;
}
static void plan_next(struct thr *t) { /* when does t reach its next decision? */
  if (G.c.replay) { t->next = UINT64_MAX; while (t->rp < t->rpend && (t->rp->from != (u8)(t - G.t) || t->rp->kind != 0 || t->rp->step <= t->steps)) t->rp++; if (t->rp < t->rpend) t->next = t->rp->step; }
  else if (G.r->ntrace >= TRACE_CAP - 4096) t->next = UINT64_MAX;
  else if (G.c.strategy == 1) t->next = G.cps_left ? t->steps + (G.next_cp > G.r->total ? G.next_cp - G.r->total : 1) : UINT64_MAX;
  else if (G.c.strategy == 2) t->next = t->steps + G.c.quantum;
  else if (G.c.strategy == 3) t->next = t->steps + ((rnd(&G.rng) & 7) ? gap(8) : gap(G.c.quantum));
  else t->next = t->steps + gap(G.c.quantum);
  if (t->stall_at && !G.stalls_released && !t->stalled_once && t->stall_at > t->steps && t->stall_at < t->next) t->next = t->stall_at;
}
static int runnable(int i) { return G.t[i].state == T_RUN; }
static int pick(int avoid_self) { /* choose among runnable threads; -1 if none */
  int c[MAXT], n = 0;
  for (int i = 0; i < G.n; i++) if (runnable(i) && !(avoid_self && i == G.cur)) c[n++] = i;
  if (!n) return -1;
  if (G.c.replay) return c[0];
  if (G.c.strategy == 1) { int b = c[0]; for (int i = 1; i < n; i++) if (G.t[c[i]].prio > G.t[b].prio) b = c[i]; return b; }
  if (G.c.strategy == 2) { for (int i = 0; i < n; i++) if (c[i] > G.cur) return c[i]; return c[0]; }
  return c[rnd(&G.rng) % (u64)n];
}
static u64 now(void) { return G.clock; }
static void unblock_time(void) { for (int i = 0; i < G.n; i++) { struct thr *t = &G.t[i]; if ((t->state == T_SLEEP || t->state == T_FUTEX) && t->has_deadline && t->deadline <= now()) { t->timed_out = 1; t->state = T_RUN; t->has_deadline = 0; t->faddr = 0; } } }
static void give_to(int to) { /* hand the baton over and wait for it */
  struct thr *me = self; if (to == G.cur) return;
  G.cur = to; G.r->switches++; baton_give(&G.t[to]); baton_wait(me);
}
static int pick_blocked(struct thr *me) { /* me cannot go on: who does? */
  for (;;) {
    unblock_time();
    int to = -1;
    if (G.c.replay) { /* the n-th time this thread blocked */
      u32 k = 0; for (u32 i = 0; i < G.c.nsw; i++) if (G.c.sw[i].kind == 1 && G.c.sw[i].from == (u8)(me - G.t)) { if (k++ == me->blocks) { if (runnable(G.c.sw[i].to)) to = G.c.sw[i].to; break; } }
    }
    if (to < 0) to = pick(0);
    if (to >= 0) { trace((int)(me - G.t), to, me->steps, 1); me->blocks++; return to; }
    u64 best = UINT64_MAX; for (int i = 0; i < G.n; i++) if ((G.t[i].state == T_SLEEP || G.t[i].state == T_FUTEX) && G.t[i].has_deadline && G.t[i].deadline < best) best = G.t[i].deadline;
    if (best != UINT64_MAX) { if (G.clock < best) G.clock = best; continue; }
    int stalled = 0, waiting = 0;
    for (int i = 0; i < G.n; i++) { if (G.t[i].state == T_STALL) stalled++; if (G.t[i].state == T_FUTEX && i) waiting++; }
    if (stalled && !waiting) { G.stalls_released = 1; for (int i = 0; i < G.n; i++) if (G.t[i].state == T_STALL) G.t[i].state = T_RUN; continue; }
    if (stalled) die(ST_BLOCKED_BY_STALL, "%d thread(s) wait for a thread that is stalled inside an operation", waiting);
    int alive = 0; for (int i = 0; i < G.n; i++) if (G.t[i].state != T_DONE) alive++;
    if (alive) die(ST_DEADLOCK, "all %d live threads wait for each other", alive);
    return -1;
  }
}
static void block_here(void) { struct thr *me = self; int to = pick_blocked(me); if (to != (int)(me - G.t)) { if (to >= 0) give_to(to); } plan_next(me); }

static void decide(struct thr *t, int forced) {
  int me = (int)(t - G.t);
  if (t->stall_at && !t->stalled_once && !G.stalls_released && t->steps >= t->stall_at && me) {
    t->stalled_once = 1; t->state = T_STALL; G.r->stalls++; block_here(); return;
  }
  if (G.c.replay) { if (t->rp < t->rpend && t->rp->kind == 0 && t->rp->from == me && t->steps == t->rp->step) { int to = t->rp->to; t->rp++; if (to < G.n && runnable(to) && to != me) { trace(me, to, t->steps, 0); give_to(to); } } plan_next(t); return; }
  if (G.c.strategy == 1 && !forced) { if (G.r->total >= G.next_cp && G.cps_left) { t->prio = --G.lowprio; G.cps_left--; G.next_cp = G.r->total + 1 + rnd(&G.rng) % (G.c.pct_span ? G.c.pct_span : 1); } }
  int to = (G.c.strategy == 1 && forced) ? pick(1) : pick(0);
  if (to >= 0 && to != me) { trace(me, to, t->steps, 0); give_to(to); }
  plan_next(t);
}

/* ---- memory ---- */
#define ARENA_BASE 0x200000000000ull
#define ARENA_SIZE (16ull << 30)
static u8 *shadow; static u64 bump; static u64 live_bytes, live_blocks, peak_bytes; static int quarantine; static u64 prng; static volatile int alloc_lock;
static struct fnode { struct fnode *next; } *freel[64];
struct hdr { u64 size; u32 magic; u8 cls, big; u16 off; };
#define MAGIC 0x51acb10cu
static u64 fail_at, alloc_no;
static void arena_init(void) {
  void *p = mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA_BASE) { static const char m[] = "simrt: cannot map the arena\n"; raw6(SYS_write, 2, (long)m, sizeof m - 1, 0, 0, 0); raw6(SYS_exit_group, 90, 0, 0, 0, 0, 0); }
  shadow = mmap(0, ARENA_SIZE >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  bump = ARENA_BASE + 4096;
}
static inline int cls_of(u64 n) { /* n: rounded to 16 */ int c = 0; u64 s = 16; while (s < n) { c++; s = (c & 1) ? (s / 2 * 3) : (s / 3 * 4); } return c; }
static inline u64 cls_size(int c) { u64 s = 16; for (int i = 1; i <= c; i++) s = (i & 1) ? (s / 2 * 3) : (s / 3 * 4); return (s + 15) & ~15ull; }
void *sim_alloc(u64 size, u64 align) {
  while (__atomic_exchange_n(&alloc_lock, 1, __ATOMIC_ACQUIRE)) ;
  if (!shadow) arena_init();
  alloc_no++;
  u64 n = (size + 15) & ~15ull; if (!n) n = 16;
  int c = cls_of(n); u64 cs = cls_size(c); struct hdr *h; u64 p;
  if (align <= 16 && freel[c] && !quarantine) { if (G.r) G.r->reused++; p = (u64)freel[c]; freel[c] = freel[c]->next; h = (struct hdr *)(p - 16); }
  else {
    if (align < 16) align = 16;
    u64 pad = (quarantine && prng) ? (rnd(&prng) & 7) * 16 : 0;
    p = (bump + 16 + pad + align - 1) & ~(align - 1); if (p + cs + 16 > ARENA_BASE + ARENA_SIZE) { alloc_lock = 0; return 0; }
    bump = p + cs; h = (struct hdr *)(p - 16);
  }
  h->size = size; h->magic = MAGIC; h->cls = (u8)c; h->big = align > 16;
  memset(shadow + ((p - ARENA_BASE) >> 4), 1, (size + 15) >> 4);
  live_bytes += size; live_blocks++; if (live_bytes > peak_bytes) peak_bytes = live_bytes; if (G.r) G.r->allocs++;
  if (quarantine) memset((void *)p, 0xA5, n < 4096 ? n : 4096);
  __atomic_store_n(&alloc_lock, 0, __ATOMIC_RELEASE);
  return (void *)p;
}
void sim_free(void *q) {
  u64 p = (u64)q; struct hdr *h = (struct hdr *)(p - 16);
  if (p < ARENA_BASE || p >= ARENA_BASE + ARENA_SIZE || h->magic != MAGIC) die(ST_BAD_FREE, "free of a pointer that was never allocated");
  while (__atomic_exchange_n(&alloc_lock, 1, __ATOMIC_ACQUIRE)) ;
  u64 g = (p - ARENA_BASE) >> 4; if (h->size && shadow[g] != 1) die(ST_DOUBLE_FREE, "block of %llu bytes freed twice", (unsigned long long)h->size);
  live_bytes -= h->size; live_blocks--; if (G.r) G.r->frees++;
  memset(shadow + g, 2, (h->size + 15) >> 4); if (!h->size) h->magic = 0;
  if (quarantine) memset(q, 0xDD, h->size < 4096 ? h->size : 4096);
  else if (!h->big) { ((struct fnode *)p)->next = freel[h->cls]; freel[h->cls] = (struct fnode *)p; }
  __atomic_store_n(&alloc_lock, 0, __ATOMIC_RELEASE);
}
void *sim_realloc(void *q, u64 size) { struct hdr *h = (struct hdr *)((u64)q - 16); void *n = sim_alloc(size, 16); if (n) { memcpy(n, q, h->size < size ? h->size : size); sim_free(q); } return n; }
u64 sim_live_bytes(void) { return live_bytes; }
u64 sim_live_blocks(void) { return live_blocks; }
u64 sim_peak_reset(void) { u64 p = peak_bytes; peak_bytes = live_bytes; return p; }
static void badmem(u64 a, int w) { u8 s = shadow[(a - ARENA_BASE) >> 4]; die(ST_UAF, "%s of memory that is %s", w ? "write" : "read", s == 2 ? "already freed" : "not allocated"); }

/* ---- instrumentation callbacks ---- */
static __attribute__((noinline)) void over_budget(void) { die(ST_BUDGET, "no progress: the step budget of %llu is used up", (unsigned long long)G.c.step_budget); }
static inline void step(void) { struct thr *t = self; t->steps++; if (__builtin_expect(++G.r->total > G.c.step_budget, 0)) over_budget(); if (__builtin_expect(t->steps >= t->next, 0)) decide(t, 0); }
void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) { if (a == b || *a) return; for (; a < b; a++) *a = (u32)++n_edges; }
void __sanitizer_cov_trace_pc_guard(u32 *g) { if (!on) return; if (edge_hits && !edge_hits[*g]) { edge_hits[*g] = 1; G.r->new_cells++; } step(); }
static inline void mem(u64 a, int w) {
  if (!on) return;
  struct thr *t = self;
  if (a - t->stk_lo < t->stk_hi - t->stk_lo) return;
  if (a - ARENA_BASE < ARENA_SIZE) { if (__builtin_expect(shadow[(a - ARENA_BASE) >> 4] != 1, 0)) badmem(a, w); step(); return; }
  if (a >= (u64)__executable_start && a < (u64)_end) {
    if (a < (u64)__data_start) { if (ro_hits) { u64 o = (a - (u64)__executable_start) >> 1; if (o < ro_cap && !ro_hits[o]) { ro_hits[o] = 1; G.r->new_cells++; } } return; }
    G.r->static_hits++; step();
    if (G.c.static_pm && !G.c.replay && G.r->ntrace < TRACE_CAP - 4096 && rnd(&G.rng) % 1000 < G.c.static_pm) decide(t, 1);
    return;
  }
  step();
}
void __sanitizer_cov_load1(u8 *p) { mem((u64)p, 0); }
void __sanitizer_cov_load2(u8 *p) { mem((u64)p, 0); }
void __sanitizer_cov_load4(u8 *p) { mem((u64)p, 0); }
void __sanitizer_cov_load8(u8 *p) { mem((u64)p, 0); }
void __sanitizer_cov_load16(u8 *p) { mem((u64)p, 0); }
void __sanitizer_cov_store1(u8 *p) { mem((u64)p, 1); }
void __sanitizer_cov_store2(u8 *p) { mem((u64)p, 1); }
void __sanitizer_cov_store4(u8 *p) { mem((u64)p, 1); }
void __sanitizer_cov_store8(u8 *p) { mem((u64)p, 1); }
void __sanitizer_cov_store16(u8 *p) { mem((u64)p, 1); }
void sim_cov_maps(u8 *edges, u8 *ro, u64 rocap) { edge_hits = edges; ro_hits = ro; ro_cap = rocap; }
u64 sim_n_edges(void) { return n_edges; }
u64 sim_ro_cells(void) { return ((u64)__data_start - (u64)__executable_start) >> 1; }

/* ---- work: what the C library moves and compares on behalf of the parser, in units of 16 bytes ---- */
#ifdef COST
static inline void moved(size_t n) { if (on && n) self->work += n; }
void *memcpy(void *restrict d, const void *restrict s, size_t n) { moved(n); void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void *memmove(void *d, const void *s, size_t n) {
  moved(n); void *r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
  u8 *a = (u8 *)d + n; const u8 *b = (const u8 *)s + n;
  while (n >= 8) { a -= 8; b -= 8; n -= 8; u64 x; __asm__ volatile("movq (%1), %0\n\tmovq %0, (%2)" : "=&r"(x) : "r"(b), "r"(a) : "memory"); }
  while (n--) { a--; b--; __asm__ volatile("movb (%0), %%al\n\tmovb %%al, (%1)" : : "r"(b), "r"(a) : "memory", "al"); }
  return r;
}
void *memset(void *d, int c, size_t n) { moved(n); void *r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
int memcmp(const void *x, const void *y, size_t n) { moved(n); const volatile u8 *a = x, *b = y; for (; n; n--, a++, b++) if (*a != *b) return *a - *b; return 0; }
int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
u64 sim_my_work(void) { return self ? self->steps + self->work / 16 : 0; }
#else
u64 sim_my_work(void) { return self ? self->steps : 0; }
#endif

/* ---- run control ---- */
static void die(int st, const char *fmt, ...) {
  on = 0;
  if (G.r) { G.r->status = (u32)st; va_list ap; va_start(ap, fmt); vsnprintf(G.r->msg, sizeof G.r->msg, fmt, ap); va_end(ap); }
  else { va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); }
  raw6(SYS_exit_group, 100 + st, 0, 0, 0, 0, 0); __builtin_unreachable();
}
static void stack_of(struct thr *t) { pthread_attr_t a; void *lo; size_t sz; if (!pthread_getattr_np(pthread_self(), &a)) { pthread_attr_getstack(&a, &lo, &sz); t->stk_lo = (uintptr_t)lo; t->stk_hi = (uintptr_t)lo + sz; pthread_attr_destroy(&a); } }
static void thread_gone(void *);
static void setup_thread(struct thr *t) {
  t->prio = 1000000 + (rnd(&G.rng) & 0xffff); t->rp = G.c.sw; t->rpend = G.c.sw + G.c.nsw; t->stall_at = 0;
  for (u32 i = 0; i < G.c.nstall && i < 80; i++) if (G.c.stall_tid[i] == (u32)(t - G.t)) t->stall_at = G.c.stall_at[i];
}
void sim_begin(const struct sim_cfg *c, struct sim_rep *r) {
  static int key_made; if (!key_made) { pthread_key_create(&exit_key, thread_gone); key_made = 1; }
  memset(&G, 0, sizeof G); G.c = *c; G.r = r; memset(r, 0, offsetof(struct sim_rep, trace));
  G.rng = c->sched_seed; G.hrng = c->hash_seed; G.crng = c->sched_seed ^ 0xC10C; G.clock = c->clock_base_ns; G.n = 1; G.cur = 0; G.lowprio = 1000;
  G.cps_left = c->pct_points; G.next_cp = 1 + rnd(&G.rng) % (c->pct_span ? c->pct_span : 1);
  quarantine = (int)c->quarantine; prng = c->pad_seed;
  if (prng && !shadow) arena_init();
  if (prng) bump += (rnd(&prng) & 0xfff) * 16;
  self = &G.t[0]; self->state = T_RUN; stack_of(self); setup_thread(self); plan_next(self); G.active = 1;
}
void sim_end(void) { G.active = 0; on = 0; }
void sim_on(void) { on = 1; }
void sim_off(void) { on = 0; }
int sim_is_on(void) { return on; }
u64 sim_my_steps(void) { return self ? self->steps : 0; }
int sim_my_tid(void) { return self ? (int)(self - G.t) : -1; }
u64 sim_total(void) { return G.r ? G.r->total : 0; }
int sim_thread_stalled(int tid) { return G.t[tid].stalled_once; }
void sim_yield(void) { if (!G.active || !self) return; int o = on; on = 0; decide(self, 1); on = o; }
void sim_budget(u64 n) { G.c.step_budget = G.r->total + n; }
u64 sim_clock(void) { return G.clock; }

/* ---- threads ---- */
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static void thread_gone(void *p) { /* runs after all thread-local destructors */
  struct thr *t = p; if (!G.active || t != self) return; on = 0;
  if (t->exit_rounds++ < 2) { pthread_setspecific(exit_key, p); return; }
  t->state = T_DONE; for (int i = 0; i < G.n; i++) if (G.t[i].state == T_JOIN && G.t[i].joining == (int)(t - G.t)) G.t[i].state = T_RUN;
  int to = pick_blocked(t); if (to >= 0) { G.cur = to; G.r->switches++; baton_give(&G.t[to]); }
}
static void *trampoline(void *p) { struct thr *t = p; self = t; baton_wait(t); stack_of(t); plan_next(t); pthread_setspecific(exit_key, t); return t->fn(t->arg); }
int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!G.active || !self) return real_create(pt, a, fn, arg);
  if (G.n >= MAXT) die(ST_THREADS, "more than %d threads", MAXT);
  int o = on; on = 0;
  struct thr *t = &G.t[G.n]; memset(t, 0, sizeof *t); t->fn = fn; t->arg = arg; t->state = T_RUN; setup_thread(t);
  int rc = real_create(pt, a, trampoline, t); if (rc) { on = o; return rc; }
  t->pt = *pt; G.n++; G.r->threads++; on = o; return 0;
}
int pthread_join(pthread_t pt, void **ret) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (G.active && self) { int o = on; on = 0; for (int i = G.n - 1; i > 0; i--) if (G.t[i].pt == pt && G.t[i].fn) { if (G.t[i].state != T_DONE) { self->state = T_JOIN; self->joining = i; block_here(); } break; } on = o; }
  return real_join(pt, ret);
}

/* ---- blocking, clock, entropy ---- */
static long futex_emul(u32 *a, int op, u32 val, const struct timespec *ts, u32 bits) {
  int cmd = op & FUTEX_CMD_MASK; struct thr *me = self;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    G.r->futex_waits++; if (on) G.r->on_waits++;
    int o = on; on = 0; me->faddr = a; me->fbits = cmd == FUTEX_WAIT ? ~0u : bits; me->timed_out = 0; me->has_deadline = 0;
    if (ts) { u64 d = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; me->deadline = cmd == FUTEX_WAIT ? now() + d : d; me->has_deadline = 1; }
    me->state = T_FUTEX; block_here(); on = o;
    if (me->timed_out) { errno = ETIMEDOUT; return -1; } return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int n = 0; u32 b = cmd == FUTEX_WAKE ? ~0u : bits; G.r->futex_wakes++;
    for (int i = 0; i < G.n && n < (int)val; i++) if (G.t[i].state == T_FUTEX && G.t[i].faddr == a && (G.t[i].fbits & b)) { G.t[i].state = T_RUN; G.t[i].faddr = 0; G.t[i].has_deadline = 0; n++; }
    return n;
  }
  errno = ENOSYS; return -1;
}
static void fill_random(void *p, size_t n) { if (G.r) { G.r->rand_draws++; if (on) G.r->on_rand++; } u8 *q = p; while (n) { u64 v = rnd(&G.hrng); size_t k = n < 8 ? n : 8; memcpy(q, &v, k); q += k; n -= k; } }
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (n == SYS_getrandom) { fill_random((void *)a, (size_t)b); return b; }
  if (G.active && self) {
    if (n == SYS_futex) return futex_emul((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32)f);
        if (n == SYS_sched_yield) { G.r->yields++; sim_yield(); return 0; }
    if (n == SYS_clock_gettime) return clock_gettime((clockid_t)a, (struct timespec *)b);
  }
  long r = raw6(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
}
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; fill_random(p, n); return (ssize_t)n; }
int getentropy(void *p, size_t n) { fill_random(p, n); return 0; }
int sched_yield(void) { if (G.active && self) { G.r->yields++; sim_yield(); return 0; } return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
static u64 read_clock(int mono) {
  G.r->clock_reads++; if (on) G.r->on_clock++; G.clock += 37 + (G.r->total & 15);
  u64 v = G.clock;
  if (G.c.clock_jump_pm && rnd(&G.crng) % 1000 < G.c.clock_jump_pm) { G.r->clock_jumps++; u64 j = rnd(&G.crng) % 86400000000000ull; if (mono || (rnd(&G.crng) & 1)) { G.clock += j; v = G.clock; } else v = v > j ? v - j : 0; }
  if (mono) { if (v < G.mono_floor) v = G.mono_floor; G.mono_floor = v; }
  return v;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!G.active) return (int)raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
  u64 v = read_clock(!(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)); ts->tv_sec = (time_t)(v / 1000000000ull); ts->tv_nsec = (long)(v % 1000000000ull); return 0;
}
int gettimeofday(struct timeval *tv, void *tz) { (void)tz; struct timespec t; int r = clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return r; }
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
static int sim_sleep(u64 until) { int o = on; G.r->sleeps++; if (on) G.r->on_sleeps++; on = 0; self->deadline = until; self->has_deadline = 1; self->timed_out = 0; self->state = T_SLEEP; block_here(); on = o; return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { (void)b; if (G.active && self) return sim_sleep(now() + (u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec); return (int)raw6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); }
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) { if (G.active && self) { u64 d = (u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec; return sim_sleep((fl & 1) ? d : now() + d); } return (int)-raw6(SYS_clock_nanosleep, id, fl, (long)a, (long)b, 0, 0); }

/* ---- environment: what the code under test sees when it looks around ---- */
extern char **environ;
char *getenv(const char *name) {
  size_t n = strlen(name);
  if (on && G.active) {
    G.r->env_reads++;
    if (G.c.env_seed) {
      static char *vals[] = {"1", "0", "", "debug", "true", "off", "C", "/tmp", "tr_TR.UTF-8", "4096", "full"};
      u64 h = G.c.env_seed; for (size_t i = 0; i < n; i++) h = mixh(h, (u8)name[i]);
      if (h & 64) { G.r->env_faked++; return vals[(h >> 8) % (sizeof vals / sizeof *vals)]; }
    }
    return 0;
  }
  if (environ) for (char **e = environ; *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return 0;
}
char *secure_getenv(const char *name) { return getenv(name); }
static int sim_open(int dir, const char *p, int fl, unsigned mode) {
  if (on && G.active) { G.r->opens++; if (G.c.env_seed & 2) { errno = ENOENT; return -1; } }
  long r = raw6(SYS_openat, dir, (long)p, fl, mode, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return (int)r;
}
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); unsigned m = va_arg(ap, unsigned); va_end(ap); return sim_open(-100, p, fl, m); }
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); unsigned m = va_arg(ap, unsigned); va_end(ap); return sim_open(-100, p, fl, m); }
