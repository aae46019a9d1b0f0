// Simulation runtime.
//
// Everything nondeterministic in a run is decided here: which simulated thread
// runs next, what a relaxed load returns, which job an idle worker steals.
// Simulated threads are coroutines of one OS thread; they switch only in this
// file. The compiler's thread-sanitizer pass turns every memory access and every
// atomic operation of the instrumented crates (sparsey, atomic_refcell, rayon,
// hashbrown, the generic parts of std, the harness) into a call to one of the
// __tsan_* functions below, which is the seam the simulator stands on.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned __int128 u128;

#define MAXT 12
#define ARENA_BASE 0x200000000000ULL
#define ARENA_SIZE 0x40000000ULL
#define SH_BASE 0x210000000000ULL
#define RC_BASE 0x220000000000ULL
#define STACK_SIZE (1u << 20)
#define STACK_BASE 0x230000000000ULL

enum { ST_NONE, ST_RUN, ST_BLOCK, ST_DONE };

// Layout shared with rt.rs.
typedef struct {
  u64 seed;
  u32 strategy;    // 0 random walk, 1 pct, 2 round robin, 3 run to block
  u32 stay;        // of 256, strategy 0
  u32 plain_rate;  // preempt about one in this many plain accesses, 0 = never
  u32 stale;       // of 256: chance that a relaxed load returns an older value
  u32 race;        // race detection on
  u32 replay;      // take decisions from the list
  u64 step_cap;
} Params;

typedef struct {
  u32 pos, val;
} Dec;

typedef struct {
  u64 n, cap;
  u64 overflow;
  Dec d[];
} DecBuf;

typedef struct {
  u32 kind;  // 0 none, 1 violation, 2 crash, 3 harness error
  u32 thread;
  u64 step, hash;
  char cls[32];
  char msg[2048];
} VBuf;

typedef struct {
  u64 steps, sched_points, switches, preempts, stale_loads, stale_opportunities, atomics, races_checked;
  u64 decisions, hash, ihash, arena_used, live_blocks, live_bytes, allocs, frees, longest;
} Stats;

typedef struct {
  int state;
  int sut;
  void *sp;
  void (*fn)(void *);
  void *arg;
  const void *wkey;
  u32 prio;
  u32 vc[MAXT];
} Thr;

static Params P;
static DecBuf *DB;       // recorded decisions (shared memory)
static const Dec *RL;    // decisions to replay
static u64 RLN, RLI;
static VBuf *VB;
static Stats S;
static Thr T[MAXT];
static int g_cur, g_nthr, g_multi;
int rt_sut;  // of the current thread: 1 check accesses and schedule, 2 allocate in the arena
static u64 g_rng, g_pcount, g_pct_next;
static u64 g_bump, g_arena_peak;
static u32 g_gen;
static u64 g_live_blocks, g_live_bytes;
static u32 g_pct_low;

static inline u64 rnd(void) {
  u64 z = (g_rng += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

static inline void hash(u64 x) {
  S.hash = (S.hash ^ x) * 0x9e3779b97f4a7c15ULL;
  S.hash ^= S.hash >> 29;
}
void rt_hash(u64 x) { hash(x); }

// ---------------------------------------------------------------- violations

__attribute__((noreturn)) void rt_fail(u32 kind, const char *cls, const char *msg, u64 len) {
  rt_sut = 0;
  if (VB && !VB->kind) {
    VB->kind = kind;
    VB->thread = g_cur;
    VB->step = S.steps;
    VB->hash = S.hash;
    snprintf(VB->cls, sizeof VB->cls, "%s", cls);
    if (len >= sizeof VB->msg) len = sizeof VB->msg - 1;
    memcpy(VB->msg, msg, len);
    VB->msg[len] = 0;
  }
  _exit(kind == 3 ? 33 : 30);
}

__attribute__((noreturn)) static void fail(const char *cls, const char *msg) {
  rt_fail(1, cls, msg, strlen(msg));
}

static char last_panic[256];
void rt_note_panic(const char *s, u64 n) {
  if (n > 255) n = 255;
  memcpy(last_panic, s, n);
  last_panic[n] = 0;
}

static void on_signal(int sig, siginfo_t *si, void *uc) {
  (void)uc;
  char b[512];
  if (sig == SIGABRT)
    snprintf(b, sizeof b, "the code under test aborted (%s)", last_panic);
  else
    snprintf(b, sizeof b, "signal %d at address %p%s", sig, sig == SIGSEGV || sig == SIGBUS ? si->si_addr : 0,
             rt_sut ? "" : " (while the harness looked at a value)");
  rt_fail(2, "crash", b, strlen(b));
}

// ------------------------------------------------------------------ the arena

typedef struct {
  u64 magic, size, align, id;
} Hdr;
#define MAGIC 0x51b5a11ec0ffee01ULL
#define FREED 0xdeadbeefdeadbeefULL

static inline u8 *shadow(u64 a) { return (u8 *)(SH_BASE + (a - ARENA_BASE)); }
static inline int in_arena(u64 a) { return a - ARENA_BASE < ARENA_SIZE; }
int rt_in_arena(const void *p) { return in_arena((u64)p); }

static void race_range(u64 a, u64 n, int w);

void *rt_alloc(u64 size, u64 align, int zero) {
  if (align < 16) align = 16;
  u64 user = (ARENA_BASE + g_bump + 16 + sizeof(Hdr) + align - 1) & ~(align - 1);
  u64 end = user + size + 16;
  if (end - ARENA_BASE > ARENA_SIZE) fail("memory", "the code under test allocated more than 1 GiB");
  g_bump = end - ARENA_BASE;
  if (g_bump > g_arena_peak) g_arena_peak = g_bump;
  Hdr *h = (Hdr *)(user - sizeof(Hdr));
  h->magic = MAGIC;
  h->size = size;
  h->align = align;
  h->id = S.allocs++;
  memset(shadow(user), 1, size);
  memset((void *)user, zero ? 0 : 0xa5, size);
  g_live_blocks++;
  g_live_bytes += size;
  return (void *)user;
}

void rt_free(void *p, u64 size, u64 align) {
  u64 a = (u64)p;
  if (align < 16) align = 16;
  Hdr *h = (Hdr *)(a - sizeof(Hdr));
  char b[200];
  if (a - ARENA_BASE > g_bump || h->magic == FREED) fail("memory", "memory was freed twice");
  if (h->magic != MAGIC) fail("memory", "a pointer was freed that no allocation returned");
  if (h->size != size || h->align != align) {
    snprintf(b, sizeof b, "memory allocated with size %lu align %lu was freed with size %lu align %lu", h->size, h->align,
             size, align);
    fail("memory", b);
  }
  if (g_multi && P.race && (rt_sut & 1)) race_range(a, size, 1);
  h->magic = FREED;
  memset(shadow(a), 2, size);
  memset(p, 0x5a, size);
  g_live_blocks--;
  g_live_bytes -= size;
  S.frees++;
}

u64 rt_first_leak(void) {
  // Size of some block that was never freed.
  for (u64 o = 0; o < g_bump; o += 8) {
    u8 *s = (u8 *)(SH_BASE + o);
    if (*s & 1) {
      for (u64 q = o; q >= 8; q -= 8) {
        Hdr *h = (Hdr *)(ARENA_BASE + q - sizeof(Hdr));
        if (h->magic == MAGIC) return h->size;
      }
    }
  }
  return 0;
}

// Looks for 8-byte words in live arena memory; returns how many match.
u64 rt_scan(u64 word, u64 lo, u64 hi, u64 *out, u64 cap) {
  u64 n = 0;
  if (!lo) lo = ARENA_BASE, hi = ARENA_BASE + g_bump;
  for (u64 a = (lo + 7) & ~7ULL; a + 8 <= hi; a += 8)
    if ((*shadow(a) & 1) && (*shadow(a + 7) & 1) && *(u64 *)a == word) {
      if (n < cap) out[n] = a;
      n++;
    }
  return n;
}

// The same for 4-byte halves of words.
u64 rt_scan_halves(u64 half, u64 *out, u64 cap) {
  u64 n = 0;
  for (u64 a = ARENA_BASE; a + 8 <= ARENA_BASE + g_bump; a += 8)
    if ((*shadow(a) & 1) && (*shadow(a + 7) & 1))
      for (u64 b = a; b < a + 8; b += 4)
        if (*(u32 *)b == half) {
          if (n < cap) out[n] = b;
          n++;
        }
  return n;
}

// ------------------------------------------------------------ decision stream

static u32 decide(u32 n, u32 searched) {
  u64 pos = S.decisions++;
  u32 v;
  if (P.replay) {
    v = 0;
    while (RLI < RLN && RL[RLI].pos < pos) RLI++;
    if (RLI < RLN && RL[RLI].pos == pos) v = RL[RLI++].val % n;
  } else
    v = searched;
  if (v) {
    if (DB->n < DB->cap)
      DB->d[DB->n++] = (Dec){(u32)pos, v};
    else
      DB->overflow = 1;
    hash(pos << 8 | v);
  }
  return v;
}

// A choice of the environment among n options, 0 being the ordinary one.
u32 rt_decide(u32 n) {
  if (n <= 1) return 0;
  return decide(n, P.replay ? 0 : (u32)(rnd() % n));
}

// ------------------------------------------------------------------ scheduler

__attribute__((naked, noinline)) static void ctx_switch(void **save, void *to) {
  __asm__ volatile(
      "pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
      "movq %rsp, (%rdi)\n movq %rsi, %rsp\n"
      "popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
}

static void switch_to(int n) {
  int o = g_cur;
  if (n == o) return;
  T[o].sut = rt_sut;
  g_cur = n;
  rt_sut = T[n].sut;
  S.switches++;
  S.ihash = (S.ihash ^ (u64)(n + 1) ^ (S.decisions << 8)) * 0x9e3779b97f4a7c15ULL;
  S.ihash ^= S.ihash >> 31;
  ctx_switch(&T[o].sp, T[n].sp);
}

// Runnable threads other than the current one, in cyclic order after it.
static int others(int *o) {
  int n = 0;
  for (int i = 1; i < g_nthr; i++) {
    int t = (g_cur + i) % g_nthr;
    if (T[t].state == ST_RUN) o[n++] = t;
  }
  return n;
}

static u64 g_limit, g_mark;

// An operation begins: the step limit counts from here.
void rt_progress(void) {
  u64 d = S.steps - g_mark;
  if (d > S.longest) S.longest = d;
  g_mark = S.steps;
  g_limit = S.steps + P.step_cap;
}

// In a child process: stops reporting to the parent.
void rt_private(u64 cap) {
  static VBuf vb;
  static DecBuf db;
  VB = &vb;
  DB = &db;
  P.step_cap = cap;
  g_limit = S.steps + cap;
}

static void check_cap(void) {
  if (S.steps > g_limit) fail("stuck", "an operation did not finish within the step limit");
}

static u32 search_pick(int *o, int n, int can_stay) {
  // 0 = stay (if possible), i = o[i-1]; without staying i = o[i].
  switch (P.strategy) {
    case 1: {  // pct: highest priority runs; at change points the current one sinks
      if (can_stay && S.sched_points >= g_pct_next) {
        T[g_cur].prio = g_pct_low--;
        g_pct_next = S.sched_points + 1 + rnd() % (1ULL << (2 + rnd() % 9));
      }
      int best = -1;
      u32 bp = can_stay ? T[g_cur].prio : 0;
      for (int i = 0; i < n; i++)
        if (T[o[i]].prio > bp || (best < 0 && !can_stay)) bp = T[o[i]].prio, best = i;
      return can_stay ? (u32)(best + 1) : (u32)best;
    }
    case 2:
      return can_stay ? 1 : 0;
    case 3:
      if (can_stay) return rnd() % 64 ? 0 : 1 + rnd() % n;
      return rnd() % n;
    default:
      if (can_stay) {
        if ((rnd() & 255) < P.stay) return 0;
        return rnd() % (n + 1);
      }
      return rnd() % n;
  }
}

static void sched(int can_stay) {
  int o[MAXT];
  S.sched_points++;
  S.steps++;
  check_cap();
  int n = others(o);
  if (!n) {
    if (can_stay) return;
    fail("stuck", "every thread waits for another one");
  }
  u32 v;
  if (can_stay) {
    v = decide(n + 1, P.replay ? 0 : search_pick(o, n, 1));
    if (!v) return;
    S.preempts++;
    switch_to(o[v - 1]);
  } else {
    v = n == 1 ? 0 : decide(n, P.replay ? 0 : search_pick(o, n, 0));
    switch_to(o[v]);
  }
}

void rt_yield(void) {
  if (g_multi) sched(1);
}

void rt_block(const void *key) {
  T[g_cur].state = ST_BLOCK;
  T[g_cur].wkey = key;
  sched(0);
}

void rt_wake(const void *key) {
  for (int i = 0; i < g_nthr; i++)
    if (T[i].state == ST_BLOCK && T[i].wkey == key) T[i].state = ST_RUN;
}

int rt_current(void) { return g_cur; }

static void entry(void) {
  T[g_cur].fn(T[g_cur].arg);
  T[g_cur].state = ST_DONE;
  rt_sut = 0;
  // Whoever waits for this thread to end waits on its slot.
  rt_wake(&T[g_cur]);
  sched(0);
  abort();
}

__attribute__((naked, noinline)) static void entry_thunk(void) {
  __asm__ volatile("xorl %ebp, %ebp\n andq $-16, %rsp\n call *%rbx\n ud2\n");
}

int rt_spawn(void (*fn)(void *), void *arg) {
  if (g_nthr == MAXT) rt_fail(3, "harness", "too many threads", 16);
  int id = g_nthr++;
  Thr *t = &T[id];
  memset(t, 0, sizeof *t);
  t->fn = fn;
  t->arg = arg;
  t->state = ST_RUN;
  // The child starts after everything the parent did.
  memcpy(t->vc, T[g_cur].vc, sizeof t->vc);
  t->vc[id] = 1;
  T[g_cur].vc[g_cur]++;
  t->prio = 0x80000000u + (u32)(rnd() % 0x1000000);
  u64 top = STACK_BASE + (u64)(id + 1) * 2 * STACK_SIZE;
  u64 *sp = (u64 *)(top - 64);
  *--sp = (u64)entry_thunk;
  *--sp = 0;           // rbp
  *--sp = (u64)entry;  // rbx
  for (int i = 0; i < 4; i++) *--sp = 0;
  t->sp = sp;
  g_multi = 1;
  return id;
}

// Waits for a thread to end.
void rt_join(int id) {
  while (T[id].state != ST_DONE) rt_block(&T[id]);
  for (int i = 0; i < MAXT; i++)
    if (T[id].vc[i] > T[g_cur].vc[i]) T[g_cur].vc[i] = T[id].vc[i];
}

// Happens-before edges of locks and job queues, which the harness simulates.
static u32 g_hb[65536][MAXT];
static u32 g_nhb;
u32 rt_hb_new(void) {
  u32 i = g_nhb++ & 0xffff;
  memset(g_hb[i], 0, sizeof g_hb[i]);
  return i;
}
void rt_hb_acquire(u32 i) {
  for (int k = 0; k < MAXT; k++)
    if (g_hb[i][k] > T[g_cur].vc[k]) T[g_cur].vc[k] = g_hb[i][k];
}
void rt_hb_release(u32 i) {
  for (int k = 0; k < MAXT; k++)
    if (T[g_cur].vc[k] > g_hb[i][k]) g_hb[i][k] = T[g_cur].vc[k];
  T[g_cur].vc[g_cur]++;
}

// -------------------------------------------------------------- race detection

typedef struct {
  u32 clk;
  u8 tid, mask, fl, used;  // fl: 1 write, 2 atomic
} Cell;

static u32 g_rot;
static void race_granule(u64 g, u8 mask, int fl) {
  Cell *c = (Cell *)(RC_BASE + (g - ARENA_BASE) * 4);
  Thr *t = &T[g_cur];
  int slot = -1, evict = -1;
  for (int i = 0; i < 4; i++) {
    if (!c[i].used) {
      if (slot < 0) slot = i;
      continue;
    }
    if (c[i].tid == g_cur) {
      if (c[i].mask == mask && (c[i].fl & 1) <= (fl & 1) && (c[i].fl & 2) >= (fl & 2)) slot = i;
      continue;
    }
    if (c[i].clk > t->vc[c[i].tid]) {
      if ((c[i].mask & mask) && ((c[i].fl | fl) & 1) && !((c[i].fl & fl) & 2)) {
        char b[200];
        snprintf(b, sizeof b, "data race: %s%s by thread %d, unordered with an earlier %s%s by thread %d", fl & 2 ? "atomic " : "",
                 fl & 1 ? "write" : "read", g_cur, c[i].fl & 2 ? "atomic " : "", c[i].fl & 1 ? "write" : "read", c[i].tid);
        fail("race", b);
      }
    } else if (evict < 0)
      evict = i;  // ordered before us already
  }
  if (slot < 0) slot = evict;
  if (slot < 0) {
    slot = g_rot++ & 3;
    for (int i = 0; i < 4; i++)
      if (c[i].tid == g_cur && c[i].mask == mask) slot = i;
  }
  c[slot] = (Cell){t->vc[g_cur], (u8)g_cur, mask, (u8)fl, 1};
}

static void race_check(u64 a, u32 size, int fl) {
  u64 g = a & ~7ULL;
  u32 o = a & 7;
  S.races_checked++;
  u32 n = size;
  while (n) {
    u32 k = 8 - o < n ? 8 - o : n;
    race_granule(g, (u8)(((1u << k) - 1) << o), fl);
    n -= k;
    g += 8;
    o = 0;
  }
}

static void race_range(u64 a, u64 n, int w) {
  while (n) {
    u32 k = n > 8 ? 8 : (u32)n;
    race_check(a, k, w);
    a += k;
    n -= k;
  }
}

// ------------------------------------------------------------- atomic locations

typedef struct {
  u64 val;
  u32 rel[MAXT];
  u32 clk;
  u8 hasrel;
  int8_t tid;
} St;

typedef struct {
  u64 addr;
  u32 gen;
  u32 total;  // stores so far; 0 = unknown history
  u32 base;   // oldest store kept
  St st[4];
  u32 seen[MAXT];
} ALoc;

#define NLOC (1 << 17)
static ALoc L[NLOC];

static ALoc *loc(u64 a) {
  u32 h = (u32)((a * 0x9e3779b97f4a7c15ULL) >> 47) & (NLOC - 1);
  for (u32 i = 0; i < NLOC; i++) {
    ALoc *l = &L[(h + i) & (NLOC - 1)];
    if (l->gen != g_gen) {
      memset(l, 0, sizeof *l);
      l->gen = g_gen;
      l->addr = a;
      return l;
    }
    if (l->addr == a) return l;
  }
  rt_fail(3, "harness", "too many atomic locations", 25);
}

static u32 g_sync[MAXT];  // for atomics outside the arena, which are ordered totally

// ------------------------------------------------------------------- accesses

static void bad_access(u64 a, u32 size, int w, u8 s) {
  char b[200];
  u64 o = a;
  u64 lim = 0;
  while (o > ARENA_BASE && lim++ < (1 << 22)) {
    Hdr *h = (Hdr *)((o & ~15ULL) - sizeof(Hdr));
    if (h->magic == MAGIC || h->magic == FREED) {
      snprintf(b, sizeof b, "%s of %u bytes %s: offset %ld of a block of %lu bytes", w ? "write" : "read", size,
               s == 2 ? "of freed memory" : "outside of any live block", (long)(a - (o & ~15ULL)), h->size);
      fail("memory", b);
    }
    o = (o & ~15ULL) - 16;
  }
  snprintf(b, sizeof b, "%s of %u bytes outside of any live block", w ? "write" : "read", size);
  fail("memory", b);
}

static void plain_point(void) {
  // Every plain access is a potential preemption; most are not taken.
  u64 pos = S.decisions;
  if (P.replay) {
    while (RLI < RLN && RL[RLI].pos < pos) RLI++;
    if (!(RLI < RLN && RL[RLI].pos == pos)) {
      S.decisions++;
      return;
    }
  } else if (--g_pcount) {
    S.decisions++;
    return;
  } else
    g_pcount = 1 + rnd() % (2 * P.plain_rate);
  int o[MAXT];
  int n = others(o);
  S.sched_points++;
  u32 v = decide(n + 1, P.replay || !n ? 0 : (u32)(rnd() % (n + 1)));
  if (v) {
    S.preempts++;
    switch_to(o[v - 1]);
  }
}

static void access_mem(u64 a, u32 size, int fl) {
  if (!in_arena(a) || !size) return;
  if (++S.steps > g_limit) check_cap();
  if (!(fl & 2) && P.plain_rate && g_multi) plain_point();
  u8 *s = shadow(a);
  if (!(s[0] & 1) || !(s[size - 1] & 1)) bad_access(a, size, fl & 1, !(s[0] & 1) ? s[0] : s[size - 1]);
  if (P.race && g_multi) race_check(a, size, fl);
  if (fl == 1 && s[0] == 3) {
    ALoc *l = loc(a);
    l->total = 0;
  }
}

static void access_range(u64 a, u64 n, int w) {
  if (!in_arena(a) || !n) return;
  S.steps += 1 + n / 64;
  check_cap();
  u8 *s = shadow(a);
  for (u64 i = 0; i < n; i++)
    if (!(s[i] & 1)) bad_access(a + i, (u32)(n - i), w, s[i]);
  if (P.race && g_multi) race_range(a, n, w);
  if (w)
    for (u64 i = 0; i < n; i++)
      if (s[i] == 3) loc(a + i)->total = 0;
}

#define PLAIN(n)                                                                                 \
  void __tsan_read##n(void *p) { if (rt_sut & 1) access_mem((u64)p, n, 0); }                     \
  void __tsan_write##n(void *p) { if (rt_sut & 1) access_mem((u64)p, n, 1); }                    \
  void __tsan_read_write##n(void *p) { if (rt_sut & 1) access_mem((u64)p, n, 0), access_mem((u64)p, n, 1); } \
  void __tsan_unaligned_read##n(void *p) { if (rt_sut & 1) access_mem((u64)p, n, 0); }           \
  void __tsan_unaligned_write##n(void *p) { if (rt_sut & 1) access_mem((u64)p, n, 1); }          \
  void __tsan_unaligned_read_write##n(void *p) { if (rt_sut & 1) access_mem((u64)p, n, 0), access_mem((u64)p, n, 1); } \
  void __tsan_volatile_read##n(void *p) { if (rt_sut & 1) access_mem((u64)p, n, 0); }            \
  void __tsan_volatile_write##n(void *p) { if (rt_sut & 1) access_mem((u64)p, n, 1); }
PLAIN(1)
PLAIN(2)
PLAIN(4)
PLAIN(8)
PLAIN(16)

void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **p, void *v) { (void)p, (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
void __tsan_read_range(void *p, u64 n) { if (rt_sut & 1) access_range((u64)p, n, 0); }
void __tsan_write_range(void *p, u64 n) { if (rt_sut & 1) access_range((u64)p, n, 1); }
void *__tsan_memcpy(void *d, const void *s, u64 n) {
  if (rt_sut & 1) access_range((u64)s, n, 0), access_range((u64)d, n, 1);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, u64 n) {
  if (rt_sut & 1) access_range((u64)s, n, 0), access_range((u64)d, n, 1);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, u64 n) {
  if (rt_sut & 1) access_range((u64)d, n, 1);
  return memset(d, c, n);
}

// -------------------------------------------------------------------- atomics

// The last read-modify-writes, for the harness to find counters with.
typedef struct {
  u64 addr, old, neu;
} Rmw;
static Rmw g_rmw[64];
static u64 g_nrmw;
u64 rt_rmws(Rmw *out, u64 cap) {
  u64 n = g_nrmw < cap ? g_nrmw : cap;
  memcpy(out, g_rmw, n * sizeof(Rmw));
  g_nrmw = 0;
  return n;
}

static inline int is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline int is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void join_vc(u32 *d, const u32 *s) {
  for (int i = 0; i < MAXT; i++)
    if (s[i] > d[i]) d[i] = s[i];
}

static ALoc *at_begin(u64 a, u32 size, int w, u64 cur) {
  S.atomics++;
  if (g_multi) sched(1);
  if (!in_arena(a)) {
    join_vc(T[g_cur].vc, g_sync);
    if (w) {
      join_vc(g_sync, T[g_cur].vc);
      T[g_cur].vc[g_cur]++;
    }
    return 0;
  }
  access_mem(a, size, 2 | w);
  (void)cur;
  ALoc *l = loc(a);
  *shadow(a) = 3;
  return l;
}

static void at_init(ALoc *l, u64 cur) {
  if (l->total) return;
  memset(l->seen, 0, sizeof l->seen);
  l->total = 1;
  l->base = 0;
  l->st[0] = (St){.val = cur, .tid = -1};
}

static St *at_newest(ALoc *l) { return &l->st[(l->total - 1) & 3]; }

static void at_push(ALoc *l, u64 val, int mo, int rmw) {
  St n = {.val = val, .tid = (int8_t)g_cur, .clk = T[g_cur].vc[g_cur]};
  if (rmw && at_newest(l)->hasrel) {
    n.hasrel = 1;
    memcpy(n.rel, at_newest(l)->rel, sizeof n.rel);
  }
  if (is_rel(mo)) {
    n.hasrel = 1;
    join_vc(n.rel, T[g_cur].vc);
  }
  l->st[l->total & 3] = n;
  l->total++;
  if (l->total - l->base > 4) l->base = l->total - 4;
  l->seen[g_cur] = l->total - 1;
  T[g_cur].vc[g_cur]++;
}

static u64 at_load(ALoc *l, u64 cur, int mo) {
  if (!l) return cur;
  at_init(l, cur);
  u32 hi = l->total - 1, lo = l->base;
  if (l->seen[g_cur] > lo) lo = l->seen[g_cur];
  for (u32 i = hi + 1; i-- > lo;) {
    St *s = &l->st[i & 3];
    if (s->tid < 0 || s->clk <= T[g_cur].vc[s->tid]) {
      lo = i;
      break;
    }
  }
  u32 k = 0;
  if (lo < hi && mo != 5 && P.stale) {
    S.stale_opportunities++;
    u32 n = hi - lo + 1;
    k = decide(n, P.replay || (rnd() & 255) >= P.stale ? 0 : 1 + (u32)(rnd() % (n - 1)));
    if (k) S.stale_loads++;
  }
  St *s = &l->st[(hi - k) & 3];
  l->seen[g_cur] = hi - k;
  if (is_acq(mo) && s->hasrel) join_vc(T[g_cur].vc, s->rel);
  return s->val;
}

static void at_rmw(ALoc *l, u64 a, u64 old, u64 neu, int mo) {
  if (g_nrmw < 64) g_rmw[g_nrmw++] = (Rmw){a, old, neu};
  if (!l) return;
  at_init(l, old);
  St *s = at_newest(l);
  if (is_acq(mo) && s->hasrel) join_vc(T[g_cur].vc, s->rel);
  at_push(l, neu, mo, 1);
}

#define ATOMIC(bits, ty)                                                                         \
  ty __tsan_atomic##bits##_load(const volatile ty *p, int mo) {                                  \
    if (!(rt_sut & 1)) return __atomic_load_n(p, 5);                                             \
    ALoc *l = at_begin((u64)p, bits / 8, 0, 0);                                                  \
    return (ty)at_load(l, *p, mo);                                                               \
  }                                                                                              \
  void __tsan_atomic##bits##_store(volatile ty *p, ty v, int mo) {                               \
    if (!(rt_sut & 1)) { __atomic_store_n(p, v, 5); return; }                                    \
    ALoc *l = at_begin((u64)p, bits / 8, 1, 0);                                                  \
    ty old = *p;                                                                                 \
    if (g_nrmw < 64) g_rmw[g_nrmw++] = (Rmw){(u64)p, old, v};                                    \
    if (l) at_init(l, old), at_push(l, v, mo, 0);                                                \
    *p = v;                                                                                      \
  }                                                                                              \
  RMW(bits, ty, exchange, v)                                                                     \
  RMW(bits, ty, fetch_add, old + v)                                                              \
  RMW(bits, ty, fetch_sub, old - v)                                                              \
  RMW(bits, ty, fetch_and, old & v)                                                              \
  RMW(bits, ty, fetch_or, old | v)                                                               \
  RMW(bits, ty, fetch_xor, old ^ v)                                                              \
  RMW(bits, ty, fetch_nand, ~(old & v))                                                          \
  static ty cas##bits(volatile ty *p, ty c, ty v, int mo, int fmo) {                             \
    if (!(rt_sut & 1)) { __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }             \
    ALoc *l = at_begin((u64)p, bits / 8, 1, 0);                                                  \
    ty old = *p;                                                                                 \
    if (old == c) {                                                                              \
      at_rmw(l, (u64)p, old, v, mo);                                                             \
      *p = v;                                                                                    \
    } else if (l) {                                                                              \
      at_init(l, old);                                                                           \
      l->seen[g_cur] = l->total - 1;                                                             \
      if (is_acq(fmo) && at_newest(l)->hasrel) join_vc(T[g_cur].vc, at_newest(l)->rel);          \
    }                                                                                            \
    return old;                                                                                  \
  }                                                                                              \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty c, ty v, int mo, int fmo) {   \
    return cas##bits(p, c, v, mo, fmo);                                                          \
  }                                                                                              \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int mo, int fmo) { \
    ty o = cas##bits(p, *c, v, mo, fmo);                                                         \
    if (o == *c) return 1;                                                                       \
    *c = o;                                                                                      \
    return 0;                                                                                    \
  }                                                                                              \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int mo, int fmo) { \
    return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo);                      \
  }
#define RMW(bits, ty, name, expr)                                                                \
  ty __tsan_atomic##bits##_##name(volatile ty *p, ty v, int mo) {                                \
    int sim = rt_sut & 1;                                                                        \
    ALoc *l = sim ? at_begin((u64)p, bits / 8, 1, 0) : 0;                                        \
    ty old = *p;                                                                                 \
    ty neu = (ty)(expr);                                                                         \
    if (sim) at_rmw(l, (u64)p, old, neu, mo);                                                    \
    *p = neu;                                                                                    \
    return old;                                                                                  \
  }
ATOMIC(8, u8)
ATOMIC(16, u16)
ATOMIC(32, u32)
ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int mo) {
  (void)mo;
  if (rt_sut & 1) {
    join_vc(T[g_cur].vc, g_sync);
    join_vc(g_sync, T[g_cur].vc);
    T[g_cur].vc[g_cur]++;
  }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// The standard library's locks wait in the kernel; simulated threads wait here.
long sim_syscall(long nr, long a, long b, long c, long d, long e, long f) __asm__("syscall");
long sim_syscall(long nr, long a, long b, long c, long d, long e, long f) {
  if (nr == SYS_futex && g_multi) {
    int op = (int)b & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*(volatile u32 *)a == (u32)c) {
        if (d) {
          int sut = rt_sut;
          rt_sut = 0;
          rt_yield();
          rt_sut = sut;
        } else
          rt_block((const void *)a);
      }
      // Whatever was waited for is ordered before; more than that may be.
      for (int i = 0; i < g_nthr; i++) join_vc(T[g_cur].vc, T[i].vc);
      errno = *(volatile u32 *)a == (u32)c && d ? ETIMEDOUT : EAGAIN;
      return -1;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      T[g_cur].vc[g_cur]++;
      rt_wake((const void *)a);
      return 1;
    }
  }
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

// Writes a word of the code under test from outside, as a fault.
void rt_poke(u64 addr, u64 val) {
  *(u64 *)addr = val;
  if (*shadow(addr) == 3) loc(addr)->total = 0;
}

// ----------------------------------------------------------------------- runs

static void map_at(u64 a, u64 n) {
  if (mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) ==
      MAP_FAILED) {
    perror("mmap");
    _exit(33);
  }
}

void rt_init(void) {
  map_at(ARENA_BASE, ARENA_SIZE);
  map_at(SH_BASE, ARENA_SIZE);
  map_at(RC_BASE, ARENA_SIZE * 4);
  for (int i = 1; i < MAXT; i++) map_at(STACK_BASE + (u64)(2 * i + 1) * STACK_SIZE, STACK_SIZE);
}

void rt_signals(void) {
  static u8 alt[65536];
  stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
  sigaltstack(&ss, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGABRT, SIGFPE, SIGTRAP};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, 0);
}

void rt_begin(const Params *p, DecBuf *db, const Dec *rl, u64 rln, VBuf *vb) {
  P = *p;
  DB = db;
  DB->n = 0;
  DB->overflow = 0;
  RL = rl;
  RLN = rln;
  RLI = 0;
  VB = vb;
  memset(&S, 0, sizeof S);
  g_mark = 0;
  g_limit = P.step_cap;
  // Forget the arena of the run before.
  if (g_bump) {
    if (g_bump > (8u << 20)) {
      madvise((void *)ARENA_BASE, ARENA_SIZE, MADV_DONTNEED);
      madvise((void *)SH_BASE, ARENA_SIZE, MADV_DONTNEED);
      madvise((void *)RC_BASE, ARENA_SIZE * 4, MADV_DONTNEED);
    } else {
      memset((void *)ARENA_BASE, 0, g_bump);
      memset((void *)SH_BASE, 0, g_bump);
      memset((void *)RC_BASE, 0, g_bump * 4 + 64);
    }
  }
  g_bump = g_arena_peak = 0;
  g_live_blocks = g_live_bytes = 0;
  g_gen++;
  g_nhb = 0;
  g_nrmw = 0;
  g_rot = 0;
  g_rng = p->seed;
  g_pcount = p->plain_rate ? 1 + rnd() % (2 * p->plain_rate) : 0;
  g_pct_next = 1 + rnd() % 64;
  g_pct_low = 0x7fffffff;
  memset(T, 0, sizeof T);
  memset(g_sync, 0, sizeof g_sync);
  g_cur = 0;
  g_nthr = 1;
  g_multi = 0;
  T[0].state = ST_RUN;
  T[0].vc[0] = 1;
  T[0].prio = 1;
  rt_sut = 0;
  last_panic[0] = 0;
}

void rt_end(Stats *out) {
  S.arena_used = g_arena_peak;
  S.live_blocks = g_live_blocks;
  S.live_bytes = g_live_bytes;
  *out = S;
}

void rt_stats(Stats *out) { rt_end(out); }

// Hash maps of the standard library are seeded from here, always alike.
long getrandom(void *p, u64 n, u32 fl) {
  (void)fl;
  u64 x = 0x9e3779b97f4a7c15ULL;
  for (u64 i = 0; i < n; i++) x = x * 6364136223846793005ULL + 1442695040888963407ULL, ((u8 *)p)[i] = (u8)(x >> 33);
  return (long)n;
}
