// Runtime of the controlled scheduler. The library under test, thread-tree, crossbeam, once_cell and the standard
// library are compiled with rustc's thread-sanitizer instrumentation pass but linked against this file instead of the
// sanitizer's runtime. It does two things while an execution is active:
//  * every atomic operation, futex call, yield, thread creation and join is a scheduling point; exactly one thread runs
//    at a time and which one goes on is decided by the schedule given by the explorer (default: keep going);
//  * every plain access is checked against a vector-clock happens-before relation built from the memory orderings the
//    code asks for (relaxed operations give no edge), so an execution without a report is data-race free, and the
//    interleavings of plain accesses need not be enumerated.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef __uint128_t u128;
#define T 8
#define MAXDEV 64
#define MAXREC (1 << 16)
#define INLINE static inline __attribute__((always_inline))

// ---------------------------------------------------------------- shared with the explorer (mirrored in main.rs)
typedef struct { u64 hash; u8 me, chosen, cands, cost; u32 op; } Rec;
typedef struct {
  u32 ndev; struct { u32 step; u32 tid; } dev[MAXDEV];
  u32 status;            // 0 running, 1 finished, 2 violation, 3 replay mismatch, 4 engine limit
  u32 nrec, points, nthreads, switches, created, touched, calls, libthreads, pad;
  u64 accesses, atomics, races, result;
  char msg[2048];
  Rec rec[MAXREC];
} Slot;

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

static Slot *S; static int active, exploring, capture_all;
static __thread int me_ = -1;
static u32 max_points = 200000;

typedef struct { u32 c[T]; } VC;
enum { FREE_, RUNNABLE, BLOCKED, FINISHED };
static struct {
  int state; int go; u64 h; VC vc, facq, frel; int yielded; int spin; u64 waddr; int timed, timedout; u64 waitseq;
  void *(*fn)(void *); void *arg; pthread_t pt; u64 brk;
} th[T];
static int nth; static u64 seqno; static u32 cur_dev;
static u64 hglobal;

__attribute__((noreturn)) static void finish(int status, const char *fmt, ...) {
  if (S->status == 0) {
    va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
    S->nthreads = nth; S->status = status;
  }
  raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0); __builtin_unreachable();
}
void mc_finish(void) { finish(1, ""); }
void mc_fail(const char *s) { if (!S) { fprintf(stderr, "%s\n", s); _exit(70); } finish(2, "%s", s); }

INLINE u64 mix(u64 a, u64 b) { u64 x = (a ^ (b * 0x9e3779b97f4a7c15ull)) + 0x632be59bd9b4e019ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; x *= 0x94d049bb133111ebull; x ^= x >> 29; return x; }

// ---------------------------------------------------------------- scheduler
static void wait_go(int me) {
  while (!__atomic_load_n(&th[me].go, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)&th[me].go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  th[me].go = 0;
}
static void switch_to(int me, int t, int wait) {
  if (t == me) return;
  S->switches++;
  __atomic_store_n(&th[t].go, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&th[t].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  if (wait) wait_go(me);
}
static u64 state_hash(void) {
  u64 s = hglobal;
  for (int t = 0; t < nth; t++) s += mix(th[t].h + t + 1, th[t].yielded + 2 * th[t].state + 16 * (u64)(t + 1));
  return s;
}
// Decide who runs next. kind 0: plain point of a runnable thread; 1: the thread yields; 2: it cannot go on.
static int pick(int me, int kind, u32 op) {
  if (++S->points > max_points) finish(2, "no progress: more than %u scheduling points without finishing (livelock)", max_points);
  u32 en = 0, y = 0;
  for (int t = 0; t < nth; t++) if (th[t].state == RUNNABLE) { en |= 1u << t; if (th[t].yielded) y |= 1u << t; }
  if (kind == 2) en &= ~(1u << me);
  u32 c = en & ~y;
  if (kind == 1) c &= ~(1u << me);
  if (!c) { for (int t = 0; t < nth; t++) th[t].yielded = 0; c = en; if (kind == 1 && (c & ~(1u << me))) c &= ~(1u << me); }
  if (!c) {
    for (int t = 0; t < nth; t++) if (th[t].state == BLOCKED && th[t].timed) { th[t].state = RUNNABLE; th[t].timedout = 1; return pick(me, kind, op); }
    char b[512]; int n = 0; for (int t = 0; t < nth; t++) n += snprintf(b + n, sizeof b - n, " T%d:%s", t, th[t].state == BLOCKED ? "blocked" : th[t].state == FINISHED ? "finished" : "?");
    finish(2, "deadlock: no thread can go on (%s )", b);
  }
  int mine = kind == 0 && (c >> me & 1), ch;
  if (mine) ch = me; else { ch = me; do ch = (ch + 1) % nth; while (!(c >> ch & 1)); }
  if (exploring && (c & (c - 1))) {
    u32 st = S->nrec;
    if (st >= MAXREC) finish(4, "too many choice points");
    Rec *r = &S->rec[st];
    if (cur_dev < S->ndev && S->dev[cur_dev].step == st) {
      ch = S->dev[cur_dev++].tid;
      if (ch >= nth || !(c >> ch & 1)) finish(3, "the schedule names thread %d at choice %u, which cannot run there", ch, st);
    }
    r->hash = state_hash(); r->me = me; r->chosen = ch; r->cands = c; r->cost = mine; r->op = op;
    S->nrec = st + 1;
  }
  if (kind == 1) th[me].yielded = 1;
  return ch;
}
static void point(int me, int kind, u32 op) { int t = pick(me, kind, op); switch_to(me, t, 1); th[me].yielded = 0; }
// Point before an operation that may only read: a thread that has done nothing but read for a while is taken to spin
// without yielding, and lets the others run.
static void rpoint(int me, u32 op) { if (th[me].spin > 24) { th[me].spin = 0; point(me, 1, 9); } else point(me, 0, op); }
static void progress(int me) { for (int t = 0; t < nth; t++) if (t != me) th[t].yielded = 0; }

// ---------------------------------------------------------------- vector clocks and the HB hash
typedef struct { u64 addr; VC rel; u64 hw, hr; } Sync;
#define NS 65536
static Sync sy[NS];
static Sync *sync_at(u64 a) { u64 i = mix(a, 7) & (NS - 1); while (sy[i].addr && sy[i].addr != a) i = (i + 1) & (NS - 1); sy[i].addr = a; return &sy[i]; }
INLINE void join(VC *a, const VC *b) { for (int i = 0; i < T; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
INLINE void tick(int me) { if (++th[me].vc.c[me] >= 65535) finish(4, "clock overflow"); }
static void ev_write(int me, Sync *s, u64 k) { u64 x = mix(mix(th[me].h, s->hw), mix(s->hr, k)); th[me].h = x; s->hw = x; s->hr = 0; progress(me); th[me].spin = 0; }
static void ev_read(int me, Sync *s, u64 k) { u64 x = mix(mix(th[me].h, s->hw), k + 77); th[me].h = x; s->hr += x; }

// ---------------------------------------------------------------- shadow memory
typedef struct { u16 w; u8 wt, wm; u32 rmn; u16 r[T] __attribute__((aligned(8))); u8 wa, freed, ra, pad[5]; } Cell;  // rmn: four mask bits per reader
#define RM(c, t) ((c)->rmn >> (4 * (t)) & 15)
#define CH 14
#define NCH 65536
static struct { u64 key; Cell *p; } ct[NCH]; static struct { u64 key; Cell *p; } cc[256];
static char *shadow_base; static u64 shadow_used; static const u64 shadow_size = 48ull << 30;
static __attribute__((noinline)) Cell *chunk_slow(u64 k) {
  u64 i = mix(k, 3) & (NCH - 1);
  while (ct[i].p && ct[i].key != k) i = (i + 1) & (NCH - 1);
  if (!ct[i].p) { ct[i].key = k; ct[i].p = (Cell *)(shadow_base + shadow_used); shadow_used += (sizeof(Cell) << (CH - 2)); if (shadow_used > shadow_size - (8 << 20)) finish(4, "shadow memory"); }
  cc[k & 255].key = k; cc[k & 255].p = ct[i].p; return ct[i].p;
}
INLINE Cell *cell(u64 a) { u64 k = a >> CH; Cell *p = cc[k & 255].key == k && cc[k & 255].p ? cc[k & 255].p : chunk_slow(k); return p + ((a & ((1 << CH) - 1)) >> 2); }

// operands A and B: nobody may write to them during an execution, so reads of them need no bookkeeping
static struct { u64 lo, len; char name; } ro[16]; static int nro;
void mc_readonly(u64 lo, u64 len, int name) { for (int i = 0; i < nro; i++) if (ro[i].lo == lo) { if (len > ro[i].len) ro[i].len = len; return; } if (nro < 16) { ro[nro].lo = lo; ro[nro].len = len; ro[nro].name = name; nro++; } }
void mc_clear_regions(void);
static u64 wlo, whi; extern char __executable_start;
void mc_watch(u64 lo, u64 hi) { wlo = lo; whi = hi; }
#define NREG 32
static struct { u64 lo, hi; char name[32]; } reg[NREG]; static int nreg;
void mc_region(const char *n, u64 lo, u64 hi) { if (nreg < NREG) { reg[nreg].lo = lo; reg[nreg].hi = hi; snprintf(reg[nreg].name, 32, "%s", n); nreg++; } }
static void where(u64 a, char *b, int n) {
  for (int i = 0; i < nreg; i++) if (a >= reg[i].lo && a < reg[i].hi) { snprintf(b, n, "%s+%llu", reg[i].name, (unsigned long long)(a - reg[i].lo)); return; }
  extern char end; if (a >= (u64)&__executable_start && a < (u64)&end) { snprintf(b, n, "static data"); return; }
  if ((a >> 40) == 0x10) { snprintf(b, n, "heap block of thread %d", (int)((a >> 26) & 63)); return; }
  snprintf(b, n, "stack or thread-local memory");
}
static __attribute__((noinline, noreturn)) void race(u64 a, int me, int wr, int ot, int owr, void *pc) {
  char b[96]; where(a, b, sizeof b);
  finish(2, "data race on %s: %s by thread %d is not ordered with an earlier %s by thread %d [pc +0x%llx]", b,
         wr ? "write" : "read", me, owr ? "write" : "read", ot, (unsigned long long)((u64)pc - (u64)&__executable_start));
}
static __attribute__((noinline, noreturn)) void uaf(u64 a, int me, int wr, void *pc) {
  char b[96]; where(a, b, sizeof b);
  finish(2, "%s by thread %d of memory already freed (%s) [pc +0x%llx]", wr ? "write" : "read", me, b, (unsigned long long)((u64)pc - (u64)&__executable_start));
}
INLINE void acc1(Cell *c, u64 a, u8 m, int me, int wr, int at, void *pc) {
  u32 k = th[me].vc.c[me];
  if (c->freed & m) uaf(a, me, wr, pc);
  if (!wr) {
    if (c->r[me] == k && (RM(c, me) & m) == m && (at || !(c->ra >> me & 1))) return;
    if (c->w && c->wt != me && (c->wm & m) && !(at && c->wa) && c->w > th[me].vc.c[c->wt]) race(a, me, 0, c->wt, 1, pc);
    if (c->r[me] == k) { c->rmn |= (u32)m << (4 * me); if (!at) c->ra &= ~(1 << me); }
    else { c->r[me] = k; c->rmn = (c->rmn & ~(15u << (4 * me))) | (u32)m << (4 * me); if (at) c->ra |= 1 << me; else c->ra &= ~(1 << me); }
  } else {
    if (c->w == k && c->wt == me && (c->wm & m) == m && (at || !c->wa)) {
      u64 *q = (u64 *)c->r; u16 own = c->r[me]; c->r[me] = 0; u64 o = q[0] | q[1]; c->r[me] = own;
      if (!o) return;
    }
    if (c->w && c->wt != me && (c->wm & m) && !(at && c->wa) && c->w > th[me].vc.c[c->wt]) race(a, me, 1, c->wt, 1, pc);
    for (int t = 0; t < nth; t++) if (t != me && c->r[t] && (RM(c, t) & m) && !(at && (c->ra >> t & 1)) && c->r[t] > th[me].vc.c[t]) race(a, me, 1, t, 0, pc);
    if (c->w == k && c->wt == me) { c->wm |= m; if (!at) c->wa = 0; } else { c->w = k; c->wt = me; c->wm = m; c->wa = at; }
  }
}
INLINE void acc(u64 a, u64 n, int wr, int at, void *pc) {
  int me = me_; S->accesses++;
  for (int i = 0; i < nro; i++) if (__builtin_expect(a - ro[i].lo < ro[i].len, 0)) { if (wr) finish(2, "thread %d writes to an input operand (%c)", me, ro[i].name); S->touched |= 1u << me; return; }
  if (wr && a < whi && a + n > wlo) S->touched |= 1u << me;
  while (n) {
    u64 o = a & 3, l = 4 - o; if (l > n) l = n;
    acc1(cell(a), a, ((1u << l) - 1) << o, me, wr, at, pc);
    a += l; n -= l;
  }
}
#define ON (__builtin_expect(active && me_ >= 0, 1))
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void *a) { if (ON) acc((u64)a, n, 0, 0, PC); } void __tsan_write##n(void *a) { if (ON) acc((u64)a, n, 1, 0, PC); } \
  void __tsan_unaligned_read##n(void *a) { if (ON) acc((u64)a, n, 0, 0, PC); } void __tsan_unaligned_write##n(void *a) { if (ON) acc((u64)a, n, 1, 0, PC); } \
  void __tsan_read_write##n(void *a) { if (ON) { acc((u64)a, n, 0, 0, PC); acc((u64)a, n, 1, 0, PC); } } \
  void __tsan_unaligned_read_write##n(void *a) { if (ON) { acc((u64)a, n, 0, 0, PC); acc((u64)a, n, 1, 0, PC); } } \
  void __tsan_volatile_read##n(void *a) { if (ON) acc((u64)a, n, 0, 0, PC); } void __tsan_volatile_write##n(void *a) { if (ON) acc((u64)a, n, 1, 0, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, u64 n) { if (ON) acc((u64)a, n, 0, 0, PC); }
void __tsan_write_range(void *a, u64 n) { if (ON) acc((u64)a, n, 1, 0, PC); }
void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {} void __tsan_init(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; } void __tsan_vptr_read(void **a) { (void)a; }
void __tsan_ignore_thread_begin(void) {} void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, u64 n) { if (ON && n) { acc((u64)s, n, 0, 0, PC); acc((u64)d, n, 1, 0, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, u64 n) { if (ON && n) { acc((u64)s, n, 0, 0, PC); acc((u64)d, n, 1, 0, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, u64 n) { if (ON && n) acc((u64)d, n, 1, 0, PC); return memset(d, c, n); }

// ---------------------------------------------------------------- atomics
enum { RLX, CONS, ACQ, REL, ACQREL, SC };
INLINE int isacq(int m) { return m == ACQ || m == ACQREL || m == SC || m == CONS; }
INLINE int isrel(int m) { return m == REL || m == ACQREL || m == SC; }
static void at_read(int me, u64 a, int n, int mo, void *pc) {
  S->atomics++; acc(a, n, 0, 1, pc); Sync *s = sync_at(a); ev_read(me, s, 1);
  if (isacq(mo)) join(&th[me].vc, &s->rel); else join(&th[me].facq, &s->rel);
  th[me].spin++;
}
static void at_write(int me, u64 a, int n, int mo, int rmw, void *pc) {
  S->atomics++;
  Sync *s = sync_at(a);
  if (rmw) { acc(a, n, 0, 1, pc); if (isacq(mo)) join(&th[me].vc, &s->rel); else join(&th[me].facq, &s->rel); }
  acc(a, n, 1, 1, pc);
  ev_write(me, s, rmw ? 2 : 3);
  const VC *pub = isrel(mo) ? &th[me].vc : &th[me].frel;
  if (rmw) join(&s->rel, pub); else s->rel = *pub;
  tick(me);
}
void __tsan_atomic_thread_fence(int mo) {
  if (!ON) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
  int me = me_; rpoint(me, 8); th[me].h = mix(th[me].h, 5);
  if (isacq(mo)) join(&th[me].vc, &th[me].facq);
  if (isrel(mo)) { th[me].frel = th[me].vc; tick(me); }
  th[me].spin++;
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define ATOMIC(B, TY) \
TY __tsan_atomic##B##_load(const volatile TY *a, int mo) { if (!ON) return __atomic_load_n(a, __ATOMIC_SEQ_CST); int me = me_; rpoint(me, 1); at_read(me, (u64)a, B / 8, mo, PC); return *a; } \
void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) { if (!ON) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } int me = me_; point(me, 0, 2); at_write(me, (u64)a, B / 8, mo, 0, PC); *a = v; } \
TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo) { if (!ON) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); int me = me_; point(me, 0, 3); at_write(me, (u64)a, B / 8, mo, 1, PC); TY o = *a; *a = v; return o; } \
static int cas##B(volatile TY *a, TY *c, TY v, int mo, int fmo, void *pc) { int me = me_; rpoint(me, 4); TY o = *a; if (o == *c) { at_write(me, (u64)a, B / 8, mo, 1, pc); *a = v; return 1; } at_read(me, (u64)a, B / 8, fmo, pc); *c = o; return 0; } \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { if (!ON) { __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } cas##B(a, &c, v, mo, fmo, PC); return c; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) { if (!ON) return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return cas##B(a, c, v, mo, fmo, PC); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) { if (!ON) return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return cas##B(a, c, v, mo, fmo, PC); }
#define FETCH(B, TY, N, X) TY __tsan_atomic##B##_fetch_##N(volatile TY *a, TY v, int mo) { int me = me_; if (ON) { point(me, 0, 5); at_write(me, (u64)a, B / 8, mo, 1, PC); TY o = *a; *a = (X); return o; } \
  TY o = *a; while (!__atomic_compare_exchange_n(a, &o, (X), 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) ; return o; }
#define ALL(B, TY) ATOMIC(B, TY) FETCH(B, TY, add, o + v) FETCH(B, TY, sub, o - v) FETCH(B, TY, and, o & v) FETCH(B, TY, or, o | v) FETCH(B, TY, xor, o ^ v) FETCH(B, TY, nand, ~(o & v))
ALL(8, u8) ALL(16, u16) ALL(32, u32) ALL(64, u64)

// ---------------------------------------------------------------- blocking primitives
static void block(int me) { int t; th[me].state = BLOCKED; t = pick(me, 2, 10); switch_to(me, t, 1); th[me].yielded = 0; }
static long do_futex(u32 *ua, int op, u32 val, void *to) {
  int me = me_, cmd = op & 0x7f; Sync *s;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point(me, 0, 6); s = sync_at((u64)ua ^ (1ull << 62)); ev_write(me, s, 6);
    if (*ua != val) return -EAGAIN;
    th[me].waddr = (u64)ua; th[me].timed = to != 0; th[me].timedout = 0; th[me].waitseq = ++seqno;
    block(me);
    th[me].waddr = 0;
    return th[me].timedout ? -ETIMEDOUT : 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    point(me, 0, 7); s = sync_at((u64)ua ^ (1ull << 62)); ev_write(me, s, 7);
    long n = 0;
    while (n < (long)val) {
      int b = -1; for (int t = 0; t < nth; t++) if (th[t].state == BLOCKED && th[t].waddr == (u64)ua && (b < 0 || th[t].waitseq < th[b].waitseq)) b = t;
      if (b < 0) break;
      th[b].state = RUNNABLE; th[b].waddr = 0; th[b].h = mix(th[b].h, th[me].h); n++;
    }
    return n;
  }
  finish(4, "unsupported futex operation %d", cmd);
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
  long r = n == SYS_futex && ON ? do_futex((u32 *)a[0], a[1], a[2], (void *)a[3]) : raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
int sched_yield(void) { if (ON) { int me = me_; th[me].h = mix(th[me].h, 9); th[me].spin = 0; point(me, 1, 11); return 0; } return raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
int nanosleep(const struct timespec *a, struct timespec *b) { if (ON) return sched_yield(); return raw6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0) ? -1 : 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (ON) return sched_yield(); return -raw6(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0); }

static void *tramp(void *p) {
  int me = (int)(long)p; me_ = me; wait_go(me);
  th[me].fn(th[me].arg);
  active = active; th[me].state = FINISHED; tick(me);
  Sync *s = sync_at(0x100 + me); ev_write(me, s, 12);
  for (int t = 0; t < nth; t++) if (th[t].state == BLOCKED && th[t].waddr == (u64)(0x100 + me)) { th[t].state = RUNNABLE; th[t].waddr = 0; th[t].h = mix(th[t].h, th[me].h); }
  int t = pick(me, 2, 12); switch_to(me, t, 0);
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
  return 0;
}
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static u32 max_lib = ~0u; void mc_max_lib(u32 n) { max_lib = n; }
static int spawn(void *(*fn)(void *), void *arg, const pthread_attr_t *at, int lib) {
  int me = me_;
  point(me, 0, 13);
  Sync *s = sync_at(16); ev_write(me, s, 13);
  if (lib && ++S->libthreads > max_lib) finish(2, "worker threads are created more than once: %u so far, the same calls one after another create %u", S->libthreads, max_lib);
  if (nth >= T) finish(4, "too many threads");
  int t = nth++; th[t].state = RUNNABLE; th[t].fn = fn; th[t].arg = arg; th[t].vc = th[me].vc; th[t].vc.c[t] = 1; th[t].h = mix(th[me].h, 1000);
  S->created++;
  tick(me);
  if (real_create(&th[t].pt, at, tramp, (void *)(long)t)) finish(4, "pthread_create failed");
  return t;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!ON) return real_create(pt, at, fn, arg);
  int t = spawn(fn, arg, at, 1); *pt = th[t].pt; return 0;
}
static void wait_for(int me, int t) {
  point(me, 0, 14);
  if (th[t].state != FINISHED) { th[me].waddr = 0x100 + t; th[me].timed = 0; block(me); }
  Sync *s = sync_at(0x100 + t); ev_read(me, s, 14); join(&th[me].vc, &th[t].vc);
}
int pthread_join(pthread_t p, void **r) {
  static int (*real)(pthread_t, void **); if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
  if (ON) for (int t = 0; t < nth; t++) if (th[t].pt == p) { wait_for(me_, t); if (r) *r = 0; return 0; }
  return real(p, r);
}
int pthread_detach(pthread_t p) { static int (*real)(pthread_t); if (!real) real = dlsym(RTLD_NEXT, "pthread_detach"); if (ON) return 0; return real(p); }
int mc_spawn(void *(*fn)(void *), void *arg) { return spawn(fn, arg, 0, 0); }
void mc_join(int t) { wait_for(me_, t); }
int mc_me(void) { return me_; }

// ---------------------------------------------------------------- memory: per-thread bump arenas, nothing is reused
#define ARENA 0x100000000000ull
void *mc_alloc(u64 n, u64 al) {
  if (!ON) { void *p = 0; if (al < 16) al = 16; return posix_memalign(&p, al, n ? n : 1) ? 0 : p; }
  int me = me_; if (!th[me].brk) th[me].brk = ARENA + ((u64)me << 26);
  u64 p = (th[me].brk + al + 15) & ~((al > 16 ? al : 16) - 1);
  th[me].brk = p + n + 16; if (th[me].brk > ARENA + ((u64)(me + 1) << 26)) finish(4, "arena full");
  return (void *)p;
}
void mc_free(void *p, u64 n) {
  if ((u64)p < ARENA || (u64)p >= ARENA + ((u64)T << 26)) { free(p); return; }
  if (!ON) return;
  acc((u64)p, n, 1, 0, PC);
  for (u64 a = (u64)p; a < (u64)p + n; a++) cell(a)->freed |= 1 << (a & 3);
}

// ---------------------------------------------------------------- a made-up machine for num_cpus
static char cpuinfo[65536]; static int have_cpuinfo;
void mc_cpuinfo(const char *s) { have_cpuinfo = s != 0; if (s) snprintf(cpuinfo, sizeof cpuinfo, "%s", s); }
static int fake(const char *p) {
  if (!have_cpuinfo || strcmp(p, "/proc/cpuinfo")) return -1;
  int fd = raw6(SYS_memfd_create, (long)"cpuinfo", 0, 0, 0, 0, 0); raw6(SYS_write, fd, (long)cpuinfo, strlen(cpuinfo), 0, 0, 0); raw6(SYS_lseek, fd, 0, SEEK_SET, 0, 0, 0); return fd;
}
static int openx(const char *p, int f, int m) { int fd = fake(p); if (fd >= 0) return fd; long r = raw6(SYS_openat, AT_FDCWD, (long)p, f, m, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
int open64(const char *p, int f, ...) { va_list ap; va_start(ap, f); int m = va_arg(ap, int); va_end(ap); return openx(p, f | O_LARGEFILE, m); }
int open(const char *p, int f, ...) { va_list ap; va_start(ap, f); int m = va_arg(ap, int); va_end(ap); return openx(p, f, m); }
static int ncpu_online; 
void mc_ncpu(int n) { ncpu_online = n; }
long sysconf(int n) { static long (*real)(int); if (!real) real = dlsym(RTLD_NEXT, "sysconf"); if (ncpu_online && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return ncpu_online; return real(n); }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  if (ncpu_online) { memset(s, 0, n); for (int i = 0; i < ncpu_online; i++) CPU_SET(i, s); return 0; }
  return raw6(SYS_sched_getaffinity, p, n, (long)s, 0, 0, 0) < 0 ? -1 : 0;
}

// ---------------------------------------------------------------- control
void mc_init(void) {
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  shadow_base = mmap(0, shadow_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void *p = mmap((void *)ARENA, (u64)T << 26, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (shadow_base != MAP_FAILED) { shadow_base = (char *)(((u64)shadow_base + (2 << 20)) & ~((2ull << 20) - 1)); madvise(shadow_base, shadow_size - (4 << 20), MADV_HUGEPAGE); }
  if (shadow_base == MAP_FAILED || p == MAP_FAILED) { fprintf(stderr, "mc_init: mmap\n"); _exit(70); }
}
Slot *mc_slot(void) { return mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
void mc_begin(Slot *s) {
  S = s; nth = 1; me_ = 0; th[0].state = RUNNABLE; th[0].vc.c[0] = 1; th[0].h = 42; active = 1;
}
void mc_clear_regions(void) { nro = 0; nreg = 0; }
void mc_explore(int on) { exploring = on; }
u64 mc_slot_size(void) { return sizeof(Slot); }
u32 mc_created(void) { return S->created; }
u32 mc_touched(void) { u32 t = S->touched; return t; }
void mc_clear_touched(void) { S->touched = 0; }
