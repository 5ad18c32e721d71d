/* The simulated process: scheduler, synchronisation, memory, environment.
   Everything the library can see of the outside world is answered here. */
#include "sim.h"
#include <errno.h>
#include <fenv.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <semaphore.h>
#include <poll.h>
#include <sys/file.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/utsname.h>
#include <sys/sysinfo.h>
#include <sys/timerfd.h>
#include <malloc.h>
#include <sched.h>
#include <ucontext.h>

result_t *R;
thr_t thr[MAXT];
int nthr;
thr_t *cur;
int chk, strat, replay_mode;
uint64_t strat_mean, step_cap = 400000000;
rng_t srng;
uint64_t env_seed; int env_on; static uint64_t env_n;
extern op_t *op_by_id(int id);
extern trig_t trig[MAXTRIG]; extern int ntrig;
extern sw_t *rsw; extern uint8_t *rsw_used; extern int nrsw;
static volatile int ctl_go;
int replay_events;               /* some recorded switch was made at a shared-memory event */
int pct_prio_ctr;
int alloc_fail_all;             /* memory is exhausted */
uint64_t work_done;
int walk_me;                     /* which thread of a procession this is */
volatile int in_plain;          /* a plain or twin call is in progress */

/* ------------------------------------------------------------------ */
int forked;                     /* which process this is: 0 the first one */
int fork_max = 1;               /* so many new ones, at most */
static int forked_from;
static pid_t fork_pid;          /* this one waits for that one, a new one, to come to its end */
static struct { pid_t pid; int fd; } kid[16];   /* new ones that go on when this one has come to its end */
static int nkid;
static void drop_child(void)
{
  if (fork_pid > 0) { kill(fork_pid, SIGKILL); waitpid(fork_pid, 0, 0); fork_pid = 0; }
  while (nkid > 0) { nkid--; kill(kid[nkid].pid, SIGKILL); waitpid(kid[nkid].pid, 0, 0); }
}
void violation(const char *cls, const char *fmt, ...)
{
  va_list ap;
  drop_child();
  if (R->status == ST_RUNNING) {
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    R->status = ST_VIOL;
  }
  _exit(0);
}
void infra(const char *fmt, ...)
{
  va_list ap;
  drop_child();
  if (R->status == ST_RUNNING) {
    snprintf(R->cls, sizeof R->cls, "infra");
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    R->status = ST_INFRA;
  }
  _exit(0);
}

static const char *kind_name[] = { "alloc", "set", "free", "free(NULL)", "single", "batch", "batch_size", "fpwork", "churn", "fill", "loop", "fork", "crowd" };
static void crash(int sig, siginfo_t *si, void *uc)
{
  uintptr_t a = (uintptr_t)si->si_addr;
  frame_t *f = cur ? cur->fr : 0;
  int inl = in_plain || (cur && cur->inlib);
  (void)uc;
  if (sig == SIGVTALRM || sig == SIGXCPU || sig == SIGPROF) {
    if (inl)
      violation("hang", "a call did not return (%s, op %d)", f && f->op ? kind_name[f->op->kind] : "?", f && f->op ? f->op->id : -1);
    infra("run exceeded its CPU time outside the library");
  }
  if (sig == SIGALRM) {
    if (inl && clock() < 5 * CLOCKS_PER_SEC)
      violation("hang", "a call is blocked for ever (%s, op %d)", f && f->op ? kind_name[f->op->kind] : "?", f && f->op ? f->op->id : -1);
    infra("run exceeded its wall-clock time");
  }
  if (!inl)
    infra("signal %d outside the library, address %#lx", sig, (unsigned long)a);
  {
    const char *where = "";
    if (sig == SIGSEGV || sig == SIGBUS) {
      if (arena && a >= (uintptr_t)arena + arena_size && a < (uintptr_t)arena + arena_size + 65536) where = " just past the last packet";
      else if (arena && a < (uintptr_t)arena && a + 65536 >= (uintptr_t)arena) where = " just before the first packet";
      else if (heap_find(a)) where = " in a context or right behind it";
    }
    violation("crash", "signal %d%s in a library call (%s, op %d)", sig, where,
              f && f->op ? kind_name[f->op->kind] : "?", f && f->op ? f->op->id : -1);
  }
}
void thread_altstack(void)
{
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_size = 65536;
  ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, 0);
}
void install_handlers(void)
{
  static const int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGVTALRM, SIGXCPU, SIGPROF, SIGALRM };
  struct sigaction sa;
  unsigned i;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (i = 0; i < sizeof sigs / sizeof *sigs; i++)
    sigaction(sigs[i], &sa, 0);
  thread_altstack();
}

/* ---- floating point state around work done "in a signal handler" ---- */
void fp_save_reset(void *buf)
{
#if defined(__x86_64__)
  unsigned mx = 0x1f80;
  __asm__ volatile ("fxsave64 (%0); fninit; ldmxcsr %1" : : "r"(buf), "m"(mx) : "memory");
#else
  fegetenv(buf); fesetenv(FE_DFL_ENV);
#endif
}
void fp_restore(void *buf)
{
#if defined(__x86_64__)
  __asm__ volatile ("fxrstor64 (%0)" : : "r"(buf) : "memory");
#else
  fesetenv(buf);
#endif
}

/* ---- memory map ---- */
void *map_at(uintptr_t a, size_t n)
{
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED || p != (void *)a) {
    if (p != MAP_FAILED) munmap(p, n);
    p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) infra("mmap failed");
  }
  return p;
}
uint8_t *arena, *arena_shadow;
size_t arena_size;
uint16_t *arena_owner;

/* ---- heap ---- */
#define HEAP_SIZE (64u << 20)
blk_t blk[8192];
int nblk;
heap_policy_t hp;
static uint8_t *heap_lo;
static size_t heap_brk;
static uint32_t heap_serial;
static const uintptr_t heap_bases[] = {
  0x60000000, 0x60001000, 0x5ffff000,
#if UINTPTR_MAX > 0xffffffffu
  0x100000000, 0x1fffff000, 0x5f0000000000, 0x200000000000
#endif
};
void heap_init(void)
{
  heap_lo = map_at(heap_bases[hp.base % (sizeof heap_bases / sizeof *heap_bases)], HEAP_SIZE);
  heap_brk = 4096;
  nblk = 0;
}
blk_t *heap_find(uintptr_t a)
{
  static int last;
  int i;
  if (!heap_lo || a < (uintptr_t)heap_lo || a >= (uintptr_t)heap_lo + HEAP_SIZE) return 0;
  if (last < nblk && a >= (uintptr_t)blk[last].base && a < (uintptr_t)blk[last].base + blk[last].map && blk[last].live) return &blk[last];
  for (i = nblk - 1; i >= 0; i--)
    if (a >= (uintptr_t)blk[i].base && a < (uintptr_t)blk[i].base + blk[i].map) { last = i; return &blk[i]; }
  return 0;
}
int heap_room(void) { return HEAP_SIZE - heap_brk > 2u << 20 && nblk < (int)(sizeof blk / sizeof *blk) - 1000; }
uint64_t heap_live_bytes(void) { uint64_t s = 0; int i; for (i = 0; i < nblk; i++) if (blk[i].live == 1) s += blk[i].size; return s; }
int heap_live_blocks(void) { int s = 0, i; for (i = 0; i < nblk; i++) s += blk[i].live == 1; return s; }
static uint8_t canary(const uint8_t *p) { return (uint8_t)(0xa5 ^ (uintptr_t)p ^ ((uintptr_t)p >> 7)); }
static void canaries(blk_t *b, int set)
{
  uint8_t *q;
  size_t lim = 64;
  uint8_t *lo = b->p - b->base > (ptrdiff_t)lim ? b->p - lim : b->base;
  uint8_t *hi = b->p + b->size + lim < b->base + b->map ? b->p + b->size + lim : b->base + b->map;
  for (q = lo; q < hi; q++) {
    if (q == b->p) q += b->size;
    if (q >= hi) break;
    if (set) *q = canary(q);
    else if (*q != canary(q) && (chk & K_FOREIGNW))
      violation("heap-overflow", "bytes %ld from a %zu byte block were written", (long)(q - b->p), b->size);
  }
}
void heap_check(void)
{
  int i;
  size_t j;
  for (i = 0; i < nblk; i++) {
    if (blk[i].live == 1) canaries(&blk[i], 0);
    else if (blk[i].live == 0 && (chk & K_UAF) && !(hp.reuse && hp.garbage != 1))
      for (j = 0; j < blk[i].size; j++)
        if (blk[i].p[j] != 0xdb)
          violation("use-after-free", "a freed block was written at offset %zu", j);
  }
}
static void *heap_alloc(size_t align, size_t size)
{
  frame_t *f = cur ? cur->fr : 0;
  blk_t *b = 0;
  uint8_t *p;
  size_t i;
  R->c[C_ALLOCS]++;
  work_done += 20;
  if (alloc_fail_all) { R->c[C_ALLOCFAIL]++; hlog(0xa110cfa2, size); return 0; }
  if (f && f->op) {
    unsigned n = f->allocs++;
    if ((f->op->failmask >> (n < 63 ? n : 63)) & 1) {
      R->c[C_ALLOCFAIL]++;
      f->op->failed++;
      hlog(0xa110cfa1, n);
      return 0;
    }
  }
  if (align < 16) align = 16;
  if (!size) size = 1;
  if (hp.reuse) {
    blk_t *best = 0;
    for (i = 0; (int)i < nblk; i++)
      if (blk[i].live == 0 && blk[i].size == size && blk[i].align >= align && (!best || (hp.reuse == 1 ? blk[i].serial > best->serial : blk[i].serial < best->serial)))
        best = &blk[i];
    if (best) { b = best; R->c[C_REUSE]++; }
  }
  if (!b) {
    if (nblk >= (int)(sizeof blk / sizeof *blk)) infra("too many heap blocks");
    b = &blk[nblk++];
    b->guard = hp.guard;
    if (hp.guard) {
      size_t pages = (size + align + 4095) / 4096 * 4096;
      heap_brk = (heap_brk + 4095) / 4096 * 4096;
      if (heap_brk + pages + 4096 > HEAP_SIZE) infra("simulated heap is full");
      b->base = heap_lo + heap_brk;
      b->map = pages;
      p = b->base + pages - size;
      p -= (uintptr_t)p % align;
      if (hp.minalign && (uintptr_t)p % (2 * align) == 0 && p - b->base >= (ptrdiff_t)align) p -= align;
      mprotect(b->base + pages, 4096, PROT_NONE);
      heap_brk += pages + 4096;
      R->c[C_GUARD]++;
    } else {
      size_t rz = 64;
      if (heap_brk + rz * 3 + size + 2 * align > HEAP_SIZE) infra("simulated heap is full");
      b->base = heap_lo + heap_brk;
      p = b->base + rz;
      p += (align - (uintptr_t)p % align) % align;
      if (hp.minalign && (uintptr_t)p % (2 * align) == 0) p += align;
      b->map = (size_t)(p - b->base) + size + rz;
      heap_brk += (b->map + 15) & ~(size_t)15;
    }
    b->p = p;
    b->align = align;
    b->size = size;
  }
  b->live = 1;
  b->serial = ++heap_serial;
  b->opid = f && f->op ? f->op->id : -1;
  b->slot = f && f->op && (f->op->kind == O_ALLOC || f->op->kind == O_SET || f->op->kind == O_LOOP) ? f->op->slot : -1;
  canaries(b, 1);
  if (hp.garbage) {
    /* 1: all of it; of a reused block 2: the head (where allocators keep their links), 3: one part */
    uint64_t x = hp.seed + b->serial;
    size_t from = 0, to = size;
    if (hp.garbage == 2 && hp.reuse) to = size < 16 ? size : 16;
    if (hp.garbage == 3 && hp.reuse) {
      size_t k = (size_t)(mix64(x + 77) % (size + 1));
      if (mix64(x + 78) & 1) k = k / 16 * 16;
      if (mix64(x + 79) & 1) to = k; else from = k;
    }
    for (i = 0; i < size; i++) { if (i % 8 == 0) x = mix64(x + 1); if (i >= from && i < to) b->p[i] = (uint8_t)(x >> (i % 8 * 8)); }
    R->c[C_GARBAGE_HEAP]++;
  } else if (!hp.reuse)
    memset(b->p, 0, size);
  hlog(0xa110c, size);
  return b->p;
}
static void so_gone(uintptr_t a, size_t n);
static void heap_free(void *p)
{
  int i;
  if (!p) { R->c[C_FREENULL]++; return; }
  for (i = nblk - 1; i >= 0; i--)
    if (blk[i].p == p) {
      if (blk[i].live != 1) violation("double-free", "a block was freed twice");
      canaries(&blk[i], 0);
      blk[i].live = 0;
      so_gone((uintptr_t)p, blk[i].size);
      blk[i].serial = ++heap_serial;
      if (!(hp.reuse && hp.garbage != 1)) memset(p, 0xdb, blk[i].size);
      R->c[C_FREES]++;
      hlog(0xf4ee, blk[i].size);
      return;
    }
  violation("bad-free", "free of an address that was never allocated");
}

/* ---- scheduler ---- */
static void futex_wait(volatile int *p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(volatile int *p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void go(volatile int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); futex_wake(w); }
static void await(volatile int *w)
{
  while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) futex_wait(w, 0);
  *w = 0;
}
static inline void consume(thr_t *t)
{
  frame_t *f = t->fr;
  if (f) {
    int64_t c = f->armed - f->left;
    f->base += (uint64_t)c;
    t->gap -= c;
    R->c[C_STEPS] += (uint64_t)c;
    f->armed = f->left = 0;
  }
}
uint64_t frame_step(thr_t *t) { frame_t *f = t->fr; return f ? f->base + (uint64_t)(f->armed - f->left) : 0; }

static void new_gap(thr_t *t)
{
  switch (strat) {
  case STRAT_UNI: t->gap = 1 + (int64_t)below(&srng, 2 * strat_mean); break;
  case STRAT_LOG: t->gap = (int64_t)logrnd(&srng, 19); break;
  case STRAT_PCT: t->gap = 1 + (int64_t)below(&srng, strat_mean); break;
  default: t->gap = INT64_MAX / 2;
  }
}
#define FAIR_AFTER 3000000u
#define FAIR_EVERY 65536u
void rt_rearm(thr_t *t)
{
  frame_t *f = t->fr;
  uint64_t b, n = 1u << 20;
  int i;
  if (!f) return;
  consume(t);
  b = f->base;
  if (b + n > FAIR_AFTER) n = FAIR_EVERY - b % FAIR_EVERY;
  if (f->op) {
    for (i = 0; i < ntrig; i++)
      if (!trig[i].fired && trig[i].op == f->op->id && trig[i].step > b && trig[i].step - b < n) n = trig[i].step - b;
    if (replay_mode)
      for (i = 0; i < nrsw; i++)
        if (!rsw_used[i] && rsw[i].op == f->op->id && rsw[i].th == t->id && rsw[i].why == SW_TICK && rsw[i].step > b && rsw[i].step - b < n) n = rsw[i].step - b;
  }
  if (!replay_mode && t->gap > 0 && (uint64_t)t->gap < n) n = (uint64_t)t->gap;
  f->armed = f->left = (int64_t)n;
}
void frame_push(thr_t *t, frame_t *f, op_t *op)
{
  if (t->fr) consume(t);
  memset(f, 0, sizeof *f);
  f->op = op;
  f->up = t->fr;
  t->fr = f;
  rt_rearm(t);
}
void frame_pop(thr_t *t, frame_t *f)
{
  consume(t);
  t->fr = f->up;
  if (t->fr) rt_rearm(t);
}

static int runnable(thr_t *out[], thr_t *but)
{
  int i, n = 0;
  for (i = 0; i < nthr; i++)
    if (thr[i].state == T_RUN && &thr[i] != but) out[n++] = &thr[i];
  return n;
}
static void record(thr_t *t, thr_t *to, unsigned op, uint64_t step, int why)
{
  R->sched = hash2(R->sched ^ ((uint64_t)t->id << 32 | (unsigned)to->id), (uint64_t)op << 40 | step);
  if (!replay_mode) {
    if (R->nsw < MAXSW) {
      sw_t *s = &R->sw[R->nsw++];
      s->th = (uint8_t)t->id; s->to = (uint8_t)to->id; s->op = (uint16_t)op; s->step = (uint32_t)step; s->why = (uint8_t)why;
    } else
      infra("too many switches recorded");
  }
}
static thr_t *choose(thr_t **c, int n)
{
  int i;
  if (strat == STRAT_PCT) {
    thr_t *b = c[0];
    for (i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
    return b;
  }
  return c[below(&srng, (uint64_t)n)];
}
static void baton(thr_t *from, thr_t *to)
{
  int e = errno;
  R->c[C_SWITCH]++;
  hlog(0x5717c4, (uint64_t)to->id);
  cur = to;
  go(&to->go);
  if (from) await(&from->go);
  errno = e;
}
static thr_t *rr_next(thr_t *t)
{
  int i;
  for (i = 1; i <= nthr; i++) {
    thr_t *o = &thr[(t->id + i) % nthr];
    if (o != t && o->state == T_RUN) return o;
  }
  return 0;
}
/* replay: is a switch written down for this place? */
static thr_t *replayed(thr_t *t, unsigned op, uint64_t step, int why)
{
  int i;
  for (i = 0; i < nrsw; i++)
    if (!rsw_used[i] && rsw[i].th == t->id && rsw[i].op == op && rsw[i].step == step && rsw[i].why == why) {
      rsw_used[i] = 1;
      if (rsw[i].to < nthr && thr[rsw[i].to].state == T_RUN && rsw[i].to != t->id) return &thr[rsw[i].to];
    }
  return 0;
}
/* t cannot go on: somebody else must */
static void must_switch(thr_t *t, unsigned op, uint64_t step)
{
  thr_t *c[MAXT], *to = 0;
  int n, i;
  for (;;) {
    n = runnable(c, t);
    if (n) break;
    /* nobody can run: stalled threads come back, but only now */
    for (i = 0; i < nthr; i++)
      if (thr[i].state == T_BLOCKED && (chk & K_WAIT)) {
        int j;
        for (j = 0; j < nthr; j++)
          if (thr[j].state == T_STALLED)
            violation("waits", "thread %d waits for thread %d, which is stopped in the middle of a call", i, j);
      }
    for (i = 0; i < nthr; i++)
      if (thr[i].state == T_STALLED) { thr[i].state = T_RUN; break; }
    if (i < nthr) { if (&thr[i] == t) { cur = t; return; } continue; }
    for (i = 0; i < nthr; i++)
      if (thr[i].state == T_BLOCKED)
        violation("deadlock", "thread %d is blocked for ever", i);
    /* everybody idle or dead: back to the controller */
    cur = 0;
    go(&ctl_go);
    await(&t->go);
    return;
  }
  if (replay_mode) { to = replayed(t, op, step, SW_MUST); if (!to) to = rr_next(t); }
  else { to = choose(c, n); }
  record(t, to, op, step, SW_MUST);
  baton(t, to);
}
static void try_preempt(thr_t *t, int why)
{
  thr_t *c[MAXT], *to;
  int n = runnable(c, t);
  frame_t *f = t->fr;
  if (!n || !f || !f->op) return;
  if (R->nsw > 3000) return;
  if (strat == STRAT_PCT) {
    t->prio = --pct_prio_ctr;
  }
  to = choose(c, n);
  if (strat == STRAT_PCT && to->prio < t->prio) return;
  R->c[C_PREEMPT]++;
  record(t, to, (unsigned)f->op->id, frame_step(t), why);
  baton(t, to);
}
static void fire(thr_t *t, trig_t *g)
{
  frame_t *f = t->fr;
  g->fired = 1;
  hlog(0xf1e, (uint64_t)g->type << 32 | (unsigned)g->op);
  R->sched = hash2(R->sched ^ (unsigned)g->type, (uint64_t)g->op << 40 | frame_step(t));
  switch (g->type) {
  case TR_ABANDON:
  case TR_KILL:
    if (!f->jbset) return;
    R->c[g->type == TR_KILL ? C_KILL : C_ABANDON]++;
    f->abandoned = 1 + (g->type == TR_KILL);
    longjmp(f->jb, 1);
  case TR_NEST: {
    uint8_t fp[1024] __attribute__((aligned(64)));
    int inl = t->inlib, e = errno;
    if (t->depth >= MAXD - 1) return;
    R->c[C_NEST]++;
    consume(t);
    fp_save_reset(fp);
    t->inlib = 0;
    run_nested(t, g->inner);
    t->inlib = inl;
    fp_restore(fp);
    rt_rearm(t);
    errno = e;
    return;
  }
  case TR_FORK: {
    int inl = t->inlib;
    consume(t);
    t->inlib = 0;
    do_fork(t, g->inner & 1);
    t->inlib = inl;
    rt_rearm(t);
    return;
  }
  case TR_SIGNAL: {
    int inl = t->inlib;
    consume(t);
    signal_arrives(t, g->inner);
    t->inlib = inl;
    rt_rearm(t);
    return;
  }
  case TR_STALL: {
    R->c[C_STALL]++;
    t->state = T_STALLED;
    must_switch(t, (unsigned)f->op->id, frame_step(t));
    t->state = T_RUN;
    return;
  }
  }
}
static void slow(thr_t *t)
{
  frame_t *f = t->fr;
  int i;
  consume(t);
  if (!f->op) { rt_rearm(t); return; }
  if (f->base > step_cap)
    violation(chk & K_WAIT ? "waits" : "hang", "op %d (%s) has not returned after %lu steps", f->op->id, kind_name[f->op->kind], (unsigned long)f->base);
  for (i = 0; i < ntrig; i++)
    if (!trig[i].fired && trig[i].op == f->op->id && trig[i].step && trig[i].step == f->base)
      fire(t, &trig[i]);
  if (replay_mode) {
    thr_t *to = replayed(t, (unsigned)f->op->id, f->base, SW_TICK);
    if (to) { record(t, to, (unsigned)f->op->id, f->base, SW_TICK); R->c[C_PREEMPT]++; baton(t, to); }
  } else if (t->gap <= 0) {
    new_gap(t);
    try_preempt(t, SW_TICK);
  }
  if (f->base > FAIR_AFTER && f->base % FAIR_EVERY == 0) {
    thr_t *to = rr_next(t);
    if (to) baton(t, to);
  }
  rt_rearm(t);
}
static inline void tick(thr_t *t)
{
  if (--t->fr->left == 0) slow(t);
}
/* an access the strategy and the fault triggers care about.  0: a read of shared memory,
   1: a write to payloads, contexts or the heap, 2: the library's own state, locks, atomics */
static const unsigned ev_odds[3][3] = { { 48, 2, 2 }, { 200, 200, 2 }, { 400, 16, 8 } };
static void event(thr_t *t, int hot)
{
  frame_t *f = t->fr;
  int i;
  R->c[C_EVENTS]++;
  if (hot) R->c[C_HOT]++;
  f->events++;
  if (hot == 2) { f->events2++; R->c[C_HOT2]++; }
  for (i = 0; i < ntrig; i++)
    if (!trig[i].fired && trig[i].event && (trig[i].op == f->op->id || (trig[i].op == -1 && hot == 2)) &&
        ((!trig[i].hot && trig[i].event == f->events) || (trig[i].hot == 1 && hot && --trig[i].event == 0) ||
         (trig[i].hot == 2 && hot == 2 && trig[i].event == f->events2))) {
      if (trig[i].hot == 2) R->c[C_UNBOUND]++;
      fire(t, &trig[i]);
      return;
    }
  if (strat == STRAT_EVENT && !replay_mode && below(&srng, ev_odds[strat_mean % 3][hot]) == 0) {
    consume(t);
    try_preempt(t, SW_EVENT);
    rt_rearm(t);
  } else if (replay_mode && replay_events) {
    thr_t *to;
    consume(t);
    to = replayed(t, (unsigned)f->op->id, f->base, SW_EVENT);
    if (to) { record(t, to, (unsigned)f->op->id, f->base, SW_EVENT); R->c[C_PREEMPT]++; baton(t, to); }
    rt_rearm(t);
  }
}
void sim_step(thr_t *t) { if (t->fr) tick(t); }
void op_boundary(thr_t *t)
{
  frame_t *f = t->fr;
  if (t->depth > 1) return;
  if (replay_mode) {
    thr_t *to = replayed(t, (unsigned)f->op->id, 0, SW_OP);
    if (to) { record(t, to, (unsigned)f->op->id, 0, SW_OP); baton(t, to); }
  } else if (below(&srng, 2) == 0) {
    try_preempt(t, SW_OP);
    rt_rearm(t);
  }
}

/* a handler may run on a stack of its own, above or below the thread's */
enum { ALT_SIZE = 0x140000 };
static struct { void *m[2]; ucontext_t back, on; int busy; op_t *op; } alt[8];
static void alt_main(unsigned i)
{
  run_nested_op(&thr[i], alt[i].op);
}
void run_on_alt(thr_t *t, op_t *o, int above)
{
  static const uintptr_t at[] = { 0x6a000000, 0xa8000000 };
  uintptr_t lo = t->stk_lo, hi = t->stk_hi;
  int i = t->id;
  if (i >= 8 || alt[i].busy) { run_nested_op(t, o); return; }
  if (!alt[i].m[above]) alt[i].m[above] = map_at(at[above] + (uintptr_t)i * 2 * ALT_SIZE, ALT_SIZE);
  alt[i].busy = 1; alt[i].op = o;
  getcontext(&alt[i].on);
  alt[i].on.uc_stack.ss_sp = alt[i].m[above];
  alt[i].on.uc_stack.ss_size = ALT_SIZE;
  alt[i].on.uc_link = &alt[i].back;
  makecontext(&alt[i].on, (void (*)(void))alt_main, 1, (unsigned)i);
  t->stk_lo = (uintptr_t)alt[i].m[above]; t->stk_hi = t->stk_lo + ALT_SIZE;
  R->c[C_ALTSTACK]++;
  swapcontext(&alt[i].back, &alt[i].on);
  t->stk_lo = lo; t->stk_hi = hi;
  alt[i].busy = 0;
}

static int cur_phase;
/* what the program put among a thread's own data is cleaned up before or after what the library put there,
   and may want to be called again: calls are made from there */
static pthread_key_t lk[2];
static int lk_have, lk_phase;
static __thread int lk_iter[2];
static void late_run(thr_t *t, int w)
{
  int pos;
  if (!t || lk_phase < 0) return;
  pos = lk_iter[w]++ * 2 + w;
  in_plain--;
  cur = t; t->state = T_RUN;
  thread_late(t, lk_phase, pos);
  t->state = T_IDLE; cur = 0;
  in_plain++;
  if (lk_iter[w] < 3) pthread_setspecific(lk[w], t);
}
static void late0(void *a) { late_run(a, 0); }
static void late1(void *a) { late_run(a, 1); }
void rt_late_keys(void)
{
  pthread_key_t d[20];
  int i;
  lk_have = 1;
  if (pthread_key_create(&lk[0], late0)) infra("no key");
  for (i = 0; i < 20; i++) if (pthread_key_create(&d[i], 0)) infra("no key");
  if (pthread_key_create(&lk[1], late1)) infra("no key");
  for (i = 0; i < 20; i++) pthread_key_delete(d[i]);
}
static void *tmain(void *arg)
{
  thr_t *t = arg;
  volatile char mark[64];
  thread_altstack();
  t->stk_hi = (uintptr_t)mark;
  if (lk_have) { pthread_setspecific(lk[0], t); pthread_setspecific(lk[1], t); }
  for (;;) {
    await(&t->go);
    if (cur_phase < 0) return 0;
    if (!t->killed) thread_main(t, cur_phase);
    if (forked) child_rest(t, cur_phase);
    t->state = t->killed ? T_DEAD : T_IDLE;
    consume(t);
    /* hand over; must_switch waits for the next phase's baton */
    {
      thr_t *c[MAXT];
      int n = runnable(c, t), i, st = 0;
      for (i = 0; i < nthr; i++) st |= thr[i].state == T_STALLED || thr[i].state == T_BLOCKED;
      if (n || st) {
        thr_t *to = 0;
        if (!n) {
          /* as in must_switch, without waiting here */
          for (i = 0; i < nthr; i++)
            if (thr[i].state == T_BLOCKED && (chk & K_WAIT)) {
              int j;
              for (j = 0; j < nthr; j++)
                if (thr[j].state == T_STALLED)
                  violation("waits", "thread %d waits for thread %d, which is stopped in the middle of a call", i, j);
            }
          for (i = 0; i < nthr && !to; i++)
            if (thr[i].state == T_STALLED) { thr[i].state = T_RUN; to = &thr[i]; }
          if (!to) violation("deadlock", "a thread is blocked for ever after every other call has finished");
        } else if (replay_mode) { to = replayed(t, 0xffff, (unsigned)cur_phase, SW_MUST); if (!to) to = rr_next(t); record(t, to, 0xffff, (unsigned)cur_phase, SW_MUST); }
        else { to = choose(c, n); record(t, to, 0xffff, (unsigned)cur_phase, SW_MUST); }
        R->c[C_SWITCH]++;
        hlog(0x5717c4, (uint64_t)to->id);
        cur = to;
        go(&to->go);
      } else {
        cur = 0;
        go(&ctl_go);
      }
    }
  }
}
/* thread-local storage is carved from the stacks: they grow with it */
extern size_t tls_size;
static size_t tls_room;
static const uintptr_t stk_bases[] = { 0x70000000, 0x70010000 };
static void start_thread(thr_t *t)
{
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void *)t->stk_base, t->stk_size);
  { int e_ = pthread_create(&t->pt, &at, tmain, t); if (e_) infra("pthread_create failed: %d stack %lx %lx", e_, (long)t->stk_base, (long)t->stk_size); }
  pthread_attr_destroy(&at);
}
/* every caller thread ends and another one takes its place */
void rt_replace_threads(int late)
{
  int i;
  lk_phase = late;
  cur_phase = -1;
  cur = 0;
  for (i = 0; i < nthr; i++)
    if (!thr[i].killed) {
      in_plain++;
      go(&thr[i].go);
      pthread_join(thr[i].pt, 0);
      in_plain--;
      start_thread(&thr[i]);
      R->c[C_CHURN]++;
    }
}
void rt_start_threads(int n)
{
  int i;
  nthr = n;
  tls_room = tls_size ? (tls_size + 0x1ffff) & ~(size_t)0xffff : 0;
  for (i = 0; i < n; i++) {
    thr_t *t = &thr[i];
    memset(t, 0, sizeof *t);
    t->id = i;
    t->state = T_IDLE;
    t->stk_size = 0x300000 + tls_room;
    t->stk_base = (uintptr_t)map_at(stk_bases[0] + (uintptr_t)i * (0x400000 + tls_room) + 0x1000, t->stk_size);
    mprotect((void *)t->stk_base, 4096, PROT_NONE);
    t->stk_lo = t->stk_base;
    t->stk_hi = t->stk_base + t->stk_size;
    t->prio = 1000 + (int)below(&srng, 1000);
    start_thread(t);
  }
}
void rt_run_phase(int phase)
{
  thr_t *c[MAXT], *to;
  int i, n;
  cur_phase = phase;
  for (i = 0; i < nthr; i++) {
    if (thr[i].killed) thr[i].state = T_DEAD;
    else { thr[i].state = T_RUN; new_gap(&thr[i]); if (strat == STRAT_REPLAY || strat == STRAT_NONE || strat == STRAT_EVENT) thr[i].gap = INT64_MAX / 2; }
  }
  n = runnable(c, 0);
  if (!n) return;
  if (replay_mode) {
    int j;
    to = 0;
    for (j = 0; j < nrsw; j++)
      if (!rsw_used[j] && rsw[j].th == 0xff && rsw[j].step == (unsigned)phase) {
        rsw_used[j] = 1;
        if (rsw[j].to < nthr && thr[rsw[j].to].state == T_RUN) to = &thr[rsw[j].to];
        break;
      }
    if (!to) to = c[0];
  } else {
    to = choose(c, n);
  }
  R->sched = hash2(R->sched, (uint64_t)to->id);
  if (!replay_mode && R->nsw < MAXSW) {
    sw_t *s = &R->sw[R->nsw++];
    s->th = 0xff; s->to = (uint8_t)to->id; s->op = 0xfffe; s->step = (uint32_t)phase;
  }
  cur = to;
  go(&to->go);
  await(&ctl_go);
  cur = 0;
}

/* ---- access classification ---- */
extern char __data_start[], _end[];
extern uintptr_t side_lo, side_hi;      /* descriptors and control words */
static void classify(thr_t *t, uintptr_t a, unsigned n, int w)
{
  op_t *op = t->fr->op;
  if (a >= t->stk_lo && a < t->stk_hi) return;
  if (a - (uintptr_t)arena < arena_size || (a < (uintptr_t)arena && a + n > (uintptr_t)arena)) {
    unsigned i;
    int own = 1;
    for (i = 0; i < n; i++)
      if (a + i - (uintptr_t)arena >= arena_size || arena_owner[a + i - (uintptr_t)arena] != (uint16_t)(op->id + 1)) own = 0;
    if (!own && (chk & (w ? K_FOREIGNW : K_FOREIGNR)))
      violation(w ? "foreign-write" : "foreign-read", "%s of %u bytes reaches outside the payloads of the call (op %d, %s)",
                w ? "write" : "read", n, op->id, kind_name[op->kind]);
    event(t, w);
    return;
  }
  if (heap_lo && a - (uintptr_t)heap_lo < HEAP_SIZE) {
    blk_t *b = heap_find(a);
    if (!b || a < (uintptr_t)b->p || a + n > (uintptr_t)b->p + b->size) {
      if (w && (chk & K_FOREIGNW)) violation("heap-overflow", "write of %u bytes outside any block (op %d, %s)", n, op->id, kind_name[op->kind]);
    } else if (b->live == 0) {
      if (chk & K_UAF) violation("use-after-free", "%s of freed memory (op %d, %s)", w ? "write" : "read", op->id, kind_name[op->kind]);
    } else if (w && (chk & K_FOREIGNW) && b->slot >= 0 && b->opid != op->id) {
      int own = (op->kind == O_SET || op->kind == O_FREE || op->kind == O_ALLOC) && op->slot == b->slot;
      if (!own)
        violation("context-write", "%s writes a key context%s (op %d)", kind_name[op->kind], op->kind == O_SET ? " other than its own" : "", op->id);
    }
    event(t, w);
    return;
  }
  if (a >= side_lo && a < side_hi) {
    if (w && (chk & K_FOREIGNW)) violation("argument-write", "%s writes its descriptor array or control word (op %d)", kind_name[op->kind], op->id);
    event(t, w);
    return;
  }
  if (a >= (uintptr_t)__data_start && a < (uintptr_t)_end) { event(t, w ? 2 : 0); return; }
  if (a >= t->stk_hi && a < t->stk_base + t->stk_size) { event(t, w ? 2 : 0); return; }
}
static inline void access_(uintptr_t a, unsigned n, int w)
{
  thr_t *t = cur;
  if (!t || !t->fr) { work_done++; return; }
  tick(t);
  if (a - t->stk_lo < t->stk_hi - t->stk_lo) return;
  classify(t, a, n, w);
}

/* ---- the instrumentation's runtime ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
#define RW(n) \
  void __tsan_read##n(void *a) { access_((uintptr_t)a, n, 0); } \
  void __tsan_write##n(void *a) { access_((uintptr_t)a, n, 1); } \
  void __tsan_read_write##n(void *a) { access_((uintptr_t)a, n, 0); access_((uintptr_t)a, n, 1); } \
  void __tsan_volatile_read##n(void *a) { access_((uintptr_t)a, n, 0); } \
  void __tsan_volatile_write##n(void *a) { access_((uintptr_t)a, n, 1); } \
  void __tsan_unaligned_volatile_read##n(void *a) { access_((uintptr_t)a, n, 0); } \
  void __tsan_unaligned_volatile_write##n(void *a) { access_((uintptr_t)a, n, 1); } \
  void __tsan_unaligned_read##n(void *a) { access_((uintptr_t)a, n, 0); } \
  void __tsan_unaligned_write##n(void *a) { access_((uintptr_t)a, n, 1); } \
  void __tsan_unaligned_read_write##n(void *a) { access_((uintptr_t)a, n, 0); access_((uintptr_t)a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range_access(uintptr_t a, size_t n, int w)
{
  while (n > 32) { access_(a, 32, w); a += 32; n -= 32; }
  if (n) access_(a, (unsigned)n, w);
}
void __tsan_read_range(void *a, size_t n) { range_access((uintptr_t)a, n, 0); }
void __tsan_write_range(void *a, size_t n) { range_access((uintptr_t)a, n, 1); }

void *sim_memcpy(void *d, const void *s, size_t n)
{
  uint8_t *dp = d; const uint8_t *sp = s;
  if (!cur || !cur->fr) { work_done += (n + 15) / 16 * 2; return memcpy(d, s, n); }
  while (n) {
    size_t c = n > 16 ? 16 : n;
    access_((uintptr_t)sp, (unsigned)c, 0);
    access_((uintptr_t)dp, (unsigned)c, 1);
    memcpy(dp, sp, c);
    dp += c; sp += c; n -= c;
  }
  return d;
}
void *sim_memmove(void *d, const void *s, size_t n)
{
  uint8_t *dp = d; const uint8_t *sp = s;
  if (!cur || !cur->fr) { work_done += (n + 15) / 16 * 2; return memmove(d, s, n); }
  if (dp <= sp || dp >= sp + n) {
    while (n) {
      size_t c = n > 16 ? 16 : n;
      access_((uintptr_t)sp, (unsigned)c, 0); access_((uintptr_t)dp, (unsigned)c, 1);
      memmove(dp, sp, c); dp += c; sp += c; n -= c;
    }
  } else {
    while (n) {
      size_t c = n > 16 ? 16 : n;
      n -= c;
      access_((uintptr_t)sp + n, (unsigned)c, 0); access_((uintptr_t)dp + n, (unsigned)c, 1);
      memmove(dp + n, sp + n, c);
    }
  }
  return d;
}
void *sim_memset(void *d, int v, size_t n)
{
  uint8_t *dp = d;
  if (!cur || !cur->fr) { work_done += (n + 15) / 16; return memset(d, v, n); }
  while (n) {
    size_t c = n > 16 ? 16 : n;
    access_((uintptr_t)dp, (unsigned)c, 1);
    memset(dp, v, c); dp += c; n -= c;
  }
  return d;
}
int sim_memcmp(const void *a, const void *b, size_t n)
{
  range_access((uintptr_t)a, n, 0); range_access((uintptr_t)b, n, 0);
  return memcmp(a, b, n);
}
void sim_explicit_bzero(void *d, size_t n) { sim_memset(d, 0, n); }
void sim_bzero(void *d, size_t n) { sim_memset(d, 0, n); }
void *sim_mempcpy(void *d, const void *s, size_t n) { return (char *)sim_memcpy(d, s, n) + n; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return sim_memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { return sim_memset(d, v, n); }

/* atomics: a yield point, then the plain operation (one thread runs at a time) */
static void aev(volatile void *a, unsigned n, int w)
{
  thr_t *t = cur;
  if (!t || !t->fr) { work_done++; return; }
  tick(t);
  if ((uintptr_t)a >= t->stk_lo && (uintptr_t)a < t->stk_hi) return;
  (void)n;
  event(t, 2);
  (void)w;
}
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *a, int m) { (void)m; aev((volatile void *)a, b / 8, 0); return *a; } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int m) { (void)m; aev(a, b / 8, 1); *a = v; } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int m) { T o; (void)m; aev(a, b / 8, 1); o = *a; *a = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int m) { T o; (void)m; aev(a, b / 8, 1); o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int m) { T o; (void)m; aev(a, b / 8, 1); o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int m) { T o; (void)m; aev(a, b / 8, 1); o = *a; *a = (T)(o & v); return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int m) { T o; (void)m; aev(a, b / 8, 1); o = *a; *a = (T)(o | v); return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int m) { T o; (void)m; aev(a, b / 8, 1); o = *a; *a = (T)(o ^ v); return o; } \
  T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int m) { T o; (void)m; aev(a, b / 8, 1); o = *a; *a = (T)~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int fm) \
  { (void)m; (void)fm; aev(a, b / 8, 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int fm) \
  { (void)m; (void)fm; aev(a, b / 8, 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int m, int fm) \
  { T o; (void)m; (void)fm; aev(a, b / 8, 1); o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; aev(&cur, 0, 1); }
void __tsan_atomic_signal_fence(int m) { (void)m; }

/* ---- allocator and other calls of the library ---- */
static void hot(void)
{
  if (cur && cur->fr) { tick(cur); event(cur, 2); }
}
void *sim_malloc(size_t n) { void *p; hot(); p = heap_alloc(16, n); if (!p) errno = ENOMEM; return p; }
void *sim_calloc(size_t a, size_t b) { void *p; hot(); if (b && a > SIZE_MAX / b) { errno = ENOMEM; return 0; } p = heap_alloc(16, a * b); if (p) memset(p, 0, a * b); else errno = ENOMEM; return p; }
void sim_free(void *p) { hot(); heap_free(p); }
void *sim_realloc(void *p, size_t n)
{
  void *q;
  int i;
  hot();
  q = heap_alloc(16, n);
  if (!q) { errno = ENOMEM; return 0; }
  if (p)
    for (i = nblk - 1; i >= 0; i--)
      if (blk[i].p == p && blk[i].live == 1) { memcpy(q, p, blk[i].size < n ? blk[i].size : n); break; }
  heap_free(p);
  return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return 0; } return sim_realloc(p, a * b); }
int sim_posix_memalign(void **p, size_t a, size_t n)
{
  void *q;
  hot();
  if (a & (a - 1) || a % sizeof(void *) || !a) return EINVAL;
  q = heap_alloc(a, n);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
void *sim_aligned_alloc(size_t a, size_t n) { void *p; hot(); p = heap_alloc(a, n); if (!p) errno = ENOMEM; return p; }
void *sim_memalign(size_t a, size_t n) { return sim_aligned_alloc(a, n); }
void *sim_valloc(size_t n) { return sim_aligned_alloc(4096, n); }
void *sim_pvalloc(size_t n) { return sim_aligned_alloc(4096, (n + 4095) & ~(size_t)4095); }
void *sim_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
  void *p;
  (void)a; (void)pr; (void)fd; (void)o;
  hot();
  p = heap_alloc(4096, (n + 4095) / 4096 * 4096);
  if (!p) { errno = ENOMEM; return MAP_FAILED; }
  memset(p, 0, n);
  if (fl & MAP_SHARED) {        /* shared with a process split off later, too */
    size_t len = (n + 4095) / 4096 * 4096;
    if (mmap(p, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != p) infra("mmap failed");
  }
  return p;
}
void *sim_mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return sim_mmap(a, n, pr, fl, fd, o); }
int sim_munmap(void *p, size_t n) { (void)n; hot(); heap_free(p); return 0; }

typedef struct { void *a; int kind, locked, readers, count, once; int owner; } sobj_t;
static sobj_t sobj[8192];
static int nsobj;
static sobj_t *so(void *a)
{
  int i;
  for (i = 0; i < nsobj; i++) if (sobj[i].a == a) return &sobj[i];
  if (nsobj == 8192) infra("too many synchronisation objects");
  memset(&sobj[nsobj], 0, sizeof *sobj);
  sobj[nsobj].a = a;
  sobj[nsobj].owner = -1;
  return &sobj[nsobj++];
}
/* locks in freed memory do not exist any more */
static void so_gone(uintptr_t a, size_t n)
{
  int i;
  for (i = 0; i < nsobj; i++)
    while (i < nsobj && (uintptr_t)sobj[i].a - a < n) sobj[i] = sobj[--nsobj];
}
static int me(void) { return cur ? cur->id : walk_me ? 200 + walk_me : 99; }
static void block_on(sobj_t *s)
{
  thr_t *t = cur;
  R->c[C_BLOCK]++;
  if (!t || (s->owner == me() && s->locked)) violation("deadlock", "a call waits for a lock that its own thread holds");
  if ((chk & K_WAIT) && s->owner >= 0 && s->owner < nthr && thr[s->owner].state == T_STALLED)
    violation("waits", "thread %d waits for thread %d, which is stopped in the middle of a call", t->id, s->owner);
  t->state = T_BLOCKED;
  t->blockobj = s->a;
  consume(t);
  must_switch(t, t->fr && t->fr->op ? (unsigned)t->fr->op->id : 0xfffd, frame_step(t));
  t->state = T_RUN;
  if (t->fr) rt_rearm(t);
}
static void wake(sobj_t *s)
{
  int i;
  for (i = 0; i < nthr; i++)
    if (thr[i].state == T_BLOCKED && thr[i].blockobj == s->a) thr[i].state = T_RUN;
}
static int lock_(void *a, int try, int rec)
{
  sobj_t *s;
  hot();
  s = so(a);
  if (rec && s->locked && s->owner == me()) { s->count++; return 0; }
  while (s->locked || s->readers) { if (try) return EBUSY; block_on(s); s = so(a); }
  s->locked = 1; s->count = 1; s->owner = me();
  return 0;
}
static int unlock_(void *a)
{
  sobj_t *s;
  hot();
  s = so(a);
  if (s->locked) { if (--s->count <= 0) { s->locked = 0; s->owner = -1; } }
  else if (s->readers) s->readers--;
  wake(s);
  return 0;
}
static int is_rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == 1; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at) { sobj_t *s = so(m); s->locked = 0; s->owner = -1; return pthread_mutex_init(m, at); }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { return lock_(m, 0, is_rec(m)); }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { return lock_(m, 1, is_rec(m)); }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { (void)ts; return lock_(m, 0, is_rec(m)); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { return unlock_(m); }
int sim_pthread_spin_init(void *m, int sh) { sobj_t *s = so(m); (void)sh; s->locked = 0; s->owner = -1; return 0; }
int sim_pthread_spin_destroy(void *m) { (void)m; return 0; }
int sim_pthread_spin_lock(void *m) { return lock_(m, 0, 0); }
int sim_pthread_spin_trylock(void *m) { return lock_(m, 1, 0); }
int sim_pthread_spin_unlock(void *m) { return unlock_(m); }
int sim_mtx_init(void *m, int ty) { sobj_t *s = so(m); s->kind = ty; s->locked = 0; return 0; }
void sim_mtx_destroy(void *m) { (void)m; }
int sim_mtx_lock(void *m) { return lock_(m, 0, so(m)->kind & 1); }
int sim_mtx_trylock(void *m) { return lock_(m, 1, so(m)->kind & 1) ? 1 : 0; }
int sim_mtx_unlock(void *m) { return unlock_(m); }
int sim_pthread_rwlock_init(void *m, const void *at) { sobj_t *s = so(m); (void)at; s->locked = s->readers = 0; return 0; }
int sim_pthread_rwlock_destroy(void *m) { (void)m; return 0; }
static int rd_(void *m, int try)
{
  sobj_t *s;
  hot();
  s = so(m);
  while (s->locked) { if (try) return EBUSY; block_on(s); s = so(m); }
  s->readers++;
  return 0;
}
int sim_pthread_rwlock_rdlock(void *m) { return rd_(m, 0); }
int sim_pthread_rwlock_tryrdlock(void *m) { return rd_(m, 1); }
int sim_pthread_rwlock_wrlock(void *m) { return lock_(m, 0, 0); }
int sim_pthread_rwlock_trywrlock(void *m) { return lock_(m, 1, 0); }
int sim_pthread_rwlock_unlock(void *m) { return unlock_(m); }
int sim_pthread_cond_init(void *c, const void *a) { (void)a; so(c); return 0; }
int sim_pthread_cond_destroy(void *c) { (void)c; return 0; }
int sim_pthread_cond_wait(void *c, pthread_mutex_t *m)
{
  sobj_t *s = so(c);
  int gen = s->count;
  unlock_(m);
  s = so(c);
  while (s->count == gen) { s->owner = -1; block_on(s); s = so(c); }
  lock_(m, 0, is_rec(m));
  return 0;
}
int sim_pthread_cond_timedwait(void *c, pthread_mutex_t *m, const struct timespec *ts) { (void)c; (void)ts; unlock_(m); hot(); lock_(m, 0, is_rec(m)); return ETIMEDOUT; }
int sim_pthread_cond_signal(void *c) { hot(); so(c)->count++; wake(so(c)); return 0; }
int sim_pthread_cond_broadcast(void *c) { return sim_pthread_cond_signal(c); }
int sim_pthread_once(void *o, void (*fn)(void))
{
  sobj_t *s;
  hot();
  s = so(o);
  while (s->once == 1) { s->locked = 1; block_on(s); s = so(o); }
  if (s->once == 2) return 0;
  s->once = 1; s->owner = me(); s->locked = 1;
  fn();
  s = so(o);
  s->once = 2; s->owner = -1; s->locked = 0;
  wake(s);
  return 0;
}
void sim_call_once(void *o, void (*fn)(void)) { sim_pthread_once(o, fn); }
int sim_sem_init(sem_t *m, int sh, unsigned v) { (void)sh; so(m)->count = (int)v; return 0; }
int sim_sem_destroy(sem_t *m) { (void)m; return 0; }
int sim_sem_wait(sem_t *m) { sobj_t *s; hot(); s = so(m); while (s->count <= 0) { s->owner = -1; block_on(s); s = so(m); } s->count--; return 0; }
int sim_sem_trywait(sem_t *m) { sobj_t *s; hot(); s = so(m); if (s->count <= 0) { errno = EAGAIN; return -1; } s->count--; return 0; }
int sim_sem_post(sem_t *m) { hot(); so(m)->count++; wake(so(m)); return 0; }
/* the library starts a thread of its own: it runs at once, to its end */
static void *thr_ret[64];
static int nthr_ret;
int sim_pthread_create(pthread_t *p, const void *at, void *(*fn)(void *), void *arg)
{
  (void)at;
  hot();
  if (chk & K_STATE) violation("process-state", "a call started a thread");
  if (nthr_ret >= 63) nthr_ret = 0;
  *p = (pthread_t)++nthr_ret;
  thr_ret[nthr_ret] = fn(arg);
  return 0;
}
int sim_pthread_join(pthread_t p, void **r) { hot(); if (r) *r = thr_ret[(unsigned long)p & 63]; return 0; }
int sim_pthread_detach(pthread_t p) { (void)p; hot(); return 0; }
void sim_exit(int c) { violation("exit", "a call ended the process (status %d, op %d)", c, cur && cur->fr && cur->fr->op ? cur->fr->op->id : -1); }
void sim__exit(int c) { sim_exit(c); }
void sim__Exit(int c) { sim_exit(c); }
void sim_quick_exit(int c) { sim_exit(c); }

int sim_timer_create(clockid_t c, struct sigevent *e, timer_t *t) { (void)c; (void)e; hot(); if (chk & K_STATE) violation("process-state", "a call created a timer"); *t = 0; return 0; }
int sim_timer_settime(timer_t t, int f, const struct itimerspec *a, struct itimerspec *b) { (void)t; (void)f; (void)a; (void)b; return 0; }
int sim_timer_delete(timer_t t) { (void)t; return 0; }
int sim_timerfd_create(int c, int f) { hot(); if (chk & K_STATE) violation("process-state", "a call created a timer"); return timerfd_create(c, f); }
/* the allocator is the program's, and so is what is locked in memory */
int sim_mallopt(int p, int v) { (void)p; (void)v; hot(); if (chk & K_STATE) violation("process-state", "a call changed the allocator's settings"); return 1; }
int sim_malloc_trim(size_t n) { (void)n; hot(); return 0; }
int sim_mlock(const void *p, size_t n) { (void)p; (void)n; hot(); return 0; }
int sim_munlock(const void *p, size_t n) { (void)p; (void)n; hot(); return 0; }
int sim_mlockall(int f) { (void)f; hot(); if (chk & K_STATE) violation("process-state", "a call locked all memory of the process"); return 0; }
int sim_munlockall(void) { hot(); if (chk & K_STATE) violation("process-state", "a call unlocked all memory of the process"); return 0; }
int twin_mallopt(int p, int v) { (void)p; (void)v; return 1; }
int twin_malloc_trim(size_t n) { (void)n; return 0; }
int twin_mlock(const void *p, size_t n) { (void)p; (void)n; return 0; }
int twin_munlock(const void *p, size_t n) { (void)p; (void)n; return 0; }
int twin_mlockall(int f) { (void)f; return 0; }
int twin_munlockall(void) { return 0; }
int twin_timer_create(clockid_t c, struct sigevent *e, timer_t *t) { (void)c; (void)e; *t = 0; return 0; }
int twin_timer_settime(timer_t t, int f, const struct itimerspec *a, struct itimerspec *b) { (void)t; (void)f; (void)a; (void)b; return 0; }
int twin_timer_delete(timer_t t) { (void)t; return 0; }
int twin_timerfd_create(int c, int f) { return timerfd_create(c, f); }

/* the process splits in two.  In the new one only the thread that asked goes
   on; which of the two runs first is the plan's choice, then the other. */
static struct { void (*f[3])(void); } atf[256];
static int natf;
int sim_pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void))
{
  if (natf < 256) { atf[natf].f[0] = a; atf[natf].f[1] = b; atf[natf].f[2] = c; natf++; }
  return 0;
}
int sim___register_atfork(void (*a)(void), void (*b)(void), void (*c)(void), void *d) { (void)d; return sim_pthread_atfork(a, b, c); }
static void fork_end(pid_t p)
{
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  fork_pid = 0;
  if (R->status != ST_RUNNING) { drop_child(); _exit(0); }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 42) infra("the new process ended without a result (status %#x)", (unsigned)st);
}
void do_fork(thr_t *t, int parent_first)
{
  int i, no, pp[2], e = errno;
  pid_t p;
  if (R->c[C_FORK] >= (uint64_t)fork_max || nkid >= 15) { R->c[C_SKIPPED]++; return; }
  for (i = natf - 1; i >= 0; i--) if (atf[i].f[0]) { in_plain++; atf[i].f[0](); in_plain--; }
  no = (int)++R->c[C_FORK];
  if (no > 1) R->c[C_FORKMORE]++;
  if (forked) R->c[C_FORKDEEP]++;
  for (i = 0; i < nthr; i++) if (&thr[i] != t && thr[i].inlib && thr[i].state != T_DEAD) R->c[C_FORKBUSY]++;
  hlog(0xf02c, (uint64_t)parent_first);
  R->sched = hash2(R->sched ^ 0xf02c, (uint64_t)t->id << 40 | frame_step(t));
  if (pipe(pp)) infra("pipe failed");
  p = fork();
  if (p < 0) infra("fork failed");
  if (!p) {
    char c;
    forked_from = forked;
    forked = no;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    fork_pid = 0;
    close(pp[1]);
    while (nkid > 0) close(kid[--nkid].fd);
    if (parent_first) {
      while (read(pp[0], &c, 1) < 0 && errno == EINTR) ;
      if (R->status != ST_RUNNING) _exit(42);
    }
    close(pp[0]);
    still_alive();
    for (i = 0; i < nthr; i++) if (&thr[i] != t) vanish(&thr[i]);
    for (i = 0; i < natf; i++) if (atf[i].f[2]) { in_plain++; atf[i].f[2](); in_plain--; }
    errno = e;
    return;
  }
  close(pp[0]);
  if (!parent_first) {
    close(pp[1]);
    fork_pid = p;
    fork_end(p);
    still_alive();
  } else {
    kid[nkid].pid = p;
    kid[nkid++].fd = pp[1];
  }
  for (i = 0; i < natf; i++) if (atf[i].f[1]) { in_plain++; atf[i].f[1](); in_plain--; }
  errno = e;
}
void fork_join(void)
{
  while (nkid > 0) {
    pid_t p = kid[0].pid;
    close(kid[0].fd);
    memmove(kid, kid + 1, (size_t)--nkid * sizeof *kid);
    fork_pid = p;
    fork_end(p);
  }
}

/* giving way: the next thread in turn */
static void yield_(void)
{
  thr_t *t = cur, *to;
  if (!t || !t->fr) return;
  tick(t);
  consume(t);
  to = rr_next(t);
  if (to) baton(t, to);
  else if (!(chk & K_WAIT)) {
    int i;
    for (i = 0; i < nthr; i++) if (thr[i].state == T_STALLED) { thr[i].state = T_RUN; break; }
  }
  rt_rearm(t);
}
int sim_sched_yield(void) { yield_(); return 0; }
int sim_pthread_yield(void) { yield_(); return 0; }
void sim_thrd_yield(void) { yield_(); }
int sim_usleep(unsigned us) { (void)us; yield_(); return 0; }
unsigned sim_sleep(unsigned s) { (void)s; yield_(); return 0; }
int sim_nanosleep(const void *a, void *b) { (void)a; (void)b; yield_(); return 0; }
int sim_clock_nanosleep(int c, int f, const void *a, void *b) { (void)c; (void)f; (void)a; (void)b; yield_(); return 0; }

/* waiting for a descriptor or a file lock: tried without waiting, and others go on meanwhile */
static void io_wait(unsigned *n)
{
  int i, st = 0;
  if (!cur || !cur->fr) { if (++*n > 1000) violation("deadlock", "a call waits for input that never comes"); return; }
  for (i = 0; i < nthr; i++) st |= thr[i].state == T_STALLED;
  if (!rr_next(cur) && ++*n > 200) {
    if (st && (chk & K_WAIT)) violation("waits", "thread %d waits, outside the program, for one that is stopped in the middle of a call", cur->id);
    if (!st) violation("deadlock", "a call waits for input that never comes");
  }
  R->c[C_BLOCK]++;
  yield_();
}
static int ready(int fd, short ev)
{
  struct pollfd p = { fd, ev, 0 };
  return poll(&p, 1, 0) != 0;
}
ssize_t sim_read(int fd, void *b, size_t n) { unsigned k = 0; hot(); while (!(fcntl(fd, F_GETFL) & O_NONBLOCK) && !ready(fd, POLLIN)) io_wait(&k); return read(fd, b, n); }
ssize_t sim_write(int fd, const void *b, size_t n) { unsigned k = 0; hot(); while (!(fcntl(fd, F_GETFL) & O_NONBLOCK) && !ready(fd, POLLOUT)) io_wait(&k); return write(fd, b, n); }
int sim_poll(struct pollfd *f, nfds_t n, int ms)
{
  unsigned k = 0;
  int r, tries = 8;
  hot();
  while (!(r = poll(f, n, 0)) && (ms < 0 || (ms > 0 && tries-- > 0))) { if (ms < 0) io_wait(&k); else yield_(); }
  return r;
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
  fd_set c[3];
  struct timeval z;
  unsigned k = 0;
  int v, tries = 8;
  hot();
  for (;;) {
    if (r) c[0] = *r;
    if (w) c[1] = *w;
    if (e) c[2] = *e;
    z.tv_sec = z.tv_usec = 0;
    v = select(n, r ? &c[0] : 0, w ? &c[1] : 0, e ? &c[2] : 0, &z);
    if (v || (tv && (!(tv->tv_sec || tv->tv_usec) || tries-- <= 0))) break;
    if (tv) yield_(); else io_wait(&k);
  }
  if (r) *r = c[0];
  if (w) *w = c[1];
  if (e) *e = c[2];
  return v;
}
int sim_flock(int fd, int op)
{
  unsigned k = 0;
  int r;
  hot();
  if (op & LOCK_NB) return flock(fd, op);
  while ((r = flock(fd, op | LOCK_NB)) < 0 && errno == EWOULDBLOCK) io_wait(&k);
  return r;
}
void sim_flockfile(FILE *f) { unsigned k = 0; hot(); while (ftrylockfile(f)) io_wait(&k); }
int sim_sem_timedwait(sem_t *m, const struct timespec *ts) { int i; (void)ts; for (i = 0; i < 8; i++) { if (!sim_sem_trywait(m)) return 0; yield_(); } errno = ETIMEDOUT; return -1; }
/* a thread's own data: room for it may be refused like any other */
int sim_pthread_setspecific(pthread_key_t k, const void *v)
{
  frame_t *f = cur ? cur->fr : 0;
  hot();
  if (v && f && f->op) {
    unsigned n = f->allocs++;
    if (alloc_fail_all || ((f->op->failmask >> (n < 63 ? n : 63)) & 1)) { R->c[C_ALLOCFAIL]++; f->op->failed++; return ENOMEM; }
  }
  return pthread_setspecific(k, v);
}

/* clocks, identities, randomness, environment: the seed decides */
static uint64_t envv(int k)
{
  R->c[C_ENVCALLS]++;
  return env_on ? hash2(env_seed + (uint64_t)k, ++env_n) : 0;
}
/* one clock behind them all: it creeps, leaps, is set back, and starts anywhere */
static uint64_t clk_ns;
static uint64_t clk(void)
{
  uint64_t h = envv(1);
  if (!env_on) return 0;
  if (!clk_ns) clk_ns = (env_seed % 5 == 0 ? (1ull << 31) - 2 : hash2(env_seed, 31) >> (env_seed % 5 == 1 ? 30 : 34)) * 1000000000ull + 1;
  if (dict_n && (h >> 56) % 8 == 0) {
    rng_t rr = rng_make(h, 7);
    uint64_t d = dict_near(&rr), u = (h >> 50) % 4;
    clk_ns = u == 0 ? d % 10000000000ull * 1000000000ull + (h >> 20) % 1000000000u : u == 1 ? clk_ns + d % 100000000u * 1000000000ull : u == 2 ? clk_ns + d : clk_ns - clk_ns % 1000000000u + d % 1000000000u;
    return clk_ns += !clk_ns;
  }
  switch (h & 15) {
  case 0: clk_ns = (h >> 34) * 1000000000ull + (h >> 4) % 1000000000u + 1; break;
  case 1: clk_ns -= (h >> 20) % (clk_ns < 3600000000000ull ? clk_ns : 3600000000000ull); break;
  case 2: case 3: clk_ns += (h >> 20) % 10000000000ull; break;
  case 4: clk_ns += (h >> 20) % 100000000000000ull; break;
  case 5: break;
  default: clk_ns += (h >> 40) >> (h >> 4) % 20; break;
  }
  return clk_ns;
}
time_t sim_time(time_t *t) { time_t v = (time_t)(clk() / 1000000000u); if (t) *t = v; return v; }
clock_t sim_clock(void) { return (clock_t)(clk() / 1000u); }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { uint64_t v = clk(); (void)c; ts->tv_sec = (time_t)(v / 1000000000u); ts->tv_nsec = (long)(v % 1000000000u); return 0; }
int sim_gettimeofday(struct timeval *tv, void *z) { uint64_t v = clk(); (void)z; tv->tv_sec = (time_t)(v / 1000000000u); tv->tv_usec = (int)(v / 1000u % 1000000u); return 0; }
long sim_times(void *b) { (void)b; return (long)(clk() / 10000000u); }
unsigned long long sim_vp_rdtsc(void) { return clk() * 3; }
unsigned long long sim_vp_rdtscp(unsigned *a) { *a = (unsigned)(hash2(env_seed, 15) % 64); return clk() * 3; }
int sim_vp_rdrand16(unsigned short *p) { uint64_t v = envv(17); *p = (unsigned short)v; return (v >> 32) % 5 != 0; }
int sim_vp_rdrand32(unsigned *p) { uint64_t v = envv(18); *p = (unsigned)v; return (v >> 32) % 5 != 0; }
int sim_vp_rdrand64(unsigned long long *p) { uint64_t v = envv(19); *p = v; return (v >> 32) % 5 != 0; }
/* the processor: what it can do beyond what the build needs differs from machine to machine */
#if defined(__x86_64__)
typedef struct { unsigned vendor, type, subtype, features; } cpu_t;
extern cpu_t __cpu_model __attribute__((visibility("hidden")));
cpu_t sim___cpu_model, twin___cpu_model;
unsigned sim___cpu_features2[16], twin___cpu_features2[16];
int sim___cpu_indicator_init(void) { __builtin_cpu_init(); if (!twin___cpu_model.vendor) sim___cpu_model = twin___cpu_model = __cpu_model; return 0; }
int twin___cpu_indicator_init(void) { return sim___cpu_indicator_init(); }
void env_cpu(const char *var)
{
  static const unsigned keep[] = { 0x1f, 0x5f, 0x1df, 0x3df, 0x7ff };          /* SSE2, SSSE3, SSE4, AVX, AVX2 */
  unsigned lo = strstr(var, "avx2") ? 4 : strstr(var, "ssse3") ? 1 : 0, h = (unsigned)(hash2(env_seed, 55) >> 20);
  sim___cpu_indicator_init();
  if (env_on && h % 2) { sim___cpu_model.features &= keep[lo + (h >> 4) % (5 - lo)]; sim___cpu_model.type = sim___cpu_model.subtype = 0; }
  if (env_on && h % 3 == 0) sim___cpu_model.vendor = 1 + (h >> 8) % 2;
}
#else
void env_cpu(const char *var) { (void)var; }
#endif
#include <sys/auxv.h>
unsigned long sim_getauxval(unsigned long k)
{
  unsigned long v = getauxval(k);
  R->c[C_ENVCALLS]++;
  if (env_on && hash2(env_seed, 56) % 2) {
#if defined(__aarch64__)
    if (k == AT_HWCAP) v &= 3;          /* floating point and vectors */
#endif
    if (k == AT_HWCAP2) v = 0;
  }
  return v;
}
unsigned long twin_getauxval(unsigned long k) { return getauxval(k); }
static int pid_(void)
{
  uint64_t h = hash2(env_seed, 8);
  if (dict_n && (h >> 40) % 4 == 0) { rng_t rr = rng_make(h, 8); return (int)dict_in(&rr, 2, 4000000); }
  return 2 + (int)(h % 32000);
}
int sim_getpid(void) { R->c[C_ENVCALLS]++; return pid_() + forked; }
int sim_getppid(void) { R->c[C_ENVCALLS]++; return forked ? pid_() + forked_from : 1; }
int sim_gettid(void) { return 100 + me() + 10000 * forked; }
pthread_t sim_pthread_self(void) { return pthread_self(); }
static void rnd_used(void) { if (chk & K_STATE) violation("process-state", "a call uses up or restarts the program's random sequence (op %d)", cur && cur->fr && cur->fr->op ? cur->fr->op->id : -1); }
int sim_rand(void) { rnd_used(); return (int)(envv(9) >> 33); }
void sim_srand(unsigned s) { (void)s; rnd_used(); }
long sim_random(void) { rnd_used(); return (long)(envv(10) >> 33); }
void sim_srandom(unsigned s) { (void)s; rnd_used(); }
int sim_rand_r(unsigned *s) { (void)s; return (int)(envv(11) >> 33); }
long sim_lrand48(void) { rnd_used(); return (long)(envv(12) >> 33); }
double sim_drand48(void) { rnd_used(); return (double)(envv(13) >> 11) / 9007199254740992.0; }
void sim_srand48(long s) { (void)s; rnd_used(); }
long sim_mrand48(void) { rnd_used(); return (long)(int32_t)envv(15); }
unsigned short *sim_seed48(unsigned short *p) { static unsigned short o[3]; (void)p; rnd_used(); return o; }
void sim_lcong48(unsigned short *p) { (void)p; rnd_used(); }
char *sim_initstate(unsigned s, char *b, size_t n) { static char o[8]; (void)s; (void)b; (void)n; rnd_used(); return o; }
char *sim_setstate(char *b) { static char o[8]; (void)b; rnd_used(); return o; }
unsigned sim_arc4random(void) { return (unsigned)envv(16); }
unsigned sim_arc4random_uniform(unsigned n) { return n ? (unsigned)envv(16) % n : 0; }
void sim_arc4random_buf(void *p, size_t n) { size_t i; for (i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)envv(16); }
int sim_getentropy(void *p, size_t n) { sim_arc4random_buf(p, n); return 0; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
ssize_t sim_getrandom(void *p, size_t n, unsigned f) { size_t i; (void)f; for (i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)envv(14); return (ssize_t)n; }
/* an answer that the sources speak of */
static void dict_text(char *b, size_t n, uint64_t x)
{
  rng_t rr = rng_make(x, 6), *r = &rr;
  if (dict_nt && chance(r, 600)) {
    const char *s = dict_t[below(r, (uint64_t)dict_nt)];
    if (chance(r, 700)) snprintf(b, n, "%s", s);
    else if (chance(r, 500)) snprintf(b, n, "%s%llu", s, (unsigned long long)below(r, 20));
    else snprintf(b, n, "%s%s", s, dict_t[below(r, (uint64_t)dict_nt)]);
  } else if (dict_n) snprintf(b, n, "%llu", (unsigned long long)dict_near(r));
}
char *sim_getenv(const char *k)
{
  static char v[8][64];
  static int n;
  uint64_t x = hash_bytes(env_seed, k, strlen(k));
  R->c[C_ENVCALLS]++;
  if (!env_on || x % 3 == 0) return 0;
  n = (n + 1) % 8;
  if ((x >> 40) % 3 == 0) {
    static const char *const w[] = { "", "on", "off", "yes", "no", "true", "false", "fast", "slow", "debug", "safe", "all", "none", "auto", "y", "n", "-1", "*" };
    snprintf(v[n], sizeof v[n], "%s", w[(x >> 8) % (sizeof w / sizeof *w)]);
  }
  else snprintf(v[n], sizeof v[n], "%u", (unsigned)(x >> 8) % (x & 128 ? 2u : 300u));
  if ((dict_n || dict_nt) && (x >> 44) % 2) dict_text(v[n], sizeof v[n], x);
  return v[n];
}
char *sim_secure_getenv(const char *k) { return sim_getenv(k); }
/* files: what the library finds in the file system is decided by the seed as well; it may change between calls */
static const char *file_text(const char *p)
{
  static char v[8][64];
  static int n;
  static const char *const w[] = { "", "0\n", "1\n", "yes\n", "no\n", "on\n", "debug=1\n", "mode=safe\n", "# none\n", "auto\n", "true\n", "\n", "enabled=0\n", "batch=8\n", "always [madvise] never\n", "performance\n" };
  uint64_t h;
  R->c[C_ENVCALLS]++;
  if (!env_on || !p) return 0;
  h = hash2(hash_bytes(env_seed, p, strlen(p)), env_n / 16);   /* for a while the same */
  env_n++;
  if (h % 2) return 0;
  n = (n + 1) % 8;
  if ((dict_n || dict_nt) && (h >> 40) % 2) { dict_text(v[n], sizeof v[n] - 1, h); strcat(v[n], "\n"); return v[n]; }
  if (h % 3 == 0) { snprintf(v[n], sizeof v[n], "%u\n", (unsigned)(h >> 8) % (h & 64 ? 4u : 100000u)); return v[n]; }
  return w[(h >> 8) % (sizeof w / sizeof *w)];
}
static int text_fd(const char *s)
{
  char t[] = "/tmp/simfileXXXXXX";
  int fd = memfd_create("sim", 0);
  if (fd < 0 && (fd = mkstemp(t)) >= 0) unlink(t);
  if (fd >= 0 && *s && pwrite(fd, s, strlen(s), 0) < 0) s = "";
  return fd;
}
static FILE *open_text(const char *p, const char *m)
{
  const char *s = file_text(p);
  int fd;
  FILE *f;
  if (!s && *m != 'w' && *m != 'a') { errno = ENOENT; return 0; }
  fd = text_fd(s && *m != 'w' ? s : "");
  if (fd < 0) return 0;
  f = fdopen(fd, *m == 'w' || *m == 'a' ? "w+" : "r+");
  if (!f) close(fd);
  return f;
}
FILE *sim_fopen(const char *p, const char *m) { return open_text(p, m); }
FILE *sim_fopen64(const char *p, const char *m) { return open_text(p, m); }
static int open_fd(const char *p, int fl)
{
  const char *s = file_text(p);
  if (!s && !(fl & O_CREAT)) { errno = ENOENT; return -1; }
  return text_fd(s && !(fl & O_TRUNC) ? s : "");
}
int sim_open(const char *p, int fl, ...) { return open_fd(p, fl); }
int sim_open64(const char *p, int fl, ...) { return open_fd(p, fl); }
int sim_openat(int d, const char *p, int fl, ...) { (void)d; return open_fd(p, fl); }
int sim_openat64(int d, const char *p, int fl, ...) { (void)d; return open_fd(p, fl); }
int sim___open_2(const char *p, int fl) { return open_fd(p, fl); }
int sim_access(const char *p, int m) { (void)m; if (file_text(p)) return 0; errno = ENOENT; return -1; }
int sim_euidaccess(const char *p, int m) { return sim_access(p, m); }
int sim_faccessat(int d, const char *p, int m, int f) { (void)d; (void)f; return sim_access(p, m); }
static int stat_(const char *p, struct stat *s)
{
  const char *x = file_text(p);
  if (!x) { errno = ENOENT; return -1; }
  memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = (off_t)strlen(x); s->st_nlink = 1; s->st_mtime = sim_time(0);
  return 0;
}
int sim_stat(const char *p, struct stat *s) { return stat_(p, s); }
int sim_stat64(const char *p, struct stat *s) { return stat_(p, s); }
int sim_lstat(const char *p, struct stat *s) { return stat_(p, s); }
long sim_sysconf(int k)
{
  R->c[C_ENVCALLS]++;
  if (env_on && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return 1 + (long)(hash2(env_seed, 57) % (hash2(env_seed, 58) % 2 ? 4 : 300));
  return sysconf(k);
}
int sim_getrlimit(int k, struct rlimit *l)
{
  uint64_t h = hash2(env_seed, 61 + (uint64_t)k);
  int r = getrlimit(k, l);
  R->c[C_ENVCALLS]++;
  if (env_on && !r && h % 2) l->rlim_cur = (h >> 8) % 4 == 0 ? RLIM_INFINITY : (rlim_t)(h >> 20) >> ((h >> 10) % 40);
  if (env_on && !r && dict_n && (h >> 6) % 4 == 0) { rng_t rr = rng_make(h, 9); l->rlim_cur = (rlim_t)dict_near(&rr); }
  return r;
}
static void word_(char *b, size_t n, uint64_t k)
{
  static const char *const w[] = { "localhost", "a", "", "settop-box-17", "vlc", "tvheadend", "Linux", "5.4.0", "2.6.18", "x86_64", "i686", "player test", "d" };
  uint64_t h = hash2(env_seed, k);
  if (!env_on) { snprintf(b, n, "x"); return; }
  if ((dict_n || dict_nt) && h % 2) dict_text(b, n, h >> 1);
  else snprintf(b, n, "%s", w[(h >> 8) % (sizeof w / sizeof *w)]);
}
/* numbers that the system gives, and that the program or anybody else may have chosen */
int sim_sched_getaffinity(pid_t p, size_t n, cpu_set_t *c)
{
  uint64_t h = hash2(env_seed, 120);
  int r = 0, i, k = 1 + (int)(h % 8), top = (int)(h >> 8) % 2 ? 8 : 64;
  R->c[C_ENVCALLS]++;
  (void)p;
  memset(c, 0, n);
  if (!env_on) { *(uint8_t *)c = 255; return r; }
  for (i = 0; i < k; i++) { int b = (int)(hash2(h, (uint64_t)i) % (unsigned)top); if ((size_t)b < n * 8) CPU_SET(b, c); }
  return 0;
}
int sim_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *c) { (void)t; return sim_sched_getaffinity(0, n, c) ? EINVAL : 0; }
int sim_getpriority(int w, unsigned who) { R->c[C_ENVCALLS]++; return env_on ? (int)(hash2(env_seed, 121) % 40) - 20 : getpriority(w, who); }
int sim_sched_getscheduler(pid_t p) { R->c[C_ENVCALLS]++; return env_on ? (int)(hash2(env_seed, 122) % 4) : sched_getscheduler(p); }
int sim_getloadavg(double *d, int n) { int i; R->c[C_ENVCALLS]++; if (n > 3) n = 3; for (i = 0; i < n; i++) d[i] = (double)(hash2(env_seed, 123 + (uint64_t)i) % 4000) / 100; return n; }
int sim_sysinfo(struct sysinfo *s)
{
  uint64_t h = hash2(env_seed, 127);
  int r = sysinfo(s);
  R->c[C_ENVCALLS]++;
  if (!env_on || r) return r;
  s->uptime = (long)(h % 40000000) >> (h >> 30 & 15); s->totalram = (1ul << 26) << (h >> 40) % 5; s->freeram = s->totalram >> (h >> 44) % 12; s->procs = (unsigned short)(h >> 48);
  return 0;
}
int sim_getrusage(int w, struct rusage *u)
{
  int r = getrusage(w, u);
  R->c[C_ENVCALLS]++;
  memset(u, 0, sizeof *u);
  u->ru_maxrss = (long)(hash2(env_seed, 128) % 4000000); u->ru_minflt = (long)(hash2(env_seed, 129) % 100000); u->ru_nvcsw = (long)(hash2(env_seed, 130) % 100000);
  u->ru_utime.tv_sec = (long)(hash2(env_seed, 131) % 10000) + (long)(R->c[C_ENVCALLS] / 100);
  return r;
}
long sim_gethostid(void) { R->c[C_ENVCALLS]++; return (long)(uint32_t)hash2(env_seed, 132); }
size_t sim_malloc_usable_size(void *p) { blk_t *b = p ? heap_find((uintptr_t)p) : 0; return b ? b->size : 0; }
int sim_gethostname(char *b, size_t n) { R->c[C_ENVCALLS]++; if (!n) { errno = EINVAL; return -1; } word_(b, n, 90); return 0; }
int sim_uname(struct utsname *u)
{
  int r = uname(u);
  R->c[C_ENVCALLS]++;
  word_(u->nodename, 60, 90); word_(u->release, 60, 91); word_(u->version, 60, 92);
  return r;
}
char *sim_getcwd(char *b, size_t n)
{
  R->c[C_ENVCALLS]++;
  if (!b) { b = sim_malloc(n = 64); if (!b) return 0; }
  if (n < 4) { errno = ERANGE; return 0; }
  b[0] = '/'; word_(b + 1, n - 1 > 60 ? 60 : n - 1, 93);
  return b;
}
static char name_[64], name2_[64];
char *sim_program_invocation_name = name_, *sim_program_invocation_short_name = name_, *sim___progname = name_, *sim___progname_full = name2_;
char *twin_program_invocation_name = "x", *twin_program_invocation_short_name = "x", *twin___progname = "x", *twin___progname_full = "x";
void env_names(void) { word_(name_, 60, 94); word_(name2_, 60, 94); }
int sim_get_nprocs(void) { return (int)sim_sysconf(_SC_NPROCESSORS_ONLN); }
int sim_get_nprocs_conf(void) { return sim_get_nprocs(); }
unsigned sim_getuid(void) { R->c[C_ENVCALLS]++; return (unsigned)(hash2(env_seed, 59) % 3 * 500); }
unsigned sim_geteuid(void) { R->c[C_ENVCALLS]++; return (unsigned)(hash2(env_seed, 60) % 3 * 500); }
int sim_isatty(int fd) { (void)fd; return (int)(envv(20) & 1); }
/* a thread is on one of few processors, which others are on too, and is moved now and then */
static unsigned on_cpu(void)
{
  static const unsigned ncpus[] = { 1, 1, 2, 2, 4, 64 };
  static unsigned moved[MAXT + 1];
  unsigned n = ncpus[hash2(env_seed, 57) % 6];
  int i = me();
  R->c[C_ENVCALLS]++;
  if (i < 0 || i > MAXT) i = MAXT;
  if (!env_on) return 0;
  if (envv(16) % 16 == 0) moved[i]++;
  return (unsigned)(hash2(env_seed, 5800 + (uint64_t)i * 1000003 + moved[i]) % n);
}
int sim_getcpu(unsigned *c, unsigned *n) { if (c) *c = on_cpu(); if (n) *n = 0; return 0; }
int sim_sched_getcpu(void) { return (int)on_cpu(); }

/* system calls made directly */
long sim_syscall(long n, ...)
{
  va_list ap;
  long a[6];
  int i;
  va_start(ap, n);
  for (i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  switch (n) {
  case SYS_gettid: return sim_gettid();
  case SYS_getpid: return sim_getpid();
  case SYS_getppid: return sim_getppid();
#ifdef SYS_getcpu
  case SYS_getcpu: return sim_getcpu((unsigned *)a[0], (unsigned *)a[1]);
#endif
#ifdef SYS_getrandom
  case SYS_getrandom: return sim_getrandom((void *)a[0], (size_t)a[1], (unsigned)a[2]);
#endif
  case SYS_sched_yield: yield_(); return 0;
#ifdef SYS_nanosleep
  case SYS_nanosleep: yield_(); return 0;
#endif
  case SYS_clock_nanosleep: yield_(); return 0;
#ifdef SYS_clock_gettime
  case SYS_clock_gettime: return sim_clock_gettime((clockid_t)a[0], (struct timespec *)a[1]);
#endif
#ifdef SYS_gettimeofday
  case SYS_gettimeofday: return sim_gettimeofday((struct timeval *)a[0], 0);
#endif
#ifdef SYS_time
  case SYS_time: return (long)sim_time((time_t *)a[0]);
#endif
#ifdef SYS_futex
  case SYS_futex:
    hot();
    switch (a[1] & 127) {
    case 0: case 9:             /* wait: it may end for no reason */
      if (*(volatile uint32_t *)a[0] != (uint32_t)a[2]) { errno = EAGAIN; return -1; }
      yield_();
      return 0;
    case 1: case 10: return 0;
    }
    errno = ENOSYS;
    return -1;
#endif
  case SYS_exit: case SYS_exit_group: sim_exit((int)a[0]); return -1;
  }
  return syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static int no_process(void)
{
  if (chk & K_STATE) violation("process-state", "a call starts a process");
  errno = EAGAIN;
  return -1;
}
int sim_fork(void) { return no_process(); }
int sim_vfork(void) { return no_process(); }
int sim_system(const char *c) { (void)c; return no_process(); }
void *sim_popen(const char *c, const char *m) { (void)c; (void)m; no_process(); return 0; }
int sim_posix_spawn(void) { no_process(); return EAGAIN; }
int sim_posix_spawnp(void) { no_process(); return EAGAIN; }
long twin_syscall(long n, ...)
{
  va_list ap;
  long a[6];
  int i;
  va_start(ap, n);
  for (i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_gettid || n == SYS_getpid || n == SYS_getppid) return 1;
#ifdef SYS_futex
  if (n == SYS_futex) return 0;
#endif
  return syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int twin_fork(void) { errno = EAGAIN; return -1; }
int twin_vfork(void) { errno = EAGAIN; return -1; }
int twin_system(const char *c) { (void)c; return -1; }
void *twin_popen(const char *c, const char *m) { (void)c; (void)m; return 0; }
int twin_posix_spawn(void) { return EAGAIN; }
int twin_posix_spawnp(void) { return EAGAIN; }

/* ---- the twin's world: quiet and always the same ---- */
void *twin_malloc(size_t n) { return calloc(1, n); }
void *twin_calloc(size_t a, size_t b) { return calloc(a, b); }
void *twin_realloc(void *p, size_t n) { return realloc(p, n); }
void twin_free(void *p) { free(p); }
int twin_posix_memalign(void **p, size_t a, size_t n) { void *q = 0; int r = posix_memalign(&q, a < 64 ? 64 : a, n); if (!r) { memset(q, 0, n); *p = q; } return r; }
void *twin_aligned_alloc(size_t a, size_t n) { void *p = 0; return twin_posix_memalign(&p, a, n) ? 0 : p; }
void *twin_memalign(size_t a, size_t n) { return twin_aligned_alloc(a, n); }
void *twin_valloc(size_t n) { return twin_aligned_alloc(4096, n); }
void *twin_pvalloc(size_t n) { return twin_aligned_alloc(4096, (n + 4095) & ~(size_t)4095); }
void *twin_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap(a, n, pr, fl, fd, o); }
void *twin_mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap(a, n, pr, fl, fd, o); }
int twin_munmap(void *p, size_t n) { return munmap(p, n); }
#define T0(name) int twin_##name() { return 0; }
T0(pthread_mutex_init) T0(pthread_mutex_destroy) T0(pthread_mutex_lock) T0(pthread_mutex_trylock) T0(pthread_mutex_timedlock)
T0(pthread_mutex_unlock) T0(pthread_rwlock_init) T0(pthread_rwlock_destroy) T0(pthread_rwlock_rdlock) T0(pthread_rwlock_wrlock)
T0(pthread_rwlock_tryrdlock) T0(pthread_rwlock_trywrlock) T0(pthread_rwlock_unlock) T0(pthread_spin_init) T0(pthread_spin_destroy)
T0(pthread_spin_lock) T0(pthread_spin_trylock) T0(pthread_spin_unlock) T0(pthread_cond_init) T0(pthread_cond_destroy)
T0(pthread_cond_wait) T0(pthread_cond_timedwait) T0(pthread_cond_signal) T0(pthread_cond_broadcast)
T0(sem_init) T0(sem_destroy) T0(sem_wait) T0(sem_trywait) T0(sem_post) T0(mtx_init) T0(mtx_destroy) T0(mtx_lock) T0(mtx_trylock) T0(mtx_unlock)
T0(sched_yield) T0(pthread_yield) T0(thrd_yield) T0(usleep) T0(sleep) T0(nanosleep) T0(clock_nanosleep)
T0(rand) T0(srand) T0(srandom) T0(rand_r) T0(sched_getcpu)
int twin_getpid(void) { return 1; }
int twin_getppid(void) { return 1; }
int twin_pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) { (void)a; (void)b; (void)c; return 0; }
int twin___register_atfork(void (*a)(void), void (*b)(void), void (*c)(void), void *d) { (void)a; (void)b; (void)c; (void)d; return 0; }
int twin_pthread_create(pthread_t *p, const void *at, void *(*fn)(void *), void *arg) { (void)at; memset(p, 0, sizeof *p); fn(arg); return 0; }
int twin_pthread_join(pthread_t p, void **r) { (void)p; if (r) *r = 0; return 0; }
int twin_pthread_detach(pthread_t p) { (void)p; return 0; }
void twin_exit(int c) { violation("exit", "a call ended the process (status %d)", c); }
void twin__exit(int c) { twin_exit(c); }
void twin__Exit(int c) { twin_exit(c); }
void twin_quick_exit(int c) { twin_exit(c); }
int twin_gettid(void) { return 1; }
pthread_t twin_pthread_self(void) { return pthread_self(); }
time_t twin_time(time_t *t) { if (t) *t = 0; return 0; }
clock_t twin_clock(void) { return 0; }
int twin_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; ts->tv_sec = 0; ts->tv_nsec = 0; return 0; }
int twin_gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = 0; tv->tv_usec = 0; return 0; }
long twin_times(void *b) { (void)b; return 0; }
unsigned long long twin_vp_rdtsc(void) { return 0; }
unsigned long long twin_vp_rdtscp(unsigned *a) { *a = 0; return 0; }
int twin_vp_rdrand16(unsigned short *p) { *p = 0; return 1; }
int twin_vp_rdrand32(unsigned *p) { *p = 0; return 1; }
int twin_vp_rdrand64(unsigned long long *p) { *p = 0; return 1; }
long twin_random(void) { return 0; }
long twin_lrand48(void) { return 0; }
void twin_srand48(long s) { (void)s; }
long twin_mrand48(void) { return 0; }
unsigned short *twin_seed48(unsigned short *p) { static unsigned short o[3]; (void)p; return o; }
void twin_lcong48(unsigned short *p) { (void)p; }
char *twin_initstate(unsigned s, char *b, size_t n) { static char o[8]; (void)s; (void)b; (void)n; return o; }
char *twin_setstate(char *b) { static char o[8]; (void)b; return o; }
unsigned twin_arc4random(void) { return 0; }
unsigned twin_arc4random_uniform(unsigned n) { (void)n; return 0; }
void twin_arc4random_buf(void *p, size_t n) { memset(p, 0, n); }
int twin_getentropy(void *p, size_t n) { memset(p, 0, n); return 0; }
char *twin_strdup(const char *s) { return strdup(s); }
char *twin_strndup(const char *s, size_t n) { return strndup(s, n); }
void *twin_reallocarray(void *p, size_t a, size_t b) { return realloc(p, a * b); }
double twin_drand48(void) { return 0; }
ssize_t twin_getrandom(void *p, size_t n, unsigned f) { (void)f; memset(p, 0, n); return (ssize_t)n; }
FILE *twin_fopen(const char *p, const char *m) { (void)p; (void)m; errno = ENOENT; return 0; }
FILE *twin_fopen64(const char *p, const char *m) { return twin_fopen(p, m); }
int twin_open(const char *p, int fl, ...) { (void)p; (void)fl; errno = ENOENT; return -1; }
int twin_open64(const char *p, int fl, ...) { return twin_open(p, fl); }
int twin_openat(int d, const char *p, int fl, ...) { (void)d; return twin_open(p, fl); }
int twin_openat64(int d, const char *p, int fl, ...) { (void)d; return twin_open(p, fl); }
int twin___open_2(const char *p, int fl) { return twin_open(p, fl); }
int twin_access(const char *p, int m) { return twin_open(p, m); }
int twin_euidaccess(const char *p, int m) { return twin_open(p, m); }
int twin_faccessat(int d, const char *p, int m, int f) { (void)d; (void)f; return twin_open(p, m); }
int twin_stat(const char *p, struct stat *s) { (void)s; return twin_open(p, 0); }
int twin_stat64(const char *p, struct stat *s) { (void)s; return twin_open(p, 0); }
int twin_lstat(const char *p, struct stat *s) { (void)s; return twin_open(p, 0); }
long twin_sysconf(int k) { return k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF ? 8 : sysconf(k); }
int twin_sched_getaffinity(pid_t p, size_t n, cpu_set_t *c) { (void)p; memset(c, 0, n); *(uint8_t *)c = 255; return 0; }
int twin_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *c) { (void)t; return twin_sched_getaffinity(0, n, c); }
int twin_getpriority(int w, unsigned who) { (void)w; (void)who; return 0; }
int twin_sched_getscheduler(pid_t p) { (void)p; return 0; }
int twin_getloadavg(double *d, int n) { int i; if (n > 3) n = 3; for (i = 0; i < n; i++) d[i] = 0; return n; }
int twin_sysinfo(struct sysinfo *s) { int r = sysinfo(s); s->uptime = 1000; s->totalram = 1u << 30; s->freeram = 1u << 29; s->procs = 50; return r; }
int twin_getrusage(int w, struct rusage *u) { (void)w; memset(u, 0, sizeof *u); return 0; }
long twin_gethostid(void) { return 0; }
size_t twin_malloc_usable_size(void *p) { return malloc_usable_size(p); }
int twin_getrlimit(int k, struct rlimit *l) { return getrlimit(k, l); }
int twin_gethostname(char *b, size_t n) { if (!n) return -1; snprintf(b, n, "x"); return 0; }
int twin_uname(struct utsname *u) { int r = uname(u); snprintf(u->nodename, 60, "x"); return r; }
char *twin_getcwd(char *b, size_t n) { static char d[8]; if (!b) { b = d; n = 8; } snprintf(b, n, "/"); return b; }
ssize_t twin_read(int fd, void *b, size_t n) { return ready(fd, POLLIN) ? read(fd, b, n) : 0; }
ssize_t twin_write(int fd, const void *b, size_t n) { (void)fd; (void)b; return (ssize_t)n; }
int twin_poll(struct pollfd *f, nfds_t n, int ms) { (void)ms; return poll(f, n, 0); }
int twin_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) { struct timeval z = { 0, 0 }; (void)tv; return select(n, r, w, e, &z); }
int twin_flock(int fd, int op) { (void)fd; (void)op; return 0; }
void twin_flockfile(FILE *f) { (void)f; }
int twin_sem_timedwait(sem_t *m, const struct timespec *ts) { (void)m; (void)ts; return 0; }
int twin_pthread_setspecific(pthread_key_t k, const void *v) { return pthread_setspecific(k, v); }
int twin_get_nprocs(void) { return 8; }
int twin_get_nprocs_conf(void) { return 8; }
unsigned twin_getuid(void) { return 1000; }
unsigned twin_geteuid(void) { return 1000; }
int twin_isatty(int fd) { (void)fd; return 0; }
char *twin_getenv(const char *k) { (void)k; return 0; }
char *twin_secure_getenv(const char *k) { (void)k; return 0; }
int twin_getcpu(unsigned *c, unsigned *n) { if (c) *c = 0; if (n) *n = 0; return 0; }
static void *twin_once_done[64];
static int n_twin_once;
int twin_pthread_once(void *o, void (*fn)(void))
{
  int i;
  for (i = 0; i < n_twin_once; i++) if (twin_once_done[i] == o) return 0;
  if (n_twin_once < 64) twin_once_done[n_twin_once++] = o;
  fn();
  return 0;
}
void twin_call_once(void *o, void (*fn)(void)) { twin_pthread_once(o, fn); }
/* what the library has put among the start-up and exit functions: run when the plan says so */
typedef void (*vfn_t)(void);
#define FNS(x) extern vfn_t __start_##x[] __attribute__((weak)), __stop_##x[] __attribute__((weak));
FNS(inctor) FNS(plctor) FNS(twctor) FNS(indtor) FNS(pldtor)
static void each(vfn_t *a, vfn_t *b, int back)
{
  ptrdiff_t i, n = b - a;
  in_plain++;
  for (i = 0; i < n; i++) { vfn_t f = a[back ? n - 1 - i : i]; if (f && f != (vfn_t)-1) { f(); R->c[C_INITFN]++; } }
  in_plain--;
}
void rt_ctors(int twin)
{
  if (twin) { each(__start_twctor, __stop_twctor, 0); return; }
  each(__start_inctor, __stop_inctor, 0);
  each(__start_plctor, __stop_plctor, 0);
}
static struct { vfn_t f; void (*g)(void *); void (*h)(int, void *); void *a; } atx[256];
static int natx;
int sim_atexit(vfn_t f) { if (natx >= 256) return -1; memset(&atx[natx], 0, sizeof atx[0]); atx[natx++].f = f; return 0; }
int sim___cxa_atexit(void (*g)(void *), void *a, void *d) { (void)d; if (natx >= 256) return -1; memset(&atx[natx], 0, sizeof atx[0]); atx[natx].g = g; atx[natx++].a = a; return 0; }
int sim_on_exit(void (*h)(int, void *), void *a) { if (natx >= 256) return -1; memset(&atx[natx], 0, sizeof atx[0]); atx[natx].h = h; atx[natx++].a = a; return 0; }
int sim_at_quick_exit(vfn_t f) { (void)f; return 0; }
int twin_atexit(vfn_t f) { (void)f; return 0; }
int twin___cxa_atexit(void (*g)(void *), void *a, void *d) { (void)g; (void)a; (void)d; return 0; }
int twin_on_exit(void (*h)(int, void *), void *a) { (void)h; (void)a; return 0; }
int twin_at_quick_exit(vfn_t f) { (void)f; return 0; }
void rt_dtors(void)
{
  thr_t *c = cur;
  cur = 0;
  in_plain++;
  while (natx > 0) {
    natx--;
    R->c[C_INITFN]++;
    if (atx[natx].f) atx[natx].f(); else if (atx[natx].g) atx[natx].g(atx[natx].a); else if (atx[natx].h) atx[natx].h(0, atx[natx].a);
  }
  in_plain--;
  each(__start_indtor, __stop_indtor, 1);
  each(__start_pldtor, __stop_pldtor, 1);
  cur = c;
}
extern char __start_twdata[] __attribute__((weak)), __stop_twdata[] __attribute__((weak));
extern char __start_twbss[] __attribute__((weak)), __stop_twbss[] __attribute__((weak));
void twin_reset(void)
{
  static char *snap[2];
  static int have;
  size_t n0 = (size_t)(__stop_twdata - __start_twdata), n1 = (size_t)(__stop_twbss - __start_twbss);
  if (!have) {
    have = 1;
    rt_ctors(1);
    if (n0) { snap[0] = malloc(n0); memcpy(snap[0], __start_twdata, n0); }
    if (n1) { snap[1] = malloc(n1); memcpy(snap[1], __start_twbss, n1); }
    return;
  }
  if (n0) memcpy(__start_twdata, snap[0], n0);
  if (n1) memcpy(__start_twbss, snap[1], n1);
  n_twin_once = 0;
}
