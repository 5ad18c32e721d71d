/* Shared declarations of the simulator. */
#ifndef SIM_H
#define SIM_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <pthread.h>
#include "lib.h"
#include "prng.h"

/* ---- result of one run, in memory shared with the parent process ---- */
enum { ST_RUNNING, ST_OK, ST_VIOL, ST_INFRA };
enum {
  C_OPS, C_CALLS, C_PACKETS, C_STEPS, C_SWITCH, C_PREEMPT, C_EVENTS, C_HOT,
  C_ABANDON, C_KILL, C_NEST, C_STALL, C_ALLOCFAIL, C_ALLOCS, C_FREES, C_FREENULL, C_REUSE,
  C_GARBAGE_STACK, C_GARBAGE_HEAP, C_FPMODE, C_FPWORK, C_LOOPITER, C_FILLYIELD, C_NEIGHBOUR,
  C_GUARD, C_ENVCALLS, C_BLOCK, C_SKIPPED, C_WORLDS, C_ENVCHANGE, C_DRIFT,
  C_FORK, C_FORKBUSY, C_SIGNAL, C_SNAP, C_CHURN, C_SMALLSTK, C_CROWD, C_OVERSTATED, C_HOT2, C_UNBOUND, C_ALTSTACK, C_FORKMORE, C_FORKDEEP, C_LATE, C_EARLY, C_AFTEREXIT, C_INITFN, C_WORKCHK,
  /* chain */
  K_SENT, K_DELIV, K_DROP, K_DUP, K_REORDER, K_FLIP, K_TRUNC, K_BADLEN, K_PARTITION, K_CRASH,
  K_RESTART, K_STALL, K_ECMLOSS, K_REKEY, K_BATCH, K_PARTIAL, K_DEADLINE, K_KEYFLUSH, K_INTACT,
  K_LIVE, K_SIMUS, K_OVERLEN, K_OOMKEY, K_SKEW, K_NOKEY, K_SHORT, K_FULL, K_MODEL,
  C_STRAT, C_STRAT_LAST = C_STRAT + 5,
  NCTR
};
extern const char *ctr_name[NCTR];
#define MAXSW 4096
enum { SW_TICK, SW_EVENT, SW_MUST, SW_OP };      /* preempted at an access; at an event; could not go on; between calls */
typedef struct { uint8_t th, to, why; uint16_t op; uint32_t step; } sw_t;
typedef struct {
  volatile int status;
  char cls[40];
  char msg[600];
  uint64_t hash, sched;
  uint64_t c[NCTR];
  uint32_t nsw;
  sw_t sw[MAXSW];
  char sample[400];
} result_t;
extern result_t *R;

void violation(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void infra(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));

static inline void hlog(uint64_t a, uint64_t b) { R->hash = hash2(R->hash ^ a, b); }

/* ---- what a check looks at ---- */
enum {
  K_FOREIGNW = 1,   /* writes outside own payloads / context */
  K_FOREIGNR = 2,   /* reads of packet memory outside own payloads */
  K_LEAKCHK = 4, K_UAF = 8, K_FP = 16, K_WAIT = 32, K_NULLCHK = 64, K_GAPS = 128, K_SIZE = 256, K_OUT = 512,
  K_STATE = 1024,   /* process state, signals */
  K_WORK = 2048     /* accesses a call makes */
};

/* ---- threads ---- */
enum { T_RUN, T_BLOCKED, T_STALLED, T_IDLE, T_DEAD };
/* operation kinds of the machine */
enum { O_ALLOC, O_SET, O_FREE, O_FREENULL, O_SINGLE, O_BATCH, O_SIZE, O_FPWORK, O_CHURN, O_FILL, O_LOOP, O_FORK, O_CROWD, O_NKIND };
typedef struct { uint32_t len; uint8_t gap, pat; uint32_t seed; uint8_t *at; uint32_t stated; } pk_t;      /* stated: length given to the call, if more than there is */
typedef struct op {
  int id, phase, th, kind, slot, cw, dir, max, npk, api, outer, loopn, loopk;
  uint64_t failmask;
  uint32_t wseed;
  pk_t *pk;
  /* run time */
  uint8_t *exp, *in; uint32_t explen;
  int ran, undefd, failed, late;
  uint64_t est;
  void *ctx;                    /* context in use, for the access checks */
} op_t;
enum { STRAT_NONE, STRAT_UNI, STRAT_LOG, STRAT_EVENT, STRAT_PCT, STRAT_REPLAY };
typedef struct frame {          /* one call in progress */
  struct op *op;
  uint64_t base;                /* steps before the current countdown */
  int64_t armed, left;
  uint32_t events, events2;
  uint32_t allocs;
  jmp_buf jb;
  int jbset, abandoned;
  struct frame *up;
} frame_t;
typedef struct thr {
  int id;
  pthread_t pt;
  volatile int go;
  int state;
  void *blockobj;
  uintptr_t stk_lo, stk_hi;     /* library frames live below stk_hi */
  uintptr_t stk_base; size_t stk_size;
  frame_t *fr;
  int depth;
  int inlib;
  int killed;
  int prio;
  int64_t gap;                  /* steps until the strategy preempts */
  int pendyield;
} thr_t;
#define MAXT 136
#define MAXD 8                  /* calls within calls on one thread */
extern thr_t thr[MAXT];
extern int nthr;
extern thr_t *cur;
extern int chk;
extern int strat;
extern uint64_t strat_mean;
extern rng_t srng;              /* scheduler choices */

typedef struct { int type; uint32_t step, event; int hot; int fired; int op, inner; } trig_t;
enum { TR_ABANDON, TR_KILL, TR_NEST, TR_STALL, TR_FORK, TR_SIGNAL };
#define MAXTRIG 320

void rt_init_world(void);
void rt_start_threads(int n);
void rt_run_phase(int phase);   /* hands the baton round until every thread is idle */
void rt_ctors(int twin);
void rt_dtors(void);
void rt_late_keys(void);
void thread_late(thr_t *t, int phase, int pos);
void thread_main(thr_t *t, int phase);      /* in mach.c: runs the thread's ops of a phase */
void frame_push(thr_t *t, frame_t *f, struct op *op);
void frame_pop(thr_t *t, frame_t *f);
uint64_t frame_step(thr_t *t);
void op_boundary(thr_t *t);
void sim_step(thr_t *t);        /* one yield point of simulator-side work */
void run_nested(thr_t *t, int inner);       /* in mach.c */
void run_nested_op(thr_t *t, op_t *o);      /* in mach.c */
void run_on_alt(thr_t *t, op_t *o, int above);
void on_foreign(thr_t *t, uintptr_t a, unsigned n, int w);
void fp_save_reset(void *buf);
void fp_restore(void *buf);
void rt_rearm(thr_t *t);
void do_fork(thr_t *t, int parent_first);       /* the simulated process splits in two */
void fork_join(void);           /* the other process runs to its end */
void vanish(thr_t *t);          /* in mach.c: this thread does not exist in the new process */
void child_rest(thr_t *t, int phase) __attribute__((noreturn));  /* in mach.c: what the new process still does */
void signal_arrives(thr_t *t, int k);           /* in mach.c */
void still_alive(void);
void timers_moved(unsigned wall, unsigned cpu);  /* in mach.c */
void rt_replace_threads(int late);
extern int forked, fork_max;
extern int replay_mode, replay_events;
extern uint64_t step_cap;
void install_handlers(void);
void thread_altstack(void);

/* ---- memory ---- */
extern uint8_t *arena;          /* packet memory */
extern size_t arena_size;
extern uint8_t *arena_shadow;
extern uint16_t *arena_owner;   /* op id + 1, 0 = nobody's */
typedef struct { uint8_t *p, *base; size_t size, align, map; int live; int opid; int slot; uint32_t serial; int guard; } blk_t;
extern blk_t blk[];
extern int nblk;
typedef struct { int reuse, guard, minalign, garbage; uint64_t seed; int base; } heap_policy_t;
extern heap_policy_t hp;
void heap_init(void);
uint64_t heap_live_bytes(void);
int heap_room(void);
int heap_live_blocks(void);
void heap_check(void);
blk_t *heap_find(uintptr_t a);
void *map_at(uintptr_t a, size_t n);

void *sim_malloc(size_t n);
void sim_free(void *p);

/* twin */
void twin_reset(void);

/* per-op environment answers */
extern uint64_t env_seed;
void env_cpu(const char *var);   /* the processor of this run */
extern int env_on;
void env_names(void);

/* machine / chain entry points */
int mach_is(const char *prop);
extern int walk_me;
extern uint64_t work_done;       /* accesses made by calls that no simulated thread makes */
char *mach_gen(const char *prop, uint64_t seed, int tier);
void mach_run(const char *plan);
char *chain_gen(const char *prop, uint64_t seed, int tier);
void chain_run(const char *plan);
int mach_calibrate(const char *exe, int save);

/* numbers and texts that the library's sources mention and the simulator was
   not written against (tools/build.py); none on unchanged sources */
enum { MAXDICT = 64 };
extern int dict_n, dict_nt;
extern uint64_t dict_v[MAXDICT];
extern char dict_t[MAXDICT][48];
void dict_load(const char *exe);
uint64_t dict_near(rng_t *r);                   /* one of the numbers, or close to it */
int64_t dict_in(rng_t *r, int64_t lo, int64_t hi);      /* ... within bounds */
static inline int dict_try(rng_t *r, unsigned permille) { return dict_n && chance(r, permille); }

/* plan text helpers */
typedef struct { char *s; size_t n, cap; } sb_t;
void sb_add(sb_t *b, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
const char *kv(const char *line, const char *key, char *out, size_t n);
int64_t kvi(const char *line, const char *key, int64_t dflt);
uint64_t kvx(const char *line, const char *key, uint64_t dflt);
int variant_index(const char *name);
#endif
