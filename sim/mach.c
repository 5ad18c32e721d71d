/* The machine: one simulated process whose caller threads use the library
   while the simulator schedules, interrupts, tears, stalls and starves them. */
#include "sim.h"
#include "coll.h"
#include <errno.h>
#include <fenv.h>
#include <unistd.h>
#include <fcntl.h>
#include <locale.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <stdio_ext.h>

#define MAXOPS 900
#define MAXSLOT 12
#define NCW 24
static op_t *ops;
static int nops;
trig_t trig[MAXTRIG]; int ntrig;
sw_t *rsw; uint8_t *rsw_used; int nrsw;
uintptr_t side_lo, side_hi;
extern volatile int in_plain;

typedef struct { int api; void *ctx; int live, set, cw, fuzzy; } slot_t;
static slot_t slot[MAXSLOT];
static uint8_t cws[NCW][8];

static struct {
  char prop[8];
  uint64_t seed, lay;
  int var, fl, nthr, nslots, abase, sg, fp, env, cwpl, phases, prot, descg, fillchunk, churn, stk, late, ctor, dtor;
} W;
static api_t *L, *T;

op_t *op_by_id(int id)
{
  int i;
  for (i = 0; i < nops; i++) if (ops[i].id == id) return &ops[i];
  return 0;
}

/* ------------------------------------------------------------------ */
/* calibration: how many steps and events a call of each kind takes, so that
   faults are aimed inside calls.  Measured on the current code. */
typedef struct { uint32_t single[2], bs[2], set[2], ev_single, ev_bs, ev_set[2]; uint32_t batch, drift, state2; uint32_t special[8][12]; } cal_t;
static cal_t *cal;
static void cal_arena(void)
{
  arena_size = 0x12000;
  arena = map_at(0x50000000, arena_size);
  arena_owner = calloc(arena_size, sizeof *arena_owner);
}
static uint32_t cal_one(int v, int kind, int api, int len, int n, uint32_t *ev)
{
  uint8_t *buf = arena;
  batch_t *d = (batch_t *)(arena + 0x10000);
  static const uint8_t cw[8] = { 1, 2, 3, 6, 4, 5, 6, 15 };
  api_t *a = &variants[v].f[FL_I];
  op_t op;
  frame_t f;
  int i;
  void *k;
  memset(&op, 0, sizeof op);
  op.kind = kind;
  cur = 0;
  k = api ? a->bs_key_alloc() : a->key_alloc();
  if (!k) return 1000;
  if (kind != O_SET) { if (api) a->bs_key_set(cw, k); else a->key_set(cw, k); }
  thr[0].stk_lo = (uintptr_t)&op - 0x100000; thr[0].stk_hi = (uintptr_t)&op;
  cur = &thr[0];
  cur->gap = INT64_MAX / 2;
  frame_push(cur, &f, &op);
  if (kind == O_SET) { if (api) a->bs_key_set(cw, k); else a->key_set(cw, k); }
  else if (!api) a->decrypt(k, buf, (unsigned)len);
  else {
    for (i = 0; i < n; i++) { d[i].data = buf + 184 * i; d[i].len = (unsigned)len; }
    d[n].data = 0;
    a->bs_decrypt(k, d, (unsigned)len);
  }
  i = (int)frame_step(cur);
  if (ev) *ev = f.events;
  cal[v].state2 += f.events2;
  cur = 0;
  return (uint32_t)i;
}
extern char __start_pldata[] __attribute__((weak)), __stop_pldata[] __attribute__((weak));
extern char __start_plbss[] __attribute__((weak)), __stop_plbss[] __attribute__((weak));
extern char __start_indata[] __attribute__((weak)), __stop_indata[] __attribute__((weak));
extern char __start_inbss[] __attribute__((weak)), __stop_inbss[] __attribute__((weak));
extern size_t tls_size;
/* what the library could remember a history in */
static uint64_t hash_mem(uint64_t h, const void *p, size_t n)
{
  const char *c = p;
  uint64_t w;
  for (; n >= 8; n -= 8, c += 8) { memcpy(&w, c, 8); h = (h ^ w) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; }
  return hash_bytes(h, c, n);
}
static uint64_t state_of(void *ctx)
{
  blk_t *b = ctx ? heap_find((uintptr_t)ctx) : 0;
  uint64_t h = 1;
  if (__start_pldata) h = hash_mem(h, __start_pldata, (size_t)(__stop_pldata - __start_pldata));
  if (__start_plbss) h = hash_mem(h, __start_plbss, (size_t)(__stop_plbss - __start_plbss));
  if (__start_indata) h = hash_mem(h, __start_indata, (size_t)(__stop_indata - __start_indata));
  if (__start_inbss) h = hash_mem(h, __start_inbss, (size_t)(__stop_inbss - __start_inbss));
  if (b) h = hash_mem(h, b->p, b->size);
#if defined(__x86_64__)
  h = hash_mem(h, (char *)__builtin_thread_pointer() - tls_size, tls_size);
#endif
  return h;
}
/* does anything in the library count its calls?  1: single-packet calls, 2: batch calls, 4: setting, 8: allocating */
static int cal_drift(int v)
{
  static uint8_t buf[2][8];
  static const uint8_t cw[8] = { 1, 2, 3, 6, 4, 5, 6, 15 };
  api_t *a = &variants[v].f[FL_I];
  batch_t d[3] = { { buf[0], 8 }, { buf[1], 8 }, { 0, 0 } };
  void *k[2];
  int kind, i, api, r = 0;
  uint64_t h[2];
  cur = 0;
  k[0] = a->key_alloc(); k[1] = a->bs_key_alloc();
  if (!k[0] || !k[1]) return 0;
  a->key_set(cw, k[0]); a->bs_key_set(cw, k[1]);
  for (kind = 0; kind < 6; kind++)
    for (api = 0; api < 2; api++) {
      h[0] = h[1] = 0;
      for (i = 0; i < 16; i++) {
        memset(buf, 0x55, sizeof buf);
        if (kind == 0) { if (api) a->bs_decrypt(k[1], d, 8); else a->decrypt(k[0], buf[0], 8); }
        if (kind == 1) { if (api) a->bs_encrypt(k[1], d, 8); else a->encrypt(k[0], buf[0], 8); }
        if (kind == 2) { if (api) a->bs_key_set(cw, k[1]); else a->key_set(cw, k[0]); }
        if (kind == 3) { void *x = api ? a->bs_key_alloc() : a->key_alloc(); if (api) a->bs_key_free(x); else a->key_free(x); }
        if (kind == 4) { if (api) { d[0].data = 0; a->bs_decrypt(k[1], d, 8); d[0].data = buf[0]; } else { a->decrypt(k[0], buf[0], 3); a->encrypt(k[0], buf[0], 0); } }
        if (kind == 5) { if (api) a->bs_batch_size(); else a->bs_encrypt(k[1], d, 0); }
        if (i == 12) h[0] = state_of(k[api]);
        if (i == 13) h[1] = state_of(k[api]);
      }
      if (h[0] != h[1]) r |= kind < 2 ? 1 << api : kind == 2 ? 4 : kind == 3 ? 8 : 16;
    }
  return r;
}
/* which calls of a long history take another way than most? */
static void cal_special(int v, int which)
{
  uint8_t (*buf)[8] = (void *)arena;
  static const uint8_t cw[8] = { 1, 2, 3, 6, 4, 5, 6, 15 };
  api_t *a = &variants[v].f[FL_I];
  batch_t d[3] = { { buf[0], 8 }, { buf[1], 8 }, { 0, 0 } };
  int kind = which >> 1, api = which & 1, ns = 0, run = 0;
  uint64_t sum = 0, usual[3] = { 0, 0, 0 };
  uint32_t i;
  op_t op;
  frame_t f;
  void *k, *x = 0;
  memset(&op, 0, sizeof op);
  op.kind = kind == 0 || kind == 1 ? (api ? O_BATCH : O_SINGLE) : kind == 2 ? O_SET : O_ALLOC;
  cur = 0;
  hp.reuse = 1;
  k = api ? a->bs_key_alloc() : a->key_alloc();
  if (!k) return;
  if (api) a->bs_key_set(cw, k); else a->key_set(cw, k);
  thr[0].stk_lo = (uintptr_t)&op - 0x100000; thr[0].stk_hi = (uintptr_t)&op;
  for (i = 0; i < 140000 && sum < 900000; i++) {
    uint64_t st;
    memset(buf, 0x55, 16);
    cur = &thr[0];
    cur->gap = INT64_MAX / 2;
    frame_push(cur, &f, &op);
    if (kind == 0) { if (api) a->bs_decrypt(k, d, 8); else a->decrypt(k, buf[0], 8); }
    if (kind == 1) { if (api) a->bs_encrypt(k, d, 8); else a->encrypt(k, buf[0], 8); }
    if (kind == 2) { if (api) a->bs_key_set(cw, k); else a->key_set(cw, k); }
    if (kind == 3) x = api ? a->bs_key_alloc() : a->key_alloc();
    st = frame_step(cur);
    frame_pop(cur, &f);
    cur = 0;
    if (kind == 3) { if (api) a->bs_key_free(x); else a->key_free(x); }
    sum += st + 20;
    if (i < 3) { usual[i] = st; continue; }
    if (st != usual[0] && st != usual[1] && st != usual[2]) {
      if (ns < 12) cal[v].special[which][ns++] = i;
      else break;
      /* perhaps this is the usual way from now on */
      if (++run >= 3) usual[i % 3] = st;
    } else run = 0;
  }
}
static void cal_child(void)
{
  static struct itimerval it;
  R = calloc(1, sizeof *R);
  it.it_value.tv_sec = 60;
  setitimer(ITIMER_PROF, &it, 0);
  install_handlers();
  heap_init();
  rt_ctors(0);
  cal_arena();
}
static void cal_variant(int v)
{
  cal_t *c = &cal[v];
  pid_t p;
  int i;
  c->single[0] = 100; c->single[1] = 1000; c->bs[0] = 1000; c->bs[1] = 100000;
  c->set[0] = c->set[1] = 500; c->ev_single = 20; c->ev_bs = 500; c->ev_set[0] = c->ev_set[1] = 100;
  p = fork();
  if (!p) {
    int b;
    cal_child();
    b = (int)variants[v].f[FL_I].bs_batch_size();
    if (b > 256) b = 256;
    c->batch = (uint32_t)b;
    c->single[0] = cal_one(v, O_SINGLE, 0, 8, 1, 0);
    c->single[1] = cal_one(v, O_SINGLE, 0, 184, 1, &c->ev_single);
    c->bs[0] = cal_one(v, O_BATCH, 1, 8, b, 0);
    c->bs[1] = cal_one(v, O_BATCH, 1, 184, b, &c->ev_bs);
    c->set[0] = cal_one(v, O_SET, 0, 0, 0, &c->ev_set[0]);
    c->set[1] = cal_one(v, O_SET, 1, 0, 0, &c->ev_set[1]);
    c->drift = (uint32_t)cal_drift(v);
    _exit(0);
  }
  waitpid(p, 0, 0);
  for (i = 0; i < 8 && c->drift; i++) {
    p = fork();
    if (!p) { cal_child(); cal_special(v, i); _exit(0); }
    waitpid(p, 0, 0);
  }
}
/* once per build: the result lies beside the program */
int mach_calibrate(const char *exe, int save)
{
  size_t n = sizeof *cal * (size_t)n_variants;
  char path[4096];
  FILE *f;
  int v, left = 0;
  cal = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  snprintf(path, sizeof path, "%s.cal", exe);
  if (!save && (f = fopen(path, "rb"))) {
    size_t k = fread(cal, 1, n, f);
    fclose(f);
    if (k == n) return 0;
    memset(cal, 0, n);
  }
  for (v = 0; v < n_variants; v++) {
    if (left == 8) { wait(0); left--; }
    if (!fork()) { cal_variant(v); _exit(0); }
    left++;
  }
  while (left-- > 0) wait(0);
  if (save) {
    f = fopen(path, "wb");
    if (!f || fwrite(cal, 1, n, f) != n || fclose(f)) return 3;
  }
  return 0;
}
static uint32_t est_steps(int v, const op_t *o)
{
  cal_t *c = &cal[v];
  uint32_t a, b, x;
  if (o->kind == O_SET) return c->set[o->api] ? c->set[o->api] : 1;
  if (o->kind != O_SINGLE && o->kind != O_BATCH) return 4;
  a = o->kind == O_BATCH ? c->bs[0] : c->single[0];
  b = o->kind == O_BATCH ? c->bs[1] : c->single[1];
  x = o->kind == O_BATCH ? (uint32_t)o->max : (o->npk ? o->pk[0].len : 8);
  if (x < 8) return o->kind == O_BATCH ? a / 2 + 1 : 2;
  if (b < a) b = a;
  return a + (uint32_t)((uint64_t)(b - a) * (x - 8) / 176) + 1;
}
static int drifts(int v) { return cal && cal[v].drift; }
static uint32_t est_events(int v, const op_t *o)
{
  cal_t *c = &cal[v];
  if (o->kind == O_SET) return c->ev_set[o->api] + 1;
  if (o->kind == O_BATCH) return c->ev_bs / (c->batch ? c->batch : 1) * (uint32_t)o->npk + 64;
  if (o->kind == O_SINGLE) return c->ev_single + 1;
  return 3;
}

/* ------------------------------------------------------------------ */
/* generation */
static const char *const props[] = { "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C18", "C19", "C20", "C21", "C22" };
int mach_is(const char *p)
{
  unsigned i;
  for (i = 0; i < sizeof props / sizeof *props; i++) if (!strcmp(p, props[i])) return 1;
  return 0;
}
static int P(const char *x) { return !strcmp(W.prop, x); }
static const char *kname[] = { "alloc", "set", "free", "freenull", "single", "batch", "size", "fpwork", "churn", "fill", "loop", "fork", "crowd" };
static const char *tname[] = { "abandon", "kill", "nest", "stall", "fork", "signal" };

void gen_cws(rng_t *r, uint8_t c[NCW][8])
{
  int i, j, n = 0;
  uint8_t b[8];
  if (chance(r, 60)) {
    /* words that a digest of them would confuse */
    enum { NT = sizeof cw_twins / sizeof *cw_twins };
    int one = chance(r, 300), at = (int)below(r, NT);
    for (i = 0; i < NCW / 2; i++) {
      int k = one ? (at + i % 2) % NT : (int)below(r, NT), sw = (int)below(r, 2);
      memcpy(c[2 * i], cw_twins[k][sw], 8); memcpy(c[2 * i + 1], cw_twins[k][!sw], 8);
    }
    return;
  }
  for (j = 0; j < 8; j++) b[j] = (uint8_t)rnd(r);
  if (chance(r, 700)) { b[3] = (uint8_t)(b[0] + b[1] + b[2]); b[7] = (uint8_t)(b[4] + b[5] + b[6]); }
  memcpy(c[n++], b, 8);
  while (n < NCW) {
    uint8_t *x = c[n];
    memcpy(x, c[below(r, (uint64_t)n)], 8);
    switch (below(r, 22)) {
    case 17: memcpy(x + 4, x, 4); break;
    case 18: for (j = 1; j < 8; j++) x[j] = x[0]; break;
    case 19: { int k = 1 + (int)below(r, 7); memcpy(b, x, 8); for (j = 0; j < 8; j++) x[j] = b[(j + k) % 8]; break; }
    case 20: memcpy(b, x, 8); for (j = 0; j < 8; j++) x[j] = b[7 - j]; break;
    case 21: for (j = 0; j < 8; j++) x[j] = (uint8_t)(x[j] << 4 | x[j] >> 4); break;
    case 0: for (j = 0; j < 8; j++) x[j] = (uint8_t)rnd(r); break;
    case 1: for (j = 0; j < 8; j++) x[j] = 0; break;
    case 2: for (j = 0; j < 8; j++) x[j] = 0xff; break;
    case 3: for (j = 0; j < 4; j++) x[j] = (uint8_t)rnd(r); break;
    case 4: for (j = 4; j < 8; j++) x[j] = (uint8_t)rnd(r); break;
    case 5: { uint8_t t[4]; memcpy(t, x, 4); memcpy(x, x + 4, 4); memcpy(x + 4, t, 4); break; }
    case 6: { int a = (int)below(r, 8), d = (int)below(r, 8); uint8_t t = x[a]; x[a] = x[d]; x[d] = t; break; }
    case 7: x[below(r, 8)] ^= (uint8_t)(1u << below(r, 8)); break;
    case 8: { int a = (int)below(r, 8), d = (int)below(r, 8), k = (int)below(r, 8); x[a] ^= (uint8_t)(1u << k); x[d] ^= (uint8_t)(1u << k); break; }
    case 9: x[3] = (uint8_t)rnd(r); break;
    case 10: x[7] = (uint8_t)rnd(r); break;
    case 11: { uint8_t d = (uint8_t)rnd(r); int a = (int)below(r, 8), e = (int)below(r, 8); x[a] = (uint8_t)(x[a] + d); x[e] = (uint8_t)(x[e] - d); break; }
    case 12: for (j = 0; j < 8; j++) x[j] = (uint8_t)~x[j]; break;
    case 14: x[3] = x[7] = 0; break;
    case 15: for (j = 0; j < 8; j++) if (chance(r, 700)) x[j] = 0; break;
    case 16: for (i = (int)below(r, 8), j = 0; j < 8; j++) if (j != i) x[j] = 0; break;
    case 13: x[3] = (uint8_t)(x[0] + x[1] + x[2]); x[7] = (uint8_t)(x[4] + x[5] + x[6]); break;
    }
    n++;
  }
  /* words the sources speak of */
  if (dict_try(r, 350))
    for (i = 0; i < NCW; i += 1 + (int)below(r, 3)) {
      uint64_t v = chance(r, 700) ? dict_v[below(r, (uint64_t)dict_n)] : dict_near(r);
      int wd = v > 0xffffffffu ? 8 : v > 0xffff ? 4 : v > 0xff ? 2 : 1, at = (int)below(r, (uint64_t)(8 / wd)) * wd, be = chance(r, 500);
      if (chance(r, 200) && wd < 8) wd *= 2, at &= -wd;
      if (chance(r, 250)) { for (j = 0; j < 8; j++) if (chance(r, 700)) c[i][j] = (uint8_t)dict_near(r); }
      else for (j = 0; j < wd; j++) c[i][at + j] = (uint8_t)(v >> 8 * (be ? wd - 1 - j : j));
    }
  for (i = NCW - 1; i > 0; i--) {
    j = (int)below(r, (uint64_t)i + 1);
    memcpy(b, c[i], 8); memcpy(c[i], c[j], 8); memcpy(c[j], b, 8);
  }
}
/* broadcast payloads repeat (padding, tables): some runs draw from few contents */
void gen_content(rng_t *r, int pool, uint8_t *pat, uint32_t *seed)
{
  *seed = (uint32_t)rnd(r);
  *pat = (uint8_t)(chance(r, 800) ? 0 : 1 + below(r, 4));
  if (chance(r, 80)) *pat = (uint8_t)(7 + below(r, 6));
  if (dict_try(r, 200)) *pat = 14;
  if (!pool || !chance(r, 750)) return;
  switch (below(r, 5)) {
  case 0: *pat = 5; *seed = (*seed & ~7u) | (uint32_t)below(r, (uint64_t)pool); break;   /* same head */
  case 1: *pat = 6; *seed = (*seed & ~7u) | (uint32_t)below(r, (uint64_t)pool); break;   /* same tail */
  case 2: *pat = 13; *seed = (uint32_t)below(r, (uint64_t)pool) << 6 | (uint32_t)below(r, 64); break;   /* what a checksum would confuse */
  default: *pat = 0; *seed = (uint32_t)below(r, (uint64_t)pool); break;
  }
}
static int pool_, allfull_, onedir_, onemax_;
static unsigned gen_len(rng_t *r, unsigned max)
{
  if (dict_try(r, 150)) return (unsigned)dict_in(r, 0, (int64_t)max);
  switch (below(r, 8)) {
  case 0: case 1: case 2: return max;
  case 3: return (unsigned)below(r, max + 1);
  case 4: return (unsigned)below(r, max < 24 ? max + 1 : 24);
  case 5: return max - (unsigned)below(r, max < 10 ? max + 1 : 10);
  case 6: return (unsigned)below(r, max / 8 + 1) * 8;
  default: { unsigned x = (unsigned)below(r, max / 8 + 1) * 8 + 1 + (unsigned)below(r, 7); return x > max ? max : x; }
  }
}
typedef struct { int w[O_NKIND]; } mix_t;
static int pick(rng_t *r, const mix_t *m)
{
  int i, s = 0, x;
  for (i = 0; i < O_NKIND; i++) s += m->w[i];
  x = (int)below(r, (uint64_t)s);
  for (i = 0; i < O_NKIND; i++) { if (x < m->w[i]) return i; x -= m->w[i]; }
  return O_SINGLE;
}
static void gen_packets(rng_t *r, op_t *o, unsigned batch, int small)
{
  int i;
  unsigned lenmode = (unsigned)below(r, 5);
  int over = o->kind == O_BATCH && chance(r, P("C13") || P("C19") || P("C20") ? 120 : 50);
  if (o->kind == O_SINGLE || o->kind == O_FILL) o->npk = 1;
  else {
    switch (allfull_ ? 6 : below(r, small && !chance(r, 40) ? 6 : 8)) {
    case 0: o->npk = 1; break;
    case 1: o->npk = (int)below(r, 9); break;
    case 2: o->npk = (int)range(r, 1, 5); break;
    case 3: case 4: o->npk = (int)below(r, batch < 24 ? batch + 1 : 24); break;
    case 5: o->npk = (int)below(r, batch + 1); break;
    case 6: o->npk = (int)batch; break;
    default: o->npk = (int)(batch - below(r, batch < 9 ? batch : 9)); break;
    }
  }
  if (o->kind == O_BATCH && dict_try(r, 120)) o->npk = (int)dict_in(r, 0, (int64_t)(small && batch > 24 && !chance(r, 40) ? 24 : batch));
  o->pk = calloc((size_t)o->npk + 1, sizeof *o->pk);
  for (i = 0; i < o->npk; i++) {
    pk_t *p = &o->pk[i];
    unsigned max = o->kind == O_BATCH ? (unsigned)o->max : 184;
    if (o->kind == O_SINGLE && chance(r, 30)) max = 1500;
    if (o->kind == O_SINGLE && P("C20") && chance(r, 60)) max = chance(r, 250) ? 65535 : 200000 + (unsigned)below(r, 400000);
    if (o->kind == O_SINGLE && dict_try(r, 120)) max = (unsigned)dict_in(r, 1, P("C20") ? 600000 : 5000);
    p->len = lenmode == 0 ? max : lenmode == 1 ? (i ? o->pk[0].len : gen_len(r, max)) : gen_len(r, max);
    /* a faulty demultiplexer: more is stated than the limit, and than there is */
    if (over && chance(r, 350)) {
      static const uint32_t big[] = { 0xffffffffu, 0x80000000u, 0x7fffffffu, 0x10000u, 65535, 0xfffffff8u, 0xffffff48u, 256, 4096 };
      p->len = max;
      switch (below(r, 4)) {
      case 0: p->stated = max + 1 + (uint32_t)below(r, 20); break;
      case 1: p->stated = 185 + (uint32_t)logrnd(r, 24); break;
      case 2: p->stated = dict_try(r, 500) ? (uint32_t)dict_in(r, max + 1, 0xffffffffll) : big[below(r, 9)]; break;
      default: p->stated = (uint32_t)rnd(r) | 0x100; break;
      }
    }
    p->gap = (uint8_t)(chance(r, 750) ? 0 : below(r, 9));
    gen_content(r, pool_, &p->pat, &p->seed);
  }
  if (over && chance(r, 150)) {
    uint32_t sum = 0, v;
    int last = -1;
    for (i = 0; i < o->npk; i++) if (o->pk[i].stated) last = i;
    if (last >= 0) {
      for (i = 0; i < o->npk; i++) if (i != last) sum += o->pk[i].stated ? o->pk[i].stated : o->pk[i].len;
      v = 0u - sum + (uint32_t)(chance(r, 600) ? 0 : below(r, 200));
      if (v > 184) o->pk[last].stated = v;
    }
  }
  /* payloads a fixed distance apart, as in a buffer of transport packets */
  if (o->kind == O_BATCH && chance(r, 120)) {
    static const unsigned st[] = { 188, 188, 184, 192, 204, 208 };
    unsigned d = st[below(r, 6)];
    int front = chance(r, 500);
    for (i = front; i < o->npk; i++) if (o->pk[i - front].len <= d) o->pk[i].gap = (uint8_t)(d - o->pk[i - front].len);
  }
}
static int sure_;               /* faults that do come to pass */
static void gen_trig_at(rng_t *r, int v, const op_t *o, trig_t *g)
{
  uint32_t es = est_steps(v, o), ee = est_events(v, o);
  uint32_t fill = 0;
  int i;
  g->step = g->event = 0; g->hot = 0;
  for (i = 0; i < o->npk; i++) fill += (o->pk[i].len + 7u) / 8u;
  if (sure_) { g->step = fill + 1 + (uint32_t)below(r, es / 4 * 3 + 1); return; }
  if (chance(r, cal && cal[v].state2 + cal[v].drift ? 450 : 60)) {
    /* where the library touches state of its own; or whichever call does it often enough first */
    g->hot = 2;
    g->event = 1 + (uint32_t)(dict_try(r, 250) ? dict_in(r, 0, 5000) : chance(r, 500) ? below(r, 4) : logrnd(r, 9));
    if (cal && cal[v].drift && g->type != TR_NEST && chance(r, 350)) g->op = -1;
    return;
  }
  switch (below(r, 10)) {
  case 0: case 1: case 2: g->step = fill + 1 + (uint32_t)below(r, es); break;
  case 3: { uint32_t x = (uint32_t)logrnd(r, 18); g->step = fill + 1 + x % es; break; }
  case 4: { uint32_t x = (uint32_t)logrnd(r, 14); g->step = fill + (x < es ? es - x : 1); break; }
  case 5: case 6: g->event = 1 + (uint32_t)below(r, ee); break;
  case 7: { uint32_t x = (uint32_t)logrnd(r, 10); g->event = 1 + x % ee; break; }
  default: g->event = 1 + (uint32_t)(chance(r, 500) ? below(r, 6) : below(r, ee)); g->hot = 1; break;
  }
}

int choose_variant(rng_t *r, const char *prop)
{
  /* the word types that users get most weight; every build appears */
  static const struct { const char *n; int w; } wt[] = {
    { "u64", 8 }, { "u32", 5 }, { "sse2", 4 }, { "avx2", 4 }, { "mmx", 4 }, { "ssse3", 3 }, { "cmmx", 2 }, { "u64a", 3 },
    { "u32a", 2 }, { "u64pm", 2 }, { "u64m", 2 }, { "u64r", 1 }, { "cu64", 1 }, { 0, 0 } };
  int i, j, s = 0, w[64], x;
  for (i = 0; i < n_variants && i < 64; i++) {
    w[i] = 1;
    for (j = 0; wt[j].n; j++) if (!strcmp(variants[i].name, wt[j].n)) w[i] = wt[j].w;
    if (!strcmp(prop, "C11") && strstr(variants[i].name, "mmx")) w[i] = 12;
    if (!strcmp(prop, "C05") && (strstr(variants[i].name, "pm") || !strcmp(variants[i].name, "u64m"))) w[i] = 5;
    s += w[i];
  }
  x = (int)below(r, (uint64_t)s);
  for (i = 0; i < n_variants; i++) { if (x < w[i]) return i; x -= w[i]; }
  return 0;
}

char *mach_gen(const char *prop, uint64_t seed, int tier)
{
  rng_t rr = rng_make(seed, hash_bytes(1, prop, strlen(prop))), *r = &rr;
  sb_t b = { 0, 0, 0 };
  mix_t m;
  int i, j, ph, ph1, th, id = 0, marathon = 0, throng, multi = 0, convoy = 0, cvfree = 0, setstorm = 0, strat_ = STRAT_NONE, meanv = 1000, ncw = NCW;
  unsigned batch;
  uint8_t c[NCW][8];
  struct { int api, live, set, owner, cw; } sl[MAXSLOT];
  op_t tmp[MAXOPS];
  trig_t tg[MAXTRIG];
  int nt = 0, no = 0;

  sure_ = 0;
  memset(&W, 0, sizeof W);
  memset(tmp, 0, sizeof tmp);
  memset(tg, 0, sizeof tg);
  snprintf(W.prop, sizeof W.prop, "%s", prop);
  W.seed = seed;
  W.var = choose_variant(r, prop);
  batch = cal && cal[W.var].batch ? cal[W.var].batch : 64;
  W.fl = FL_I;
  W.nthr = 1; W.nslots = (int)range(r, 1, 4); W.phases = (int)range(r, 1, 3);
  memset(&m, 0, sizeof m);
  m.w[O_SINGLE] = 30; m.w[O_BATCH] = 30; m.w[O_SET] = 10;
  hp.reuse = 0; hp.guard = chance(r, 250); hp.minalign = chance(r, 700); hp.garbage = chance(r, 600); hp.base = (int)below(r, 7);
  W.abase = (int)below(r, 8); W.lay = rnd(r); W.sg = chance(r, 400); W.fp = chance(r, 150); W.env = 1; W.cwpl = (int)below(r, 3);
  W.descg = chance(r, 700); W.fillchunk = chance(r, 500) ? 1 : 8;

  if (P("C03")) {
    W.nthr = (int)range(r, 2, 5); m.w[O_SET] = 6; m.w[O_ALLOC] = 3; m.w[O_FREE] = 2; m.w[O_SIZE] = 1;
    strat_ = (int)range(r, STRAT_UNI, STRAT_PCT);
    W.phases = (int)range(r, 1, 2);
  } else if (P("C04")) {
    W.nslots = (int)range(r, 2, 8); m.w[O_SET] = 30; m.w[O_ALLOC] = 12; m.w[O_FREE] = 12; W.phases = (int)range(r, 2, 6);
    m.w[O_SINGLE] = 25; m.w[O_BATCH] = 20;
    hp.reuse = (int)below(r, 5) % 3; if (!hp.reuse && chance(r, 500)) hp.reuse = 1; hp.garbage = (int)below(r, 4);
    W.nthr = chance(r, 500) ? 1 : (int)range(r, 2, 4);
    strat_ = W.nthr > 1 ? (int)range(r, STRAT_NONE, STRAT_PCT) : STRAT_NONE;

    if (chance(r, 60)) marathon = 1;
  } else if (P("C05")) {
    W.nthr = (int)range(r, 1, 3); m.w[O_ALLOC] = 25; m.w[O_FREE] = 14; m.w[O_FREENULL] = 8; m.w[O_SET] = 15; W.phases = (int)range(r, 1, 3);
    strat_ = W.nthr > 1 ? (int)range(r, STRAT_NONE, STRAT_PCT) : STRAT_NONE;
    hp.minalign = chance(r, 800); hp.guard = chance(r, 400); hp.reuse = (int)below(r, 2);
  } else if (P("C06")) {
    W.nthr = (int)range(r, 1, 3); W.nslots = (int)range(r, 2, 8); m.w[O_ALLOC] = 20; m.w[O_FREE] = 20; m.w[O_SET] = 20; m.w[O_FREENULL] = 3;
    m.w[O_SINGLE] = m.w[O_BATCH] = 10;
    W.phases = (int)range(r, 1, 5);
    strat_ = W.nthr > 1 ? (int)range(r, STRAT_NONE, STRAT_PCT) : STRAT_NONE;
    hp.garbage = chance(r, 500);
    if (chance(r, 20)) marathon = 1;
  } else if (P("C07")) {
    m.w[O_FILL] = 12; m.w[O_SET] = 10; m.w[O_ALLOC] = 2;
    hp.guard = chance(r, 600);
    if (chance(r, 400)) { W.fl = FL_P; W.prot = 1; W.nthr = 1; }
    else { W.nthr = (int)range(r, 1, 4); strat_ = W.nthr > 1 ? (int)range(r, STRAT_UNI, STRAT_PCT) : STRAT_NONE; W.fillchunk = 1; }
  } else if (P("C08")) {
    W.nthr = (int)range(r, 1, 4); m.w[O_SET] = 20; m.w[O_ALLOC] = 5; m.w[O_FREE] = 5;
    strat_ = W.nthr > 1 ? (int)range(r, STRAT_NONE, STRAT_PCT) : STRAT_NONE;
  } else if (P("C09")) {
    W.nthr = (int)range(r, 1, 2); m.w[O_SET] = 15; if (chance(r, 300)) m.w[O_ALLOC] = m.w[O_FREE] = 8;
    strat_ = W.nthr > 1 ? (int)range(r, STRAT_NONE, STRAT_PCT) : STRAT_NONE;
  } else if (P("C11")) {
    W.fl = chance(r, 650) ? FL_P : FL_I; W.nthr = W.fl == FL_P ? 1 : (int)range(r, 1, 3);
    m.w[O_FPWORK] = 15; m.w[O_SET] = 15; m.w[O_ALLOC] = 6; m.w[O_FREE] = 5; m.w[O_FREENULL] = 1; m.w[O_SIZE] = 4; W.fp = 1;
    strat_ = W.nthr > 1 ? (int)range(r, STRAT_NONE, STRAT_PCT) : STRAT_NONE;
  } else if (P("C12")) {
    W.nthr = (int)range(r, 2, 4); m.w[O_SET] = 8; m.w[O_ALLOC] = 4; m.w[O_FREE] = 3; W.phases = (int)range(r, 1, 2);
    strat_ = (int)range(r, STRAT_NONE, STRAT_PCT);
  } else if (P("C13")) {
    W.nthr = chance(r, 500) ? 1 : (int)range(r, 2, 4); m.w[O_SET] = 12; m.w[O_ALLOC] = 4; m.w[O_FREE] = 3; m.w[O_SIZE] = 4;
    W.sg = chance(r, 900); W.fp = chance(r, 500); hp.garbage = chance(r, 500) ? 1 : (int)below(r, 4); hp.reuse = (int)below(r, 3);
    W.fl = chance(r, 500) ? FL_P : FL_I;
    if (W.fl == FL_I) strat_ = W.nthr > 1 ? (int)range(r, STRAT_NONE, STRAT_PCT) : STRAT_NONE;
    if (chance(r, 60)) marathon = 1;
  }
  else if (P("C18")) {
    W.nthr = (int)range(r, 1, 4); m.w[O_SET] = 12; m.w[O_ALLOC] = 5; m.w[O_FREE] = 4; m.w[O_FORK] = 12; W.phases = (int)range(r, 1, 3);
    strat_ = W.nthr > 1 ? (int)range(r, STRAT_UNI, STRAT_PCT) : STRAT_NONE;
    hp.reuse = (int)below(r, 3);
  } else if (P("C19")) {
    W.nthr = (int)range(r, 1, 3); m.w[O_SET] = 15; m.w[O_ALLOC] = 10; m.w[O_FREE] = 8; m.w[O_FREENULL] = 2; m.w[O_SIZE] = 3;
    W.fl = chance(r, 300) ? FL_P : FL_I;
    strat_ = W.nthr > 1 && W.fl == FL_I ? (int)range(r, STRAT_NONE, STRAT_PCT) : STRAT_NONE;
  } else if (P("C20")) {
    W.nthr = (int)range(r, 1, 3); m.w[O_SET] = 15; m.w[O_ALLOC] = 8; m.w[O_FREE] = 6; m.w[O_FREENULL] = 2; m.w[O_SIZE] = 2;
    W.fl = FL_P; W.stk = 128; hp.guard = chance(r, 300);
  } else if (P("C21")) {
    W.nthr = (int)range(r, 1, 4); W.nslots = (int)range(r, 1, 6); W.phases = (int)range(r, 2, 5);
    m.w[O_SET] = 15; m.w[O_ALLOC] = 10; m.w[O_FREE] = 8; m.w[O_FREENULL] = 1; m.w[O_SIZE] = 2;
    W.fl = chance(r, 500) ? FL_P : FL_I;
    if (W.fl == FL_I) strat_ = W.nthr > 1 ? (int)range(r, STRAT_NONE, STRAT_PCT) : STRAT_NONE;
    hp.garbage = (int)below(r, 4); hp.reuse = (int)below(r, 3);
    W.churn = chance(r, 300) ? 0xfffe : (int)rnd(r) & 0xfffe;
    W.late = chance(r, 300) ? 0xffff : (int)rnd(r) & 0xffff;
    W.ctor = chance(r, 400) ? (int)range(r, 1, 3) : 0;
    W.dtor = chance(r, 400) && W.ctor < W.phases ? (int)range(r, W.ctor + 1, W.phases) : 0;
  }
  else if (P("C22")) {
    W.nthr = (int)range(r, 1, 4); W.nslots = (int)range(r, 2, 8); W.phases = (int)range(r, 1, 4);
    m.w[O_SET] = 20; m.w[O_ALLOC] = 12; m.w[O_FREE] = 12; m.w[O_FREENULL] = 1; m.w[O_SIZE] = 1;
    strat_ = W.nthr > 1 ? (int)range(r, STRAT_NONE, STRAT_PCT) : STRAT_NONE;
    hp.guard = chance(r, 100); hp.garbage = (int)below(r, 4); hp.reuse = (int)below(r, 3); W.sg = 0; W.fp = 0;
  }
  if ((P("C03") || P("C04") || P("C05") || P("C06") || P("C13") || P("C22")) && chance(r, 300)) W.churn = (int)rnd(r) & 0xfffe;
  if (P("C04") && W.nthr == 1 && chance(r, 500)) W.fl = FL_P;
  if (marathon) { W.fl = FL_P; W.nthr = 1; strat_ = STRAT_NONE; hp.guard = 0; if (!hp.reuse) hp.reuse = 1; }
  meanv = (int)logrnd(r, 18) + 8;
  pool_ = chance(r, 550) ? 0 : (int)range(r, 1, 6);
  /* swarm: some runs are of one kind */
  allfull_ = chance(r, 60); onedir_ = chance(r, 200) ? (int)below(r, 2) : -1; onemax_ = chance(r, 100) ? 8 * (int)range(r, 0, 23) : -1;
  if (chance(r, 400)) { static const int f[] = { 1, 2, 2, 4, 4, 6 }; ncw = f[below(r, 6)]; }
  W.nthr = W.nthr > 5 ? 5 : W.nthr;
  /* many at once, each with little to do */
  throng = !marathon && (P("C03") || P("C12") || P("C08") || P("C18") || P("C05") || P("C06") || P("C07") || P("C22")) && chance(r, P("C03") || P("C12") ? 80 : 30);
  if (throng) {
    W.nthr = (int)range(r, 6, 20); W.fl = FL_I; W.prot = 0; W.phases = 1; W.nslots = (int)range(r, 1, 6);
    strat_ = (int)range(r, STRAT_UNI, STRAT_PCT);
    if (chance(r, 700)) meanv = (int)logrnd(r, 11) + 8;
#if defined(__x86_64__)
    multi = (P("C03") || P("C12") || P("C08") || P("C18") || P("C22")) && chance(r, cal && cal[W.var].state2 + cal[W.var].drift ? 300 : 40);
    if (throng && !multi && dict_try(r, 200)) W.nthr = (int)dict_in(r, 2, 40);
    if (multi) { W.nthr = dict_try(r, 400) ? (int)dict_in(r, 4, MAXT - 4) : (int)range(r, 21, MAXT - 4); if (meanv > 4000) meanv = 64 + (int)below(r, 4000); }
#endif
    /* the same call by all of them, most held up in the middle of it */
    if (chance(r, P("C12") ? 500 : 150)) { convoy = 1 + chance(r, multi ? 500 : 700); sure_ = chance(r, multi ? 700 : 400); cvfree = (int)range(r, 1, 3); if (chance(r, 800)) onedir_ = (int)below(r, 2); }
  }
  /* every thread sets contexts of its own again and again, to the same few control words */
  if (!throng && !marathon && W.fl == FL_I && W.nthr > 1 && chance(r, P("C03") || P("C04") || P("C12") ? 100 : 40)) {
    setstorm = 1;
    W.nslots = W.nthr * (int)range(r, 1, 2);
    if (W.nslots > MAXSLOT) W.nslots = MAXSLOT;
    ncw = (int)range(r, 2, 5);
    if (strat_ == STRAT_NONE) strat_ = (int)range(r, STRAT_UNI, STRAT_PCT);
    if (chance(r, 600)) meanv = (int)logrnd(r, 10) + 8;
  }
  gen_cws(r, c);

  for (i = 0; i < W.nslots; i++) { sl[i].api = chance(r, 600); sl[i].live = sl[i].set = 0; sl[i].cw = 0; sl[i].owner = -1; }
  {
    /* swarm: some runs use one API only */
    int sw = (int)below(r, 10);
    if (sw == 0) for (i = 0; i < W.nslots; i++) sl[i].api = 0;
    if (sw == 1 || (setstorm && sw > 6)) for (i = 0; i < W.nslots; i++) sl[i].api = 1;
    if (setstorm && sw < 7 && sw > 1) for (i = 0; i < W.nslots; i++) sl[i].api = 0;
    if (convoy) for (i = 0; i < W.nslots; i++) sl[i].api = convoy - 1;
  }
#define OP() (memset(&tmp[no], 0, sizeof tmp[no]), tmp[no].id = id++, tmp[no].phase = ph, tmp[no].th = th, tmp[no].outer = -1, tmp[no].wseed = (uint32_t)rnd(r), &tmp[no++])
  /* set up: contexts that the later phases share */
  ph = 0;
  for (i = 0; i < W.nslots; i++) {
    op_t *o;
    if (!chance(r, P("C05") || P("C06") ? 500 : 850) && !convoy) continue;
    th = (int)below(r, (uint64_t)W.nthr);
    o = OP(); o->kind = O_ALLOC; o->slot = i; o->api = sl[i].api;
    o = OP(); o->kind = O_SET; o->slot = i; o->api = sl[i].api; o->cw = (int)below(r, ncw);
    sl[i].live = sl[i].set = 1;
    sl[i].owner = th;
  }
  /* something counts the calls: begin late in its history */
  ph1 = 1;
  if (!marathon && (P("C22") ? chance(r, 150) : drifts(W.var) ? chance(r, 450) : dict_try(r, 60))) {
    int nl = (int)range(r, 1, 3);
    ph = 1; th = 0;
    while (nl--) {
      static const int round_[] = { 100, 1000, 10000, 250, 500, 60000 };
      uint64_t lim;
      op_t *o = OP();
      i = (int)below(r, (uint64_t)W.nslots);
      o->kind = O_LOOP; o->slot = i; o->api = sl[i].api; o->dir = chance(r, 500); o->cw = (int)below(r, (uint64_t)ncw); o->max = 8;
      o->loopk = chance(r, 600) ? 0 : (int)range(r, 2, 5);
      if (P("C22")) {
        static const int k[] = { 0, 2, 3, 6, 6 };
        o->loopk = k[below(r, 5)];
        o->loopn = (int)(chance(r, 700) ? logrnd(r, 11) : range(r, 1, 2500)) + 1;
        if (drifts(W.var) && chance(r, 100)) o->loopn *= 4;
        if (sl[i].api) o->loopn = o->loopn / 4 + 1;
#if !defined(__x86_64__)
        o->loopn = o->loopn / 8 + 1;
#endif
        if (sl[i].api && o->loopn > 60000000 / (int)(cal[W.var].bs[0] + 5000)) o->loopn = 60000000 / (int)(cal[W.var].bs[0] + 5000);
        goto counted;
      }
      {
        int at[8], n = 0, w, tries;
        for (w = 0; w < 8; w++) if (cal[W.var].special[w][0]) at[n++] = w;
        for (tries = 0; n && tries < 4 && chance(r, 750); tries++) {
          w = at[below(r, (uint64_t)n)];
          for (i = 0; i < W.nslots && sl[i].api != (w & 1); i++) ;
          if (i == W.nslots) { i = o->slot; continue; }
          o->slot = i; o->api = w & 1; o->dir = w >> 1 & 1;
          o->loopk = w < 4 ? 0 : w < 6 ? 2 : 3;
          for (n = 0; n < 12 && cal[W.var].special[w][n]; n++) ;
          o->loopn = (int)cal[W.var].special[w][below(r, (uint64_t)n)] - (int)below(r, 10);
          if (o->loopn < 1) o->loopn = 1;
          goto chosen;
        }
      }
      if (dict_try(r, 600)) {
        o->loopn = (int)dict_in(r, 1, 2000000) - (int)below(r, 5);
        lim = W.fl == FL_P ? (sl[i].api ? 100000 : 1000000) : sl[i].api ? 3000 : 15000;
#if defined(__aarch64__) || defined(__powerpc__)
        lim /= 20;
#endif
        if (o->loopn < 1 || (uint64_t)o->loopn > lim) o->loopn = (int)dict_in(r, 1, (int64_t)lim);
        if (o->loopk == 5) o->loopk = 0;
        goto counted;
      }
      switch (below(r, 4)) {
      case 0: o->loopn = (int)logrnd(r, 17); break;
      case 1: o->loopn = (1 << range(r, 4, 16)) - 1 - (int)below(r, 6); break;
      case 2: o->loopn = round_[below(r, 6)] - 1 - (int)below(r, 6); break;
      default: o->loopn = (int)below(r, 300); break;
      }
chosen:
      lim = 30000000 / ((W.fl == FL_P ? 1 : 4) * (sl[i].api ? cal[W.var].bs[0] + 500 : cal[W.var].single[0] + 200));
      if ((uint64_t)o->loopn > lim) o->loopn = (int)below(r, lim + 1);
counted:
      if (o->loopk == 3) { sl[i].live = sl[i].set = 0; if (!hp.reuse) hp.reuse = 1; } else sl[i].live = sl[i].set = 1;
    }
    ph1 = 2; W.phases++;
  }
  for (ph = ph1; ph <= W.phases; ph++) {
    int per = setstorm ? (int)range(r, 2, 8) : multi ? 1 : throng ? (int)range(r, 1, 2) : (int)range(r, 1, W.nthr > 2 ? 4 : 7);
    for (i = 0; i < W.nslots; i++) {
      int ownp = P("C04") || P("C06") || P("C05") ? 800 : 350;
      if (setstorm) { sl[i].owner = i % W.nthr; continue; }
      sl[i].owner = (!convoy || !sl[i].live) && (!sl[i].live || !sl[i].set || chance(r, (unsigned)ownp)) ? (int)below(r, (uint64_t)W.nthr) : -1;
    }
    for (th = 0; th < W.nthr; th++) {
      int k = per;
      int storm = P("C08") && !throng && chance(r, 200) ? 2 + (int)logrnd(r, 7) : 0;
      if (storm && dict_try(r, 400)) storm = (int)dict_in(r, 1, 230) + (int)below(r, 60);
      sure_ = storm ? chance(r, 300) : convoy ? sure_ : 0;
      if (no > MAXOPS - 80) break;
      /* the same kind of call torn out again and again */
      if (storm) {
        int cand[MAXSLOT], n = 0, kd, dir = chance(r, 500), early = chance(r, 500);
        for (i = 0; i < W.nslots; i++) if (sl[i].live && sl[i].set && (sl[i].owner == th || sl[i].owner == -1)) cand[n++] = i;
        if (!n) goto nostorm;
        i = cand[below(r, (uint64_t)n)];
        kd = sl[i].api ? O_BATCH : O_SINGLE;
        if (sl[i].owner == th && chance(r, 250)) kd = O_SET;
        while (storm-- > 0 && nt < MAXTRIG - 20 && no < MAXOPS - 90) {
          trig_t *g = &tg[nt++];
          op_t *o = OP();
          o->kind = kd; o->slot = i; o->api = sl[i].api; o->dir = dir; o->max = 8; o->cw = (int)below(r, NCW);
          if (kd != O_SET) {
            o->npk = 1; o->pk = calloc(2, sizeof *o->pk);
            o->pk[0].len = 8; gen_content(r, pool_, &o->pk[0].pat, &o->pk[0].seed);
          }
          g->type = TR_ABANDON; g->op = o->id; gen_trig_at(r, W.var, o, g);
          if (early && g->step) g->step = 2 + (uint32_t)logrnd(r, 12);
        }
        if (kd == O_SET) { op_t *o = OP(); o->kind = O_SET; o->slot = i; o->api = sl[i].api; o->cw = (int)below(r, NCW); }
        { op_t *q = OP(); q->kind = sl[i].api ? O_BATCH : O_SINGLE; q->slot = i; q->api = sl[i].api; q->dir = dir; q->max = 16; gen_packets(r, q, batch, 1); }
      }
nostorm:
      while (k-- > 0) {
        int kind = setstorm && chance(r, 900) ? (chance(r, 500) ? O_SET : chance(r, 500) ? O_SINGLE : O_BATCH) : convoy && chance(r, 950) ? (convoy == 1 ? O_SINGLE : O_BATCH) : throng && chance(r, 600) ? (chance(r, 500) ? O_SINGLE : O_BATCH) : pick(r, &m), cand[MAXSLOT], n = 0;
        op_t *o, *al;
        if (kind == O_FREENULL || kind == O_SIZE || kind == O_FPWORK || kind == O_FILL || kind == O_FORK) {
          o = OP(); o->kind = kind; o->api = chance(r, 500); o->dir = chance(r, 500);
          if (kind == O_FILL) { o->max = 184; gen_packets(r, o, batch, 1); }
          continue;
        }
        for (i = 0; i < W.nslots; i++) {
          int own = sl[i].owner == th, sh = sl[i].owner == -1;
          if (kind == O_ALLOC && own && !sl[i].live) cand[n++] = i;
          if (kind == O_SET && own && sl[i].live) cand[n++] = i;
          if (kind == O_FREE && own && sl[i].live) cand[n++] = i;
          if (kind == O_SINGLE && !sl[i].api && (own || sh) && sl[i].live && sl[i].set) cand[n++] = i;
          if (kind == O_BATCH && sl[i].api && (own || sh) && sl[i].live && sl[i].set) cand[n++] = i;
        }
        if (!n && setstorm && (kind == O_SINGLE || kind == O_BATCH)) {
          kind = kind == O_SINGLE ? O_BATCH : O_SINGLE;
          for (i = 0; i < W.nslots; i++) if (sl[i].owner == th && sl[i].live && sl[i].set && sl[i].api == (kind == O_BATCH)) cand[n++] = i;
        }
        if (!n) continue;
        i = cand[below(r, (uint64_t)n)];
        o = OP(); o->kind = kind; o->slot = i; o->api = sl[i].api;
        al = kind == O_ALLOC ? o : 0;
        switch (kind) {
        case O_ALLOC: {
          int fail = 0;
          if (P("C05") && chance(r, 500)) fail = 1;
          if (P("C06") && chance(r, 200)) fail = 1;
          if ((P("C19") || P("C20")) && chance(r, 150)) fail = 1;
          if (fail) o->failmask = chance(r, 600) ? ~0ull : 1ull << below(r, 3);
          /* whether it was allocated is seen at run time; go on as if */
          sl[i].live = 1; sl[i].set = 0;
          if (chance(r, 900)) { o = OP(); o->kind = O_SET; o->slot = i; o->api = sl[i].api; o->cw = (int)below(r, ncw); sl[i].set = 1;
            if (P("C05") && chance(r, 700)) o->failmask = ~0ull; }
          break;
        }
        case O_SET: o->cw = (int)below(r, ncw); sl[i].set = 1; if (P("C05") && chance(r, 700)) o->failmask = ~0ull; break;
        case O_FREE: sl[i].live = sl[i].set = 0; if (P("C05") && chance(r, 300)) o->failmask = ~0ull; break;
        case O_SINGLE: case O_BATCH:
          o->dir = onedir_ >= 0 ? onedir_ : chance(r, 500);
          o->max = dict_try(r, 120) ? 8 * (int)(dict_in(r, 0, 184) / 8) : chance(r, 350) ? 184 : 8 * (int)(chance(r, 600) ? range(r, 0, 4) : range(r, 0, 23));
          if (onemax_ >= 0) o->max = onemax_;
          if ((throng || setstorm) && o->max > 40) o->max = 8 * (int)range(r, 1, 5);
          if (allfull_ && W.fl == FL_I && o->max > 24) o->max = 8 * (int)range(r, 1, 3);
          if (multi && o->max > 16) o->max = 8 * (int)range(r, 1, 2);
          gen_packets(r, o, batch, W.fl == FL_I);
          if (multi && o->npk > 3) o->npk = (int)range(r, 1, 3);
          if (P("C05") && chance(r, 700)) o->failmask = ~0ull;
          if (chance(r, P("C06") ? 150 : P("C20") ? 250 : P("C19") ? 120 : 40)) o->failmask = ~0ull;
          break;
        }
        if (kind == O_SET && chance(r, P("C20") ? 250 : 40)) o->failmask = ~0ull;
        /* faults aimed at this operation */
        if (al && o != al && chance(r, 300)) kind = O_SET;
        if (al && kind == O_ALLOC && !P("C08")) o = al;
        if (P("C18") && nt < MAXTRIG - 2 && chance(r, 200)) {
          trig_t *g = &tg[nt++];
          g->type = TR_FORK; g->op = o->id; g->inner = chance(r, 500); gen_trig_at(r, W.var, o, g);
        }
        if (P("C19") && W.fl == FL_I) {
          int k2 = (int)below(r, 4);
          while (k2-- > 0 && nt < MAXTRIG - 2) {
            trig_t *g = &tg[nt++];
            g->type = TR_SIGNAL; g->op = o->id; g->inner = (int)below(r, 1000); gen_trig_at(r, W.var, o, g);
          }
        }
        if (nt < MAXTRIG - 2 && (kind == O_SINGLE || kind == O_BATCH || kind == O_SET || ((P("C12") || P("C08") || P("C09")) && (kind == O_ALLOC || kind == O_FREE)))) {
          if (P("C08") && chance(r, 450)) {
            trig_t *g = &tg[nt++];
            op_t *tgt = o;
            g->type = chance(r, 250) ? TR_KILL : TR_ABANDON; g->op = tgt->id; gen_trig_at(r, W.var, tgt, g);
            if (kind == O_SET || kind == O_ALLOC) { o = OP(); o->kind = O_SET; o->slot = i; o->api = sl[i].api; o->cw = (int)below(r, NCW); }
            if (kind == O_SINGLE || kind == O_BATCH || chance(r, 800)) {
              /* at once again, fresh data */
              if (sl[i].live && sl[i].set) {
                op_t *q = OP(); q->kind = sl[i].api ? O_BATCH : O_SINGLE; q->slot = i; q->api = sl[i].api; q->dir = chance(r, 500);
                q->max = 8 * (int)range(r, 1, 5); gen_packets(r, q, batch, 1);
              }
            }
          } else if (P("C12") && chance(r, convoy ? (th >= W.nthr - cvfree ? 50 : 970) : throng ? 850 : 400)) {
            trig_t *g = &tg[nt++];
            g->type = TR_STALL; g->op = o->id; gen_trig_at(r, W.var, o, g);
          } else if (P("C09") && chance(r, 650)) {
            int lv, outer = o->id, inner_slot;
            op_t *oo = o;
            int deep = chance(r, 50) ? (int)range(r, 3, MAXD - 2) : chance(r, 150) ? 2 : 1;
            for (lv = 0; lv < deep; lv++) {
              int cn[MAXSLOT], nn = 0, wantset = chance(r, 200), s2;
              for (s2 = 0; s2 < W.nslots; s2++) {
                int own = sl[s2].owner == th, sh = sl[s2].owner == -1;
                if (wantset ? (own && sl[s2].live && s2 != oo->slot) : ((own || sh) && sl[s2].live && sl[s2].set && !((oo->kind == O_SET || oo->kind == O_ALLOC || oo->kind == O_FREE) && s2 == oo->slot))) cn[nn++] = s2;
              }
              if (!nn) break;
              inner_slot = cn[below(r, (uint64_t)nn)];
              if (!wantset && chance(r, 500) && (oo->kind == O_SINGLE || oo->kind == O_BATCH)) inner_slot = oo->slot;
              {
                trig_t *g = &tg[nt++];
                op_t *q = OP();
                q->outer = outer; q->slot = inner_slot; q->api = sl[inner_slot].api;
                if (wantset) { q->kind = O_SET; q->cw = (int)below(r, NCW); sl[inner_slot].set = 1; }
                else { q->kind = q->api ? O_BATCH : O_SINGLE; q->dir = chance(r, 500); q->max = chance(r, 300) ? 184 : 8 * (int)range(r, 0, 6); gen_packets(r, q, batch, 1); }
                g->type = TR_NEST; g->op = outer; g->inner = q->id;
                { int z; op_t *x = 0; for (z = 0; z < no; z++) if (tmp[z].id == outer) x = &tmp[z]; gen_trig_at(r, W.var, x, g); }
                outer = q->id; oo = q;
              }
            }
          }
        }
      }
    }
  }
  if (!marathon && (P("C04") || P("C05") || P("C06") || P("C13") || P("C19") || P("C22")) && (dict_try(r, 60) || (P("C22") && chance(r, 100)) || chance(r, P("C04") ? 80 : 30))) {
    op_t *o;
    th = (int)below(r, (uint64_t)W.nthr);
    ph = (int)range(r, 1, W.phases);
    o = OP(); o->kind = O_CROWD; o->api = chance(r, 500); o->loopn = chance(r, 500) ? (int)logrnd(r, 10) + 1 : (int)range(r, 1, 1500);
    /* tables fill up: many more, when the library is seen to keep any */
    if (drifts(W.var) && chance(r, 300)) o->loopn = 1 + (int)logrnd(r, o->api ? 14 : 17);
    else if (chance(r, P("C22") ? 60 : 10)) o->loopn = (int)range(r, 1500, 6000);
    if (dict_try(r, 400)) o->loopn = (int)dict_in(r, 1, o->api ? 600 : 20000) + (int)below(r, 3);
    if (o->api && o->loopn > 600) o->loopn = (int)range(r, 200, 600);
  }
  /* a procession of threads */
  if (!marathon && (P("C03") || P("C04") || P("C05") || P("C06") || P("C13") || P("C21") || P("C22")) && (dict_try(r, 60) || chance(r, drifts(W.var) ? 90 : P("C21") || P("C22") ? 50 : 12))) {
    static const int n_[] = { 20, 70, 140, 270, 300, 600, 1100 };
    op_t *o;
    int again, z;
    i = (int)below(r, (uint64_t)W.nslots);
    ph = ++W.phases;
    for (again = chance(r, 300); again >= 0; again--) {
      th = (int)below(r, (uint64_t)W.nthr);
      z = n_[below(r, 7)];
      o = OP(); o->kind = O_LOOP; o->loopk = 7; o->slot = i; o->api = sl[i].api; o->dir = chance(r, 500); o->cw = (int)below(r, (uint64_t)ncw); o->max = 8;
      o->loopn = dict_try(r, 400) ? (int)dict_in(r, 1, 1500) + (int)below(r, 4) : (int)range(r, 1, z);
#if !defined(__x86_64__)
      o->loopn = o->loopn / 8 + 1;
#endif
      for (z = 0; z < W.nslots && no < MAXOPS - 90; z++) {
        op_t *q;
        if (!sl[z].live || !sl[z].set) continue;
        th = (int)below(r, (uint64_t)W.nthr);
        q = OP(); q->kind = sl[z].api ? O_BATCH : O_SINGLE; q->slot = z; q->api = sl[z].api; q->dir = chance(r, 500); q->max = 8 * (int)range(r, 1, 3);
        gen_packets(r, q, batch, W.fl == FL_I);
      }
    }
  }
  /* the program puts its contexts away, and perhaps starts afresh */
  if (!marathon && chance(r, P("C08") ? 400 : 150)) {
    int again = chance(r, 400);
    ph = W.phases + 1;
    for (i = 0; i < W.nslots && no < MAXOPS - 8; i++) {
      op_t *o;
      if (!sl[i].live || chance(r, 100)) continue;
      th = (int)below(r, (uint64_t)W.nthr);
      o = OP(); o->kind = O_FREE; o->slot = i; o->api = sl[i].api;
      sl[i].live = sl[i].set = 0;
      if (!again) continue;
      o = OP(); o->kind = O_ALLOC; o->slot = i; o->api = sl[i].api;
      o = OP(); o->kind = O_SET; o->slot = i; o->api = sl[i].api; o->cw = (int)below(r, (uint64_t)ncw);
      o = OP(); o->kind = sl[i].api ? O_BATCH : O_SINGLE; o->slot = i; o->api = sl[i].api; o->dir = chance(r, 500); o->max = 8 * (int)range(r, 1, 5);
      gen_packets(r, o, batch, W.fl == FL_I);
    }
  }
  if (marathon) {
    static const int reps[] = { 300, 1100, 5000, 33000, 66500, 132000 };
    th = 0;
    ph = W.phases + 1;
    {
      int nl = (int)range(r, 1, 3);
      while (nl--) {
        op_t *o;
        int lk;
        i = (int)below(r, (uint64_t)W.nslots);
        lk = (int)below(r, 6);
        o = OP(); o->kind = O_LOOP; o->slot = i; o->api = sl[i].api; o->loopk = lk; o->dir = chance(r, 500);
        o->loopn = dict_try(r, 300) ? (int)dict_in(r, 1, 66500) + 4 : reps[below(r, tier ? 6 : 5)];
        if (lk >= 2) o->loopn = o->loopn / 4 + 1;
        if (sl[i].api) { o->loopn = o->loopn > 66500 ? 66500 : o->loopn; if (batch > 64) o->loopn = o->loopn / 4 + 200; }
        o->cw = (int)below(r, NCW);
        o->max = 8;
        o->npk = 0;
        /* afterwards everything still means the same */
        for (j = 0; j < 4; j++) {
          int s2 = (int)below(r, (uint64_t)W.nslots);
          op_t *q = OP(); q->kind = sl[s2].api ? O_BATCH : O_SINGLE; q->slot = s2; q->api = sl[s2].api; q->dir = chance(r, 500); q->max = 184;
          gen_packets(r, q, batch, 1);
        }
      }
      { op_t *q = OP(); q->kind = O_SIZE; }
    }
  }

  sb_add(&b, "M prop=%s seed=%llu var=%s fl=%d thr=%d slots=%d strat=%d mean=%d reuse=%d guard=%d minal=%d garb=%d hbase=%d abase=%d lay=%llu sg=%d fp=%d env=%d cwpl=%d prot=%d descg=%d fc=%d churn=%d stk=%d late=%d ctor=%d dtor=%d apis=",
         prop, (unsigned long long)seed, variants[W.var].name, W.fl, W.nthr, W.nslots, strat_, meanv, hp.reuse, hp.guard, hp.minalign, hp.garbage, hp.base,
         W.abase, (unsigned long long)W.lay, W.sg, W.fp, W.env, W.cwpl, W.prot, W.descg, W.fillchunk, W.churn, W.stk, W.late, W.ctor, W.dtor);
  for (i = 0; i < W.nslots; i++) sb_add(&b, "%c", sl[i].api ? 'b' : 's');
  sb_add(&b, "\n");
  for (i = 0; i < NCW; i++) {
    sb_add(&b, "K i=%d v=", i);
    for (j = 0; j < 8; j++) sb_add(&b, "%02x", c[i][j]);
    sb_add(&b, "\n");
  }
  for (i = 0; i < no; i++) {
    op_t *o = &tmp[i];
    sb_add(&b, "O id=%d ph=%d th=%d k=%s s=%d a=%d cw=%d d=%d m=%d fm=%llx ws=%u out=%d ln=%d lk=%d p=", o->id, o->phase, o->th, kname[o->kind], o->slot, o->api,
           o->cw, o->dir, o->max, (unsigned long long)o->failmask, o->wseed, o->outer, o->loopn, o->loopk);
    for (j = 0; j < o->npk; j++) {
      sb_add(&b, "%s%u:%u:%u:%x", j ? "," : "", o->pk[j].len, o->pk[j].gap, o->pk[j].pat, o->pk[j].seed);
      if (o->pk[j].stated) sb_add(&b, ":%u", o->pk[j].stated);
    }
    sb_add(&b, "\n");
    free(o->pk);
  }
  for (i = 0; i < nt; i++)
    sb_add(&b, "F t=%s op=%d step=%u ev=%u hot=%d in=%d\n", tname[tg[i].type], tg[i].op, tg[i].step, tg[i].event, tg[i].hot, tg[i].inner);
  return b.s;
}

/* ------------------------------------------------------------------ */
/* parsing */
static int lookup(const char *s, const char *const *t, int n)
{
  int i;
  for (i = 0; i < n; i++) if (!strcmp(s, t[i])) return i;
  return -1;
}
static void parse(const char *plan)
{
  const char *l = plan;
  char buf[64], *lcopy = 0;
  size_t cap = 0;
  memset(&W, 0, sizeof W);
  ops = calloc(MAXOPS, sizeof *ops);
  nops = ntrig = nrsw = 0;
  rsw = calloc(MAXSW, sizeof *rsw);
  rsw_used = calloc(MAXSW, 1);
  replay_mode = 0;
  while (*l) {
    const char *e = strchr(l, '\n');
    size_t n = e ? (size_t)(e - l) : strlen(l);
    if (n + 1 > cap) { cap = n + 1024; lcopy = realloc(lcopy, cap); }
    memcpy(lcopy, l, n); lcopy[n] = 0;
    l += n + (e != 0);
    switch (lcopy[0]) {
    case 'M': {
      int i;
      kv(lcopy, "prop", W.prop, sizeof W.prop);
      W.seed = (uint64_t)kvi(lcopy, "seed", 0);
      kv(lcopy, "var", buf, sizeof buf);
      W.var = variant_index(buf);
      W.fl = (int)kvi(lcopy, "fl", FL_I); W.nthr = (int)kvi(lcopy, "thr", 1); W.nslots = (int)kvi(lcopy, "slots", 1);
      strat = (int)kvi(lcopy, "strat", 0); strat_mean = (uint64_t)kvi(lcopy, "mean", 1000);
      hp.reuse = (int)kvi(lcopy, "reuse", 0); hp.guard = (int)kvi(lcopy, "guard", 0); hp.minalign = (int)kvi(lcopy, "minal", 0);
      hp.garbage = (int)kvi(lcopy, "garb", 0); hp.base = (int)kvi(lcopy, "hbase", 0); hp.seed = hash2(W.seed, 77);
      W.abase = (int)kvi(lcopy, "abase", 0); W.lay = kvx(lcopy, "lay", 0); { char z[32]; if (kv(lcopy, "lay", z, sizeof z)) W.lay = strtoull(z, 0, 10); }
      W.sg = (int)kvi(lcopy, "sg", 0); W.fp = (int)kvi(lcopy, "fp", 0); W.env = (int)kvi(lcopy, "env", 0); W.cwpl = (int)kvi(lcopy, "cwpl", 0);
      W.prot = (int)kvi(lcopy, "prot", 0); W.descg = (int)kvi(lcopy, "descg", 0); W.fillchunk = (int)kvi(lcopy, "fc", 8);
      W.churn = (int)kvi(lcopy, "churn", 0); W.stk = (int)kvi(lcopy, "stk", 0);
      W.late = (int)kvi(lcopy, "late", 0); W.ctor = (int)kvi(lcopy, "ctor", 0); W.dtor = (int)kvi(lcopy, "dtor", 0);
      replay_mode = (int)kvi(lcopy, "replay", 0);
      kv(lcopy, "apis", buf, sizeof buf);
      if (W.nslots > MAXSLOT) W.nslots = MAXSLOT;
      if (W.nthr > MAXT) W.nthr = MAXT;
      for (i = 0; i < W.nslots; i++) slot[i].api = buf[i] == 'b';
      break;
    }
    case 'K': {
      int i = (int)kvi(lcopy, "i", 0), j;
      kv(lcopy, "v", buf, sizeof buf);
      for (j = 0; j < 8; j++) { unsigned x; if (sscanf(buf + 2 * j, "%2x", &x) == 1) cws[i % NCW][j] = (uint8_t)x; }
      break;
    }
    case 'O': {
      op_t *o;
      const char *p;
      int n_ = 1;
      if (nops >= MAXOPS) infra("too many operations");
      o = &ops[nops++];
      o->id = (int)kvi(lcopy, "id", 0); o->phase = (int)kvi(lcopy, "ph", 0); o->th = (int)kvi(lcopy, "th", 0);
      kv(lcopy, "k", buf, sizeof buf);
      o->kind = lookup(buf, kname, O_NKIND);
      if (o->kind < 0) infra("unknown operation %s", buf);
      o->slot = (int)kvi(lcopy, "s", 0) % MAXSLOT; o->cw = (int)kvi(lcopy, "cw", 0) % NCW; o->dir = (int)kvi(lcopy, "d", 0);
      o->max = (int)kvi(lcopy, "m", 184); o->failmask = kvx(lcopy, "fm", 0); o->wseed = (uint32_t)kvi(lcopy, "ws", 0);
      o->api = (int)kvi(lcopy, "a", 0); o->outer = (int)kvi(lcopy, "out", -1); o->loopn = (int)kvi(lcopy, "ln", 0); o->loopk = (int)kvi(lcopy, "lk", 0);
      if (o->phase > W.phases) W.phases = o->phase;
      p = strstr(lcopy, " p=");
      if (p && p[3]) {
        const char *q;
        for (q = p; *q; q++) n_ += *q == ',';
        o->pk = calloc((size_t)n_, sizeof *o->pk);
        p += 3;
        while (*p) {
          unsigned a, g, t, s, st = 0;
          pk_t *k = &o->pk[o->npk];
          if (sscanf(p, "%u:%u:%u:%x:%u", &a, &g, &t, &s, &st) < 4) break;
          k->len = a; k->stated = st; k->gap = (uint8_t)g; k->pat = (uint8_t)t; k->seed = s;
          o->npk++;
          p = strchr(p, ',');
          if (!p) break;
          p++;
        }
      }
      break;
    }
    case 'F': {
      trig_t *g;
      if (ntrig >= MAXTRIG) break;
      g = &trig[ntrig++];
      memset(g, 0, sizeof *g);
      kv(lcopy, "t", buf, sizeof buf);
      g->type = lookup(buf, tname, 6);
      g->op = (int)kvi(lcopy, "op", 0); g->step = (uint32_t)kvi(lcopy, "step", 0); g->event = (uint32_t)kvi(lcopy, "ev", 0);
      g->hot = (int)kvi(lcopy, "hot", 0); g->inner = (int)kvi(lcopy, "in", 0);
      break;
    }
    case 'S': {
      sw_t *s;
      if (nrsw >= MAXSW) break;
      s = &rsw[nrsw++];
      s->th = (uint8_t)kvi(lcopy, "th", 0); s->to = (uint8_t)kvi(lcopy, "to", 0);
      s->op = (uint16_t)kvi(lcopy, "op", 0); s->step = (uint32_t)kvi(lcopy, "step", 0); s->why = (uint8_t)kvi(lcopy, "w", 0);
      replay_events |= s->why == SW_EVENT;
      break;
    }
    }
  }
  free(lcopy);
}

/* ------------------------------------------------------------------ */
/* execution */
uint8_t pk_byte(const pk_t *p, unsigned i)
{
  switch (p->pat) {
  case 1: return 0;
  case 2: return 0xff;
  case 3: return (uint8_t)i;
  case 4: return (uint8_t)mix64(i + 12345);
  case 5: return (uint8_t)(mix64(((uint64_t)(i < 8 ? p->seed & 7 : p->seed) << 16) + i / 8 + 1) >> (i % 8 * 8));
  case 6: return (uint8_t)(mix64(((uint64_t)(i >= 8 ? p->seed & 7 : p->seed) << 16) + i / 8 + 1) >> (i % 8 * 8));
  case 7: if (i < 4) return i == 2 ? 1 : i == 3 ? 0xe0 : 0; break;               /* a PES packet starts */
  case 8: i %= 8; break;                                                         /* one block over and over */
  case 9: if (i >= (p->seed >> 8) % 184) return 0xff; break;                     /* stuffing behind */
  case 10: return (uint8_t)p->seed;
  case 11: if (i < 8) return 0; break;                                           /* an empty first block */
  case 13: {
    uint64_t q = mix64((p->seed & 63) + 77);
    unsigned a = (unsigned)(q >> 8) % (p->len > 5 ? p->len - 4 : 1), d = (unsigned)(q >> 20) % 22, e = (unsigned)(q >> 32) % 8;
    static const uint64_t poly[] = { 0x1db710641ULL, 0x105ec76f1ULL, 0x11021, 0x10811, 0x18005, 0x14003, 0x107, 0x1ab };
    if (p->seed & 32) { a %= 24; d %= 3; }
    switch (p->seed & 7) {
    case 1: case 2: {                                                            /* two bytes, or blocks, have changed places */
      unsigned w = (p->seed & 7) == 1 ? 1 : 8, n = p->len / w, x = n ? (unsigned)(q >> 8) % n : 0, y = n ? (unsigned)(q >> 40) % n : 0;
      if (p->seed & 32 && n) { x = n - 1; y = n > 1 ? n - 2 : 0; }
      if (i / w == x) i = y * w + i % w; else if (i / w == y) i = x * w + i % w;
      break; }
    case 3: case 4: {
      uint8_t v = pk_byte(&(pk_t){ .pat = 0, .seed = p->seed >> 6, .len = p->len }, i);
      uint64_t m = poly[e] << (q >> 50 & 7);
      if (i >= a && i < a + 5) v ^= (uint8_t)((p->seed & 7) == 3 ? m >> 8 * (i - a) : m >> 8 * (4 - (i - a)));
      return v; }
    case 5: case 6: {
      uint8_t v = pk_byte(&(pk_t){ .pat = 0, .seed = p->seed >> 6, .len = p->len }, i);
      static const unsigned col[] = { 8, 4, 16, 1, 2, 8, 8, 32 };
      if (i == a) return (uint8_t)((p->seed & 7) == 5 ? v ^ 1 << (q >> 50 & 7) : v + 1);
      if (i == a + col[e] * (1 + d % 3)) return (uint8_t)((p->seed & 7) == 5 ? v ^ 1 << (q >> 50 & 7) : v - (q >> 60 & 1 ? 1 : q >> 59 & 1 ? 31 : 33));
      return v; }
    case 7: {
      uint8_t v = pk_byte(&(pk_t){ .pat = 0, .seed = p->seed >> 6, .len = p->len }, i);
      if (i == p->len - 1 || (p->seed & 32 && i == p->len / 2)) v ^= (uint8_t)(q >> 50 | 1);     /* the last byte, or one in the middle, differs */
      return v; }
    }
    return pk_byte(&(pk_t){ .pat = 0, .seed = p->seed >> 6, .len = p->len }, i); }
  case 14: {
    /* numbers the sources mention, at the head, the tail, on words or anywhere */
    uint64_t v;
    unsigned wd, at, j;
    if (!dict_n) break;
    v = dict_v[(p->seed & 63) % (unsigned)dict_n];
    wd = v > 0xffffffffu ? 8 : v > 0xffff ? 4 : v > 0xff ? 2 : 1;
    if (p->seed >> 6 & 1 && wd < 8) wd *= 2;
    at = p->len > wd ? p->len - wd : 0;
    switch (p->seed >> 7 & 7) {
    case 0: case 1: case 2: at = 0; break;
    case 3: break;
    case 4: at = (p->seed >> 16) % 2 ? wd : at / 8 * 8; break;
    case 5: at = (p->seed >> 12) % (at + 1) / wd * wd; break;
    default: at = (p->seed >> 12) % (at + 1); break;
    }
    if (p->seed >> 10 & 1 && (p->seed >> 24 & 3) == 0) { at = i / wd * wd; }             /* all of it */
    if (i < at || i >= at + wd) break;
    j = i - at;
    return (uint8_t)(v >> 8 * (p->seed >> 11 & 1 ? wd - 1 - j : j)); }
  case 12: if (i == 0) return 0x47; if (i == 1 || i == 2) return i == 1 ? 0x1f : 0xff; break;   /* a packet in the packet */
  }
  return (uint8_t)(mix64(((uint64_t)p->seed << 16) + i / 8 + 1) >> (i % 8 * 8));
}
static size_t arena_lo, arena_hi;       /* used part, this phase */
typedef struct { uint64_t k; int op, idx; } place_t;
static int cmp_place(const void *a, const void *b)
{
  const place_t *x = a, *y = b;
  if (x->k != y->k) return x->k < y->k ? -1 : 1;
  if (x->op != y->op) return x->op - y->op;
  return x->idx - y->idx;
}
static void layout(int phase)
{
  place_t *pl;
  int i, j, n = 0, k = 0;
  size_t tot = 0, at;
  for (i = 0; i < nops; i++) if (ops[i].phase == phase) n += ops[i].npk;
  pl = calloc((size_t)n + 1, sizeof *pl);
  for (i = 0; i < nops; i++)
    if (ops[i].phase == phase)
      for (j = 0; j < ops[i].npk; j++) {
        uint64_t key;
        switch (W.lay % 3) {
        case 0: key = hash2(W.lay + (uint64_t)ops[i].id, (uint64_t)j); break;
        case 1: key = hash2(W.lay, (uint64_t)ops[i].id); break;
        default: key = ((uint64_t)j << 32) + (hash2(W.lay, (uint64_t)ops[i].id) >> 40); break;
        }
        pl[k].k = key; pl[k].op = i; pl[k].idx = j; k++;
        tot += (size_t)ops[i].pk[j].len + ops[i].pk[j].gap;
      }
  qsort(pl, (size_t)k, sizeof *pl, cmp_place);
  if (tot + 64 > arena_size) infra("packet memory too small");
  if (arena_hi) memset(arena_owner + arena_lo, 0, (arena_hi - arena_lo) * sizeof *arena_owner);
  arena_hi = arena_size;
  arena_lo = arena_size - tot - 32;
  at = arena_size - tot;
  for (i = (int)arena_lo; i < (int)arena_hi; i++) arena[i] = arena_shadow[i] = (uint8_t)(mix64(W.lay + (uint64_t)phase * 7919u + (uint64_t)i / 8) >> (i % 8 * 8));
  for (i = 0; i < k; i++) {
    pk_t *p = &ops[pl[i].op].pk[pl[i].idx];
    at += p->gap;
    p->at = arena + at;
    for (j = 0; j < p->len; j++) arena_owner[at + (size_t)j] = (uint16_t)(ops[pl[i].op].id + 1);
    if (i && pl[i - 1].op != pl[i].op && !p->gap) R->c[C_NEIGHBOUR]++;
    at += p->len;
  }
  R->c[C_GUARD]++;
  free(pl);
}
/* a packet arrives: its bytes are written while the others go on */
static void fill(thr_t *t, op_t *o)
{
  int i;
  unsigned j, c;
  for (i = 0; i < o->npk; i++) {
    pk_t *p = &o->pk[i];
    size_t off = (size_t)(p->at - arena);
    for (j = 0; j < p->len; j += c) {
      unsigned x;
      c = (unsigned)W.fillchunk;
      if (c > 1 && (j < 8 || j + 16 > p->len)) c = 1;
      if (W.fillchunk == 1 && j >= 16 && j + 32 < p->len) c = 8;
      if (j + c > p->len) c = p->len - j;
      for (x = 0; x < c; x++) arena[off + j + x] = arena_shadow[off + j + x] = pk_byte(p, j + x);
      if (W.fl == FL_I) sim_step(t);
      R->c[C_FILLYIELD]++;
    }
  }
}

/* --- descriptors and control words, per thread and nesting depth --- */
#define SIDE_STRIDE 0x8000
static uint8_t *side;
static uint8_t *side_of(thr_t *t) { return side + ((size_t)t->id * MAXD + (size_t)t->depth % MAXD) * SIDE_STRIDE; }

void __attribute__((noinline)) dirty_stack(uint64_t seed)
{
  volatile uint64_t a[20000];
  unsigned i;
  uint64_t x = mix64(seed);
  int mode = (int)(seed % 4);
  for (i = 0; i < 20000; i++) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    a[i] = mode == 0 ? ~0ull : mode == 1 ? 0x0101010101010101ull * (seed & 255) : x;
  }
}
static void __attribute__((noinline)) clean_stack(void)
{
  volatile uint64_t a[20000];
  unsigned i;
  for (i = 0; i < 20000; i++) a[i] = 0;
}

#define STATED(o, i) ((o)->pk[i].stated ? (o)->pk[i].stated : (o)->pk[i].len)
/* --- the undisturbed reference: fresh context, fresh thread, clean world --- */
typedef struct { op_t *o; const uint8_t *cw; uint8_t *data; unsigned size; } tw_t;
static void *twin_thread(void *a)
{
  tw_t *w = a;
  op_t *o = w->o;
  void *k;
  int i;
  size_t at = 0;
  uint8_t cw[8];
  thread_altstack();
  clean_stack();
  memcpy(cw, w->cw, 8);
  if (o->kind == O_SIZE) { w->size = T->bs_batch_size(); return 0; }
  if (o->kind == O_SINGLE) {
    k = T->key_alloc();
    if (!k) infra("the twin could not allocate");
    T->key_set(cw, k);
    if (o->dir) T->encrypt(k, w->data, o->pk[0].len); else T->decrypt(k, w->data, o->pk[0].len);
    T->key_free(k);
  } else {
    batch_t *d = calloc((size_t)o->npk + 1, sizeof *d);
    for (i = 0; i < o->npk; i++) { d[i].data = w->data + at; d[i].len = STATED(o, i); at += o->pk[i].len; }
    k = T->bs_key_alloc();
    if (!k) infra("the twin could not allocate");
    T->bs_key_set(cw, k);
    if (o->dir) T->bs_encrypt(k, d, (unsigned)o->max); else T->bs_decrypt(k, d, (unsigned)o->max);
    T->bs_key_free(k);
    free(d);
  }
  return 0;
}
static unsigned twin_expect(op_t *o, const uint8_t *cw, uint8_t *data)
{
  static uint8_t *stk;
  static const uint8_t nocw[8];
  pthread_t p;
  pthread_attr_t at;
  tw_t w = { o, cw ? cw : nocw, data, 0 };
  thr_t *c = cur;
  size_t stksz = 0x200000 + ((tls_size + 0xfffff) & ~(size_t)0xfffff);     /* thread-local storage is carved from it */
  if (!stk) stk = mmap(0, stksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  twin_reset();
  cur = 0;
  in_plain++;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, stk, stksz);
  if (pthread_create(&p, &at, twin_thread, &w)) infra("pthread_create failed");
  pthread_join(p, 0);
  pthread_attr_destroy(&at);
  in_plain--;
  cur = c;
  return w.size;
}

void twin_run(api_t *twin, op_t *o, const uint8_t *cw, uint8_t *data)
{
  T = twin;
  twin_expect(o, cw, data);
}

/* --- floating point --- */
typedef struct { unsigned short cw; unsigned mx; fenv_t e; int rc; } fpm_t;
static void fp_set(uint32_t s, fpm_t *m)
{
#if defined(__x86_64__)
  static const int pc[] = { 0, 2, 3, 3 };
  m->cw = (unsigned short)(0x40 | 0x3f | ((unsigned)pc[s & 3] << 8) | ((s >> 2 & 3) << 10));
  m->mx = 0x1f80u | ((s >> 4 & 3) << 13) | ((s >> 6 & 1) << 15) | ((s >> 7 & 1) << 6);
  if ((s >> 8 & 3) == 0) m->mx &= ~(1u << (7 + (s >> 10) % 6));
  if ((s >> 14 & 3) == 0) m->cw &= (unsigned short)~(1u << ((s >> 16) % 6));
  __asm__ volatile ("fninit; fldcw %0; ldmxcsr %1" : : "m"(m->cw), "m"(m->mx));
#else
  static const int rc[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
  fesetenv(FE_DFL_ENV);
  m->rc = rc[s & 3];
  fesetround(m->rc);
#if defined(__aarch64__)
  { uint64_t v; __asm__ volatile ("mrs %0, fpcr" : "=r"(v)); if (s & 4) v |= 1u << 24; __asm__ volatile ("msr fpcr, %0" : : "r"(v)); m->mx = (unsigned)v; }
#endif
#endif
}
static void fp_default(void)
{
#if defined(__x86_64__)
  unsigned mx = 0x1f80;
  __asm__ volatile ("fninit; ldmxcsr %0" : : "m"(mx));
#else
  fesetenv(FE_DFL_ENV);
#endif
}
static void fp_verify(const fpm_t *m, const op_t *o)
{
#if defined(__x86_64__)
  struct { uint32_t cw, sw, tag, a, b, c, d; } env;
  unsigned mx;
  __asm__ volatile ("fnstenv %0; fldcw %0; stmxcsr %1" : "=m"(env), "=m"(mx));
  if ((env.tag & 0xffff) != 0xffff) { fp_default(); violation("fp-stack", "after %s the floating-point register stack is not empty (tag %04x, op %d)", kname[o->kind], env.tag & 0xffff, o->id); }
  if ((env.cw & 0xf3f) != (m->cw & 0xf3fu)) { fp_default(); violation("fp-control", "after %s the x87 control word is %04x, was %04x (op %d)", kname[o->kind], env.cw & 0xffff, m->cw, o->id); }
  if ((mx & 0xffc0) != (m->mx & 0xffc0)) { fp_default(); violation("fp-control", "after %s MXCSR is %04x, was %04x (op %d)", kname[o->kind], mx, m->mx, o->id); }
#else
  if (fegetround() != m->rc) { int g = fegetround(); fp_default(); violation("fp-control", "after %s the rounding mode is %d, was %d (op %d)", kname[o->kind], g, m->rc, o->id); }
#if defined(__aarch64__)
  { uint64_t v; __asm__ volatile ("mrs %0, fpcr" : "=r"(v)); if ((unsigned)v != m->mx) { fp_default(); violation("fp-control", "after %s FPCR has changed (op %d)", kname[o->kind], o->id); } }
#endif
#endif
}
/* floating-point work of the calling program, exact in any rounding mode */
static void fp_work(const op_t *o, uint32_t s)
{
  volatile double x[8];
  volatile double sum = 0;
  int i;
  for (i = 0; i < 8; i++) x[i] = (double)((s >> (i * 3)) & 1023) + 0.5;
#if defined(__x86_64__)
  {
    double want = 0, got;
    for (i = 0; i < 8; i++) want += x[i];
    __asm__ volatile ("fldl 0(%1); fldl 8(%1); fldl 16(%1); fldl 24(%1); fldl 32(%1); fldl 40(%1); fldl 48(%1); fldl 56(%1);"
                      "faddp; faddp; faddp; faddp; faddp; faddp; faddp; fstpl %0" : "=m"(got) : "r"(x) : "memory");
    R->c[C_FPWORK]++;
    if (got != want) { fp_default(); violation("fp-result", "floating-point work after %s gave %g instead of %g (op %d)", kname[o->kind], got, want, o->id); }
  }
#endif
  for (i = 0; i < 8; i++) sum += x[i];
  {
    uint64_t w = 0;
    for (i = 0; i < 8; i++) w += ((s >> (i * 3)) & 1023);
    if (sum != (double)w + 4) { fp_default(); violation("fp-result", "floating-point sum after %s is wrong (op %d)", kname[o->kind], o->id); }
  }
}

static void __attribute__((noinline)) call_lib(op_t *o, void *ctx, batch_t *d, const uint8_t *cw, void **ret, unsigned *size)
{
  switch (o->kind) {
  case O_ALLOC: *ret = o->api ? L->bs_key_alloc() : L->key_alloc(); break;
  case O_SET: if (o->api) L->bs_key_set(cw, ctx); else L->key_set(cw, ctx); break;
  case O_FREE: case O_FREENULL: if (o->api) L->bs_key_free(ctx); else L->key_free(ctx); break;
  case O_SINGLE: if (o->dir) L->encrypt(ctx, o->pk[0].at, o->pk[0].len); else L->decrypt(ctx, o->pk[0].at, o->pk[0].len); break;
  case O_BATCH: if (o->dir) L->bs_encrypt(ctx, d, (unsigned)o->max); else L->bs_decrypt(ctx, d, (unsigned)o->max); break;
  case O_SIZE: *size = L->bs_batch_size(); break;
  }
}

/* ---- how much work a call is ----
   Before the run, in a process of its own: what each call costs in a fresh
   process, with a fresh context and contents that mean nothing. */
typedef struct { uint64_t op[MAXOPS], small[2][5], extra; } work_t;     /* small: alloc, set, free, the little calls of loops and crowds */
static work_t *work;
static uint64_t work_call(op_t *o, void *ctx, batch_t *d, const uint8_t *cw, void **ret)
{
  uint64_t w = work_done;
  unsigned size;
  void *dummy;
  in_plain = 1;
  call_lib(o, ctx, d, cw, ret ? ret : &dummy, &size);
  in_plain = 0;
  return work_done - w;
}
static void work_one(int i, op_t *src, int n, const unsigned *len, unsigned max, int api)
{
  static batch_t d[600];
  static pk_t pk;
  static int seen;
  uint8_t *buf;
  size_t tot = 64;
  rng_t rr = rng_make(W.seed, 7000 + (uint64_t)i), *r = &rr;
  uint64_t first[4], again[4];
  op_t q;
  int k, round;
  void *ctx;
  if (n > 590) return;
  for (k = 0; k < n; k++) tot += len[k] + 8;
  buf = malloc(tot);
  if (!buf) return;
  for (round = 0; round < 2; round++) {
    uint64_t *c = round ? again : first;
    uint8_t *p = buf, cw[8];
    size_t z;
    for (k = 0; k < 8; k++) cw[k] = (uint8_t)rnd(r);
    for (z = 0; z < tot; z++) buf[z] = (uint8_t)rnd(r);
    memset(&q, 0, sizeof q);
    q.api = api; q.dir = src ? src->dir : (int)below(r, 2); q.pk = &pk; q.max = (int)max;
    q.kind = O_ALLOC; ctx = 0; c[0] = work_call(&q, 0, 0, 0, &ctx);
    if (!ctx) { free(buf); return; }
    q.kind = O_SET; c[1] = work_call(&q, ctx, 0, cw, 0);
    c[3] = 0;
    if (n) {
      for (k = 0; k < n; k++) { d[k].data = p; d[k].len = len[k]; p += len[k] + 8; }
      d[n].data = 0;
      pk.at = buf; pk.len = len[0];
      q.kind = api ? O_BATCH : O_SINGLE;
      c[3] = work_call(&q, ctx, d, 0, 0);
      if (!round) { uint64_t x = work_call(&q, ctx, d, 0, 0); if (seen >> api & 1 && x > c[3]) c[3] = x; }
    }
    q.kind = O_FREE; c[2] = work_call(&q, ctx, 0, 0, 0);
  }
  for (k = 0; k < 4; k++) {
    uint64_t lo = first[k] < again[k] ? first[k] : again[k], hi = first[k] > again[k] ? first[k] : again[k];
    /* what is done once may be done at any time, but once */
    if (!(seen >> api & 1)) { if (hi - lo > work->extra) work->extra = hi - lo; }
    else lo = hi;
    if (k < 3) { if (lo > work->small[api][k]) work->small[api][k] = lo; }
    else if (i >= 0) work->op[i] = lo;
    else if (lo > work->small[api][2 - i]) work->small[api][2 - i] = lo;
  }
  seen |= 1 << api;
  free(buf);
}
static void work_refs(void)
{
  static unsigned len[600];
  int i, k, api;
  pid_t p;
  work = mmap(0, sizeof *work, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  p = fork();
  if (p < 0) infra("fork");
  if (!p) {
    cur = 0;
    hp.guard = hp.reuse = 0;
    for (api = 0; api < 2; api++) {
      for (k = 0; k < 8; k++) { len[0] = 8 + (unsigned)k; work_one(-1, 0, 1, len, 8, api); if (api) break; }
      len[0] = 16; work_one(-1, 0, 1, len, 16, api);
      if (api) { len[0] = len[1] = len[2] = 16; work_one(-1, 0, 3, len, 16, api); }
      len[0] = len[1] = len[2] = 39; work_one(-2, 0, api ? 3 : 1, len, 40, api);
    }
    for (i = 0; i < nops; i++)
      if (ops[i].kind == O_SINGLE || ops[i].kind == O_BATCH) {
        if (ops[i].npk > 590) continue;
        for (k = 0; k < ops[i].npk; k++) len[k] = STATED(&ops[i], k) < ops[i].pk[k].len ? STATED(&ops[i], k) : ops[i].pk[k].len;
        work_one(i, &ops[i], ops[i].npk, len, (unsigned)ops[i].max, ops[i].kind == O_BATCH);
      }
    _exit(0);
  }
  waitpid(p, &i, 0);
  if (!WIFEXITED(i) || WEXITSTATUS(i)) { munmap(work, sizeof *work); work = 0; }
}
static __attribute__((noinline)) void work_check(int id, int kind, int api, uint64_t n, uint64_t ref, const char *where, int count)
{
  uint64_t extra = work->extra;
  if (!ref && kind != O_ALLOC && kind != O_FREE && kind != O_SET) return;
  R->c[C_WORKCHK]++;
  if (n > 2 * ref + extra + 400)
    violation("work", "%s of a %s context made %lu memory accesses (%s%d); the same in a fresh process: %lu (op %d)", kind == O_CROWD ? "the call" : kname[kind], api ? "batch" : "single-packet",
              (unsigned long)n, where, count, (unsigned long)ref, id);
}
static uint64_t work_at;
#define WORK_BEGIN() (work_at = work_done)
#define WORK_END(k, where, cnt) do { if (work) work_check(o->id, k, o->api, work_done - work_at, work->small[o->api][(k) == O_ALLOC ? 0 : (k) == O_SET ? 1 : (k) == O_FREE ? 2 : (k) == O_CROWD ? 4 : 3], where, cnt); } while (0)

/* what a process is, as far as its program can see: everything here is as the
   caller set it, at every instant of a call and after it */
enum { SN_MASK, SN_PEND, SN_ACT, SN_TIMER, SN_FD, SN_POS, SN_UMASK, SN_CWD, SN_LIMIT, SN_PRIO, SN_LOCALE, SN_ENV, SN_CANCEL, SN_ALT, SN_NAME, SN_PROC, SN_STDIO, SN_FLOCK, NSN };
static const char *const snname[] = { "the signal mask", "the set of pending signals", "a signal's disposition", "an interval timer", "the set of open files",
  "the standard streams", "the file creation mask", "the working directory", "a resource limit", "the scheduling priority", "the locale", "the environment",
  "the cancellation state", "the signal stack", "the thread's name", "a property of the process or thread", "the buffering of a standard stream", "the lock of a standard stream" };
typedef struct { uint64_t h[NSN]; uint64_t t[3]; } snap_t;
static snap_t base_snap[MAXT][MAXD];
static volatile unsigned sig_count;
static const int app_sigs[] = { SIGUSR1, SIGUSR2, SIGTERM, SIGINT, SIGHUP, SIGCHLD, SIGWINCH, SIGPIPE, SIGIO, SIGURG, SIGQUIT, SIGTSTP };
#define NAPPSIG ((int)(sizeof app_sigs / sizeof *app_sigs))
static void app_handler(int s) { (void)s; sig_count++; }
extern char **environ;
static uint64_t set_bits(const sigset_t *s) { uint64_t v = 0; int i; for (i = 1; i < 64; i++) if (sigismember(s, i) == 1) v |= 1ull << i; return v; }
static void snapshot(snap_t *s)
{
  sigset_t ss;
  struct itimerval it;
  struct rlimit rl;
  stack_t st;
  char buf[512];
  int i, old;
  mode_t m;
  memset(s, 0, sizeof *s);
  R->c[C_SNAP]++;
#if defined(__GLIBC__)
  {
    FILE *const fs[] = { stdin, stdout, stderr };
    for (i = 0; i < 3; i++) s->h[SN_FLOCK] |= (unsigned)((volatile int *)fs[i]->_lock)[0] | (unsigned)((volatile int *)fs[i]->_lock)[1];
    if (s->h[SN_FLOCK]) violation("process-state", "a call changed %s", snname[SN_FLOCK]);
  }
#endif
  sigemptyset(&ss); pthread_sigmask(SIG_SETMASK, 0, &ss); s->h[SN_MASK] = set_bits(&ss);
#if defined(__x86_64__)         /* qemu-user loses track of pending signals */
  sigemptyset(&ss); sigpending(&ss); s->h[SN_PEND] = set_bits(&ss);
#endif
  for (i = 1; i < 64; i++) {
    struct sigaction sa;
    if (i >= 32 && i < 36) continue;
    memset(&sa, 0, sizeof sa);
    if (!sigaction(i, 0, &sa)) s->h[SN_ACT] = hash2(s->h[SN_ACT] ^ (uint64_t)i, (uint64_t)(uintptr_t)sa.sa_handler * 31 + ((unsigned)sa.sa_flags & 0x7fffffff) + set_bits(&sa.sa_mask) * 7);
  }
  for (i = 0; i < 3; i++) {
    memset(&it, 0, sizeof it);
    getitimer(i == 0 ? ITIMER_REAL : i == 1 ? ITIMER_VIRTUAL : ITIMER_PROF, &it);
    s->t[i] = (uint64_t)it.it_value.tv_sec * 1000000 + (uint64_t)it.it_value.tv_usec;
    s->h[SN_TIMER] = hash2(s->h[SN_TIMER], (uint64_t)it.it_interval.tv_sec * 1000000 + (uint64_t)it.it_interval.tv_usec * 2 + (s->t[i] != 0));
  }
  for (i = 0; i < 40; i++) s->h[SN_FD] = hash2(s->h[SN_FD], (uint64_t)(fcntl(i, F_GETFD) + 2) * 7919u + (uint64_t)(fcntl(i, F_GETFL) + 2));
  fflush(stdout); fflush(stderr);
  for (i = 0; i < 3; i++) {
    struct stat sb;
    memset(&sb, 0, sizeof sb);
    if (!fstat(i, &sb)) s->h[SN_POS] = hash2(s->h[SN_POS], (uint64_t)sb.st_size * 31 + (uint64_t)lseek(i, 0, SEEK_CUR));
  }
  m = umask(0); umask(m); s->h[SN_UMASK] = m;
  if (getcwd(buf, sizeof buf)) s->h[SN_CWD] = hash_bytes(1, buf, strlen(buf));
  for (i = 0; i < 16; i++) if (!getrlimit(i, &rl)) s->h[SN_LIMIT] = hash2(s->h[SN_LIMIT] ^ rl.rlim_cur, rl.rlim_max);
  { cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs); s->h[SN_PRIO] = hash_bytes(1, &cs, sizeof cs) << 16; }
  s->h[SN_PRIO] += (uint64_t)(getpriority(PRIO_PROCESS, 0) + 100) * 16 + (uint64_t)(sched_getscheduler(0) + 2);
  { const char *l = setlocale(LC_ALL, 0); s->h[SN_LOCALE] = l ? hash_bytes(1, l, strlen(l)) : 0; }
  for (i = 0; environ && environ[i]; i++) s->h[SN_ENV] = hash_bytes(s->h[SN_ENV], environ[i], strlen(environ[i]) + 1);
  pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &old); pthread_setcancelstate(old, 0); s->h[SN_CANCEL] = (uint64_t)old * 2;
  pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &old); pthread_setcanceltype(old, 0); s->h[SN_CANCEL] += (uint64_t)old * 64;
  memset(&st, 0, sizeof st); sigaltstack(0, &st); s->h[SN_ALT] = hash2((uint64_t)(uintptr_t)st.ss_sp, st.ss_size);
  memset(buf, 0, 64); prctl(PR_GET_NAME, buf); s->h[SN_NAME] = hash_bytes(1, buf, 16) + (uint64_t)prctl(PR_GET_DUMPABLE);
  {
    static const int pg[] = { PR_GET_TIMERSLACK, PR_GET_NO_NEW_PRIVS, PR_GET_KEEPCAPS, PR_GET_THP_DISABLE, PR_GET_SECUREBITS };
    unsigned q;
    int v[2] = { 0, 0 };
    for (q = 0; q < sizeof pg / sizeof *pg; q++) s->h[SN_PROC] = hash2(s->h[SN_PROC], (uint64_t)prctl(pg[q], 0, 0, 0, 0));
    prctl(PR_GET_PDEATHSIG, &v[0]); prctl(PR_GET_CHILD_SUBREAPER, &v[1]);
#if defined(__x86_64__)
    { int w = 0; prctl(PR_GET_TSC, &w); s->h[SN_PROC] += (uint64_t)w * 5; }
#endif
    s->h[SN_PROC] = hash2(s->h[SN_PROC], (uint64_t)v[0] * 64 + (uint64_t)v[1]);
    s->h[SN_PROC] = hash2(s->h[SN_PROC], (uint64_t)syscall(SYS_personality, 0xffffffffu) * 31 + (uint64_t)getpgrp() * 7 + (uint64_t)getsid(0));
    s->h[SN_PROC] = hash2(s->h[SN_PROC], (uint64_t)geteuid() * 65537 + (uint64_t)getegid());
  }
  { FILE *const fs[] = { stdin, stdout, stderr }; for (i = 0; i < 3; i++) s->h[SN_STDIO] = hash2(s->h[SN_STDIO], (uint64_t)__fbufsize(fs[i]) * 8 + (unsigned)!!__flbf(fs[i]) * 2 + !!ferror(fs[i]) + 4 * !!feof(fs[i])); }
}
/* the simulator has set its watchdogs again */
void timers_moved(unsigned wall, unsigned cpu)
{
  int i, j;
  for (i = 0; i < MAXT; i++)
    for (j = 0; j < MAXD; j++) { base_snap[i][j].t[0] = wall * 1000000ull; base_snap[i][j].t[2] = cpu * 1000000ull; }
}
static void state_compare(thr_t *t, const op_t *o, const char *when)
{
  snap_t s, *b = &base_snap[t->id][t->depth % MAXD];
  int i;
  snapshot(&s);
  for (i = 0; i < NSN; i++)
    if (s.h[i] != b->h[i]) violation("process-state", "%s %s %s is not as the caller left it (op %d)", when, kname[o->kind], snname[i], o->id);
  for (i = 0; i < 3; i++)
    if (s.t[i] > b->t[i] + 20000 || s.t[i] + 60000000 < b->t[i]) violation("process-state", "%s %s an interval timer is not as the caller left it (op %d)", when, kname[o->kind], o->id);
}
static void state_before(thr_t *t, const op_t *o)
{
  sigset_t ss;
  int i;
  uint64_t x = mix64(o->wseed);
  sigemptyset(&ss);
  if (x & 1) for (i = 0; i < NAPPSIG; i++) if (x >> (8 + i) & x >> (24 + i) & 1) sigaddset(&ss, app_sigs[i]);
  pthread_sigmask(SIG_SETMASK, &ss, 0);
  /* some have come in while they were blocked */
#if defined(__x86_64__)
  for (i = 0; i < NAPPSIG; i++) if (sigismember(&ss, app_sigs[i]) == 1 && (x >> (40 + i) & 1)) syscall(SYS_tgkill, getpid(), (int)syscall(SYS_gettid), app_sigs[i]);
#endif
  pthread_setcancelstate(x >> 5 & 1 ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE, 0);
  snapshot(&base_snap[t->id][t->depth % MAXD]);
}
static void state_after(thr_t *t, const op_t *o, int err)
{
  sigset_t ss;
  state_compare(t, o, "after");
  if (o->kind != O_ALLOC && err != (int)(o->wseed & 127)) violation("process-state", "%s changed errno from %d to %d (op %d)", kname[o->kind], (int)(o->wseed & 127), err, o->id);
  sigemptyset(&ss);
  pthread_sigmask(SIG_SETMASK, &ss, 0);
}
/* a signal comes in while a call is in progress: its handler runs at once */
void signal_arrives(thr_t *t, int k)
{
  sigset_t ss;
  const op_t *o = t->fr->op;
  unsigned n = sig_count;
  uint64_t mask = base_snap[t->id][t->depth % MAXD].h[SN_MASK];
  int i, s = 0, e = errno;
  if (!t->inlib) return;
  t->inlib = 0;
  (void)ss;
  for (i = 0; i < NAPPSIG; i++) { s = app_sigs[(k + i) % NAPPSIG]; if (!(mask >> s & 1)) break; }
#if !defined(__x86_64__)
  i = NAPPSIG; k = 0;           /* qemu-user restores a wrong mask: look only */
#endif
  if (i < NAPPSIG) {
    R->c[C_SIGNAL]++;
    syscall(SYS_tgkill, getpid(), (int)syscall(SYS_gettid), s);
    if (sig_count == n) violation("signal-held", "signal %d that came in during %s was not delivered (op %d, step %lu)", s, kname[o->kind], o->id, (unsigned long)frame_step(t));
  }
  if (k % 3 == 0) state_compare(t, o, "in the middle of");
  errno = e;
}
static void state_start(void)
{
  struct sigaction sa;
  int i;
  for (i = 0; i < 3; i++) {
    int fd = (int)syscall(SYS_memfd_create, "std", 0);
    if (fd < 0) infra("memfd_create failed");
    if (!i && (write(fd, "some input\n", 11) != 11 || lseek(fd, 0, SEEK_SET))) infra("memfd failed");
    if (fd != i) { dup2(fd, i); close(fd); }
  }
  umask((mode_t)(mix64(W.seed) >> 52 & 0777));
  {
    /* what a program may have lowered */
    static const int lim[] = { RLIMIT_CORE, RLIMIT_FSIZE, RLIMIT_MEMLOCK, RLIMIT_MSGQUEUE, RLIMIT_NOFILE };
    struct rlimit rl;
    unsigned q;
    for (q = 0; q < sizeof lim / sizeof *lim; q++)
      if (mix64(W.seed + q) & 1 && !getrlimit(lim[q], &rl) && rl.rlim_max) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? 1u << 30 : rl.rlim_max - rl.rlim_max / 3;
        setrlimit(lim[q], &rl);
      }
  }
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = app_handler;
  for (i = 0; i < NAPPSIG; i++) { sa.sa_flags = i & 1 ? SA_RESTART : 0; sigaction(app_sigs[i], &sa, 0); }
}
/* the call gets that much stack and not a page more */
static void stack_limit(thr_t *t, int on)
{
  volatile char here[16];
  uintptr_t lo = t->stk_base + 4096, hi = ((uintptr_t)here & ~(uintptr_t)4095) - (uintptr_t)W.stk * 1024;
  if (hi <= lo) infra("stack too small");
  if (on) R->c[C_SMALLSTK]++;
  if (!on) hi = (uintptr_t)here & ~(uintptr_t)4095;
  mprotect((void *)lo, hi - lo, on ? PROT_NONE : PROT_READ | PROT_WRITE);
}
/* 0: returned; 1: torn out; 2: thread killed */
static int __attribute__((noinline)) guarded(thr_t *t, frame_t *f, op_t *o, void *ctx, batch_t *d, const uint8_t *cw, void **ret, unsigned *size, fpm_t *fm)
{
  volatile int depth = t->depth;
  volatile char *pad;
  int err;
  /* calls are made at all depths of the stack */
  pad = __builtin_alloca(16 + (mix64(o->wseed + 0x5cacULL) & 1 ? mix64(o->wseed + 0x5cadULL) % 256 * 16 : 0));
  __asm__ volatile("" : : "r"(pad) : "memory");
  R->c[C_CALLS]++;
  hlog(0xca11, (uint64_t)o->id);
  if (!setjmp(f->jb)) {
    f->jbset = 1;
    errno = (int)(o->wseed & 127);
    if (W.sg) { dirty_stack(o->wseed); R->c[C_GARBAGE_STACK]++; }
    if (W.fp) { fp_set(o->wseed, fm); R->c[C_FPMODE]++; }
    if (chk & K_STATE) state_before(t, o);
    if (W.stk) stack_limit(t, 1);
    if (W.fl == FL_I) t->inlib = 1; else in_plain = 1;
    errno = (int)(o->wseed & 127);
    call_lib(o, ctx, d, cw, ret, size);
    err = errno;
    if (work && (!o->failed || o->kind == O_ALLOC) && (o->kind == O_ALLOC || o->kind == O_SET || o->kind == O_FREE || o->kind == O_SINGLE || o->kind == O_BATCH)) {
      uint64_t n = frame_step(t) + 20 * (uint64_t)f->allocs;
      t->inlib = 0;
      work_check(o->id, o->kind, o->api, n, o->kind == O_ALLOC ? work->small[o->api][0] : o->kind == O_SET ? work->small[o->api][1] : o->kind == O_FREE ? work->small[o->api][2] : work->op[o - ops], "call ", o->id);
    }
    t->inlib = 0; in_plain = 0;
    f->jbset = 0;
    if (W.stk) stack_limit(t, 0);
    if (chk & K_STATE) state_after(t, o, err);
    if (W.fp && (chk & K_FP)) {
      fp_verify(fm, o);
      fp_default();
      fp_work(o, o->wseed);
    }
    if (W.fp) fp_default();
    return 0;
  }
  t->inlib = 0; in_plain = 0;
  t->depth = depth;
  f->jbset = 0;
  fp_default();
  rt_rearm(t);
  return f->abandoned;
}

static int slot_busy_outer(thr_t *t, int s, int exclusive)
{
  frame_t *f;
  for (f = t->fr ? t->fr->up : 0; f; f = f->up)
    if (f->op && f->op->slot == s) {
      int k = f->op->kind;
      if (k == O_SET || k == O_ALLOC || k == O_FREE) return 1;
      if (exclusive && (k == O_SINGLE || k == O_BATCH)) return 1;
    }
  return 0;
}
static void check_out(op_t *o, const uint8_t *want, const char *what)
{
  int i;
  unsigned j;
  size_t at = 0;
  for (i = 0; i < o->npk; i++) {
    pk_t *p = &o->pk[i];
    for (j = 0; j < p->len; j++)
      if (p->at[j] != want[at + j])
        violation("wrong-output", "%s %s: packet %d of %d (length %u, limit %d) differs from the undisturbed call at byte %u: %02x, not %02x (op %d, %s)",
                  kname[o->kind], o->dir ? "scrambling" : "descrambling", i, o->npk, p->len, o->max, j, p->at[j], want[at + j], o->id, what);
    at += p->len;
  }
}
static int undef_ops;
static void do_loop(thr_t *t, frame_t *f, op_t *o);
static void do_crowd(thr_t *t, op_t *o);
static void do_walk(thr_t *t, op_t *o);
static void exec_op(thr_t *t, op_t *o)
{
  frame_t f;
  slot_t *s = &slot[o->slot];
  int r = 0, i;
  void *ret = 0;
  unsigned size = 0;
  fpm_t fm;
  uint8_t *sd;

  if (o->ran) return;
  o->ran = 1;
  t->depth++;
  frame_push(t, &f, o);
  op_boundary(t);
  hlog(0x0b, (uint64_t)o->id << 8 | (unsigned)o->kind);
  R->c[C_OPS]++;
  sd = side_of(t);
  o->ctx = s->ctx;
  memset(&fm, 0, sizeof fm);
  switch (o->kind) {
  case O_ALLOC:
    if (s->live || s->fuzzy) { R->c[C_SKIPPED]++; break; }
    o->failed = 0;
    s->api = o->api;
    r = guarded(t, &f, o, 0, 0, 0, &ret, &size, &fm);
    if (r) { s->fuzzy = 1; break; }
    if (chk & K_NULLCHK) {
      if (!ret && !o->failed) violation("null-without-failure", "%s_alloc returned NULL although no allocation failed (op %d)", o->api ? "bs_key" : "key", o->id);
      if (ret && o->failed && (unsigned)o->failed == f.allocs) violation("failure-not-reported", "%s_alloc returned a context although every allocation failed (op %d)", o->api ? "bs_key" : "key", o->id);
    }
    hlog(0xa0, ret != 0);
    if (ret) { s->ctx = ret; s->live = 1; s->set = 0; }
    break;
  case O_SET: {
    uint8_t *cw;
    if (!s->live || slot_busy_outer(t, o->slot, 1)) { R->c[C_SKIPPED]++; break; }
    /* the control word ends at an unmapped page, or is unaligned */
    cw = sd + 0x7000 - 8 - (W.cwpl == 0 ? 0 : W.cwpl == 1 ? o->wseed % 8 : 16 + o->wseed % 64);
    memcpy(cw, cws[o->cw], 8);
    if (W.prot) mprotect(sd + 0x6000, 0x1000, PROT_READ);
    s->set = 0;
    r = guarded(t, &f, o, s->ctx, 0, cw, &ret, &size, &fm);
    if (W.prot) mprotect(sd + 0x6000, 0x1000, PROT_READ | PROT_WRITE);
    if (r) break;
    if ((chk & K_FOREIGNW) && memcmp(cw, cws[o->cw], 8)) violation("argument-write", "setting a key changed the control word passed in (op %d)", o->id);
    memset(cw, 0xcc, 8);
    s->set = 1;
    s->cw = o->cw;
    break;
  }
  case O_FREE:
    if (!s->live || slot_busy_outer(t, o->slot, 1)) { R->c[C_SKIPPED]++; break; }
    { void *c = s->ctx; s->live = s->set = 0; s->ctx = 0;
      r = guarded(t, &f, o, c, 0, 0, &ret, &size, &fm); }
    if (r) s->fuzzy = 1;
    break;
  case O_FREENULL:
    r = guarded(t, &f, o, 0, 0, 0, &ret, &size, &fm);
    break;
  case O_SIZE:
    r = guarded(t, &f, o, 0, 0, 0, &ret, &size, &fm);
    if (!r && (chk & K_SIZE)) {
      unsigned w = twin_expect(o, 0, 0);
      if (w != size) violation("batch-size", "the maximum batch size is %u here and %u elsewhere (op %d)", size, w, o->id);
    }
    hlog(0x512e, size);
    break;
  case O_FPWORK:
    fp_work(o, o->wseed);
    break;
  case O_FILL:
    fill(t, o);
    break;
  case O_FORK:
    do_fork(t, o->dir);
    break;
  case O_SINGLE: case O_BATCH: {
    batch_t *d = 0;
    size_t tot = 0;
    uint8_t *in, *out;
    if (!s->live || !s->set || s->api != (o->kind == O_BATCH) || slot_busy_outer(t, o->slot, 0)) { R->c[C_SKIPPED]++; break; }
    if (o->kind == O_SINGLE && !o->npk) { R->c[C_SKIPPED]++; break; }
    fill(t, o);
    R->c[C_PACKETS] += (uint64_t)o->npk;
    if (o->kind == O_BATCH) {
      size_t n = sizeof *d * ((size_t)o->npk + 1);
      /* the array ends at an unmapped page, or garbage follows it */
      d = (batch_t *)(W.descg ? sd + 0x5000 - n : sd + 64);
      for (i = 0; i < o->npk; i++) { d[i].data = o->pk[i].at; d[i].len = STATED(o, i); if (o->pk[i].stated) R->c[C_OVERSTATED]++; }
      d[o->npk].data = 0;
      d[o->npk].len = (unsigned)mix64(o->wseed);
      if (!W.descg && o->npk < 600) { d[o->npk + 1].data = (uint8_t *)(uintptr_t)0x1234567; d[o->npk + 1].len = 99; }
      if (W.prot) mprotect(sd, 0x5000, PROT_READ);
    }
    if (W.prot) { blk_t *b = heap_find((uintptr_t)s->ctx); if (b && b->guard) mprotect(b->base, b->map, PROT_READ); }
    r = guarded(t, &f, o, s->ctx, d, 0, &ret, &size, &fm);
    if (W.prot) {
      blk_t *b = heap_find((uintptr_t)s->ctx);
      if (b && b->guard) mprotect(b->base, b->map, PROT_READ | PROT_WRITE);
      if (d) mprotect(sd, 0x5000, PROT_READ | PROT_WRITE);
    }
    if (r) { o->undefd = 1; undef_ops++; break; }
    if (d) {
      if (chk & K_FOREIGNW)
        for (i = 0; i <= o->npk; i++)
          if ((i < o->npk && (d[i].data != o->pk[i].at || d[i].len != STATED(o, i))) || (i == o->npk && d[i].data))
            violation("argument-write", "batch call changed its descriptor array (op %d)", o->id);
      memset(d, 0x77, sizeof *d * ((size_t)o->npk + 1));
    }
    for (i = 0; i < o->npk; i++) tot += o->pk[i].len;
    in = malloc(tot + 1);
    out = in;
    tot = 0;
    for (i = 0; i < o->npk; i++) { unsigned j; for (j = 0; j < o->pk[i].len; j++) out[tot + j] = pk_byte(&o->pk[i], j); tot += o->pk[i].len; }
    if (chk & K_OUT) {
      twin_expect(o, cws[s->cw], out);
      hlog(0x0707, hash_bytes(3, out, tot));
      check_out(o, out, W.prop);
    }
    tot = 0;
    for (i = 0; i < o->npk; i++) {
      memcpy(arena_shadow + (o->pk[i].at - arena), (chk & K_OUT) ? out + tot : o->pk[i].at, o->pk[i].len);
      tot += o->pk[i].len;
    }
    free(in);
    break;
  }
  case O_LOOP:
    if (o->loopk == 7) do_walk(t, o); else do_loop(t, &f, o);
    break;
  case O_CROWD:
    do_crowd(t, o);
    break;
  }
  frame_pop(t, &f);
  t->depth--;
  if (r == 2 && t->depth == 0) t->killed = 1;
}
void run_nested(thr_t *t, int inner)
{
  op_t *o = op_by_id(inner);
  unsigned where;
  if (!o || o->ran || o->outer < 0) return;
  where = (unsigned)(mix64(o->wseed + 0xa17) % 4);
  if (where < 2 && W.fl == FL_I) run_on_alt(t, o, (int)where);
  else exec_op(t, o);
}
void run_nested_op(thr_t *t, op_t *o) { exec_op(t, o); }
static void phase_checks(int phase);
void vanish(thr_t *t)
{
  frame_t *f;
  for (f = t->fr; f; f = f->up) if (f->op) f->op->undefd = 1;
  t->state = T_DEAD;
  t->killed = 1;
}
void child_rest(thr_t *t, int phase)
{
  int i, ph;
  phase_checks(phase);
  for (ph = phase + 1; ph <= W.phases; ph++) {
    layout(ph);
    undef_ops = 0;
    for (i = 0; i < nops; i++) if (ops[i].phase == ph && ops[i].outer < 0) exec_op(t, &ops[i]);
    phase_checks(ph);
    hlog(0xfa5f, (uint64_t)ph);
  }
  fork_join();
  _exit(42);
}
void thread_main(thr_t *t, int phase)
{
  int i;
  for (i = 0; i < nops && !t->killed; i++)
    if (ops[i].phase == phase && ops[i].th % nthr == t->id && ops[i].outer < 0 && !ops[i].late) exec_op(t, &ops[i]);
}
/* the first so many calls of a thread in a phase are made while the one before it comes to its end */
static void late_choose(int phase)
{
  int th, i, k, pos, n;
  for (th = 0; th < W.nthr; th++) {
    rng_t r = rng_make(hash2(W.seed, (uint64_t)phase << 8 | (unsigned)th), 0x1a7e);
    for (n = i = 0; i < nops; i++) n += ops[i].phase == phase && ops[i].th % W.nthr == th && ops[i].outer < 0;
    k = (int)below(&r, (uint64_t)n + 1);
    pos = (int)below(&r, 5);
    for (i = 0; i < nops && k > 0; i++)
      if (ops[i].phase == phase && ops[i].th % W.nthr == th && ops[i].outer < 0) {
        ops[i].late = pos + 1;
        k--;
        while (pos < 7 && chance(&r, 350)) pos++;
      }
  }
}
void thread_late(thr_t *t, int phase, int pos)
{
  int i;
  for (i = 0; i < nops && !t->killed; i++)
    if (ops[i].phase == phase && ops[i].th % nthr == t->id && ops[i].late == pos + 1) { R->c[C_LATE]++; exec_op(t, &ops[i]); }
}

static int near_round(int n)
{
  int64_t k;
  if (n % 65536 == 65535) return 1;
  if (((unsigned)(n - 8) & (unsigned)(n + 8)) < 16) return 1;         /* a power of two in between, or close to it */
  for (k = 10; k <= n + 8; k *= 10) if (n >= k - 8 && n <= k + 8) return 1;
  return 0;
}
/* a long history of cheap calls */
static void do_loop(thr_t *t, frame_t *f, op_t *o)
{
  slot_t *s = &slot[o->slot];
  static uint8_t first[8][16], buf[8][16];
  batch_t d[9];
  int i, n, np = 3, loopn, cheap = o->loopk != 5 ? 0 : !o->api ? 1 : o->wseed & 8 ? 2 : 3, batch;
  uint64_t drift = 0;
  fpm_t fm;
  (void)t; (void)f;
  memset(&fm, 0, sizeof fm);
  rng_t lr = rng_make(o->wseed, 6);
  if (W.fl == FL_I) cur = 0;
  if (o->loopk == 3 && s->live) { if (s->api) L->bs_key_free(s->ctx); else L->key_free(s->ctx); s->live = s->set = 0; }
  if (!s->live && o->loopk != 3) {
    in_plain = 1;
    s->ctx = o->api ? L->bs_key_alloc() : L->key_alloc();
    in_plain = 0;
    if (!s->ctx) { cur = t; R->c[C_SKIPPED]++; return; }
    s->live = 1; s->set = 0; s->api = o->api;
    { blk_t *b = heap_find((uintptr_t)s->ctx); if (b) b->slot = o->slot; }
  }
  in_plain = 1;
  loopn = o->loopn;
  batch = (int)L->bs_batch_size();
  if (!s->set && o->loopk != 3) { if (s->api) L->bs_key_set(cws[o->cw], s->ctx); else L->key_set(cws[o->cw], s->ctx); s->set = 1; s->cw = o->cw; }
  for (n = 0; n < loopn; n++) {
    unsigned len = o->wseed >> 10 & 1 ? 16 : 8 + (o->wseed & 7), bl = o->wseed >> 10 & 1 ? 16 : 8;
    if (n == 128) drift = state_of(s->live ? s->ctx : 0);
#if !defined(__aarch64__) && !defined(__powerpc__)
    /* something counts the calls: see how far */
    if (n == 256 && W.fl == FL_P && drift != state_of(s->live ? s->ctx : 0)) { loopn = s->api ? 300000 : 1100000; if (o->loopk >= 2) loopn = 270000; if (cheap) loopn = cheap == 3 ? 300000 : 17000000; if (mix64(o->wseed) % 12 == 0) loopn *= cheap ? 16 : 4; R->c[C_DRIFT]++; }
#endif
    if (n % 2048 == 0) still_alive();
    /* calls that have nothing to do; now and then, above all around round numbers, one that has */
    if (cheap && n > 4 && !near_round(n)) {
      if (cheap == 1) { if (o->dir) L->encrypt(s->ctx, buf[0], o->wseed >> 4 & 7); else L->decrypt(s->ctx, buf[0], o->wseed >> 4 & 7); }
      else if (cheap == 2) { if ((int)L->bs_batch_size() != batch) { if (chk & K_SIZE) violation("batch-size", "the advertised batch size was another one after %d queries", n); } }
      else { d[0].data = buf[0]; d[0].len = o->wseed >> 4 & 7; d[o->wseed >> 8 & 1].data = 0; if (o->dir) L->bs_encrypt(s->ctx, d, o->wseed >> 9 & 1 ? 8 : 0); else L->bs_decrypt(s->ctx, d, o->wseed >> 9 & 1 ? 8 : 0); }
      R->c[C_LOOPITER]++;
      continue;
    }
    if (o->loopk == 3) {
      WORK_BEGIN();
      s->ctx = s->api ? L->bs_key_alloc() : L->key_alloc();
      WORK_END(O_ALLOC, "as the one number ", n);
      if (!s->ctx) violation("null-without-failure", "allocation number %d of a long history failed", n);
      if (s->api) L->bs_key_set(cws[o->cw], s->ctx); else L->key_set(cws[o->cw], s->ctx);
    }
    if (o->loopk == 2 || o->loopk == 4) {
      int w = (n & 1) ? o->cw : (o->cw + 1) % NCW;
      WORK_BEGIN();
      if (s->api) L->bs_key_set(cws[w], s->ctx); else L->key_set(cws[w], s->ctx);
      WORK_END(O_SET, "as the one number ", n);
      s->cw = w;
    }
    /* all sorts of control words, and of contents */
    if (o->loopk == 6) {
      uint8_t cw[8];
      for (i = 0; i < 8; i++) cw[i] = (uint8_t)rnd(&lr);
      WORK_BEGIN();
      if (s->api) L->bs_key_set(cw, s->ctx); else L->key_set(cw, s->ctx);
      WORK_END(O_SET, "as the one number ", n);
    }
    if (o->loopk != 2 && (o->loopk != 3 || n % 64 == 0)) {
      int par = (o->loopk == 4) ? (n & 1) : 0;
      static uint8_t ref[2][8][16];
      for (i = 0; i < np; i++) memset(buf[i], 0x5a + i, 16);
      if (o->loopk == 6) for (i = 0; i < np * 16; i++) buf[i / 16][i % 16] = (uint8_t)rnd(&lr);
      WORK_BEGIN();
      if (!s->api) { if (o->dir) L->encrypt(s->ctx, buf[0], len); else L->decrypt(s->ctx, buf[0], len); }
      else {
        for (i = 0; i < np; i++) { d[i].data = buf[i]; d[i].len = bl; }
        d[np].data = 0;
        if (o->dir) L->bs_encrypt(s->ctx, d, bl); else L->bs_decrypt(s->ctx, d, bl);
      }
      WORK_END(s->api ? O_BATCH : O_SINGLE, "as the one number ", n);
      if (n < 2) memcpy(ref[par], buf, sizeof buf);
      else if ((chk & K_OUT) && o->loopk != 6 && memcmp(ref[par], buf, sizeof buf))
        violation("wrong-output", "call number %d of a long history gave another result than the first, same input and control word (op %d)", n, o->id);
      (void)first;
    }
    if (o->loopk == 3) { WORK_BEGIN(); if (s->api) L->bs_key_free(s->ctx); else L->key_free(s->ctx); WORK_END(O_FREE, "as the one number ", n); s->ctx = 0; }
    R->c[C_LOOPITER]++;
  }
  if (o->loopk == 6) { if (s->api) L->bs_key_set(cws[o->cw], s->ctx); else L->key_set(cws[o->cw], s->ctx); s->cw = o->cw; }
  in_plain = 0;
  cur = t;
  if (o->loopk == 3) { s->live = s->set = 0; }
}

/* a procession: threads that each make a few calls and end, one after the other
   or, where their stacks say so, each at another place */
#define WALKLEN 40
typedef struct { thr_t *t; op_t *o; slot_t *s; int n, how; void *carry; unsigned len; uint8_t out[3 * WALKLEN]; } walk_t;
static void *walker(void *a)
{
  walk_t *w = a;
  op_t *o = w->o;
  slot_t *s = w->s;
  batch_t d[4];
  void *k = s->ctx;
  uint8_t cw[8];
  int i, nth = w->n;
  thread_altstack();
  memcpy(cw, cws[o->cw], 8);
  memset(w->out, 0x5a, sizeof w->out);
  in_plain = 1;
  if (w->how == 1 || (w->how == 2 && !w->carry)) {
    WORK_BEGIN();
    k = o->api ? L->bs_key_alloc() : L->key_alloc();
    WORK_END(O_ALLOC, "in thread ", nth);
    if (!k) violation("null-without-failure", "allocation in thread number %d of a long history failed (op %d)", nth, o->id);
    WORK_BEGIN();
    if (o->api) L->bs_key_set(cw, k); else L->key_set(cw, k);
    WORK_END(O_SET, "in thread ", nth);
  } else if (w->how == 2) k = w->carry;
  WORK_BEGIN();
  if (!o->api) { if (o->dir) L->encrypt(k, w->out, w->len); else L->decrypt(k, w->out, w->len); }
  else {
    for (i = 0; i < 3; i++) { d[i].data = w->out + (int)w->len * i; d[i].len = w->len; }
    d[3].data = 0;
    if (o->dir) L->bs_encrypt(k, d, (w->len + 7) & ~7u); else L->bs_decrypt(k, d, (w->len + 7) & ~7u);
  }
  WORK_END(O_CROWD, "in thread ", nth);
  if (w->how == 1 || (w->how == 2 && w->carry)) {
    WORK_BEGIN();
    if (o->api) L->bs_key_free(k); else L->key_free(k);
    WORK_END(O_FREE, "in thread ", nth);
    w->carry = 0;
  } else if (w->how == 2) w->carry = k;
  in_plain = 0;
  return 0;
}
static void do_walk(thr_t *t, op_t *o)
{
  static const int places[] = { 1, 2, 16, 64, 200 };
  slot_t *s = &slot[o->slot];
  walk_t w;
  uint8_t want[3 * WALKLEN];
  op_t q;
  pk_t pk[3];
  size_t each = 0x40000 + ((tls_size + 0xffff) & ~(size_t)0xffff);
  int i, np = places[o->wseed >> 8 & 7 ? (o->wseed >> 8 & 7) % 5 : 0];
  uint8_t *stk;
  if (!s->live || !s->set || s->api != o->api) { R->c[C_SKIPPED]++; return; }
  if (sizeof(void *) == 4 && np > 16) np = 16;
  stk = mmap(0, each * (size_t)np, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (stk == MAP_FAILED) { R->c[C_SKIPPED]++; return; }
  cur = 0;
  memset(&w, 0, sizeof w); memset(&q, 0, sizeof q); memset(pk, 0, sizeof pk);
  w.t = t; w.o = o; w.s = s; w.how = (int)(o->wseed >> 16 & 3) % 3;
  q.kind = o->api ? O_BATCH : O_SINGLE; q.api = o->api; q.dir = o->dir; w.len = 8 + (o->wseed >> 19 & 31); q.max = (int)(w.len + 7) & ~7; q.id = o->id; q.pk = pk; q.npk = o->api ? 3 : 1;
  pk[0].len = pk[1].len = pk[2].len = w.len;
  memset(want, 0x5a, sizeof want);
  if (chk & K_OUT) twin_expect(&q, w.how ? cws[o->cw] : cws[s->cw], want);
  for (i = 0; i < o->loopn; i++) {
    pthread_attr_t at;
    pthread_t p;
    walk_me = i + 1;
    w.n = i;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stk + each * (size_t)(i % np), each);
    if (pthread_create(&p, &at, walker, &w)) infra("pthread_create failed");
    pthread_join(p, 0);
    pthread_attr_destroy(&at);
    R->c[C_CHURN]++;
    if ((chk & K_OUT) && memcmp(want, w.out, sizeof want)) violation("wrong-output", "thread number %d of a long history got a wrong result (op %d)", i, o->id);
    hlog(0x3a1c, hash_bytes(1, w.out, sizeof w.out));
    if (i % 64 == 0) still_alive();
  }
  walk_me = 0;
  if (w.carry) { in_plain = 1; if (o->api) L->bs_key_free(w.carry); else L->key_free(w.carry); in_plain = 0; }
  munmap(stk, each * (size_t)np);
  cur = t;
}

/* many contexts alive at once, set, set again, used and freed in any order */
static void do_crowd(thr_t *t, op_t *o)
{
  int n = o->loopn, i, j, k, rounds = 1 + (int)(o->wseed >> 3 & 3);
  void **ctx = calloc((size_t)n + 1, sizeof *ctx);
  uint8_t (*w)[8] = calloc((size_t)n + 1, 8);
  rng_t rr = rng_make(o->wseed, 5), *r = &rr;
  uint8_t *cwbuf = side_of(t) + 0x7000 - 8, buf[16], want[24];
  batch_t d[2];
  op_t q;
  pk_t pk;
  cur = 0;
  memset(&q, 0, sizeof q);
  memset(&pk, 0, sizeof pk);
  q.kind = o->api ? O_BATCH : O_SINGLE; q.max = 16; q.npk = 1; q.pk = &pk; pk.len = 16; q.id = o->id;
  for (k = 0; k < rounds; k++) {
    for (i = 0; i < n; i++) {
      int what = k == 0 ? 0 : (int)below(r, 5);
      if (what == 4) continue;
      if (what < 2) {
        if (ctx[i]) { WORK_BEGIN(); in_plain = 1; if (o->api) L->bs_key_free(ctx[i]); else L->key_free(ctx[i]); in_plain = 0; ctx[i] = 0; WORK_END(O_FREE, "as one of ", n); }
        if (k && chance(r, 300)) continue;
        if (!heap_room()) continue;
        WORK_BEGIN();
        in_plain = 1; ctx[i] = o->api ? L->bs_key_alloc() : L->key_alloc(); in_plain = 0;
        WORK_END(O_ALLOC, "as one of ", n);
        if (!ctx[i]) violation("null-without-failure", "context number %d of many could not be allocated (op %d)", i, o->id);
        R->c[C_CROWD]++;
      }
      if (!ctx[i]) continue;
      memcpy(w[i], cws[below(r, o->wseed >> 9 & 3 ? NCW : 2)], 8);
      if (o->wseed >> 9 & 3 && chance(r, 800)) for (j = 0; j < 2; j++) w[i][j * 4] ^= (uint8_t)(i >> (8 * j));
      memcpy(cwbuf, w[i], 8);
      WORK_BEGIN();
      in_plain = 1; if (o->api) L->bs_key_set(cwbuf, ctx[i]); else L->key_set(cwbuf, ctx[i]); in_plain = 0;
      WORK_END(O_SET, "as one of ", n);
      memset(cwbuf, 0xcc, 8);
    }
    for (j = 0; j < 14 + n / 64; j++) {
      i = j < 2 ? (j ? n - 1 : 0) : (int)below(r, (uint64_t)n);
      if (!ctx[i]) continue;
      for (int b = 0; b < 16; b++) buf[b] = want[b] = (uint8_t)rnd(r);
      q.dir = (int)below(r, 2);
      WORK_BEGIN();
      in_plain = 1;
      if (o->api) { d[0].data = buf; d[0].len = 16; d[1].data = 0; if (q.dir) L->bs_encrypt(ctx[i], d, 16); else L->bs_decrypt(ctx[i], d, 16); }
      else { if (q.dir) L->encrypt(ctx[i], buf, 16); else L->decrypt(ctx[i], buf, 16); }
      in_plain = 0;
      WORK_END(q.kind, "as one of ", n);
      if (chk & K_OUT) {
        twin_expect(&q, w[i], want);
        if (memcmp(buf, want, 16)) violation("wrong-output", "context %d of %d %s ones alive at once does not work with the control word set in it last (op %d)", i, n, o->api ? "batch" : "single-packet", o->id);
      }
      hlog(0xc40d, hash_bytes(1, buf, 16));
    }
    still_alive();
  }
  for (i = 0; i < n; i++) {
    /* first to last, last to first, or in no order */
    j = (o->wseed & 3) == 0 ? i : (o->wseed & 3) == 1 ? n - 1 - i : i + (int)below(r, (uint64_t)(n - i));
    if ((o->wseed & 3) >= 2) { void *x = ctx[i]; ctx[i] = ctx[j]; ctx[j] = x; j = i; }
    if (ctx[j]) { WORK_BEGIN(); in_plain = 1; if (o->api) L->bs_key_free(ctx[j]); else L->key_free(ctx[j]); in_plain = 0; WORK_END(O_FREE, "as one of ", n); }
  }
  free(ctx); free(w);
  cur = t;
}
static void phase_checks(int phase)
{
  size_t i;
  (void)phase;
  if (chk & (K_OUT | K_GAPS)) {
    if (memcmp(arena + arena_lo, arena_shadow + arena_lo, arena_hi - arena_lo))
      for (i = arena_lo; i < arena_hi; i++)
        if (arena[i] != arena_shadow[i]) {
          if (arena_owner[i]) {
            op_t *o = op_by_id(arena_owner[i] - 1);
            if (!o || o->undefd || !o->ran) {
              if (o && o->undefd) continue;
            }
            violation(chk & K_GAPS ? "lost-byte" : "wrong-output", "a byte of a packet of op %d (%s) was changed outside its own call", o ? o->id : -1, o ? kname[o->kind] : "?");
          } else if (chk & K_GAPS)
            violation("lost-byte", "a byte between packets was changed");
        }
  }
  heap_check();
  if (chk & K_LEAKCHK) {
    static size_t per[2];
    size_t by[MAXSLOT];
    int b;
    memset(by, 0, sizeof by);
    for (b = 0; b < nblk; b++)
      if (blk[b].live == 1) {
        int sl = blk[b].slot;
        if (sl < 0) { op_t *o = op_by_id(blk[b].opid); violation("leak", "%zu bytes obtained during %s (op %d) are still held", blk[b].size, o ? kname[o->kind] : "?", blk[b].opid); }
        if (!slot[sl].live) violation("leak", "%zu bytes of context %d (%s) are still held although it %s", blk[b].size, sl, slot[sl].api ? "batch" : "single", "is not allocated");
        by[sl] += blk[b].size;
      }
    for (b = 0; b < W.nslots; b++)
      if (slot[b].live) {
        if (!per[slot[b].api]) per[slot[b].api] = by[b] + 1;
        else if (per[slot[b].api] != by[b] + 1) violation("leak", "context %d holds %zu bytes, an earlier one of its kind held %zu", b, by[b], per[slot[b].api] - 1);
      }
  }
}

void mach_run(const char *plan)
{
  static const uintptr_t abases[] = { 0x50000000, 0x50001000, 0x4ffff000,
#if UINTPTR_MAX > 0xffffffffu
    0x4fff0000, 0x1ff000000, 0x5e0000000000,
    /* packets lie across a multiple of 4 GB, or of 2 GB */
    0x200001000 - 65536 - (6u << 20), 0x180002000 - 65536 - (6u << 20)
#endif
  };
  int ph, i, j;
  uint64_t calls0;
  size_t asz = 6u << 20;
  uint8_t *m;

  parse(plan);
  chk = 0;
  if (P("C03") || P("C04") || P("C05") || P("C08") || P("C09") || P("C12") || P("C13")) chk |= K_OUT;
  if (P("C05")) chk |= K_NULLCHK;
  if (P("C06")) chk |= K_LEAKCHK | K_UAF;
  if (P("C07")) chk |= K_FOREIGNW | K_FOREIGNR | K_GAPS;
  if (P("C11")) chk |= K_FP;
  if (P("C12")) { chk |= K_WAIT; }
  if (P("C13")) chk |= K_SIZE;
  if (P("C18")) chk |= K_OUT;
  if (P("C18")) { uint64_t x = hash2(W.seed, 0xf02c); fork_max = x % 2 ? 1 : 2 + (int)(x / 2 % 4); }
  if (P("C21")) chk |= K_OUT | K_NULLCHK;
  if (P("C22")) chk |= K_WORK;
  if (P("C19")) { chk |= K_STATE; state_start(); }
  if (W.var < 0) infra("unknown variant");
  L = &variants[W.var].f[W.fl];
  T = &variants[W.var].f[FL_T];
  env_on = W.env; env_seed = hash2(W.seed, 4242);
  env_cpu(variants[W.var].name);
  env_names();
  srng = rng_make(W.seed, 99);
#if defined(__x86_64__)
  step_cap = 60000000;
#else
  step_cap = 20000000;
#endif
  if (P("C12")) step_cap = 12000000;
  twin_reset();
  heap_init();
  if (W.late) rt_late_keys();
  if (!W.ctor) rt_ctors(0);
  /* packet memory: [guard][arena][guard] */
  m = map_at(abases[(unsigned)W.abase % (sizeof abases / sizeof *abases)], asz + 2 * 65536);
  mprotect(m, 65536, PROT_NONE);
  arena = m + 65536;
  mprotect(arena + asz, 65536, PROT_NONE);
  arena_size = asz;
  arena_shadow = mmap(0, asz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  arena_owner = mmap(0, asz * sizeof *arena_owner, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  side = map_at(0x58000000, SIDE_STRIDE * MAXD * (MAXT + 1));
  side_lo = (uintptr_t)side; side_hi = side_lo + SIDE_STRIDE * MAXD * (MAXT + 1);
  for (i = 0; i < W.nthr; i++)
    for (j = 0; j < MAXD; j++) {
      mprotect(side + ((size_t)i * MAXD + (size_t)j) * SIDE_STRIDE + 0x5000, 4096, PROT_NONE);
      mprotect(side + ((size_t)i * MAXD + (size_t)j) * SIDE_STRIDE + 0x7000, 4096, PROT_NONE);
    }
  if (chk & K_WORK) work_refs();
  rt_start_threads(W.nthr);
  if (strat != STRAT_NONE) R->c[C_STRAT + strat - 1]++;
  for (ph = 0; ph <= W.phases; ph++) {
    layout(ph);
    undef_ops = 0;
    if (W.ctor && W.ctor == ph) rt_ctors(0);
    if (W.dtor && W.dtor == ph) rt_dtors();
    calls0 = R->c[C_CALLS];
    if (ph && (W.churn >> (ph & 15) & 1)) {
      int late = W.late >> (ph & 15) & 1;
      if (late) late_choose(ph);
      rt_replace_threads(late ? ph : -1);
    }
    rt_run_phase(ph);
    if (ph < W.ctor) R->c[C_EARLY] += R->c[C_CALLS] - calls0;
    if (W.dtor && ph >= W.dtor) R->c[C_AFTEREXIT] += R->c[C_CALLS] - calls0;
    phase_checks(ph);
    hlog(0xfa5e, (uint64_t)ph);
  }
  fork_join();
  /* give everything back; what is left is a leak */
  if (P("C06") || P("C04") || P("C05")) {
    thr_t *c = cur;
    cur = 0;
    for (i = 0; i < W.nslots; i++)
      if (slot[i].live) {
        in_plain = 1;
        if (slot[i].api) L->bs_key_free(slot[i].ctx); else L->key_free(slot[i].ctx);
        in_plain = 0;
        slot[i].live = slot[i].set = 0;
      }
    cur = c;
    heap_check();
    if (chk & K_LEAKCHK) {
      for (i = 0; i < nblk; i++)
        if (blk[i].live == 1) violation("leak", "%zu bytes are still held after every context was freed (obtained in op %d)", blk[i].size, blk[i].opid);
    }
  }
  for (i = 0; i < C_STRAT; i++) if (i != C_STEPS && i != C_PREEMPT) hlog((uint64_t)i, R->c[i]);
}
