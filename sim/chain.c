/* The chain: a discrete-event simulation, in simulated microseconds, of
   head-ends that scramble, a broadcast network that misbehaves, and receivers
   that descramble.  Every library node runs the real code (any build, either
   API); "third-party" nodes run the independent reference model.

   Plan lines
     C  header: seed, quiet time (faults stop), ECM period, memory options
     N  node: role, service, implementation, API, build, batching parameters
     K  control word number i of a service
     Y  control-word change of a service at a time
     G  burst of packets: time, spacing, len:pat:seed,...
     L  fault of one packet on one link (r=-1: at the scrambler's own input)
     F  fault of a node: crash, stall, partition, lost ECMs, no memory */
#include "sim.h"
#include "model.h"
#include <sys/mman.h>

extern volatile int in_plain;
extern int alloc_fail_all;
void gen_cws(rng_t *r, uint8_t c[24][8]);
int choose_variant(rng_t *r, const char *prop);
uint8_t pk_byte(const pk_t *p, unsigned i);
void dirty_stack(uint64_t seed);
void twin_run(api_t *twin, op_t *o, const uint8_t *cw, uint8_t *data);

#define MAXN 16
#define MAXP 3000
#define MAXSV 3
#define NPER 24
enum { LF_DROP, LF_DUP, LF_FLIP, LF_TRUNC, LF_DELAY, LF_LEN, LF_NK };
static const char *lfn[] = { "drop", "dup", "flip", "trunc", "delay", "len" };
enum { NF_CRASH, NF_STALL, NF_PART, NF_ECM, NF_OOM, NF_NK };
static const char *nfn[] = { "crash", "stall", "part", "ecm", "oom" };

typedef struct { int svc, idx; uint64_t t; pk_t pk; int period; int sent; uint64_t tsent; uint8_t *wire, *clear; unsigned wlen; uint16_t rcv; } cp_t;   /* a packet of the programme */
typedef struct { int pkt; unsigned len, store; uint8_t *at; int intact, period; uint64_t tin; } slot_t;  /* a packet in a node */
typedef struct {
  int id, role, svc, model, api, var, fl, dual, max, fill, dl, lat, jit, ra, align;
  int up, stalled; uint64_t stall_end;
  /* what it knows */
  int have[2]; int cwper[2];            /* control word of each parity, by period */
  void *ctx[2]; int ctxper[2];          /* period whose control word is set in the context, -1 none */
  model_key mk[2];
  slot_t *pend[2]; int np[2]; uint32_t pgen[2];
  int cap;
  int *inbox; int nin, cin;
} node_t;
typedef struct { int kind, pkt, rx; unsigned long v; int hit; } lf_t;
typedef struct { int kind, node; uint64_t t, dur; } nf_t;
typedef struct { uint64_t t; uint32_t seq; int kind, a, b, c; } ev_t;
enum { E_SRC, E_DELIVER, E_DEADLINE, E_ECM, E_ECMRX, E_REKEY, E_CRASH, E_RESTART, E_STALL, E_RESUME };

static node_t nd[MAXN]; static int nn;
static cp_t *cp; static int ncp;
static lf_t *lf; static int nlf, clf;
static nf_t nf[64]; static int nnf;
static uint8_t cwk[MAXSV][NPER][8];
static int period[MAXSV];
static uint64_t rekeyed[MAXSV], bound[MAXSV];
static struct { uint64_t t; int svc; } rk[200]; static int nrk;
typedef struct { int pkt; uint8_t *b; unsigned len, store; int intact; } dv_t;   /* a delivery */
static dv_t *dv; static int ndv, cdv;
static struct { char prop[8]; uint64_t seed, tq; int ecm, sg, ecmlat; int c01, c02, c10; } H;
static ev_t *q; static int nq, cq; static uint32_t qseq;
static uint64_t now;

/* ------------------------------------------------------------------ */
int chain_is(const char *p) { return !strcmp(p, "C01") || !strcmp(p, "C02") || !strcmp(p, "C10"); }

static unsigned glen(rng_t *r, unsigned ml, int mode)
{
  unsigned x;
  if (dict_try(r, 120)) return (unsigned)dict_in(r, 0, (int64_t)ml);
  switch (mode == 4 ? (int)below(r, 4) : mode) {
  case 0: return ml;
  case 1: x = (unsigned)below(r, ml / 8 + 1) * 8; return x;
  case 2: return (unsigned)below(r, ml + 1);
  case 3: return (unsigned)below(r, ml < 20 ? ml + 1 : 20);
  }
  return ml;
}
/* longer than a transport packet, for services that never see a batch */
static unsigned glong(rng_t *r, int *n)
{
  unsigned x;
  if (dict_try(r, 400)) { x = (unsigned)dict_in(r, 185, *n < 9 ? 66000 : 3000); *n += x > 3000 ? 3 : 1; return x; }
  switch (below(r, 8)) {
  case 0: case 1: x = 185 + (unsigned)below(r, 400); break;
  case 2: case 3: x = 256 * (unsigned)range(r, 1, 6) - 4 + (unsigned)below(r, 9); break;
  case 4: x = (1u << range(r, 8, 14)) - 4 + (unsigned)below(r, 16); break;
  case 5: if (*n < 9) { *n += 3; x = 65536 - 8 + (unsigned)below(r, 600); break; }
    /* fall through */
  default: x = 185 + (unsigned)logrnd(r, 13); break;
  }
  ++*n;
  return x;
}
/* now and then it is what comes out of the scrambler that looks like something */
enum { PAT_OUT = 32 };
static void content(rng_t *r, int pool, uint8_t *pt, uint32_t *sd)
{
  gen_content(r, pool, pt, sd);
  if (*pt && chance(r, 300)) *pt |= PAT_OUT;
}
static uint8_t clear_byte(const cp_t *p, unsigned j) { return p->clear ? p->clear[j] : pk_byte(&p->pk, j); }
char *chain_gen(const char *prop, uint64_t seed, int tier)
{
  rng_t rr = rng_make(seed, hash_bytes(2, prop, strlen(prop))), *r = &rr;
  sb_t b = { 0, 0, 0 };
  int c01 = !strcmp(prop, "C01"), c02 = !strcmp(prop, "C02"), c10 = !strcmp(prop, "C10");
  int nsvc = chance(r, 750) ? 1 : 2, s, i, j, id = 0, pk = 0;
  uint8_t c[24][8];
  uint64_t tq = (uint64_t)range(r, 3000, 60000), end;
  int ecm = (int)range(r, 300, 4000);
  int lng[MAXSV] = { 0 }, nlng = 0, ml[MAXSV], rx[MAXN], nrx = 0, bound = 0, np[MAXSV], first[MAXSV], rsv[MAXN];
  int noisy = (int)below(r, 5);         /* fault density of this run */
  unsigned en = (unsigned)rnd(r) | (1u << below(r, 6));          /* fault kinds of this run */
  int pool = chance(r, 650) ? 0 : (int)range(r, 1, 6);
  (void)tier;
  sb_add(&b, "C prop=%s seed=%llu tq=%llu ecm=%d sg=%d guard=%d minal=%d garb=%d reuse=%d hbase=%d\n", prop, (unsigned long long)seed, (unsigned long long)tq, ecm,
         (int)chance(r, 300), (int)chance(r, 150), (int)chance(r, 700), (int)below(r, 4), (int)below(r, 3), (int)below(r, 7));
  for (s = 0; s < nsvc; s++) {
    int k = (int)range(r, 1, c10 ? 2 : 3);
    int txmodel = c01 && chance(r, 250);
    lng[s] = c01 && chance(r, 60);              /* every node of this service works packet by packet: any length will do */
    ml[s] = chance(r, 600) ? 184 : 8 * (int)range(r, c10 ? 0 : 1, 23);
    for (i = -1; i < k + (c01 && !txmodel); i++) {
      int role = i >= 0, model = role ? i >= k : txmodel;
      int v = choose_variant(r, prop);
      int bs = (int)variants[v].f[FL_T].bs_batch_size(), fill;
      int api = c01 ? (int)chance(r, 650) : (chance(r, 970) ? 1 : 0);
      int dl = (int)(chance(r, 500) ? range(r, 20, 800) : range(r, 500, 6000)), lat = (int)range(r, 50, 2000), jit = (int)(chance(r, 400) ? range(r, 1, 50) : logrnd(r, 11));
      int fl = chance(r, 900) ? FL_P : FL_I;
      int max = ml[s] + 8 * (int)(chance(r, 600) ? 0 : below(r, (uint64_t)(184 - ml[s]) / 8 + 1));
      switch (below(r, 6)) {
      case 0: case 1: fill = bs; break;
      case 2: fill = (int)range(r, 1, bs); break;
      case 3: fill = (int)range(r, 1, bs < 17 ? bs : 17); break;
      case 4: fill = bs - (int)below(r, 3); break;
      default: fill = 1 + (int)logrnd(r, 8) % bs; break;
      }
      if (bs > 128 && chance(r, 700)) fill = 1 + (int)below(r, 40);
      if (model || lng[s]) api = 0;
      if (!api) dl = 0;
      sb_add(&b, "N id=%d role=%s svc=%d impl=%s api=%c var=%s fl=%d dual=%d max=%d fill=%d dl=%d lat=%d jit=%d ra=%d al=%d\n", id, role ? "rx" : "tx", s, model ? "model" : "lib",
             api ? 'b' : 's', variants[v].name, fl, (int)chance(r, 600), max, fill, dl, lat, jit, (int)chance(r, 300), (int)below(r, 9));
      if (role) { rsv[nrx] = s; rx[nrx++] = id; }
      if (dl + lat + jit > bound) bound = dl + lat + jit;
      id++;
    }
    gen_cws(r, c);
    for (i = 0; i < NPER; i++) {
      sb_add(&b, "K svc=%d i=%d v=", s, i);
      for (j = 0; j < 8; j++) sb_add(&b, "%02x", c[i][j]);
      sb_add(&b, "\n");
    }
  }
  bound *= 2;
  end = tq + (uint64_t)(3 * ecm + 2 * bound) + 4000;
  for (s = 0; s < nsvc; s++) {
    uint64_t t = 0;
    int mode, per = (int)(chance(r, 300) ? range(r, 200, 1500) : range(r, 1000, 20000)), budget = (int)(chance(r, 200) ? range(r, 250, 600) : range(r, 10, 160)), tailn;
    while (t < tq) { t += (uint64_t)range(r, per / 2, per * 3 / 2); if (t < tq) sb_add(&b, "Y t=%llu svc=%d\n", (unsigned long long)t, s); }
    t = tq + (uint64_t)(2 * ecm + bound);
    if (chance(r, 500)) { t = end - 3000 + below(r, 2000); if (t > tq + (uint64_t)(3 * ecm + 2 * bound)) sb_add(&b, "Y t=%llu svc=%d\n", (unsigned long long)t, s); }
    first[s] = pk;
    np[s] = 0;
    t = below(r, 300);
    mode = (int)below(r, 5);
    while (np[s] < budget && t < tq) {
      int n = (int)(chance(r, 300) ? 1 : logrnd(r, 7)), gap = (int)(chance(r, 300) ? 0 : logrnd(r, 8));
      if (n > budget - np[s]) n = budget - np[s];
      sb_add(&b, "G id=%d t=%llu svc=%d gap=%d p=", pk, (unsigned long long)t, s, gap);
      for (i = 0; i < n; i++) { uint8_t pt; uint32_t sd; content(r, pool, &pt, &sd); sb_add(&b, "%s%u:%u:%x", i ? "," : "", lng[s] && nlng < 12 && chance(r, 60) ? glong(r, &nlng) : glen(r, (unsigned)ml[s], mode), (unsigned)pt, (unsigned)sd); np[s]++; pk++; }
      sb_add(&b, "\n");
      t += (uint64_t)gap * (uint64_t)n + below(r, (uint64_t)(tq * 3 / (uint64_t)budget * (uint64_t)n / 2 + 50));
      if (chance(r, 100)) mode = (int)below(r, 5);
    }
    /* after the faults */
    tailn = c01 ? (int)range(r, 2, 24) : (int)range(r, 0, 6);
    if (tailn) {
      sb_add(&b, "G id=%d t=%llu svc=%d gap=%d p=", pk, (unsigned long long)(end - 4000 + below(r, 2000)), s, (int)logrnd(r, 7));
      for (i = 0; i < tailn; i++) { uint8_t pt; uint32_t sd; content(r, pool, &pt, &sd); sb_add(&b, "%s%u:%u:%x", i ? "," : "", lng[s] && nlng < 12 && chance(r, 250) ? glong(r, &nlng) : glen(r, (unsigned)ml[s], 4), (unsigned)pt, (unsigned)sd); pk++; }
      sb_add(&b, "\n");
    }
  }
  /* link faults */
  for (i = 0; i < nrx; i++) {
    static const unsigned dens[] = { 0, 20, 60, 150, 350 };
    int sv = rsv[i];
    unsigned d = dens[noisy];
    if ((c02 || c10) && d < 60) d = 60;
    for (j = 0; j < np[sv]; j++) {
      int k;
      unsigned long v = 0;
      if (!chance(r, d)) continue;
      k = (int)below(r, 5);
      if (!(en >> k & 1)) continue;
      if (c10 && chance(r, 600)) k = LF_LEN;
      switch (k) {
      case LF_DUP: case LF_DELAY: v = logrnd(r, 14); break;
      case LF_FLIP:
        v = rnd(r) & 0xffff;
        if (chance(r, 250)) {
          /* a copy follows that differs as checksums do not see */
          v |= 0x10000UL | below(r, 8) << 17 | (rnd(r) & 0xfff) << 20;
          sb_add(&b, "L p=%d r=%d k=dup v=%lu\n", first[sv] + j, rx[i], (unsigned long)logrnd(r, 8));
        }
        break;
      case LF_TRUNC: v = rnd(r) & 255; break;
      case LF_LEN:
        switch (below(r, 6)) {
        case 0: v = 185 + below(r, 8); break;
        case 1: v = 188 + below(r, 4096); break;
        case 2: v = (unsigned long)ml[sv] + 1 + below(r, 16); break;
        case 3: v = 0x7fffffffUL + below(r, 3); break;
        case 4: v = 0xffffffffUL - below(r, 300); break;
        default: v = dict_try(r, 400) ? (unsigned long)dict_in(r, 185, 0xffffffffll) : 1UL << below(r, 32); v += below(r, 9); v &= 0xffffffffUL; break;
        }
        break;
      }
      sb_add(&b, "L p=%d r=%d k=%s v=%lu\n", first[sv] + j, rx[i], lfn[k], v);
    }
  }
  for (s = 0; s < nsvc; s++)
    for (j = 0; j < np[s]; j++)
      if (c10 && chance(r, 50)) {
        unsigned long v = chance(r, 500) ? (unsigned long)ml[s] + 1 + below(r, 200) : (rnd(r) & 0xffffffffUL);
        sb_add(&b, "L p=%d r=-1 k=len v=%lu\n", first[s] + j, v);
      }
  /* node faults */
  if (noisy) {
    int n = (int)below(r, (uint64_t)noisy * 2 + 1);
    while (n--) {
      int k = (int)below(r, NF_NK);
      if (!(en >> (8 + k) & 1)) continue;
      sb_add(&b, "F k=%s n=%d t=%llu dur=%llu\n", nfn[k], (int)below(r, (uint64_t)id), (unsigned long long)below(r, tq), (unsigned long long)logrnd(r, 14));
    }
  }
  return b.s;
}

/* ------------------------------------------------------------------ */
static int idx(const char *s, const char **t, int n)
{
  int i;
  for (i = 0; i < n; i++) if (!strcmp(s, t[i])) return i;
  return -1;
}
static void parse(const char *plan)
{
  const char *l = plan;
  char *lc = 0, buf[64];
  size_t cap = 0;
  cp = calloc(MAXP, sizeof *cp);
  memset(&H, 0, sizeof H);
  while (*l) {
    const char *e = strchr(l, '\n');
    size_t n = e ? (size_t)(e - l) : strlen(l);
    if (n + 1 > cap) { cap = n + 1024; lc = realloc(lc, cap); }
    memcpy(lc, l, n); lc[n] = 0;
    l += n + (e != 0);
    switch (lc[0]) {
    case 'C':
      kv(lc, "prop", H.prop, sizeof H.prop);
      H.seed = (uint64_t)kvi(lc, "seed", 0); H.tq = (uint64_t)kvi(lc, "tq", 1000); H.ecm = (int)kvi(lc, "ecm", 1000); H.sg = (int)kvi(lc, "sg", 0);
      if (H.ecm < 50) H.ecm = 50;
      hp.guard = (int)kvi(lc, "guard", 0); hp.minalign = (int)kvi(lc, "minal", 0); hp.garbage = (int)kvi(lc, "garb", 0); hp.reuse = (int)kvi(lc, "reuse", 0); hp.base = (int)kvi(lc, "hbase", 0);
      hp.seed = hash2(H.seed, 78);
      break;
    case 'N': {
      node_t *x;
      if (nn >= MAXN) break;
      x = &nd[nn++];
      memset(x, 0, sizeof *x);
      x->id = (int)kvi(lc, "id", 0); x->role = !strcmp(kv(lc, "role", buf, sizeof buf) ? buf : "", "rx"); x->svc = (int)kvi(lc, "svc", 0) % MAXSV;
      x->model = !strcmp(kv(lc, "impl", buf, sizeof buf) ? buf : "", "model");
      x->api = (kv(lc, "api", buf, sizeof buf) ? buf[0] : 's') == 'b';
      kv(lc, "var", buf, sizeof buf);
      x->var = variant_index(buf);
      if (x->var < 0 && !x->model) infra("unknown variant %s", buf);
      x->fl = (int)kvi(lc, "fl", FL_P); x->dual = (int)kvi(lc, "dual", 1); x->max = (int)kvi(lc, "max", 184); x->fill = (int)kvi(lc, "fill", 1); x->dl = (int)kvi(lc, "dl", 0);
      x->lat = (int)kvi(lc, "lat", 100); x->jit = (int)kvi(lc, "jit", 1); x->ra = (int)kvi(lc, "ra", 0); x->align = (int)kvi(lc, "al", 0);
      break;
    }
    case 'K': {
      int s = (int)kvi(lc, "svc", 0) % MAXSV, i = (int)kvi(lc, "i", 0) % NPER, j;
      kv(lc, "v", buf, sizeof buf);
      for (j = 0; j < 8; j++) { unsigned x; if (sscanf(buf + 2 * j, "%2x", &x) == 1) cwk[s][i][j] = (uint8_t)x; }
      break;
    }
    case 'Y':
      if (nrk < 200) { rk[nrk].t = (uint64_t)kvi(lc, "t", 0); rk[nrk].svc = (int)kvi(lc, "svc", 0) % MAXSV; nrk++; }
      break;
    case 'G': {
      uint64_t t = (uint64_t)kvi(lc, "t", 0), gap = (uint64_t)kvi(lc, "gap", 0);
      int s = (int)kvi(lc, "svc", 0) % MAXSV;
      int idn = (int)kvi(lc, "id", -1);
      const char *p = strstr(lc, " p=");
      if (!p) break;
      p += 3;
      while (*p) {
        unsigned a, pt, sd;
        cp_t *k;
        if (sscanf(p, "%u:%u:%x", &a, &pt, &sd) != 3) break;
        if (ncp >= MAXP) infra("too many packets");
        k = &cp[ncp];
        k->svc = s; k->idx = idn >= 0 ? idn++ : ncp; k->t = t; k->pk.len = a > 200000 ? 200000 : a; k->pk.pat = (uint8_t)pt; k->pk.seed = sd;
        ncp++;
        t += gap;
        p = strchr(p, ',');
        if (!p) break;
        p++;
      }
      break;
    }
    case 'L':
      if (nlf == clf) { clf = clf * 2 + 256; lf = realloc(lf, sizeof *lf * (size_t)clf); }
      lf[nlf].pkt = (int)kvi(lc, "p", 0); lf[nlf].rx = (int)kvi(lc, "r", 0); lf[nlf].kind = idx(kv(lc, "k", buf, sizeof buf) ? buf : "", lfn, LF_NK);
      lf[nlf].v = (unsigned long)kvi(lc, "v", 0); lf[nlf].hit = 0;
      if (lf[nlf].kind >= 0) nlf++;
      break;
    case 'F':
      if (nnf < 64) {
        nf[nnf].kind = idx(kv(lc, "k", buf, sizeof buf) ? buf : "", nfn, NF_NK); nf[nnf].node = (int)kvi(lc, "n", 0);
        nf[nnf].t = (uint64_t)kvi(lc, "t", 0); nf[nnf].dur = (uint64_t)kvi(lc, "dur", 1);
        if (nf[nnf].kind >= 0) nnf++;
      }
      break;
    }
  }
  free(lc);
}

/* ---- event queue ---- */
static int before(const ev_t *a, const ev_t *b) { return a->t != b->t ? a->t < b->t : a->seq < b->seq; }
static void push(uint64_t t, int kind, int a, int b_, int c)
{
  int i;
  if (nq == cq) { cq = cq * 2 + 1024; q = realloc(q, sizeof *q * (size_t)cq); }
  i = nq++;
  q[i].t = t; q[i].seq = ++qseq; q[i].kind = kind; q[i].a = a; q[i].b = b_; q[i].c = c;
  while (i && before(&q[i], &q[(i - 1) / 2])) { ev_t x = q[i]; q[i] = q[(i - 1) / 2]; q[(i - 1) / 2] = x; i = (i - 1) / 2; }
}
static ev_t pop(void)
{
  ev_t r = q[0];
  int i = 0, k;
  q[0] = q[--nq];
  for (;;) {
    k = 2 * i + 1;
    if (k >= nq) break;
    if (k + 1 < nq && before(&q[k + 1], &q[k])) k++;
    if (!before(&q[k], &q[i])) break;
    { ev_t x = q[i]; q[i] = q[k]; q[k] = x; }
    i = k;
  }
  return r;
}

/* ---- packet memory of the nodes ---- */
static int me_of(const node_t *x) { return (int)(x - nd); }
static uint8_t *pool, *pool_end, *pool_at;
static struct { uint8_t *at, *end; } ring[MAXN];        /* where a node's next packets go */
static uint8_t *room(node_t *x, unsigned len, unsigned store)
{
  /* transport packets lie one behind the other, 188 bytes apart, payload at the end */
  uint8_t *p;
  if (store < len) {            /* no more memory than that behind the payload */
    size_t pages = (store + 4095) / 4096 * 4096;
    pool_at = (uint8_t *)(((uintptr_t)pool_at + 4095) / 4096 * 4096);
    if (pool_at + pages + 4096 > pool_end) infra("packet memory is full");
    p = pool_at + pages - store;
    mprotect(pool_at + pages, 4096, PROT_NONE);
    pool_at += pages + 4096;
    return p;
  }
  if (pool_at + store + 300 > pool_end) infra("packet memory is full");
  /* some nodes have buffers of their own: their packets follow each other */
  if (x->align >= 5 && store <= 184) {
    unsigned st = x->align == 7 ? 192 : x->align == 8 ? 204 : 188;
    int n = me_of(x);
    if (!ring[n].at || ring[n].at + st > ring[n].end) {
      if (pool_at + 16 * st + 300 > pool_end) infra("packet memory is full");
      ring[n].at = pool_at + (x->fill + x->id) % 8; ring[n].end = ring[n].at + 16 * st; pool_at = ring[n].end;
    }
    p = ring[n].at + (x->align == 5 ? 188 - store : 4);
    ring[n].at += st;
    return p;
  }
  pool_at += x->align % 5;
  p = store <= 184 ? pool_at + 4 + (184 - store) : pool_at + 4;
  pool_at = p + store;
  return p;
}

/* ---- library calls of a node ---- */
static int failing(node_t *x)
{
  int i;
  for (i = 0; i < nnf; i++)
    if (nf[i].kind == NF_OOM && nf[i].node == x->id && now >= nf[i].t && now < nf[i].t + nf[i].dur && now < H.tq) return 1;
  return 0;
}
static void *n_alloc(node_t *x)
{
  api_t *a = &variants[x->var].f[x->fl];
  void *p;
  alloc_fail_all = failing(x);
  in_plain = 1;
  p = x->api ? a->bs_key_alloc() : a->key_alloc();
  in_plain = 0;
  if (!p) {
    if (!alloc_fail_all) violation("no-context", "node %d could not allocate a context although memory was available", x->id);
    R->c[K_OOMKEY]++;
  }
  alloc_fail_all = 0;
  return p;
}
static void n_free(node_t *x, void *c)
{
  api_t *a = &variants[x->var].f[x->fl];
  in_plain = 1;
  if (x->api) a->bs_key_free(c); else a->key_free(c);
  in_plain = 0;
}
static void n_set(node_t *x, void *c, const uint8_t *cw)
{
  api_t *a = &variants[x->var].f[x->fl];
  alloc_fail_all = failing(x);
  in_plain = 1;
  if (x->api) a->bs_key_set(cw, c); else a->key_set(cw, c);
  in_plain = 0;
  alloc_fail_all = 0;
  R->c[K_REKEY]++;
}

static void emit(node_t *x, slot_t *s);
static void arrived(node_t *x, slot_t *s, int k);
static void run_batch(node_t *x, int k, int why)
{
  int n = x->np[k], i, dir = !x->role;
  slot_t *s = x->pend[k];
  api_t *a;
  if (!n) return;
  x->np[k] = 0;
  x->pgen[k]++;
  R->c[K_BATCH]++;
  if (n == x->fill) R->c[K_FULL]++; else R->c[K_PARTIAL]++;
  if (why == 1) R->c[K_DEADLINE]++;
  if (why == 2) R->c[K_KEYFLUSH]++;
  R->sched = hash2(R->sched ^ (uint64_t)x->id, (uint64_t)n << 8 | (unsigned)why);
  hlog((uint64_t)x->id << 16 | (unsigned)n, now);
  {
    batch_t *d = calloc((size_t)n + 1, sizeof *d);
    uint8_t *before_ = 0, *cpy;
    size_t tot = 0;
    int over = 0;
    const uint8_t *cw = cwk[x->svc][x->ctxper[k] % NPER];
    for (i = 0; i < n; i++) {
      R->sched = hash2(R->sched, (uint64_t)s[i].pkt);
      d[i].data = s[i].at; d[i].len = s[i].len; tot += s[i].store; over += s[i].len > (unsigned)x->max;
      if (s[i].len < 8) R->c[K_SHORT]++;
    }
    if (over && hash2(H.seed, R->c[K_BATCH] * 2 + 77) % 10 == 0) {
      /* all lengths together come to little or nothing in 32 bits */
      uint32_t sum = 0, v;
      int last = 0;
      for (i = 0; i < n; i++) if (s[i].len > (unsigned)x->max) last = i;
      for (i = 0; i < n; i++) if (i != last) sum += s[i].len;
      v = 0u - sum + (uint32_t)(hash2(H.seed, R->c[K_BATCH]) % 3 ? 0 : hash2(H.seed, R->c[K_BATCH] + 9) % 200);
      if (v > (uint32_t)s[last].store) d[last].len = s[last].len = v;
    }
    R->c[K_OVERLEN] += (uint64_t)over;
    if (over && !H.c10) infra("over-long packet in the wrong check");
    if (H.c02 || H.c10) {
      before_ = malloc(tot + 1);
      cpy = before_;
      for (i = 0; i < n; i++) { memcpy(cpy, s[i].at, s[i].store); cpy += s[i].store; }
    }
    a = &variants[x->var].f[x->fl];
    if (H.sg) { dirty_stack(H.seed + R->c[K_BATCH]); R->c[C_GARBAGE_STACK]++; }
    alloc_fail_all = failing(x);
    in_plain = 1;
    R->c[C_CALLS]++;
    if (dir) a->bs_encrypt(x->ctx[k], d, (unsigned)x->max); else a->bs_decrypt(x->ctx[k], d, (unsigned)x->max);
    in_plain = 0;
    alloc_fail_all = 0;
    R->c[C_PACKETS] += (uint64_t)n;
    if (H.c02) {
      api_t *t = &variants[x->var].f[FL_T];
      void *key;
      twin_reset();
      key = t->key_alloc();
      cpy = before_;
      in_plain = 1;
      t->key_set(cw, key);
      for (i = 0; i < n; i++) {
        unsigned j;
        if (dir) t->encrypt(key, cpy, s[i].len); else t->decrypt(key, cpy, s[i].len);
        for (j = 0; j < s[i].len; j++)
          if (cpy[j] != s[i].at[j])
            violation("batch-differs", "node %d (%s): packet %d of %d (length %u, limit %d, %s) in a batch %s differs at byte %u from the same packet processed alone: %02x, not %02x",
                      x->id, variants[x->var].name, i, n, s[i].len, x->max, dir ? "scrambling" : "descrambling",
                      why == 1 ? "forced out by its deadline" : why == 2 ? "forced out by a key change" : "that was full", j, s[i].at[j], cpy[j]);
        hlog(0xc02, hash_bytes(5, cpy, s[i].len));
        cpy += s[i].store;
      }
      t->key_free(key);
      in_plain = 0;
    }
    if (H.c10) {
      op_t o;
      uint8_t *lin = malloc(tot + 1), *w = lin;
      memset(&o, 0, sizeof o);
      o.kind = O_BATCH; o.dir = dir; o.max = x->max; o.npk = n; o.pk = calloc((size_t)n + 1, sizeof *o.pk);
      cpy = before_;
      for (i = 0; i < n; i++) {
        unsigned l = s[i].len > (unsigned)x->max ? (unsigned)x->max : s[i].len;
        o.pk[i].len = l;
        memcpy(w, cpy, l);
        w += l; cpy += s[i].store;
      }
      twin_run(&variants[x->var].f[FL_T], &o, cw, lin);
      w = lin; cpy = before_;
      for (i = 0; i < n; i++) {
        unsigned j, l = o.pk[i].len;
        for (j = 0; j < l; j++)
          if (w[j] != s[i].at[j])
            violation(s[i].len > (unsigned)x->max ? "over-long" : "neighbour", "node %d (%s): packet %d of %d with stated length %u (limit %d), batch with %d over-long packets: byte %u is %02x, not %02x as in the same batch with lengths cut to the limit",
                      x->id, variants[x->var].name, i, n, s[i].len, x->max, over, j, s[i].at[j], w[j]);
        for (; j < s[i].store; j++)
          if (cpy[j] != s[i].at[j])
            violation("beyond-limit", "node %d (%s): packet %d of %d with stated length %u (limit %d): byte %u, beyond the limit, was changed", x->id, variants[x->var].name, i, n, s[i].len, x->max, j);
        hlog(0xc10, hash_bytes(5, w, l));
        w += l; cpy += s[i].store;
      }
      free(o.pk); free(lin);
    }
    free(before_);
    free(d);
  }
  for (i = 0; i < n; i++) {
    s[i].period = x->ctxper[k];
    if (x->role) arrived(x, &s[i], k); else emit(x, &s[i]);
  }
}
static void run_single(node_t *x, slot_t *s, int k)
{
  api_t *a;
  int dir = !x->role;
  s->period = x->ctxper[k];
  hlog((uint64_t)x->id, now);
  R->sched = hash2(R->sched ^ (uint64_t)x->id, (uint64_t)s->pkt);
  if (x->model) {
    if (dir) model_encrypt(&x->mk[k], s->at, s->len); else model_decrypt(&x->mk[k], s->at, s->len);
    R->c[K_MODEL]++;
  } else {
    a = &variants[x->var].f[x->fl];
    alloc_fail_all = failing(x);
    in_plain = 1;
    R->c[C_CALLS]++;
    if (dir) a->encrypt(x->ctx[k], s->at, s->len); else a->decrypt(x->ctx[k], s->at, s->len);
    in_plain = 0;
    alloc_fail_all = 0;
    R->c[C_PACKETS]++;
  }
  if (x->role) arrived(x, s, k); else emit(x, s);
}

/* ---- keys of a node ---- */
static int ctx_of(node_t *x, int par) { return x->dual ? par : 0; }
/* make the context for a period ready; 0 if the node cannot */
static int ready(node_t *x, int per)
{
  int k = ctx_of(x, per & 1);
  if (x->ctxper[k] == per && (x->model || x->ctx[k])) return 1;
  run_batch(x, k, 2);           /* what is pending belongs to the old control word */
  if (x->model) { model_set(&x->mk[k], cwk[x->svc][per % NPER]); x->ctxper[k] = per; return 1; }
  if (x->ra && x->ctx[k]) {
    void *c = n_alloc(x);
    if (!c) return 0;
    n_set(x, c, cwk[x->svc][per % NPER]);
    n_free(x, x->ctx[k]);
    x->ctx[k] = c;
    x->ctxper[k] = per;
    return 1;
  }
  if (!x->ctx[k]) x->ctx[k] = n_alloc(x);
  if (!x->ctx[k]) { x->ctxper[k] = -1; return 0; }
  n_set(x, x->ctx[k], cwk[x->svc][per % NPER]);
  x->ctxper[k] = per;
  return 1;
}
static void take(node_t *x, slot_t *s, int per)
{
  int k = ctx_of(x, per & 1);
  if (!ready(x, per)) { R->c[K_NOKEY]++; return; }
  s->tin = now;
  if (!x->api || x->model) { run_single(x, s, k); return; }
  if (!x->pend[k]) x->pend[k] = calloc((size_t)x->cap + 1, sizeof *x->pend[k]);
  x->pend[k][x->np[k]++] = *s;
  if (x->np[k] >= x->fill) run_batch(x, k, 0);
  else if (x->np[k] == 1) push(now + (uint64_t)x->dl, E_DEADLINE, me_of(x), k, (int)x->pgen[k]);
}

/* ---- network ---- */
static lf_t *fault(int pkt, int rx, int kind)
{
  int i;
  for (i = 0; i < nlf; i++)
    if (lf[i].pkt == pkt && lf[i].rx == rx && lf[i].kind == kind) return &lf[i];
  return 0;
}
static int window(int kind, int node)
{
  int i;
  for (i = 0; i < nnf; i++)
    if (nf[i].kind == kind && nf[i].node == node && now >= nf[i].t && now < nf[i].t + nf[i].dur && now < H.tq) return 1;
  return 0;
}
/* damage that simple checksums do not see */
static void confuse(uint8_t *b, unsigned n, unsigned long v)
{
  static const uint64_t poly[] = { 0x1db710641ULL, 0x105ec76f1ULL, 0x11021, 0x10811, 0x18005, 0x14003, 0x107, 0x1ab };
  uint64_t q = mix64(v >> 3);
  unsigned x = (unsigned)(q >> 8) % n, y = (unsigned)(q >> 24) % n, i, w;
  switch (v & 7) {
  case 0: case 1: { uint8_t t = b[x]; b[x] = b[y]; b[y] = t; break; }
  case 2: case 3: {
    unsigned k = n / 8;
    if (k < 2) { b[x] ^= 1; break; }
    x %= k; y %= k;
    if (x == y) y = (x + 1) % k;
    for (i = 0; i < 8; i++) { uint8_t t = b[x * 8 + i]; b[x * 8 + i] = b[y * 8 + i]; b[y * 8 + i] = t; }
    break; }
  case 4: case 5:
    if (n < 5) { b[x] ^= 1; break; }
    x %= n - 4;
    { uint64_t m = poly[q >> 40 & 7] << (q >> 50 & 7); for (i = 0; i < 5; i++) b[x + i] ^= (uint8_t)((v & 7) == 4 ? m >> 8 * i : m >> 8 * (4 - i)); }
    break;
  case 6: w = 8u >> (q >> 40 & 3); b[x] ^= (uint8_t)(1u << (q >> 50 & 7)); b[(x + w) % n] ^= (uint8_t)(1u << (q >> 50 & 7)); break;
  case 7: w = 8u >> (q >> 40 & 3); b[x]++; b[(x + w) % n] = (uint8_t)(b[(x + w) % n] - (q >> 50 & 1 ? 1 : 31)); break;
  }
}
static void send_to(node_t *x, cp_t *p, const uint8_t *bytes, unsigned len, int copy)
{
  lf_t *f;
  dv_t *d;
  uint64_t t;
  int quiet = p->t >= H.tq;
  if (!quiet && fault(p->idx, x->id, LF_DROP)) { R->c[K_DROP]++; return; }
  if (window(NF_PART, x->id)) { R->c[K_PARTITION]++; return; }
  if (ndv == cdv) { cdv = cdv * 2 + 256; dv = realloc(dv, sizeof *dv * (size_t)cdv); }
  d = &dv[ndv++];
  d->pkt = (int)(p - cp); d->len = d->store = len; d->intact = 1;
  if (!quiet && (f = fault(p->idx, x->id, LF_TRUNC)) && len) { d->len = d->store = (unsigned)(f->v % len); d->intact = 0; R->c[K_TRUNC]++; }
  if (!quiet && H.c10 && (f = fault(p->idx, x->id, LF_LEN))) {
    d->len = (unsigned)f->v;
    d->store = d->len > 20000 ? 20000 : d->len;
    if (d->len != len) d->intact = 0;
    R->c[K_BADLEN]++;
  }
  d->b = malloc(d->store + 1);
  { unsigned i; for (i = 0; i < d->store; i++) d->b[i] = i < len ? bytes[i] : (uint8_t)mix64(H.seed + i + (uint64_t)p->idx * 31); }
  f = quiet ? 0 : fault(p->idx, x->id, LF_FLIP);
  if (f && d->store && f->v >> 16) {
    if (copy) { confuse(d->b, d->store, f->v >> 17); d->intact = 0; R->c[K_FLIP]++; }
  } else if (f && d->store) { d->b[(f->v >> 3) % d->store] ^= (uint8_t)(1u << (f->v & 7)); d->intact = 0; R->c[K_FLIP]++; }
  t = now + (uint64_t)x->lat + hash2(H.seed + (uint64_t)x->id, (uint64_t)p->idx * 2 + (unsigned)copy) % (uint64_t)(x->jit + 1);
  if (!quiet && (f = fault(p->idx, x->id, LF_DELAY))) t += f->v;
  if (copy && (f = fault(p->idx, x->id, LF_DUP))) t += f->v;
  push(t, E_DELIVER, me_of(x), ndv - 1, 0);
  if (!copy && !quiet && fault(p->idx, x->id, LF_DUP)) { R->c[K_DUP]++; send_to(x, p, bytes, len, 1); }
}
static void emit(node_t *x, slot_t *s)
{
  int i;
  cp_t *p = &cp[s->pkt];
  R->c[K_SENT]++;
  p->sent = s->intact; p->tsent = now; p->period = s->period;
  hlog(0xe317 + (uint64_t)p->idx, hash_bytes(1, s->at, s->len < s->store ? s->len : s->store));
  if (now > s->tin + (uint64_t)x->dl && H.c01 && s->tin >= H.tq) infra("a scrambler kept a packet too long");
  for (i = 0; i < nn; i++)
    if (nd[i].role && nd[i].svc == x->svc) send_to(&nd[i], p, s->at, p->pk.len, 0);
}
static int last_seen[MAXN];
static void arrived(node_t *x, slot_t *s, int k)
{
  cp_t *p = &cp[s->pkt];
  unsigned j;
  (void)k;
  if (!s->intact || !p->sent || s->period != p->period) return;
  if (!H.c01) { p->rcv |= (uint16_t)(1u << me_of(x)); return; }
  R->c[K_INTACT]++;
  for (j = 0; j < p->pk.len; j++)
    if (s->at[j] != clear_byte(p, j)) {
      node_t *tx = 0;
      int i;
      for (i = 0; i < nn; i++) if (!nd[i].role && nd[i].svc == x->svc) tx = &nd[i];
      violation("not-recovered", "packet %d (length %u, control word of period %d) reached receiver %d intact and was not recovered: byte %u is %02x, not %02x (scrambler %s %s, receiver %s %s)",
                p->idx, p->pk.len, p->period, x->id, j, s->at[j], clear_byte(p, j),
                tx ? (tx->model ? "third-party" : variants[tx->var].name) : "?", tx && !tx->model ? (tx->api ? "batch" : "single") : "",
                x->model ? "third-party" : variants[x->var].name, x->model ? "" : x->api ? "batch" : "single");
    }
  p->rcv |= (uint16_t)(1u << me_of(x));
}
static void on_packet(node_t *x, int di)
{
  dv_t *d = &dv[di];
  cp_t *p = &cp[d->pkt];
  slot_t s;
  if (!x->up) return;
  if (x->stalled) {
    if (x->nin == x->cin) { x->cin = x->cin * 2 + 64; x->inbox = realloc(x->inbox, sizeof *x->inbox * (size_t)x->cin); }
    x->inbox[x->nin++] = di;
    return;
  }
  R->c[K_DELIV]++;
  if (p->idx < last_seen[me_of(x)]) R->c[K_REORDER]++; else last_seen[me_of(x)] = p->idx;
  /* the receiver sees the parity only */
  if (!x->have[p->period & 1]) { R->c[K_NOKEY]++; return; }
  memset(&s, 0, sizeof s);
  s.pkt = d->pkt; s.len = d->len; s.store = d->store; s.intact = d->intact;
  if (!x->api && (s.len > s.store || s.len > (p->pk.len < 184 ? 184 : p->pk.len))) return;       /* over-long packets concern batches only */
  s.at = room(x, s.len, s.store);
  memcpy(s.at, d->b, d->store);
  take(x, &s, x->cwper[p->period & 1]);
}
static void on_source(cp_t *p)
{
  int i;
  node_t *x = 0;
  slot_t s;
  lf_t *f;
  unsigned j;
  for (i = 0; i < nn; i++) if (!nd[i].role && nd[i].svc == p->svc) x = &nd[i];
  if (!x || !x->up) return;
  if (x->stalled) { push(x->stall_end + 1, E_SRC, (int)(p - cp), 0, 0); return; }
  memset(&s, 0, sizeof s);
  s.pkt = (int)(p - cp); s.len = s.store = p->pk.len; s.intact = 1;
  if (x->api && p->pk.len > (unsigned)x->max) return;
  if (H.c10 && x->api && (f = fault(p->idx, -1, LF_LEN)) && f->v > (unsigned long)p->pk.len) {
    s.len = (unsigned)f->v; s.store = s.len > 20000 ? 20000 : s.len; s.intact = 0;
    R->c[K_BADLEN]++;
  }
  s.at = room(x, s.len, s.store);
  if (p->pk.pat & PAT_OUT && p->pk.len >= 8) {
    pk_t q = p->pk;
    model_key mk;
    q.pat &= (uint8_t)~PAT_OUT;
    free(p->clear);
    p->clear = malloc(p->pk.len);
    for (j = 0; j < q.len; j++) p->clear[j] = pk_byte(&q, j);
    model_set(&mk, cwk[p->svc][period[p->svc] % NPER]);
    model_decrypt(&mk, p->clear, q.len);
  }
  for (j = 0; j < s.store; j++) s.at[j] = j < p->pk.len ? clear_byte(p, j) : pk_byte(&p->pk, j);
  take(x, &s, period[p->svc]);
}
static void crash_node(node_t *x)
{
  int k;
  if (!x->up) return;
  R->c[K_CRASH]++;
  x->up = 0;
  x->stalled = 0;
  x->nin = 0;
  for (k = 0; k < 2; k++) {
    x->np[k] = 0; x->pgen[k]++;
    if (x->ctx[k]) { n_free(x, x->ctx[k]); x->ctx[k] = 0; }        /* its process is gone, and its memory */
    x->ctxper[k] = -1;
    x->have[k] = 0;
  }
}

void chain_run(const char *plan)
{
  int i, j;
  uint64_t end = 0;
  size_t psz;

  parse(plan);
  chk = K_FOREIGNW;
  H.c01 = !strcmp(H.prop, "C01"); H.c02 = !strcmp(H.prop, "C02"); H.c10 = !strcmp(H.prop, "C10");
  if (H.c02 || H.c01) chk = 0;
  strat = STRAT_NONE;
  env_on = 1; env_seed = hash2(H.seed, 4243);
  env_cpu("avx2");
  env_names();
  twin_reset();
  heap_init();
  rt_ctors(0);
  psz = (size_t)ncp * 240 * (size_t)(nn + 2) + (8u << 20);
  for (i = 0; i < ncp; i++) if (cp[i].pk.len > 184) psz += (size_t)cp[i].pk.len * (size_t)(nn + 2) * 3 + 4096;
  /* a batch node cannot be given packets longer than its limit */
  for (i = 0; i < ncp; i++) if (cp[i].pk.len > 184) { int j; for (j = 0; j < nn; j++) if (nd[j].svc == cp[i].svc && nd[j].api) cp[i].pk.len = 184; }
  for (i = 0; i < nlf; i++) if (lf[i].kind == LF_LEN || lf[i].kind == LF_DUP) psz += 40000;
  pool = map_at(0x48000000, psz);
  pool_at = pool + 64; pool_end = pool + psz - 4096;
  for (i = 0; i < nn; i++) {
    node_t *x = &nd[i];
    x->up = 1;
    x->ctxper[0] = x->ctxper[1] = -1;
    if (!x->model && x->api) {
      in_plain = 1;
      x->cap = (int)variants[x->var].f[x->fl].bs_batch_size();
      in_plain = 0;
      if (x->fill > x->cap) x->fill = x->cap;
      if (x->fill < 1) x->fill = 1;
    }
    if (x->dl + x->lat + x->jit > 0) { uint64_t b = (uint64_t)(x->dl + x->lat + x->jit); if (b > bound[x->svc]) bound[x->svc] = b; }
    last_seen[i] = -1;
  }
  for (i = 0; i < ncp; i++) { push(cp[i].t, E_SRC, i, 0, 0); if (cp[i].t > end) end = cp[i].t; }
  for (i = 0; i < nrk; i++) push(rk[i].t, E_REKEY, rk[i].svc, 0, 0);
  for (i = 0; i < nnf; i++) {
    uint64_t e = nf[i].t + nf[i].dur;
    if (nf[i].t >= H.tq) continue;
    if (e > H.tq) e = H.tq;
    for (j = 0; j < nn; j++)
      if (nd[j].id == nf[i].node) {
        if (nf[i].kind == NF_CRASH) { push(nf[i].t, E_CRASH, j, 0, 0); push(e, E_RESTART, j, 0, 0); }
        if (nf[i].kind == NF_STALL) { push(nf[i].t, E_STALL, j, (int)(e - nf[i].t), 0); push(e, E_RESUME, j, 0, 0); }
      }
  }
  for (i = 0; i < MAXSV; i++) push(0, E_ECM, i, 0, 0);
  while (nq) {
    ev_t e = pop();
    node_t *x;
    now = e.t;
    R->c[C_EVENTS]++;
    if (R->c[C_EVENTS] > 2000000) infra("the event queue does not drain");
    switch (e.kind) {
    case E_SRC: on_source(&cp[e.a]); break;
    case E_DELIVER: on_packet(&nd[e.a], e.b); break;
    case E_DEADLINE:
      x = &nd[e.a];
      if (x->up && x->pgen[e.b] == (uint32_t)e.c) {
        if (x->stalled) push(x->stall_end + 1, E_DEADLINE, e.a, e.b, e.c);
        else run_batch(x, e.b, 1);
      }
      break;
    case E_ECM:
      for (i = 0; i < nn; i++)
        if (nd[i].role && nd[i].svc == e.a) {
          if (window(NF_ECM, nd[i].id) || window(NF_PART, nd[i].id)) { R->c[K_ECMLOSS]++; continue; }
          /* previous and current control word, then, once nothing old is under way, current and next */
          push(now + (uint64_t)nd[i].lat, E_ECMRX, i, period[e.a] && now < rekeyed[e.a] + 2 * bound[e.a] ? period[e.a] - 1 : period[e.a], 0);
        }
      if (now < end + 1) push(now + (uint64_t)H.ecm, E_ECM, e.a, 0, 0);
      break;
    case E_ECMRX:
      x = &nd[e.a];
      if (!x->up) break;
      if (x->stalled) { push(x->stall_end + 1, E_ECMRX, e.a, e.b, 0); break; }
      for (j = e.b; j <= e.b + 1; j++) {
        int par = j & 1;
        if (x->have[par] && x->cwper[par] >= j) continue;
        x->have[par] = 1;
        x->cwper[par] = j;
        if (x->dual) ready(x, j);
      }
      break;
    case E_REKEY:
      period[e.a]++;
      rekeyed[e.a] = now;
      for (i = 0; i < nn; i++)
        if (!nd[i].role && nd[i].svc == e.a && nd[i].up && !nd[i].stalled) ready(&nd[i], period[e.a]);
      break;
    case E_CRASH: crash_node(&nd[e.a]); break;
    case E_RESTART: if (!nd[e.a].up) { nd[e.a].up = 1; R->c[K_RESTART]++; } break;
    case E_STALL:
      x = &nd[e.a];
      if (x->up && !x->stalled) { x->stalled = 1; x->stall_end = now + (uint64_t)e.b; R->c[K_STALL]++; }
      break;
    case E_RESUME:
      x = &nd[e.a];
      if (x->stalled && now >= x->stall_end) {
        int n = x->nin;
        x->stalled = 0;
        x->nin = 0;
        for (i = 0; i < n; i++) on_packet(x, x->inbox[i]);
      }
      break;
    }
  }
  R->c[K_SIMUS] = now;
  /* progress: what was sent after the faults stopped has been recovered everywhere */
  if (H.c01)
    for (i = 0; i < ncp; i++) {
      cp_t *p = &cp[i];
      int tx = 0;
      if (p->t < H.tq + 2 * (uint64_t)H.ecm + 2 * bound[p->svc]) continue;
      for (j = 0; j < nn; j++) tx |= !nd[j].role && nd[j].svc == p->svc && p->pk.len <= nd[j].max;
      if (!tx) continue;
      for (j = 0; j < nn; j++)
        if (nd[j].role && nd[j].svc == p->svc) {
          R->c[K_LIVE]++;
          if (!(p->rcv >> j & 1)) violation("no-progress", "packet %d, sent after the faults had stopped, was never recovered by receiver %d", p->idx, nd[j].id);
        }
    }
  for (i = 0; i < nn; i++)
    for (j = 0; j < 2; j++)
      if (nd[i].ctx[j]) { n_free(&nd[i], nd[i].ctx[j]); nd[i].ctx[j] = 0; }
  heap_check();
  for (i = 0; i < C_STRAT; i++) if (i != C_STEPS) hlog((uint64_t)i, R->c[i]);
}
