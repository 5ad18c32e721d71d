/* sim work PROP FIRST COUNT TIER MAXMS  - run seeds, each in its own process image
   sim gen PROP SEED TIER                - the plan of a seed
   sim record PROP SEED TIER             - run it and print the plan with every switch written down
   sim run PLANFILE                      - replay a plan */
#include "sim.h"
#include <errno.h>
#include <sched.h>
#include <link.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>

const char *ctr_name[NCTR] = {
  "operations", "library_calls", "packets", "instrumented_accesses", "thread_switches", "preemptions_inside_calls", "shared_memory_events", "hot_events",
  "calls_torn_out", "threads_killed", "nested_calls", "threads_stalled", "allocation_failures", "allocations", "frees", "free_null", "address_reuse",
  "garbage_stack", "garbage_heap", "fp_modes_set", "fp_work", "loop_iterations", "fill_yields", "adjacent_foreign_packets",
  "guard_pages", "environment_calls", "lock_waits", "skipped_operations", "worlds", "environment_changes", "histories_prolonged",
  "forks", "threads_lost_in_mid_call_by_fork", "signals_delivered_in_calls", "process_state_snapshots", "threads_replaced", "calls_on_small_stacks", "contexts_in_crowds", "lengths_stated_beyond_limit", "library_state_events", "faults_at_library_state", "nested_calls_on_another_stack", "forks_after_the_first", "forks_by_forked_processes", "calls_while_thread_ends", "calls_before_library_startup", "calls_after_library_exit_handlers", "library_startup_and_exit_functions_run", "calls_whose_work_was_counted",
  "sent", "delivered", "dropped", "duplicated", "reordered", "bit_errors", "truncated", "bad_length", "partition_losses", "crashes",
  "restarts", "node_stalls", "ecm_lost", "rekeys", "batches", "partial_batches", "deadline_flushes", "key_change_flushes", "intact_packets_checked",
  "liveness_packets_checked", "simulated_us", "over_limit_packets", "oom_at_rekey", "clock_skew", "discarded_without_key", "short_packets", "full_batches", "model_node_packets",
  "strategy_uniform", "strategy_log", "strategy_event", "strategy_pct", "strategy_other",
};

void sb_add(sb_t *b, const char *fmt, ...)
{
  va_list ap;
  int n;
  if (b->n + 4096 > b->cap) { b->cap = b->cap * 2 + 8192; b->s = realloc(b->s, b->cap); }
  for (;;) {
    va_start(ap, fmt);
    n = vsnprintf(b->s + b->n, b->cap - b->n, fmt, ap);
    va_end(ap);
    if (b->n + (size_t)n + 1 < b->cap) break;
    b->cap = b->cap * 2 + (size_t)n;
    b->s = realloc(b->s, b->cap);
  }
  b->n += (size_t)n;
}
int dict_n, dict_nt;
uint64_t dict_v[MAXDICT];
char dict_t[MAXDICT][48];
void dict_load(const char *exe)
{
  char path[4096], l[128];
  FILE *f;
  snprintf(path, sizeof path, "%s.dict", exe);
  f = fopen(path, "r");
  if (!f) return;
  while (fgets(l, sizeof l, f)) {
    l[strcspn(l, "\n")] = 0;
    if (l[0] == 'i' && dict_n < MAXDICT) dict_v[dict_n++] = strtoull(l + 2, 0, 10);
    if (l[0] == 's' && dict_nt < MAXDICT) snprintf(dict_t[dict_nt++], sizeof *dict_t, "%.40s", l + 2);
  }
  fclose(f);
}
uint64_t dict_near(rng_t *r)
{
  uint64_t v = dict_v[below(r, (uint64_t)dict_n)], w = dict_v[below(r, (uint64_t)dict_n)];
  switch (below(r, 16)) {
  case 0: case 1: return v + 1;
  case 2: case 3: return v - 1;
  case 4: return v + w;
  case 5: return v - w;
  case 6: return v * 2;
  case 7: return v * 8;
  case 8: return v / 8;
  case 9: return v + below(r, 9);
  case 10: return v < 63 ? 1ull << v : v * 2 + 1;
  case 11: return v * (1 + below(r, 40));
  default: return v;
  }
}
int64_t dict_in(rng_t *r, int64_t lo, int64_t hi)
{
  int i;
  for (i = 0; i < 12; i++) {
    int64_t v = (int64_t)dict_near(r);
    if (v >= lo && v <= hi) return v;
  }
  return range(r, lo, hi);
}
const char *kv(const char *line, const char *key, char *out, size_t n)
{
  size_t kl = strlen(key), i = 0;
  const char *p = line;
  while ((p = strchr(p, ' '))) {
    p++;
    if (!strncmp(p, key, kl) && p[kl] == '=') {
      p += kl + 1;
      while (*p && *p != ' ' && *p != '\n' && i + 1 < n) out[i++] = *p++;
      out[i] = 0;
      return out;
    }
  }
  if (n) out[0] = 0;
  return 0;
}
int64_t kvi(const char *line, const char *key, int64_t d) { char b[32]; return kv(line, key, b, sizeof b) ? (int64_t)strtoll(b, 0, 10) : d; }
uint64_t kvx(const char *line, const char *key, uint64_t d) { char b[32]; return kv(line, key, b, sizeof b) ? strtoull(b, 0, 16) : d; }
int variant_index(const char *name)
{
  int i;
  for (i = 0; i < n_variants; i++) if (!strcmp(variants[i].name, name)) return i;
  return -1;
}

static unsigned cpu_limit = 10, wall_limit = 100;
size_t tls_size;
static int find_tls(struct dl_phdr_info *i, size_t n, void *d)
{
  int k;
  (void)n; (void)d;
  for (k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls_size = i->dlpi_phdr[k].p_memsz; return 1; }
  return 0;
}
void still_alive(void)          /* a long run goes on */
{
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = cpu_limit;
  setitimer(ITIMER_PROF, &it, 0);
  alarm(wall_limit);
  timers_moved(wall_limit, cpu_limit);
}
static void run_child(const char *plan)
{
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = cpu_limit;
  setitimer(ITIMER_PROF, &it, 0);
  install_handlers();
  dl_iterate_phdr(find_tls, 0);
  alarm(wall_limit);
  while (plan[0] == '#') { const char *e = strchr(plan, '\n'); if (!e) break; plan = e + 1; }
  if (plan[0] == 'M') mach_run(plan);
  else if (plan[0] == 'C') chain_run(plan);
  else infra("unknown plan");
  R->status = ST_OK;
  _exit(0);
}
static unsigned slowest;        /* CPU time of the slowest run, ms */
static void run_plan(const char *plan)
{
  struct rusage ru;
  pid_t p;
  int st;
  R->status = ST_RUNNING; R->hash = 0; R->sched = 0; R->nsw = 0; R->cls[0] = R->msg[0] = R->sample[0] = 0;
  memset(R->c, 0, sizeof R->c);
  p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (!p) run_child(plan);
  while (wait4(p, &st, 0, &ru) < 0 && errno == EINTR) ;
  {
    unsigned ms = (unsigned)(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000 + (unsigned)(ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1000;
    if (ms > slowest) slowest = ms;
  }
  if (R->status == ST_RUNNING) {
    R->status = ST_INFRA;
    snprintf(R->cls, sizeof R->cls, "infra");
    snprintf(R->msg, sizeof R->msg, "run ended without a result (status %#x)", st);
  }
}
/* did the run contain what the property is about? */
static int nontrivial(const char *p)
{
  const volatile uint64_t *c = R->c;
  uint64_t link = c[K_DROP] + c[K_DUP] + c[K_REORDER] + c[K_FLIP] + c[K_TRUNC] + c[K_PARTITION] + c[K_CRASH] + c[K_STALL] + c[K_ECMLOSS] + c[K_OOMKEY];
  if (R->status != ST_OK || c[C_CALLS] < 2) return 0;
  switch (atoi(p + 1)) {
  case 1: return c[K_INTACT] > 0 && link + c[K_KEYFLUSH] + c[K_DEADLINE] > 0;
  case 2: return c[K_BATCH] > 1 && c[K_PARTIAL] > 0 && link + c[K_KEYFLUSH] + c[K_SHORT] > 0;
  case 3: return c[C_PREEMPT] > 0;
  case 4: return c[C_PREEMPT] + c[C_REUSE] + c[C_LOOPITER] > 0 || c[C_CALLS] >= 8;
  case 5: return c[C_ALLOCFAIL] + c[C_FREENULL] > 0 || c[C_ALLOCS] > 0;
  case 6: return c[C_FREES] + c[C_ALLOCFAIL] > 0;
  case 7: return c[C_NEIGHBOUR] + c[C_PREEMPT] > 0;
  case 8: return c[C_ABANDON] + c[C_KILL] > 0;
  case 9: return c[C_NEST] > 0;
  case 10: return c[K_OVERLEN] > 0;
  case 11: return c[C_FPMODE] > 1;
  case 12: return c[C_STALL] > 0;
  case 18: return c[C_FORK] > 0;
  case 19: return c[C_SIGNAL] + c[C_SNAP] > 1;
  case 21: return c[C_LATE] + c[C_EARLY] + c[C_AFTEREXIT] > 0;
  case 20: return c[C_SMALLSTK] > 0;
  case 22: return c[C_WORKCHK] > 0;
  case 13: return c[C_GARBAGE_STACK] + c[C_GARBAGE_HEAP] + c[C_REUSE] + c[C_PREEMPT] + c[C_LOOPITER] > 0;
  }
  return 0;
}
static char *gen(const char *prop, uint64_t seed, int tier)
{
  return mach_is(prop) ? mach_gen(prop, seed, tier) : chain_gen(prop, seed, tier);
}
static uint64_t now_ms(void)
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (uint64_t)ts.tv_sec * 1000 + (uint64_t)ts.tv_nsec / 1000000;
}
static void report(const char *tag, uint64_t seed)
{
  printf("%s seed=%llu status=%d hash=%016llx sched=%016llx cls=%s msg=%s\n", tag, (unsigned long long)seed, R->status,
         (unsigned long long)R->hash, (unsigned long long)R->sched, R->cls[0] ? R->cls : "-", R->msg);
}

int main(int argc, char **argv)
{
  setvbuf(stdout, 0, _IOLBF, 0);
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(0xffffffff) != -1 && personality((unsigned long)personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  {
    struct rlimit rl;
    if (!getrlimit(RLIMIT_CORE, &rl)) { rl.rlim_cur = 0; setrlimit(RLIMIT_CORE, &rl); }
  }
  if (getenv("SIM_CPU")) {
    cpu_set_t s, have;
    int want = atoi(getenv("SIM_CPU")), i, n = 0;
    if (!sched_getaffinity(0, sizeof have, &have)) {
      int tot = CPU_COUNT(&have);
      if (tot > 0) {
        want %= tot;
        for (i = 0; i < CPU_SETSIZE; i++)
          if (CPU_ISSET(i, &have) && n++ == want) { CPU_ZERO(&s); CPU_SET(i, &s); sched_setaffinity(0, sizeof s, &s); break; }
      }
    }
  }
  if (getenv("SIM_CPULIMIT")) cpu_limit = (unsigned)atoi(getenv("SIM_CPULIMIT"));
  R = mmap(0, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  R->status = ST_RUNNING;
  if (argc < 2) return 3;
  dict_load(argv[0]);
  if (!strcmp(argv[1], "run") && argc >= 3) {
    FILE *f = fopen(argv[2], "r");
    size_t n = 0, cap = 1 << 16;
    char *s = malloc(cap);
    size_t k;
    if (!f) { perror(argv[2]); return 3; }
    while ((k = fread(s + n, 1, cap - n - 1, f)) > 0) { n += k; if (n + 1 >= cap) { cap *= 2; s = realloc(s, cap); } }
    s[n] = 0;
    fclose(f);
    run_plan(s);
    report("R", 0);
    return 0;
  }
  if (!strcmp(argv[1], "cal")) return mach_calibrate(argv[0], 1);
  if (argc < 5) return 3;
  {
    const char *prop = argv[2];
    uint64_t seed = strtoull(argv[3], 0, 10);
    int tier;
    if (!strcmp(argv[1], "gen") || !strcmp(argv[1], "record")) {
      char *p;
      tier = atoi(argv[4]);
      if (mach_is(prop)) mach_calibrate(argv[0], 0);
      p = gen(prop, seed, tier);
      if (!strcmp(argv[1], "gen")) { fputs(p, stdout); return 0; }
      run_plan(p);
      report("R", seed);
      if (p[0] == 'M') {
        uint32_t i;
        char *nl = strchr(p, '\n');
        printf("%.*s replay=1%s", (int)(nl - p), p, nl);
        for (i = 0; i < R->nsw; i++)
          printf("S th=%u to=%u op=%u step=%u w=%u\n", R->sw[i].th, R->sw[i].to, R->sw[i].op, R->sw[i].step, R->sw[i].why);
      } else
        fputs(p, stdout);
      return 0;
    }
    if (!strcmp(argv[1], "work") && argc >= 7) {
      uint64_t count = strtoull(argv[4], 0, 10), i, maxms = strtoull(argv[6], 0, 10), t0 = now_ms(), runs = 0, viol = 0;
      uint64_t tot[NCTR];
      static int varruns[64];
      memset(tot, 0, sizeof tot);
      tier = atoi(argv[5]);
      if (mach_is(prop)) mach_calibrate(argv[0], 0);
      for (i = 0; i < count; i++) {
        char *p, vb[32];
        int k, v;
        if (now_ms() - t0 > maxms) break;
        p = gen(prop, seed + i, tier);
        run_plan(p);
        runs++;
        for (k = 0; k < NCTR; k++) tot[k] += R->c[k];
        kv(p, "var", vb, sizeof vb);
        v = variant_index(vb);
        if (v >= 0) varruns[v]++;
        printf("H %llu %016llx %016llx %d\n", (unsigned long long)(seed + i), (unsigned long long)R->hash, (unsigned long long)R->sched, nontrivial(prop));
        if (R->status != ST_OK) {
          report("V", seed + i);
          if (R->status == ST_VIOL && ++viol >= 3) break;
          if (R->status == ST_INFRA && ++viol >= 20) break;
        }
        free(p);
      }
      printf("E runs=%llu ms=%llu\n", (unsigned long long)runs, (unsigned long long)(now_ms() - t0));
      printf("X %u\n", slowest);
      for (i = 0; i < NCTR; i++) if (tot[i]) printf("N %s %llu\n", ctr_name[i], (unsigned long long)tot[i]);
      for (i = 0; i < (uint64_t)n_variants && i < 64; i++) if (varruns[i]) printf("W %s %d\n", variants[i].name, varruns[i]);
      return 0;
    }
  }
  return 3;
}
