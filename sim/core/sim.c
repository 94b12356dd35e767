// Deterministic simulation core and run driver. Every run executes in a forked child, so all static state of the
// code under test is fresh; the child communicates through shared memory only.
#define _GNU_SOURCE
#include "sim.h"
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>

// the real clock, for budgets of the driver only (the code under test sees the virtual clock)
static int wall_clock(struct timespec* t) { return (int) syscall(SYS_clock_gettime, CLOCK_MONOTONIC, t); }

typedef struct {
  char     name[40];
  uint64_t count;
} named_t;

enum { ST_NONE = 0,
       ST_OK,
       ST_VIOLATION,
       ST_ERROR };

typedef struct {
  uint32_t status;
  char     kind[160];
  char     text[1024];
  uint64_t hash;
  uint64_t events;
  uint64_t checks;
  uint64_t sim_ms;
  uint32_t tape_len;
  uint32_t tape[SIM_TAPE_MAX];
  uint32_t tape_n[SIM_TAPE_MAX];
  uint32_t fault_cnt;
  named_t  faults[SIM_FAULTS_MAX];
  uint32_t stat_cnt;
  named_t  stats[SIM_FAULTS_MAX];
  uint32_t state_cnt;
  uint64_t states[SIM_STATES_MAX];
  uint64_t state_hash;
  uint32_t trace_len;
  char     trace[SIM_TRACE_MAX];
} result_t;

static result_t* R;
static sim_cfg_t cfg;
static uint64_t  g_seed;
static uint64_t  g_prng[4];
static bool      g_replay   = false;
static uint32_t* g_rtape    = NULL;
static uint32_t  g_rlen     = 0;
static bool      g_verbose  = false;
static bool      g_faults   = true;
static uint64_t  g_swarm    = 0;
static uint64_t  g_start_ms = 0;
static int       g_cpu_limit = 20;
uint64_t         sim_now_ms = 1700000000000ull;

static uint64_t splitmix(uint64_t* x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
  z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t        prng_next(void) {
  uint64_t r = rotl(g_prng[1] * 5, 7) * 9, t = g_prng[1] << 17;
  g_prng[2] ^= g_prng[0];
  g_prng[3] ^= g_prng[1];
  g_prng[1] ^= g_prng[2];
  g_prng[0] ^= g_prng[3];
  g_prng[2] ^= t;
  g_prng[3] = rotl(g_prng[3], 45);
  return r;
}
uint64_t sim_hash(uint64_t h, const void* data, size_t len) {
  const uint8_t* d = data;
  if (!h) h = 1469598103934665603ull;
  for (size_t i = 0; i < len; i++) {
    h ^= d[i];
    h *= 1099511628211ull;
  }
  return h;
}
uint64_t sim_stream(const char* name) {
  uint64_t h = sim_hash(0, name, strlen(name));
  h ^= g_seed * 0x9e3779b97f4a7c15ull;
  splitmix(&h);
  return h;
}
uint64_t sim_rand(uint64_t* stream) { return splitmix(stream); }
void     sim_fill(uint64_t* s, uint8_t* out, size_t len) {
  for (size_t i = 0; i < len; i += 8) {
    uint64_t v = splitmix(s);
    memcpy(out + i, &v, len - i < 8 ? len - i : 8);
  }
}
static void seed_all(uint64_t seed) {
  g_seed     = seed;
  uint64_t x = seed * 0xd1342543de82ef95ull + 12345;
  for (int i = 0; i < 4; i++) g_prng[i] = splitmix(&x);
  g_swarm    = 0;
  sim_now_ms = 1700000000000ull;
  g_start_ms = sim_now_ms;
  g_faults   = true;
}
static void named_add(named_t* t, uint32_t* cnt, const char* name, uint64_t n) {
  for (uint32_t i = 0; i < *cnt; i++)
    if (strcmp(t[i].name, name) == 0) {
      t[i].count += n;
      return;
    }
  if (*cnt < SIM_FAULTS_MAX) {
    snprintf(t[*cnt].name, sizeof(t[0].name), "%s", name);
    t[(*cnt)++].count = n;
  }
}
static uint32_t tape_next(uint32_t n, uint32_t drawn) {
  uint32_t pos = R->tape_len, v = drawn;
  if (g_replay) v = pos < g_rlen ? g_rtape[pos] : 0;
  if (v >= n) v = n ? v % n : 0;
  if (pos < SIM_TAPE_MAX) {
    R->tape[pos]   = v;
    R->tape_n[pos] = n;
    R->tape_len++;
  }
  else if (g_replay || pos >= SIM_TAPE_MAX)
    v = 0; // a run longer than the tape continues without faults, the same in record and replay mode
  return v;
}
static void trace_put(const char* s, size_t l) {
  if (R->trace_len + l + 1 < SIM_TRACE_MAX) {
    memcpy(R->trace + R->trace_len, s, l);
    R->trace_len += l;
    R->trace[R->trace_len] = 0;
  }
}
uint32_t sim_choose(uint32_t n, const char* label) {
  if (n <= 1) return 0;
  uint32_t v = tape_next(n, (uint32_t) (prng_next() % n));
  R->hash    = sim_hash(R->hash, label, strlen(label));
  R->hash    = sim_hash(R->hash, &v, 4);
  return v;
}
bool sim_chance(uint32_t permille, const char* label) {
  uint32_t v = tape_next(2, (prng_next() % 1000) < permille ? 1 : 0);
  R->hash    = sim_hash(R->hash, label, strlen(label));
  R->hash    = sim_hash(R->hash, &v, 4);
  return v;
}
bool sim_faults_on(void) { return g_faults; }
void sim_heal(void) {
  if (g_faults) sim_log("-- faults stop --");
  g_faults = false;
}
void sim_fault_count(const char* kind) { named_add(R->faults, &R->fault_cnt, kind, 1); }
bool sim_fault(const char* kind, uint32_t permille) {
  if (!g_faults) return false;
  if (!g_swarm) g_swarm = sim_stream("swarm") | 1;
  // swarm testing: per run and fault kind one of: off, normal, heavy
  uint64_t h = sim_hash(g_swarm, kind, strlen(kind));
  h          = splitmix(&h) % 8;
  if (h < 3) permille = 0;
  else if (h == 7) permille = permille * 4 > 700 ? 700 : permille * 4;
  if (!sim_chance(permille, kind)) return false;
  sim_fault_count(kind);
  sim_log("fault %s", kind);
  return true;
}
void sim_advance(uint64_t ms) { sim_now_ms += ms; }
void sim_log(const char* fmt, ...) {
  char    line[640];
  va_list ap;
  va_start(ap, fmt);
  int l = vsnprintf(line, sizeof(line) - 2, fmt, ap);
  va_end(ap);
  if (l > (int) sizeof(line) - 3) l = sizeof(line) - 3;
  line[l++] = '\n';
  line[l]   = 0;
  if (!R->events) g_start_ms = sim_now_ms; // the setup of a run places its clock
  R->hash   = sim_hash(R->hash, line, l);
  R->events++;
  trace_put(line, l);
  if (g_verbose) {
    fwrite(line, 1, l, stdout);
    fflush(stdout);
  }
}
void sim_log_data(const char* tag, const void* data, size_t len) {
  sim_log("%s len=%zu h=%016llx", tag, len, (unsigned long long) sim_hash(0, data, len));
}
void sim_state(uint64_t h) {
  if (R->state_cnt < SIM_STATES_MAX) R->states[R->state_cnt++] = h;
  R->state_hash = sim_hash(R->state_hash, &h, 8);
}
void        sim_checked(uint32_t n) { R->checks += n; }
void        sim_stat(const char* name, uint64_t n) { named_add(R->stats, &R->stat_cnt, name, n); }
bool        sim_verbose(void) { return g_verbose; }
uint64_t    sim_seed(void) { return g_seed; }
const char* sim_prop(void) { return cfg.prop; }
bool        sim_is(const char* p) { return strcmp(cfg.prop, p) == 0; }
static void finish(uint32_t status) {
  R->sim_ms = sim_now_ms > g_start_ms ? sim_now_ms - g_start_ms : 0;
  R->status = status;
  fflush(stdout);
  _exit(0);
}
void sim_violation(const char* kind, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->text, sizeof(R->text), fmt, ap);
  va_end(ap);
  snprintf(R->kind, sizeof(R->kind), "%s", kind);
  sim_log("VIOLATED %s: %s", kind, R->text);
  finish(ST_VIOLATION);
  abort();
}
void sim_error(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->text, sizeof(R->text), fmt, ap);
  va_end(ap);
  snprintf(R->kind, sizeof(R->kind), "harness");
  sim_log("ERROR %s", R->text);
  finish(ST_ERROR);
  abort();
}
void sim_done(void) {
  finish(ST_OK);
  abort();
}

// ---------------------------------------------------------------------------------- driver
static char g_errfile[256];

static void json_str(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c == '\n') fprintf(f, "\\n");
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

// sanitizer report -> stable kind
static void parse_crash(int wstatus) {
  char  buf[65536];
  int   fd = open(g_errfile, O_RDONLY);
  if (fd >= 0 && lseek(fd, -(off_t) (sizeof(buf) - 1), SEEK_END) < 0) lseek(fd, 0, SEEK_SET); // the report is at the end
  int   l  = fd >= 0 ? (int) read(fd, buf, sizeof(buf) - 1) : 0;
  if (fd >= 0) close(fd);
  if (l < 0) l = 0;
  buf[l]     = 0;
  char what[64] = "crash", func[80] = "?";
  char* s    = strstr(buf, "ERROR: AddressSanitizer: ");
  if (s) {
    s += strlen("ERROR: AddressSanitizer: ");
    int i = 0;
    while (i < 60 && (isalnum((unsigned char) *s) || *s == '-')) what[i++] = *s++;
    what[i] = 0;
    if (!strcmp(what, "attempting")) strcpy(what, strstr(s, "double-free") ? "double-free" : "bad-free");
    char* p = strstr(buf, "/repo/"); // first frame within the code under test
    if (p) {
      // "#3 0x... in func /repo/..."
      char* in = p;
      while (in > buf && in[-1] != '\n' && !(in[0] == ' ' && in > buf + 3 && !strncmp(in - 3, " in", 3))) in--;
      if (*in == ' ') {
        in++;
        int k = 0;
        while (k < 70 && in[k] && in[k] != ' ' && in[k] != '\n') { func[k] = in[k]; k++; }
        func[k] = 0;
      }
    }
  }
  else if ((s = strstr(buf, "runtime error: "))) {
    strcpy(what, "ubsan");
    snprintf(func, sizeof(func), "%.70s", s + 15);
    char* nl = strchr(func, '\n');
    if (nl) *nl = 0;
  }
  else if (WIFSIGNALED(wstatus)) {
    if (WTERMSIG(wstatus) == SIGXCPU || WTERMSIG(wstatus) == SIGVTALRM) strcpy(what, "cpu-limit");
    else snprintf(what, sizeof(what), "signal-%d", WTERMSIG(wstatus));
  }
  else if (WIFEXITED(wstatus))
    snprintf(what, sizeof(what), "exit-%d", WEXITSTATUS(wstatus));
  if (!strcmp(what, "cpu-limit"))
    snprintf(R->kind, sizeof(R->kind), "no-termination");
  else
    snprintf(R->kind, sizeof(R->kind), "crash:%s:%s", what, func);
  R->status = ST_VIOLATION;
  char* cut = strstr(buf, "ERROR: AddressSanitizer");
  if (!cut) cut = strstr(buf, "runtime error: ");
  snprintf(R->text, sizeof(R->text), "process died (%s) %.900s", what, cut ? cut : buf);
}

static void run_child(uint64_t seed) {
  struct rlimit rl = {g_cpu_limit, g_cpu_limit + 5};
  setrlimit(RLIMIT_CPU, &rl);
  if (!g_verbose) {
    int fd = open(g_errfile, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) {
      dup2(fd, 2);
      dup2(fd, 1);
      close(fd);
    }
  }
  seed_all(seed);
  sim_run(&cfg);
  finish(ST_OK);
}

static void run_one(uint64_t seed) {
  memset(R, 0, offsetof(result_t, tape));
  R->fault_cnt = R->stat_cnt = R->state_cnt = R->trace_len = 0;
  R->state_hash = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    run_child(seed);
    _exit(0);
  }
  int ws = 0;
  while (waitpid(p, &ws, 0) < 0 && errno == EINTR) {}
  if (R->status == ST_NONE) parse_crash(ws);
}

static void write_result(FILE* f, uint64_t seed, bool full) {
  fprintf(f, "{\"seed\":%llu,\"status\":\"%s\",\"kind\":", (unsigned long long) seed, R->status == ST_OK ? "ok" : R->status == ST_VIOLATION ? "violation" : "error");
  json_str(f, R->kind);
  fprintf(f, ",\"text\":");
  json_str(f, R->text);
  fprintf(f, ",\"hash\":\"%016llx\",\"events\":%llu,\"checks\":%llu,\"sim_ms\":%llu,\"decisions\":%u", (unsigned long long) R->hash,
          (unsigned long long) R->events, (unsigned long long) R->checks, (unsigned long long) R->sim_ms, R->tape_len);
  if (full) {
    uint32_t n = R->tape_len;
    while (n && R->tape[n - 1] == 0) n--;
    fprintf(f, ",\"tape\":[");
    for (uint32_t i = 0; i < n; i++) fprintf(f, "%s%u", i ? "," : "", R->tape[i]);
    fprintf(f, "],\"faults\":{");
    for (uint32_t i = 0; i < R->fault_cnt; i++) {
      if (i) fputc(',', f);
      json_str(f, R->faults[i].name);
      fprintf(f, ":%llu", (unsigned long long) R->faults[i].count);
    }
    fprintf(f, "},\"trace\":");
    json_str(f, R->trace);
  }
  fprintf(f, "}\n");
  fflush(f);
}

// ------- aggregated statistics of a worker
static named_t  a_faults[SIM_FAULTS_MAX], a_stats[SIM_FAULTS_MAX];
static uint32_t a_fc, a_sc;
#define SETCAP (1u << 21)
static uint64_t *set_states, *set_runs;
static uint64_t  n_states, n_runs;
static bool      set_add(uint64_t* set, uint64_t* n, uint64_t v) {
  if (!v) v = 1;
  if (*n > SETCAP * 3 / 4) return false;
  uint64_t i = (v * 0x9e3779b97f4a7c15ull) >> 43;
  while (set[i & (SETCAP - 1)]) {
    if (set[i & (SETCAP - 1)] == v) return false;
    i++;
  }
  set[i & (SETCAP - 1)] = v;
  (*n)++;
  return true;
}

static bool same_failure(const char* kind) { return R->status == ST_VIOLATION && strcmp(R->kind, kind) == 0; }

// delta debugging on the decision tape: truncate, zero chunks, lower single values
static void minimise(uint64_t seed, const char* kind, double budget) {
  struct timespec t0, t1;
  wall_clock(&t0);
#define LEFT() (wall_clock(&t1), (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9 < budget)
  uint32_t  len = R->tape_len;
  uint32_t* cur = malloc(sizeof(uint32_t) * (len + 1));
  uint32_t* tmp = malloc(sizeof(uint32_t) * (len + 1));
  memcpy(cur, R->tape, sizeof(uint32_t) * len);
  g_replay = true;
#define TRY(arr, l) (g_rtape = (arr), g_rlen = (l), run_one(seed), same_failure(kind))
  // truncate
  uint32_t lo = 0, hi = len;
  while (lo < hi && LEFT()) {
    uint32_t mid = (lo + hi) / 2;
    if (TRY(cur, mid)) hi = mid;
    else lo = mid + 1;
  }
  if (hi < len && TRY(cur, hi)) len = hi;
  for (uint32_t chunk = len / 2 ? len / 2 : 1; chunk >= 1 && LEFT(); chunk /= 2) {
    for (uint32_t i = 0; i < len && LEFT(); i += chunk) {
      uint32_t e   = i + chunk < len ? i + chunk : len;
      bool     any = false;
      for (uint32_t k = i; k < e; k++) any |= cur[k] != 0;
      if (!any) continue;
      memcpy(tmp, cur, sizeof(uint32_t) * len);
      for (uint32_t k = i; k < e; k++) tmp[k] = 0;
      if (TRY(tmp, len)) memcpy(cur, tmp, sizeof(uint32_t) * len);
      else if (chunk <= 64) { // removing the chunk
        memcpy(tmp, cur, sizeof(uint32_t) * i);
        memcpy(tmp + i, cur + e, sizeof(uint32_t) * (len - e));
        if (TRY(tmp, len - (e - i))) {
          len -= e - i;
          memcpy(cur, tmp, sizeof(uint32_t) * len);
          i = i >= chunk ? i - chunk : 0;
        }
      }
    }
    if (chunk == 1) break;
  }
  for (uint32_t i = 0; i < len && LEFT(); i++) {
    if (cur[i] > 1) {
      memcpy(tmp, cur, sizeof(uint32_t) * len);
      tmp[i] = 1;
      if (TRY(tmp, len)) cur[i] = 1;
    }
  }
  while (len && cur[len - 1] == 0) len--;
  g_rtape = cur;
  g_rlen  = len;
  run_one(seed);
}

int main(int argc, char** argv) {
  uint64_t    base = 1, count = 100, step = 1;
  double      max_s   = 600, min_budget = 30;
  const char *out = NULL, *replay = NULL, *known = "", *cmd = "run";
  cfg.prop = "";
  cfg.tier = "quick";
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--prop")) cfg.prop = argv[++i];
    else if (!strcmp(argv[i], "--tier")) cfg.tier = argv[++i];
    else if (!strcmp(argv[i], "--base")) base = strtoull(argv[++i], NULL, 10);
    else if (!strcmp(argv[i], "--count")) count = strtoull(argv[++i], NULL, 10);
    else if (!strcmp(argv[i], "--step")) step = strtoull(argv[++i], NULL, 10);
    else if (!strcmp(argv[i], "--max-seconds")) max_s = atof(argv[++i]);
    else if (!strcmp(argv[i], "--cpu-limit")) g_cpu_limit = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--known")) known = argv[++i]; // newline separated kinds which do not stop the search
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i], cmd = "replay";
    else if (!strcmp(argv[i], "--min-seconds")) min_budget = atof(argv[++i]);
    else if (!strcmp(argv[i], "--minimise")) cmd = "minimise";
    else if (!strcmp(argv[i], "-v")) g_verbose = true;
    else {
      fprintf(stderr, "unknown option %s\n", argv[i]);
      return 2;
    }
  }
  R = mmap(NULL, sizeof(result_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  snprintf(g_errfile, sizeof(g_errfile), "%s/simerr.%d", getenv("SIM_TMP") ? getenv("SIM_TMP") : "/tmp", getpid());
  FILE* o = out ? fopen(out, "w") : stdout;
  if (!o) return 2;
  seed_all(0); // the same world in every worker
  sim_warmup(&cfg);

  if (!strcmp(cmd, "replay")) { // file: seed, number of decisions, decisions
    FILE* f = fopen(replay, "r");
    unsigned long long seed;
    unsigned n;
    if (!f || fscanf(f, "%llu %u", &seed, &n) != 2) return 2;
    g_rtape = calloc(n + 1, 4);
    for (unsigned i = 0; i < n; i++)
      if (fscanf(f, "%u", &g_rtape[i]) != 1) return 2;
    fclose(f);
    g_rlen   = n;
    g_replay = true;
    run_one(seed);
    write_result(o, seed, true);
    unlink(g_errfile);
    return R->status == ST_OK ? 0 : R->status == ST_VIOLATION ? 1 : 2;
  }
  if (!strcmp(cmd, "minimise")) {
    run_one(base);
    if (R->status == ST_VIOLATION) {
      char kind[160];
      strcpy(kind, R->kind);
      minimise(base, kind, min_budget);
    }
    write_result(o, base, true);
    unlink(g_errfile);
    return R->status == ST_OK ? 0 : R->status == ST_VIOLATION ? 1 : 2;
  }

  set_states = mmap(NULL, SETCAP * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  set_runs   = mmap(NULL, SETCAP * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  madvise(set_states, SETCAP * 8, MADV_DONTFORK);
  madvise(set_runs, SETCAP * 8, MADV_DONTFORK);
  struct timespec t0, t1;
  wall_clock(&t0);
  uint64_t runs = 0, events = 0, checks = 0, sim_ms = 0, decisions = 0, nontrivial = 0, det = 0, det_bad = 0, known_hits = 0;
  for (uint64_t i = 0; i < count; i++) {
    wall_clock(&t1);
    if ((t1.tv_sec - t0.tv_sec) > max_s) break;
    uint64_t seed = base + i * step;
    run_one(seed);
    runs++;
    events += R->events;
    checks += R->checks;
    sim_ms += R->sim_ms;
    decisions += R->tape_len;
    for (uint32_t k = 0; k < R->fault_cnt; k++) named_add(a_faults, &a_fc, R->faults[k].name, R->faults[k].count);
    for (uint32_t k = 0; k < R->stat_cnt; k++) named_add(a_stats, &a_sc, R->stats[k].name, R->stats[k].count);
    for (uint32_t k = 0; k < R->state_cnt; k++) set_add(set_states, &n_states, R->states[k]);
    if (set_add(set_runs, &n_runs, R->hash) && R->checks && R->events > 3) nontrivial++;
    if (R->status == ST_ERROR) {
      write_result(o, seed, true);
      break;
    }
    if (R->status == ST_VIOLATION) {
      bool  is_known = false;
      char* l        = strdup(known);
      for (char* k = strtok(l, "\n"); k; k = strtok(NULL, "\n"))
        if (!strcmp(k, R->kind)) is_known = true;
      free(l);
      if (is_known) {
        known_hits++;
        write_result(o, seed, false);
        continue;
      }
      write_result(o, seed, true);
      break;
    }
    if (i < 2) write_result(o, seed, true); // samples
    if (getenv("SIM_DET") || i % 64 == 3) {                      // determinism: the same seed has to give the same history
      uint64_t h = R->hash;
      run_one(seed);
      det++;
      if (R->hash != h || R->status != ST_OK) {
        det_bad++;
        fprintf(o, "{\"nondeterministic\":%llu}\n", (unsigned long long) seed);
      }
    }
  }
  fprintf(o, "{\"summary\":{\"runs\":%llu,\"events\":%llu,\"checks\":%llu,\"sim_ms\":%llu,\"decisions\":%llu,\"distinct_runs\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"det\":%llu,\"det_bad\":%llu,\"known\":%llu,\"faults\":{",
          (unsigned long long) runs, (unsigned long long) events, (unsigned long long) checks, (unsigned long long) sim_ms, (unsigned long long) decisions,
          (unsigned long long) n_runs, (unsigned long long) nontrivial, (unsigned long long) n_states, (unsigned long long) det, (unsigned long long) det_bad, (unsigned long long) known_hits);
  for (uint32_t i = 0; i < a_fc; i++) {
    if (i) fputc(',', o);
    json_str(o, a_faults[i].name);
    fprintf(o, ":%llu", (unsigned long long) a_faults[i].count);
  }
  fprintf(o, "},\"stats\":{");
  for (uint32_t i = 0; i < a_sc; i++) {
    if (i) fputc(',', o);
    json_str(o, a_stats[i].name);
    fprintf(o, ":%llu", (unsigned long long) a_stats[i].count);
  }
  fprintf(o, "},\"state_hashes\":[");
  uint32_t w = 0;
  for (uint32_t i = 0; i < SETCAP && w < 200000; i++)
    if (set_states[i]) fprintf(o, "%s%llu", w++ ? "," : "", (unsigned long long) set_states[i]);
  fprintf(o, "]}}\n");
  fflush(o);
  unlink(g_errfile);
  return 0;
}
