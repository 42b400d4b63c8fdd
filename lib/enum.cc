#include "enum.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <stdarg.h>

#include <memory>
#include <string>
#include <vector>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:abort_on_error=1:"
         "allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0:quarantine_size_mb=16:max_allocation_size_mb=4000";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:abort_on_error=1:print_stacktrace=0"; }

namespace en {

namespace {

constexpr int MAX_VIOL = 64;
constexpr int MAX_SAMPLES = 8;
constexpr uint64_t NSET = 1 << 22;
constexpr int MAX_WORKERS = 64;

struct violation {
  volatile int ready;
  uint64_t unit;
  char key[600];
  char desc[3000];
};

struct shared {
  volatile uint64_t next, evals, distinct, done_units;
  volatile int capped, nviol, nsamples;
  volatile int set_full;
  struct {
    volatile uint64_t units, us;
  } fam[64];
  violation viol[MAX_VIOL];
  char samples[MAX_SAMPLES][2000];
  struct {
    volatile uint64_t unit;
    volatile double started;
    volatile int busy;
    char tag[400];
  } w[MAX_WORKERS];
  volatile uint64_t set[NSET];
};

shared* S;
bool is_thorough = false;
int seed_ = 1;
int worker = 0;
uint64_t cur_unit;
bool unit_failed;
int unit_samples;
bool single = false;
bool in_unit = false;

double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void record(uint64_t unit, const char* key, const char* desc) {
  // Same key: only once.
  int n = S->nviol;
  for (int i = 0; i < n && i < MAX_VIOL; ++i)
    if (S->viol[i].ready && !strcmp(S->viol[i].key, key)) return;
  int k = __sync_fetch_and_add(&S->nviol, 1);
  if (k >= MAX_VIOL) {
    S->nviol = MAX_VIOL;
    return;
  }
  violation& v = S->viol[k];
  v.unit = unit;
  snprintf(v.key, sizeof(v.key), "%s", key);
  snprintf(v.desc, sizeof(v.desc), "%s", desc);
  __sync_synchronize();
  v.ready = 1;
}

void crash(int sig, siginfo_t*, void*) {
  if (in_unit) {
    char key[600], desc[700];
    snprintf(key, sizeof(key), "crash unit %llu", (unsigned long long)cur_unit);
    snprintf(desc, sizeof(desc), "crash (signal %d: %s) while: %s", sig, strsignal(sig), S->w[worker].tag);
    record(cur_unit, key, desc);
    if (single) {
      printf("FAIL key=%s desc=%s\n", key, desc);
      fflush(stdout);
    }
    _exit(7);
  }
  _exit(9);
}

void install() {
  stack_t ss;
  ss.ss_sp = mmap(0, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 1 << 17;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP};
  for (int i : sigs) sigaction(i, &sa, nullptr);
}

void run_one(const space& s, uint64_t u) {
  cur_unit = u;
  unit_failed = false;
  unit_samples = 0;
  S->w[worker].unit = u;
  S->w[worker].tag[0] = 0;
  S->w[worker].started = now();
  S->w[worker].busy = 1;
  in_unit = true;
  s.run(u);
  in_unit = false;
  S->w[worker].busy = 0;
}

std::string json_escape(const char* p) {
  std::string r;
  for (; *p; ++p) {
    unsigned char c = *p;
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}

// The workers take the units in an order that mixes the families.
uint64_t order(uint64_t i, uint64_t n) {
  static uint64_t k = 0;
  if (!k) {
    auto gcd = [](uint64_t a, uint64_t b) {
      while (b) {
        uint64_t t = a % b;
        a = b;
        b = t;
      }
      return a;
    };
    k = (uint64_t)(n * 0.6180339887) | 1;
    while (gcd(k, n) != 1) ++k;
  }
  return (uint64_t)((unsigned __int128)i * k % n);
}

pid_t spawn(const space& s, int w, uint64_t n, double deadline, uint64_t chunk) {
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid) return pid;
  worker = w;
  install();
  int fd = open("/dev/null", O_WRONLY);
  if (!getenv("VERIF_VERBOSE")) {
    dup2(fd, 2);
    dup2(fd, 1);
  }
  while (true) {
    uint64_t b = __sync_fetch_and_add(&S->next, chunk);
    if (b >= n) break;
    for (uint64_t u = b; u < b + chunk && u < n; ++u) {
      if (now() > deadline) {
        S->capped = 1;
        _exit(0);
      }
      if (S->nviol >= MAX_VIOL) _exit(0);
      run_one(s, order(u, n));
      __sync_fetch_and_add(&S->done_units, 1);
    }
  }
  _exit(0);
}

// Runs one unit in a fresh child. Returns 0 fine, 1 failed, 2 hang.
int run_alone(const space& s, uint64_t u, double timeout) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    install();
    if (!getenv("VERIF_VERBOSE")) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
    }
    single = true;
    worker = MAX_WORKERS - 1;
    run_one(s, u);
    fflush(stdout);
    _exit(unit_failed ? 1 : 0);
  }
  double t0 = now();
  while (true) {
    int st;
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) {
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
      return 1;
    }
    if (now() - t0 > timeout) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return 2;
    }
    usleep(2000);
  }
}

}  // namespace

bool thorough() { return is_thorough; }
int seed() { return seed_; }
void eval(uint64_t n) { __sync_fetch_and_add(&S->evals, n); }
void nontrivial(uint64_t h) {
  if (!h) h = 1;
  uint64_t i = h & (NSET - 1);
  for (int k = 0; k < 64; ++k) {
    uint64_t o = S->set[i];
    if (o == h) return;
    if (o == 0) {
      o = __sync_val_compare_and_swap(&S->set[i], 0, h);
      if (o == 0) {
        __sync_fetch_and_add(&S->distinct, 1);
        return;
      }
      if (o == h) return;
    }
    i = (i + 1) & (NSET - 1);
  }
  S->set_full = 1;
}
bool want_sample() { return S->nsamples < MAX_SAMPLES && unit_samples == 0; }
void sample(const std::string& s) {
  if (!want_sample()) return;
  unit_samples = 1;
  int k = __sync_fetch_and_add(&S->nsamples, 1);
  if (k < MAX_SAMPLES) snprintf(S->samples[k], sizeof(S->samples[k]), "%s", s.c_str());
}
void fail(const std::string& key, const std::string& desc) {
  unit_failed = true;
  record(cur_unit, key.c_str(), desc.c_str());
  if (single) printf("FAIL key=%s desc=%s\n", key.c_str(), desc.c_str());
}
bool failed() { return unit_failed; }
void tag(const char* what) { snprintf(S->w[worker].tag, sizeof(S->w[worker].tag), "%s", what); }

std::string fmt(const char* f, ...) {
  char b[4000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof(b), f, ap);
  va_end(ap);
  return b;
}

space families(const char* property, const char* rule, std::function<std::vector<family>()> make, double unit_timeout) {
  auto fs = std::make_shared<std::vector<family>>();
  auto find = [fs](uint64_t u) {
    size_t i = 0;
    while (u >= (*fs)[i].n) u -= (*fs)[i++].n;
    return std::make_pair(i, u);
  };
  space s;
  s.property = property;
  s.rule = rule;
  s.init = [fs, make]() {
    *fs = make();
    uint64_t n = 0;
    for (auto& f : *fs) n += f.n;
    return n;
  };
  s.run = [fs, find](uint64_t u) {
    auto p = find(u);
    double t = now();
    (*fs)[p.first].run(p.second);
    int i = p.first < 64 ? p.first : 63;
    __sync_fetch_and_add(&S->fam[i].units, 1);
    __sync_fetch_and_add(&S->fam[i].us, (uint64_t)((now() - t) * 1e6));
  };
  s.stats = [fs]() {
    std::string r;
    for (size_t i = 0; i < fs->size() && i < 64; ++i)
      r += fmt("%s\"%s\":{\"units\":%llu,\"done\":%llu,\"cpu_s\":%.1f}", i ? "," : "", (*fs)[i].name.c_str(), (unsigned long long)(*fs)[i].n, (unsigned long long)S->fam[i].units, S->fam[i].us * 1e-6);
    return r;
  };
  s.describe = [fs, find](uint64_t u) {
    auto p = find(u);
    const family& f = (*fs)[p.first];
    return f.name + " " + (f.describe ? f.describe(p.second) : std::to_string(p.second));
  };
  s.unit_timeout = unit_timeout;
  return s;
}

int main_driver(int argc, char** argv, const space& s) {
  const char *out = nullptr, *rdir = ".";
  double budget = 60;
  int jobs = 8;
  if (const char* j = getenv("VERIF_JOBS")) jobs = atoi(j);
  int64_t unit = -1;
  int a = 2;
  if (argc >= 3 && !strcmp(argv[1], "unit")) {
    unit = atoll(argv[2]);
    a = 3;
  }
  for (int i = a; i + 1 < argc; i += 2) {
    if (!strcmp(argv[i], "--tier")) is_thorough = !strcmp(argv[i + 1], "thorough");
    else if (!strcmp(argv[i], "--out")) out = argv[i + 1];
    else if (!strcmp(argv[i], "--replay-dir")) rdir = argv[i + 1];
    else if (!strcmp(argv[i], "--budget")) budget = atof(argv[i + 1]);
    else if (!strcmp(argv[i], "--seed")) seed_ = atoi(argv[i + 1]);
    else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[i + 1]);
  }
  double t0 = now();
  S = (shared*)mmap(0, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const uint64_t n = s.init();
  if (unit >= 0) {
    if ((uint64_t)unit >= n) {
      fprintf(stderr, "no such unit\n");
      return 3;
    }
    printf("unit %lld: %s\n", (long long)unit, s.describe((uint64_t)unit).c_str());
    setenv("VERIF_VERBOSE", "1", 1);
    int r = run_alone(s, unit, s.unit_timeout * 4);
    if (r == 2) printf("FAIL key=hang unit %lld\n", (long long)unit);
    return r ? 1 : 0;
  }
  uint64_t chunk = n / (jobs * 64);
  if (chunk < 1) chunk = 1;
  if (chunk > 64) chunk = 64;
  const double deadline = t0 + budget;
  std::vector<pid_t> pids(jobs);
  int crashes = 0, live = jobs, errors = 0;
  for (int w = 0; w < jobs; ++w) pids[w] = spawn(s, w, n, deadline, chunk);
  while (live > 0) {
    usleep(5000);
    for (int w = 0; w < jobs; ++w) {
      if (!pids[w]) continue;
      int st;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) {
        pids[w] = 0;
        --live;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 7) {
          // Crashed and recorded. The rest of its chunk is lost: not exhaustive.
        } else if (S->w[w].busy && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
          char key[100];
          snprintf(key, sizeof(key), "crash unit %llu", (unsigned long long)S->w[w].unit);
          record(S->w[w].unit, key, "the process ended unexpectedly");
        } else {
          // Killed from outside (out of memory?): not a verdict about the property.
          ++errors;
        }
        if (++crashes < 24) {
          pids[w] = spawn(s, w, n, deadline, chunk);
          ++live;
        } else {
          S->capped = 1;
        }
      } else if (S->w[w].busy && now() - S->w[w].started > s.unit_timeout) {
        uint64_t u = S->w[w].unit;
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &st, 0);
        pids[w] = 0;
        --live;
        // Alone, with more time.
        if (run_alone(s, u, s.unit_timeout * 3) == 2) {
          char key[100];
          snprintf(key, sizeof(key), "hang unit %llu", (unsigned long long)u);
          record(u, key, "does not terminate");
        }
        if (++crashes < 24) {
          pids[w] = spawn(s, w, n, deadline, chunk);
          ++live;
        } else {
          S->capped = 1;
        }
      }
    }
  }
  int nv = S->nviol < MAX_VIOL ? S->nviol : MAX_VIOL;
  bool capped = S->capped || crashes || nv >= MAX_VIOL;
  FILE* f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"units\":%llu,\"units_done\":%llu,\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"exhaustive\":%s,",
      (unsigned long long)n, (unsigned long long)S->done_units, (unsigned long long)S->evals,
      (unsigned long long)S->distinct, capped || S->done_units != n ? "false" : "true");
  if (s.stats) fprintf(f, "\"families\":{%s},", s.stats().c_str());
  fprintf(f, "\"rule\":\"%s\",\"samples\":[", json_escape(s.rule).c_str());
  int ns = S->nsamples < MAX_SAMPLES ? S->nsamples : MAX_SAMPLES;
  for (int i = 0; i < ns; ++i) fprintf(f, "%s\"%s\"", i ? "," : "", json_escape(S->samples[i]).c_str());
  fprintf(f, "],\"violations\":[");
  int confirmed = 0;
  for (int i = 0; i < nv; ++i) {
    violation& v = S->viol[i];
    if (!v.ready) continue;
    // Confirm the first ones by running the unit alone, twice.
    if (i < 6 && strncmp(v.key, "hang", 4)) {
      int saved = S->nviol;
      int out_fd = dup(1);
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      int r1 = run_alone(s, v.unit, s.unit_timeout * 3);
      int r2 = run_alone(s, v.unit, s.unit_timeout * 3);
      dup2(out_fd, 1);
      close(out_fd);
      close(fd);
      S->nviol = saved;
      if (r1 == 0 || r2 == 0) {
        fprintf(stderr, "unit %llu failed once but not alone: %s %s\n", (unsigned long long)v.unit, v.key, v.desc);
        ++errors;
        continue;
      }
    }
    std::string d = s.describe(v.unit);
    fprintf(f, "%s{\"unit\":%llu,\"key\":\"%s\",\"desc\":\"%s\",\"unit_desc\":\"%s\"}", confirmed ? "," : "",
        (unsigned long long)v.unit, json_escape(v.key).c_str(), json_escape(v.desc).c_str(),
        json_escape(d.c_str()).c_str());
    ++confirmed;
  }
  fprintf(f, "],\"errors\":%d,\"wall_s\":%.2f}\n", errors, now() - t0);
  if (out) fclose(f);
  fprintf(stderr, "%s: units %llu/%llu evals %llu distinct %llu violations %d errors %d %s%.1fs\n", s.property,
      (unsigned long long)S->done_units, (unsigned long long)n, (unsigned long long)S->evals,
      (unsigned long long)S->distinct, confirmed, errors, capped ? "(capped) " : "", now() - t0);
  (void)rdir;
  if (confirmed) return 1;
  return errors ? 3 : 0;
}

}  // namespace en
