// Driver: forks one process per simulated run from a warmed-up zygote, so that every run starts from identical state.
//   sim run    ID BASESEED START COUNT WORKERS SECONDS MAXVIOL   explore; JSON summary on stdout
//   sim seed   ID SEED [-v]                                       one run from its seed
//   sim replay ID FILE [-v]                                       one run from a recorded choice list
//   sim min    ID SEED OUT SECONDS                                reproduce, minimise, write the choice list
//   sim list
#include "scenario.h"
#include "loader.h"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>

static std::map<std::string, ScenarioFn>& scen() { static std::map<std::string, ScenarioFn> m; return m; }
void addScenario(const char* id, ScenarioFn fn) { scen()[id] = fn; }

extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=77:abort_on_error=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:print_legend=0:symbolize=0:print_full_thread_history=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=77:symbolize=0"; }
extern "C" void __asan_init(void) __attribute__((weak));

static uint64_t mix64(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t runSeed(uint64_t base, const char* id, uint64_t i) {
  uint64_t h = mix64(base + 0x9E3779B97F4A7C15ull);
  for (const char* p = id; *p; p++) h = mix64(h ^ (unsigned char)*p);
  return mix64(h + i * 0x9E3779B97F4A7C15ull);
}
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Result* newResult() {
  Result* r = (Result*)mmap(NULL, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (r == MAP_FAILED) { perror("mmap"); exit(2); }
  return r;
}
static void clearResult() { memset((void*)R, 0, offsetof(Result, choices)); }

static int g_errFd = -1;
static uint32_t g_cpuLimit = 20;
// Runs one scenario in a child. seed mode if rep == NULL.
static void oneRun(ScenarioFn fn, uint64_t seed, const std::vector<uint32_t>* rep, bool verbose) {
  clearResult();
  if (g_errFd < 0) g_errFd = memfd_create("err", MFD_CLOEXEC);
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    dup2(g_errFd, 2);
    g_verbose = verbose;
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = g_cpuLimit; rl.rlim_max = g_cpuLimit + 5;
    setrlimit(RLIMIT_CPU, &rl);
    if (rep) choicesStartReplay(rep->data(), rep->size());
    else choicesStartRandom(seed);
    g_heap.fill = 0xA5;
    fn();
    runOk();
  }
  int st;
  while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(2); }
  off_t el = lseek(g_errFd, 0, SEEK_END);
  std::string err;
  if (el > 0) {
    err.resize(el > 8192 ? 8192 : el);
    ssize_t g = pread(g_errFd, &err[0], err.size(), 0);
    if (g >= 0) err.resize(g);
    if (ftruncate(g_errFd, 0)) {}
    lseek(g_errFd, 0, SEEK_SET);
  }
  if (R->verdict == V_RUNNING) {
    char* kind = (char*)R->kind;
    if (WIFSIGNALED(st)) {
      int s = WTERMSIG(st);
      R->verdict = V_VIOLATION;
      if (s == SIGXCPU) { strcpy(kind, "cpu-loop"); strcpy(R->msg, "endless computation: CPU time limit reached"); }
      else if (s == SIGKILL) { R->verdict = V_HARNESS; strcpy(kind, "killed"); strcpy(R->msg, "simulated run was killed from outside"); }
      else if (s == SIGTRAP) { strcpy(kind, "crash-uncaught"); strcpy(R->msg, "exception thrown with no handler (debug break)"); }
      else { snprintf(kind, 64, "crash-%s", s == SIGSEGV ? "segv" : s == SIGABRT ? "abort" : s == SIGFPE ? "fpe" : s == SIGBUS ? "bus" : s == SIGILL ? "ill" : "signal"); snprintf(R->msg, sizeof R->msg, "the process died with signal %d", s); }
    } else if (WEXITSTATUS(st) == 77 || err.find("Sanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos) {
      R->verdict = V_VIOLATION;
      size_t p = err.find("AddressSanitizer: "), e;
      if (p != std::string::npos) {
        p += 18;
        e = err.find_first_of(" \n:", p);
        snprintf(kind, 64, "asan-%s", err.substr(p, e - p).c_str());
      } else strcpy(kind, "ubsan");
      p = err.find(p != std::string::npos ? "ERROR: " : "runtime error");
      if (p == std::string::npos) p = 0;
      std::string m = err.substr(p, 300);
      for (auto& c : m) if (c == '\n') c = ' ';
      snprintf(R->msg, sizeof R->msg, "%s", m.c_str());
    } else {
      R->verdict = V_HARNESS;
      strcpy(kind, "harness");
      snprintf(R->msg, sizeof R->msg, "run ended with status %d without a verdict: %.300s", st, err.c_str());
    }
  }
}

struct Rec { uint64_t i, hash, sched, simTime, steps, seed; uint32_t verdict, nontrivial, nchoices, known; uint32_t counters[CT_COUNT]; };
struct Viol { uint64_t i, seed, hash; std::string kind, msg; uint32_t verdict, nch; };

static std::string js(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
struct Shared { volatile int stop; volatile uint64_t bigrams[EV_COUNT * EV_COUNT / 64 + 1]; };

static bool readAll(int fd, void* p, size_t n) {
  char* c = (char*)p;
  while (n) { ssize_t k = read(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= k; }
  return true;
}
static void writeAll(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) { ssize_t k = write(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) _exit(3); c += k; n -= k; }
}

static int cmdRun(const char* id, uint64_t base, uint64_t start, uint64_t cnt, int W, double secs, int maxViol) {
  ScenarioFn fn = scen()[id];
  Shared* sh = (Shared*)mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<int> fds;
  std::vector<pid_t> pids;
  double t0 = wall();
  // One pipe per worker keeps records whole and ordered.
  for (int w = 0; w < W; w++) {
    int p[2];
    if (pipe(p)) { perror("pipe"); return 2; }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (pid == 0) {
      close(p[0]);
      for (int f : fds) close(f);
      R = newResult();
      for (uint64_t i = start + w; i < start + cnt && !sh->stop; i += W) {
        if (secs > 0 && wall() - t0 > secs) break;
        uint64_t seed = runSeed(base, id, i);
        oneRun(fn, seed, NULL, false);
        Rec r;
        memset(&r, 0, sizeof r);
        r.i = i; r.hash = R->hash; r.sched = R->sched; r.simTime = R->simTimeUs; r.steps = R->steps; r.seed = seed;
        r.verdict = R->verdict; r.nontrivial = R->nontrivial; r.nchoices = R->nchoices; r.known = R->known;
        memcpy(r.counters, R->counters, sizeof r.counters);
        for (size_t k = 0; k < sizeof sh->bigrams / 8; k++) if (R->bigrams[k] & ~sh->bigrams[k]) __sync_fetch_and_or(&sh->bigrams[k], R->bigrams[k]);
        writeAll(p[1], &r, sizeof r);
        if (r.verdict != V_OK) { writeAll(p[1], R->kind, sizeof R->kind); writeAll(p[1], R->msg, sizeof R->msg); }
      }
      _exit(0);
    }
    close(p[1]);
    fds.push_back(p[0]);
    pids.push_back(pid);
  }
  uint64_t runs = 0, nontriv = 0, steps = 0, simt = 0, digest = 0, maxSteps = 0, known = 0;
  uint64_t counters[CT_COUNT] = {0}, runsWith[CT_COUNT] = {0};
  std::unordered_set<uint64_t> scheds, hashes;
  std::vector<Viol> viols;
  uint64_t nviol = 0, nharness = 0;
  std::vector<bool> open(W, true);
  int nopen = W;
  bool died = false;
  while (nopen) {
    fd_set rs;
    FD_ZERO(&rs);
    int mx = 0;
    for (int w = 0; w < W; w++) if (open[w]) { FD_SET(fds[w], &rs); if (fds[w] > mx) mx = fds[w]; }
    if (select(mx + 1, &rs, NULL, NULL, NULL) < 0) { if (errno == EINTR) continue; break; }
    for (int w = 0; w < W; w++) {
      if (!open[w] || !FD_ISSET(fds[w], &rs)) continue;
      Rec r;
      if (!readAll(fds[w], &r, sizeof r)) {
        open[w] = false;
        nopen--;
        int st;
        waitpid(pids[w], &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) died = true;
        continue;
      }
      runs++;
      steps += r.steps;
      if (r.steps > maxSteps) maxSteps = r.steps;
      simt += r.simTime;
      known |= r.known;
      nontriv += r.nontrivial;
      for (int k = 0; k < CT_COUNT; k++) { counters[k] += r.counters[k]; if (r.counters[k]) runsWith[k]++; }
      scheds.insert(r.sched);
      if (r.nontrivial) hashes.insert(r.hash);
      digest += mix64(mix64(r.i + 1) ^ r.hash ^ (uint64_t)r.verdict << 56);
      if (r.verdict != V_OK) {
        Viol v;
        char kind[64], msg[2048];
        readAll(fds[w], kind, sizeof kind);
        readAll(fds[w], msg, sizeof msg);
        v.i = r.i; v.seed = r.seed; v.hash = r.hash; v.kind = kind; v.msg = msg; v.verdict = r.verdict; v.nch = r.nchoices;
        if (r.verdict == V_HARNESS) nharness++; else nviol++;
        if (viols.size() < 400) viols.push_back(v);
        if ((int)(nviol + nharness) >= maxViol) sh->stop = 1;
      }
    }
  }
  double el = wall() - t0;
  std::sort(viols.begin(), viols.end(), [](const Viol& a, const Viol& b) { return a.i < b.i; });
  size_t bits = 0;
  for (size_t k = 0; k < sizeof sh->bigrams / 8; k++) bits += __builtin_popcountll(sh->bigrams[k]);
  printf("{\"id\":%s,\"runs\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"distinct_schedules\":%zu,\"event_bigrams\":%zu,"
         "\"steps\":%llu,\"max_steps\":%llu,\"sim_us\":%llu,\"wall_s\":%.3f,\"digest\":\"%016llx\",\"violations\":%llu,\"harness_errors\":%llu,\"worker_died\":%s,\"known\":%llu,",
         js(id).c_str(), (unsigned long long)runs, (unsigned long long)nontriv, hashes.size(), scheds.size(), bits,
         (unsigned long long)steps, (unsigned long long)maxSteps, (unsigned long long)simt, el, (unsigned long long)digest,
         (unsigned long long)nviol, (unsigned long long)nharness, died ? "true" : "false", (unsigned long long)known);
  printf("\"counters\":{");
  bool first = true;
  for (int k = 0; k < CT_COUNT; k++) if (counters[k]) { printf("%s\"%s\":[%llu,%llu]", first ? "" : ",", g_counterNames[k], (unsigned long long)counters[k], (unsigned long long)runsWith[k]); first = false; }
  printf("},\"found\":[");
  for (size_t k = 0; k < viols.size(); k++)
    printf("%s{\"i\":%llu,\"seed\":\"%llu\",\"hash\":\"%016llx\",\"verdict\":%u,\"choices\":%u,\"kind\":%s,\"msg\":%s}", k ? "," : "",
           (unsigned long long)viols[k].i, (unsigned long long)viols[k].seed, (unsigned long long)viols[k].hash, viols[k].verdict, viols[k].nch,
           js(viols[k].kind).c_str(), js(viols[k].msg).c_str());
  printf("]}\n");
  return died ? 2 : 0;
}

static void printResult() {
  printf("verdict=%s kind=%s hash=%016llx choices=%u steps=%llu simtime_us=%llu nontrivial=%u\nmessage=%s\n",
         R->verdict == V_OK ? "ok" : R->verdict == V_VIOLATION ? "violation" : "harness", (char*)R->kind, (unsigned long long)R->hash, R->nchoices,
         (unsigned long long)R->steps, (unsigned long long)R->simTimeUs, R->nontrivial, (char*)R->msg);
}
static std::vector<uint32_t> takeChoices() { return std::vector<uint32_t>(R->choices, R->choices + R->nchoices); }

static int cmdMin(const char* id, uint64_t seed, const char* out, double secs) {
  ScenarioFn fn = scen()[id];
  oneRun(fn, seed, NULL, false);
  if (R->verdict != V_VIOLATION) { printf("not-reproduced\n"); return 3; }
  std::string kind = R->kind;
  uint64_t h0 = R->hash;
  std::vector<uint32_t> best = takeChoices();
  oneRun(fn, seed, NULL, false);
  // Same schedule, same verdict; SIM_LENIENT accepts contents which differ, as from memory nobody initialised.
  bool lenient = getenv("SIM_LENIENT") != NULL;
  if (R->verdict != V_VIOLATION || kind != R->kind || (R->hash != h0 && !lenient)) { printf("not-deterministic\n"); return 3; }
  oneRun(fn, 0, &best, false);
  if (R->verdict != V_VIOLATION || kind != R->kind || (R->hash != h0 && !lenient)) { printf("choice-replay-differs\n"); return 3; }
  size_t orig = best.size();
  double t0 = wall();
  uint32_t evals = 0;
  g_cpuLimit = 25;
  auto out_of_time = [&] { return wall() - t0 > secs || evals > 6000; };
  auto tryIt = [&](const std::vector<uint32_t>& c) {
    evals++;
    oneRun(fn, 0, &c, false);
    if (R->verdict != V_VIOLATION || kind != R->kind) return false;
    std::vector<uint32_t> n = takeChoices();
    if (n.size() > c.size()) n.resize(c.size());     // defaults beyond the list
    while (!n.empty() && n.back() == 0) n.pop_back();
    if (n.size() > best.size()) return false;
    uint64_t a = 0, b = 0;
    for (uint32_t v : n) a += v ? 1 + (v > 15) : 0;
    for (uint32_t v : best) b += v ? 1 + (v > 15) : 0;
    if (n.size() == best.size() && a > b) return false;
    if (n == best) return false;
    best = n;
    return true;
  };
  // cut the tail (defaults take over)
  for (size_t step = best.size() / 2; step >= 1 && !out_of_time(); step /= 2) {
    while (best.size() > step && !out_of_time()) { std::vector<uint32_t> c(best.begin(), best.end() - step); if (!tryIt(c)) break; }
    if (step == 1) break;
  }
  bool improved = true;
  for (int round = 0; improved && round < 6 && !out_of_time(); round++) {
    improved = false;
    for (size_t blk = best.size() / 2 ? best.size() / 2 : 1; blk >= 1 && !out_of_time(); blk /= 2) {
      for (size_t i = 0; i < best.size() && !out_of_time();) {
        std::vector<uint32_t> c = best;
        size_t e = i + blk < c.size() ? i + blk : c.size();
        c.erase(c.begin() + i, c.begin() + e);
        if (tryIt(c)) { improved = true; continue; }
        c = best;
        e = i + blk < c.size() ? i + blk : c.size();
        bool nz = false;
        for (size_t k = i; k < e; k++) { if (c[k]) nz = true; c[k] = 0; }
        if (nz && tryIt(c)) improved = true;
        i += blk;
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < best.size() && !out_of_time(); i++) {
      for (uint32_t v : {best[i] / 2, best[i] > 1000 ? best[i] & 0xFF : best[i] - 1}) {
        if (i >= best.size() || best[i] == 0 || v >= best[i]) continue;
        std::vector<uint32_t> c = best;
        c[i] = v;
        if (tryIt(c)) improved = true;
      }
    }
  }
  oneRun(fn, 0, &best, false);
  uint64_t h = R->hash;
  if (R->verdict != V_VIOLATION || kind != R->kind) { printf("minimised-differs\n"); return 3; }
  std::string msg = R->msg;
  oneRun(fn, 0, &best, false);
  if (R->verdict != V_VIOLATION || kind != R->kind || (R->hash != h && !lenient)) { printf("minimised-not-deterministic\n"); return 3; }
  FILE* f = fopen(out, "w");
  if (!f) { perror(out); return 2; }
  fprintf(f, "property %s\nvariant %s\nseed %llu\nkind %s\nhash %016llx\noriginal-choices %zu\nminimised-choices %zu\nmessage %s\nchoices", id,
          g_sanVariant ? "san" : "opt", (unsigned long long)seed, kind.c_str(), (unsigned long long)h, orig, best.size(), msg.c_str());
  for (uint32_t v : best) fprintf(f, " %u", v);
  fprintf(f, "\n");
  fclose(f);
  printf("minimised %zu -> %zu choices in %u runs\n", orig, best.size(), evals);
  return 0;
}

int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR_DONE")) {
    setenv("SIM_NOASLR_DONE", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (argc < 2) return 2;
  std::string cmd = argv[1];
  if (cmd == "list") { for (auto& s : scen()) printf("%s\n", s.first.c_str()); return 0; }
  if (argc < 4 || !scen().count(argv[2])) { fprintf(stderr, "unknown scenario\n"); return 2; }
  g_sanVariant = __asan_init != NULL;
  const char* img = getenv("SIM_MRI_IMAGE");
  static char def[4096];
  if (!img) {
    ssize_t n = readlink("/proc/self/exe", def, sizeof def - 80);
    if (n <= 0) { fprintf(stderr, "SIM_MRI_IMAGE not set\n"); return 2; }
    def[n] = 0;
    *strrchr(def, '/') = 0;
    strcat(def, "/../../mri/shipped/crashdebug-1.7-lin64.img");
    img = def;
  }
  loadMri(img);
  R = newResult();
  bool v = argc > 4 && !strcmp(argv[argc - 1], "-v");
  if (cmd == "run" && argc >= 9)
    return cmdRun(argv[2], strtoull(argv[3], NULL, 0), strtoull(argv[4], NULL, 0), strtoull(argv[5], NULL, 0), atoi(argv[6]), atof(argv[7]), atoi(argv[8]));
  if (cmd == "seed") { oneRun(scen()[argv[2]], strtoull(argv[3], NULL, 0), NULL, v); printResult(); return R->verdict == V_OK ? 0 : R->verdict == V_VIOLATION ? 1 : 2; }
  if (cmd == "idx" && argc >= 5) { oneRun(scen()[argv[2]], runSeed(strtoull(argv[3], NULL, 0), argv[2], strtoull(argv[4], NULL, 0)), NULL, v); printResult(); return 0; }
  if (cmd == "replay") {
    FILE* f = fopen(argv[3], "r");
    if (!f) { perror(argv[3]); return 2; }
    std::vector<uint32_t> c;
    char line[1 << 12];
    char w[64];
    while (fscanf(f, "%63s", w) == 1) {
      if (strcmp(w, "choices")) { if (!fgets(line, sizeof line, f)) break; continue; }
      unsigned x;
      while (fscanf(f, "%u", &x) == 1) c.push_back(x);
      break;
    }
    fclose(f);
    oneRun(scen()[argv[2]], 0, &c, v);
    printResult();
    return R->verdict == V_OK ? 0 : R->verdict == V_VIOLATION ? 1 : 2;
  }
  if (cmd == "min" && argc >= 6) return cmdMin(argv[2], strtoull(argv[3], NULL, 0), argv[4], atof(argv[5]));
  return 2;
}
