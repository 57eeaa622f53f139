#include "core.h"
#include <cstdarg>
#include <queue>
#include <unistd.h>
static void printable(char* p) { for (; *p; p++) if (*p < 32 || *p > 126) *p = '.'; }

const char* const g_counterNames[CT_COUNT] = {
#define X(n) #n,
  COUNTERS(X)
#undef X
};
const char* const g_evNames[EV_COUNT] = {
#define X(n) #n,
  EVENTS(X)
#undef X
};
Result* R;
bool g_verbose, g_sanVariant;

static bool g_replay;
static const uint32_t* g_rep;
static uint32_t g_repN, g_repI;
static uint64_t g_rng;

static uint64_t rng() {
  uint64_t z = (g_rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
void choicesStartRandom(uint64_t seed) { g_replay = false; g_rng = seed; R->nchoices = 0; }
void choicesStartReplay(const uint32_t* p, uint32_t n) { g_replay = true; g_rep = p; g_repN = n; g_repI = 0; R->nchoices = 0; }
static uint32_t draw(uint64_t n) {   // n up to 2^32
  uint32_t v;
  if (R->nchoices >= MAX_CHOICES) return 0;
  if (g_replay) { v = g_repI < g_repN ? g_rep[g_repI++] : 0; v = (uint32_t)(v % n); }
  else v = (uint32_t)(rng() % n);
  R->choices[R->nchoices++] = v;
  return v;
}
uint32_t pick(uint32_t n) { return n <= 1 ? 0 : draw(n); }
uint32_t pick32() { return draw(0x100000000ull); }
bool chance(uint32_t permille) {
  if (permille == 0) return false;
  return draw(1000) >= 1000 - permille;
}

static Ev g_last = EV_none;
static void mix(uint64_t& h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
void ev(Ev e) {
  mix(R->sched, e);
  uint32_t b = g_last * EV_COUNT + e;
  R->bigrams[b / 64] |= 1ull << (b % 64);
  g_last = e;
  static bool trace = getenv("SIM_TRACE") != NULL;
  if (trace && g_verbose) printf("%10llu us  .%s\n", (unsigned long long)g_now, g_evNames[e]);
}
void hashBytes(const void* p, size_t n) {
  uint64_t h = R->hash;
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
  R->hash = h;
}
static void vlog(const char* tag, const char* fmt, va_list ap) {
  char buf[1024];
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  uint64_t t = g_now;
  hashBytes(&t, sizeof t);
  hashBytes(buf, n);
  printable(buf);
  if (g_verbose) printf("%10llu us  %-10s %s\n", (unsigned long long)g_now, tag, buf);
}
void evlog(Ev e, const char* fmt, ...) { ev(e); va_list ap; va_start(ap, fmt); vlog(g_evNames[e], fmt, ap); va_end(ap); }
void note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vlog("note", fmt, ap); va_end(ap); }

static void finish(Verdict v) {
  R->simTimeUs = g_now;
  R->verdict = v;
  fflush(stdout);
  _exit(0);
}
void knownFinding(int bit, const char* f, ...) {
  char b[512];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  const char* k = getenv("SIM_KNOWN");
  std::string all = std::string(",") + (k ? k : "") + ",", want = std::string(",") + g_knownNames[bit] + ",";
  if (all.find(want) == std::string::npos) violation(g_knownNames[bit], "%s", b);
  R->known |= 1u << bit;
  count(CT_p_known_finding);
}
void violation(const char* kind, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  snprintf(R->kind, sizeof R->kind, "%s", kind);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  printable(R->msg);
  if (g_verbose) printf("%10llu us  VIOLATION  [%s] %s\n", (unsigned long long)g_now, R->kind, R->msg);
  finish(V_VIOLATION);
  __builtin_unreachable();
}
void harnessError(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  snprintf(R->kind, sizeof R->kind, "harness");
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  if (g_verbose) printf("HARNESS ERROR %s\n", R->msg);
  finish(V_HARNESS);
  __builtin_unreachable();
}
void runOk() { finish(V_OK); __builtin_unreachable(); }

uint64_t g_now;
uint64_t g_stepCap = 30000000;
const char* g_stepCapKind = "livelock";
namespace {
struct Event { uint64_t t, seq; std::function<void()> fn; };
struct Later { bool operator()(const Event& a, const Event& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
std::priority_queue<Event, std::vector<Event>, Later> g_q;
uint64_t g_seq;
}
void at(uint64_t when, std::function<void()> fn) { g_q.push(Event{when < g_now ? g_now : when, g_seq++, std::move(fn)}); }
bool nextEventTime(uint64_t* t) { if (g_q.empty()) return false; *t = g_q.top().t; return true; }
bool runNextEvent() {
  if (g_q.empty()) return false;
  Event e = g_q.top();
  g_q.pop();
  if (e.t > g_now) g_now = e.t;
  e.fn();
  return true;
}
void runDueEvents() { while (!g_q.empty() && g_q.top().t <= g_now) runNextEvent(); }
void step(uint32_t n) {
  R->steps += n;
  if (R->steps > g_stepCap)
    violation(g_stepCapKind, "no termination: %llu simulated system calls without the run ending", (unsigned long long)R->steps);
}
