// C18-C20: the simulated memory and the test-support injectors driven directly as libraries, by seeded operation
// histories with allocation and file failures, against executable reference models.
#include "scenario.h"
#include <algorithm>
#include <cstdarg>
#include <memory>

extern "C" {
void ms_init(void);
void ms_uninit(void);
int ms_create(uint32_t b, uint32_t s);
int ms_alias(uint32_t b, uint32_t r, uint32_t s);
int ms_readonly(uint32_t b);
int ms_load(uint32_t b, const void* p, uint32_t n);
int ms_flash(const void* p, uint32_t n);
int ms_xml(const char* volatile* pp);
int ms_mapw(uint32_t a, uint32_t n, void* volatile* pp);
int ms_mapr(uint32_t a, uint32_t n, const void* volatile* pp);
int ms_count(uint32_t a, volatile uint32_t* p);
int ms_setbp(uint32_t a, uint32_t n);
int ms_clrbp(uint32_t a, uint32_t n);
int ms_setwp(uint32_t a, uint32_t n, int t);
int ms_clrwp(uint32_t a, uint32_t n, int t);
int ms_hit(void);
int ms_read(uint32_t a, int n, volatile uint32_t* p);
int ms_write(uint32_t a, int n, uint32_t v);
extern const int ms_exc_bus, ms_exc_oom, ms_exc_bp, ms_exc_overrun;
int ms_handlers_balanced(void);
}

// ------------------------------------------------------------------ model of the simulated memory
struct Watch { int type; uint32_t start; uint32_t size; bool operator<(const Watch& o) const { return std::tie(type, start, size) < std::tie(o.type, o.start, o.size); } };
enum { W_BP = 4 };
struct ApiRegion {
  uint32_t base = 0, size = 0;
  std::string data;
  bool ro = false, alias = false, flashShown = false;
  int target = -1;
  uint32_t redirect = 0;
  std::set<Watch> watches;
  std::vector<uint32_t> lo, hi;          // per halfword: bounds on the number of 16-bit reads
};
struct ApiModel {
  std::vector<ApiRegion> r;
  // Index of the region which holds the data and the address translated into it; -1: nothing there.
  int find(uint32_t a, uint32_t n, uint32_t* t) const {
    for (size_t i = 0; i < r.size(); i++)
      if (a >= r[i].base && (uint64_t)a + n <= (uint64_t)r[i].base + r[i].size) {
        if (r[i].alias) { *t = a - r[i].base + r[i].redirect; return r[i].target; }
        *t = a;
        return (int)i;
      }
    return -1;
  }
  void add(uint32_t b, uint32_t s) { ApiRegion q; q.base = b; q.size = s; q.data.assign(s, 0); r.push_back(q); }
  void makeRo(int i) { ApiRegion& q = r[i]; if (q.ro) return; q.ro = q.flashShown = true; q.lo.assign(q.size / 2 + 1, 0); q.hi = q.lo; }
  bool overlaps(uint64_t b, uint64_t s) const { for (auto& q : r) if (b < (uint64_t)q.base + q.size && q.base < b + s) return true; return false; }
};
static ApiModel M;
static const char* excName(int c) {
  static char b[32];
  if (!c) return "success";
  if (c == ms_exc_bus) return "bus error";
  if (c == ms_exc_oom) return "out of memory";
  if (c == ms_exc_bp) return "breakpoint";
  if (c == ms_exc_overrun) return "buffer overrun";
  snprintf(b, sizeof b, "exception %d", c);
  return b;
}
// Arms an allocation failure for the next call with some probability.
static void armAlloc(uint32_t permille) {
  g_heap.anyFailed = false;
  g_heap.capAsked = 0;
  g_heap.failAt.clear();
  g_heap.armed = true;
  if (chance(permille)) { uint32_t n = pick(4); g_heap.failAt.insert(g_heap.calls + (n == 0 ? 1 : n)); }
}
// 'need': memory the operation calls for. Asking for far more and not getting it is no lack of memory.
static bool disarm(uint64_t need = 4096) {
  g_heap.failAt.clear();
  g_heap.armed = false;
  if (g_heap.capAsked > 4 * need + (1u << 20) && 4 * need + g_heap.inUse < g_heap.cap / 2)
    violation("allocation-size", "%llu bytes were asked for in an operation which needs about %llu", (unsigned long long)g_heap.capAsked, (unsigned long long)need);
  return g_heap.anyFailed;
}
static void expectExc(int got, int want, const char* what, uint32_t a, uint32_t n, bool orOom = false) {
  if (orOom && want && got == ms_exc_oom) got = want;          // two reasons to refuse at once: either may be named
  if (!ms_handlers_balanced()) violation("handler-leak", "%s at 0x%08x,%u left an exception handler installed", what, a, n);
  if (got != want) violation("outcome", "%s at 0x%08x,%u ended with %s, expected %s", what, a, n, excName(got), excName(want));
}
static void api(const char* what, uint32_t a, uint32_t n, int rc) { evlog(rc ? EV_apithrow : EV_api, "%s 0x%08x,%u -> %s", what, a, n, excName(rc)); }

// Whole-state comparison: memory map and every byte, without disturbing watchpoints or read counts.
static void compareState(const char* ctx, bool everyByte) {
  const char* volatile x = NULL;
  int rc = ms_xml(&x);
  expectExc(rc, 0, "memory map", 0, 0);
  std::string xml = x;
  hashBytes(xml.data(), xml.size());
  size_t p = 0, k = 0;
  std::vector<bool> listed(M.r.size());
  for (;; k++) {
    p = xml.find("<memory ", p);
    if (p == std::string::npos) break;
    size_t e = xml.find('>', p);
    std::string tag = xml.substr(p, e - p);
    auto attr = [&](const char* n) { size_t q = tag.find(std::string(n) + "=\""); if (q == std::string::npos) violation("xml", "%s: no %s in %s", ctx, n, tag.c_str()); q += strlen(n) + 2; return tag.substr(q, tag.find('"', q) - q); };
    uint32_t st = strtoul(attr("start").c_str(), NULL, 0), len = strtoul(attr("length").c_str(), NULL, 0);
    size_t at = 0;
    while (at < M.r.size() && (listed[at] || M.r[at].base != st || M.r[at].size != len)) at++;
    if (at == M.r.size()) violation("extra-region", "%s: memory map lists 0x%08x+0x%x which should not exist", ctx, st, len);
    listed[at] = true;
    auto& q = M.r[at];
    bool known = !q.alias || q.flashShown == M.r[q.target].ro;      // memory made read only after an alias of it was created: either
    if (known && (attr("type") == "flash") != (q.alias ? q.flashShown : q.ro)) violation("memory-map", "%s: 0x%08x is listed as %s", ctx, st, attr("type").c_str());
    p = e;
  }
  if (k != M.r.size()) violation("lost-region", "%s: memory map lists %zu regions, expected %zu", ctx, k, M.r.size());
  if (!everyByte) return;
  for (auto& q : M.r) {
    for (uint32_t i = 0; i < q.size; i++) {
      uint32_t t;
      int d = M.find(q.base + i, 1, &t);
      const void* volatile pp = NULL;
      int rr = ms_mapr(q.base + i, 1, &pp);
      if (rr) violation("outcome", "%s: 0x%08x is not readable: %s", ctx, q.base + i, excName(rr));
      uint8_t want = M.r[d].data[t - M.r[d].base], got = *(const uint8_t*)pp;
      if (want != got) violation("data", "%s: 0x%08x holds 0x%02x, expected 0x%02x", ctx, q.base + i, got, want);
    }
    if (q.base && !M.overlaps((uint64_t)q.base - 1, 1)) { const void* volatile pp; if (!ms_mapr(q.base - 1, 1, &pp)) violation("outcome", "%s: 0x%08x is readable but not mapped", ctx, q.base - 1); }
    uint64_t e = (uint64_t)q.base + q.size;
    if (e <= 0xFFFFFFFFull && !M.overlaps(e, 1)) { const void* volatile pp; if (!ms_mapr((uint32_t)e, 1, &pp)) violation("outcome", "%s: 0x%08x is readable but not mapped", ctx, (uint32_t)e); }
  }
}
static uint32_t apiBase(uint32_t size) {
  switch (pick(6)) {
    case 0: return 0x20000000 + pick(64) * 4;
    case 1: return 0x10000000 + pick(4096);
    case 2: return (uint32_t)(0x100000000ull - size);                       // ends at the top of memory
    case 3: if (!M.r.empty()) { auto& q = M.r[pick(M.r.size())]; uint64_t e = (uint64_t)q.base + q.size; if (e + size <= 0x100000000ull) { count(CT_p_adjacent_regions); return (uint32_t)e; } } return 0x40000000;
    case 4: return 0;
    default: return pick32();
  }
}
static uint32_t apiSize() { switch (pick(5)) { case 0: return 16; case 1: return 1 + pick(8); case 2: return 4 * (1 + pick(64)); case 3: return 1 + pick(200); default: return 32; } }
static bool tryCreate(uint32_t permille) {
  uint32_t n = apiSize(), b = apiBase(n);
  if ((uint64_t)b + n > 0x100000000ull || M.overlaps(b, n)) return false;
  if ((uint64_t)b + n == 0x100000000ull) count(CT_p_top_of_memory);
  armAlloc(permille);
  int rc = ms_create(b, n);
  bool f = disarm();
  api("create region", b, n, rc);
  expectExc(rc, f ? ms_exc_oom : 0, "create region", b, n);
  if (!rc) M.add(b, n);
  return true;
}
static bool tryAlias(uint32_t permille) {
  uint32_t n = 1 + pick(80), b, red;
  if (pick(12) == 11) n = pick(2) ? 0x7FFFFFF0u + pick(32) : pick(2) ? pick32() : 0u - 1 - pick(100);      // as much as there is
  b = n > 4096 ? apiBase(1 + pick(80)) : apiBase(n);
  if (M.r.empty() || pick(6) == 5) red = pick32();
  else { auto& q = M.r[pick(M.r.size())]; red = q.base + (q.size ? pick(q.size) : 0); }
  uint32_t t = 0;
  int d = M.find(red, 1, &t);
  uint32_t eff = 0;
  if (d >= 0) { uint32_t left = M.r[d].size - (t - M.r[d].base); eff = n < left ? n : left; }
  uint32_t room = d < 0 || eff == 0 ? 1 : eff;
  if ((uint64_t)b + room > 0x100000000ull || M.overlaps(b, room)) return false;
  armAlloc(permille);
  int rc = ms_alias(b, red, n);
  bool f = disarm();
  api("create alias", b, n, rc);
  expectExc(rc, d < 0 ? ms_exc_bus : f ? ms_exc_oom : 0, "create alias", b, n, f);
  if (!rc) {
    ApiRegion q;
    q.base = b; q.size = eff; q.alias = true; q.target = d; q.redirect = t; q.flashShown = M.r[d].ro;
    M.r.push_back(q);
    count(CT_p_alias_access);
    if (eff < n) count(CT_p_alias_clamped);
  }
  return true;
}
static uint32_t someAddress() {
  if (M.r.empty() || pick(8) == 7) return pick32();
  auto& q = M.r[pick(M.r.size())];
  uint32_t n = q.size ? q.size : 1;
  switch (pick(5)) {
    case 0: return q.base + pick(n);
    case 1: return q.base + pick(n < 8 ? n : 8);
    case 2: return q.base + n - 1 - pick(n < 8 ? n : 8);
    case 3: return q.base - 1 - pick(3);
    default: return q.base + n + pick(3);
  }
}
static bool tryReadOnly(uint32_t permille) {
  uint32_t a = someAddress(), t;
  int d = M.find(a, 1, &t);
  armAlloc(permille);
  int rc = ms_readonly(a);
  bool f = disarm();
  api("make read only", a, 1, rc);
  expectExc(rc, d < 0 ? ms_exc_bus : f ? ms_exc_oom : 0, "make read only", a, 1, f);
  if (!rc) M.makeRo(d);
  return true;
}
// IMemory access checked against the model. Returns true when it went through.
enum Tri { NO, YES, MAYBE };
static Tri g_hit;
static void access(bool write, uint32_t a, int n) {
  uint32_t t = 0, v = write ? pick32() : 0, got = 0;
  volatile uint32_t gv = 0;
  int d = M.find(a, n, &t);
  int rc = write ? ms_write(a, n, v) : ms_read(a, n, &gv);
  got = gv;
  api(write ? "write" : "read", a, n, rc);
  int want = 0;
  bool bp = false;
  if (d < 0 || (write && M.r[d].ro)) want = ms_exc_bus;
  else {
    ApiRegion& q = M.r[d];
    bool hit = false;
    for (auto& w : q.watches) {
      bool inside = t >= w.start && (uint64_t)t + n <= (uint64_t)w.start + w.size;
      if (!inside) continue;
      if (w.type == W_BP) { if (!write && n == 2) bp = true; }
      else if (w.type & (write ? 2 : 1)) hit = true;
    }
    if (bp) want = ms_exc_bp;
    if (hit) { g_hit = bp ? (g_hit == YES ? YES : MAYBE) : YES; if (!bp) count(CT_p_wp_hit); }
    if (bp) count(CT_p_bp_hit);
    if (!write && n == 2 && q.ro) { uint32_t h = (t - q.base) / 2; q.hi[h]++; if (!bp) q.lo[h]++; }
  }
  expectExc(rc, want, write ? "write" : "read", a, n);
  if (want || d < 0) return;
  ApiRegion& q = M.r[d];
  if (write) for (int i = 0; i < n; i++) q.data[t - q.base + i] = (char)(v >> (8 * i));
  else {
    uint32_t e = 0;
    for (int i = 0; i < n; i++) e |= (uint32_t)(uint8_t)q.data[t - q.base + i] << (8 * i);
    if (e != got) violation("data", "%d byte read of 0x%08x returned 0x%x, expected 0x%x", n, a, got, e);
  }
}
static void queryHit() {
  int h = ms_hit();
  evlog(EV_api, "hit? -> %d", h != 0);
  if (g_hit != MAYBE && (h != 0) != (g_hit == YES))
    violation("watch-hit", h ? "a watchpoint hit was reported although none of the accesses was watched" : "an access to watched memory was not reported");
  g_hit = NO;
}
static void checkCount(uint32_t a) {
  volatile uint32_t c = 0;
  uint32_t t = 0;
  int d = M.find(a, 2, &t);
  int rc = ms_count(a, &c);
  api("read count", a, 2, rc);
  expectExc(rc, d < 0 || !M.r[d].ro ? ms_exc_bus : 0, "read count", a, 2);
  if (rc) return;
  uint32_t h = (t - M.r[d].base) / 2;
  if (c < M.r[d].lo[h] || c > M.r[d].hi[h]) violation("read-count", "0x%08x was read %u times as a halfword but the count is %u", a, M.r[d].hi[h], (uint32_t)c);
}
static void populate() {
  for (auto& q : M.r) if (!q.alias && q.size) {
    std::string s = genData(q.size);
    int rc = ms_load(q.base, s.data(), s.size());
    expectExc(rc, 0, "load", q.base, q.size);
    q.data = s;
  }
}
static void finish() {
  ms_uninit();
  if (pick(8) == 7) ms_uninit();                    // there is nothing left to release
  if (!g_heap.live.empty()) violation("leak", "%zu allocations (%llu bytes) survive the end of the memory's life", g_heap.live.size(), (unsigned long long)g_heap.inUse);
  if (!ms_handlers_balanced()) violation("handler-leak", "an exception handler is still installed at the end");
  count(CT_p_leakcheck);
  M.r.clear();
}

static void mapAt(bool write, uint32_t a, uint32_t n) {
  uint32_t t;
  int d = M.find(a, n, &t), rc;
  if (write) {
    void* volatile p = NULL;
    rc = ms_mapw(a, n, &p);
    api("map for write", a, n, rc);
    expectExc(rc, d < 0 || M.r[d].ro ? ms_exc_bus : 0, "map for write", a, n);
    if (rc) return;
    std::string s = genData(n);                    // the whole range must be usable
    memcpy((void*)p, s.data(), n);
    M.r[d].data.replace(t - M.r[d].base, n, s);
  } else {
    if (n == 2) n = 3;
    const void* volatile p = NULL;
    d = M.find(a, n, &t);
    rc = ms_mapr(a, n, &p);
    api("map for read", a, n, rc);
    expectExc(rc, d < 0 ? ms_exc_bus : 0, "map for read", a, n);
    if (!rc && memcmp((const void*)p, M.r[d].data.data() + (t - M.r[d].base), n)) violation("data", "mapped range 0x%08x,%u differs", a, n);
  }
}
// A watched place accessed over and over before anybody asks.
static void hitBurst(uint32_t a, bool wr) {
  uint32_t t, times = pick(40) == 39 ? 65536 : 255 + pick(3);
  int d = M.find(a, 1, &t), rc = 0;
  if (d < 0 || (wr && M.r[d].ro)) return;
  bool hit = false;
  for (auto& w : M.r[d].watches) if (w.type != W_BP && (w.type & (wr ? 2 : 1)) && t >= w.start && (uint64_t)t + 1 <= (uint64_t)w.start + w.size) hit = true;
  queryHit();
  volatile uint32_t v;
  uint8_t old = M.r[d].data[t - M.r[d].base];
  for (uint32_t i = 0; i < times && !rc; i++) rc = wr ? ms_write(a, 1, old) : ms_read(a, 1, &v);
  api("burst of accesses", a, times, rc);
  expectExc(rc, 0, "burst of accesses", a, times);
  if (hit) g_hit = YES;
  queryHit();
}
// The same halfword over and over: counts have to stay exact well past 8 and 16 bits.
static void burst(uint32_t a) {
  uint32_t t, times = pick(40) == 39 ? 65600 : 200 + pick(200);
  int d = M.find(a, 2, &t);
  if (d < 0 || !M.r[d].ro) return;
  for (auto& w : M.r[d].watches) if (t >= w.start && (uint64_t)t + 2 <= (uint64_t)w.start + w.size) return;
  int rc = 0;
  volatile uint32_t v;
  for (uint32_t i = 0; i < times && !rc; i++) rc = ms_read(a, 2, &v);
  api("burst of reads", a, times, rc);
  expectExc(rc, 0, "burst of reads", a, times);
  M.r[d].lo[(t - M.r[d].base) / 2] += times;
  M.r[d].hi[(t - M.r[d].base) / 2] += times;
  checkCount(a);
}

// ------------------------------------------------------------------ C18
SCENARIO(C18) {
  envEnterApi();
  uint32_t permille = pick(3) ? 0 : 60;
  for (int life = 1 + pick(3) / 2; life; life--) {
    M = ApiModel();
    g_hit = NO;
    ms_init();
    for (int n = 1 + pick(4), tries = 0; n && tries < 40; tries++) if (tryCreate(0)) n--;
    if (M.r.empty()) { finish(); continue; }
    populate();
    for (int n = pick(3); n; n--) tryAlias(0);
    for (int n = pick(3); n; n--) tryReadOnly(0);
    // a few hot spots so that ranges collide, nest, touch and repeat
    std::vector<std::pair<uint32_t, uint32_t>> spots;
    for (int n = 1 + pick(4); n; n--) {
      auto& q = M.r[pick(M.r.size())];
      if (!q.size) continue;
      uint32_t off = pick(3) == 1 ? (q.size > 16 ? q.size - 16 : 0) : pick(q.size);
      spots.push_back({q.base + off, q.size - off});
    }
    if (spots.empty()) spots.push_back({M.r[0].base, M.r[0].size});
    std::vector<Watch> past;
    int ops = 10 + pick(pick(4) ? 60 : 300);
    int setHeavy = pick(2);
    for (; ops; ops--) {
      auto& sp = spots[pick(spots.size())];
      uint32_t a = sp.first + pick(sp.second < 12 ? sp.second : 12);
      switch (pick(setHeavy ? 9 : 12)) {
        case 0: case 1: case 2: {            // arm
          Watch w;
          w.type = pick(3) == 1 ? W_BP : 1 + pick(3);
          w.size = pick(4) == 1 ? 1 + pick(16) : (1u << pick(4));
          w.start = a;
          if (pick(12) == 11) w.start = someAddress();
          if (!past.empty() && pick(4) == 1) w = past[pick(past.size())];
          uint32_t t;
          int d = M.find(w.start, w.size, &t);
          armAlloc(permille);
          int rc = w.type == W_BP ? ms_setbp(w.start, w.size) : ms_setwp(w.start, w.size, w.type);
          bool f = disarm();
          api(w.type == W_BP ? "set breakpoint" : w.type == 1 ? "set read watch" : w.type == 2 ? "set write watch" : "set access watch", w.start, w.size, rc);
          expectExc(rc, d < 0 ? ms_exc_bus : f ? ms_exc_oom : 0, "set break/watchpoint", w.start, w.size, f);
          if (!rc) { past.push_back(w); count(CT_p_wp_set); nontrivial(); w.start = t; M.r[d].watches.insert(w); }
          break;
        }
        case 3: {                            // disarm
          Watch w;
          if (!past.empty() && pick(5)) w = past[pick(past.size())];
          else { w.type = pick(3) == 1 ? W_BP : 1 + pick(3); w.start = a; w.size = 1u << pick(4); if (pick(8) == 7) w.start = someAddress(); }
          if (pick(10) == 9) w.type = w.type == W_BP ? 1 : (w.type % 3) + 1;     // same range, other kind
          uint32_t t;
          int d = M.find(w.start, w.size, &t);
          int rc = w.type == W_BP ? ms_clrbp(w.start, w.size) : ms_clrwp(w.start, w.size, w.type);
          api("clear break/watchpoint", w.start, w.size, rc);
          expectExc(rc, d < 0 ? ms_exc_bus : 0, "clear break/watchpoint", w.start, w.size);
          if (!rc) { w.start = t; if (M.r[d].watches.erase(w)) count(CT_p_wp_clear); }
          break;
        }
        case 4: queryHit(); break;
        case 5: checkCount(a); break;
        default: {
          int sz = 1 << pick(3);
          bool wr = pick(3) == 1;
          uint32_t at = pick(10) == 9 ? someAddress() : a;
          access(wr, at, sz);
          if (pick(2)) queryHit();
          if (pick(25) == 24) mapAt(wr, at, sz);   // the host looking at memory is not an access of the simulated CPU
          if (pick(60) == 59) burst(at);
          if (pick(60) == 59) hitBurst(at, wr);
        }
      }
    }
    queryHit();
    for (auto& q : M.r) if (!q.alias && q.ro) for (uint32_t i = 0; i + 2 <= q.size && i < 128; i += 1 + pick(2)) checkCount(q.base + i);
    compareState("after the history", true);
    queryHit();
    finish();
  }
}

static void loadAt(uint32_t a, uint32_t n) {
  if ((uint64_t)a + n > 0x100000000ull) n = 1;
  std::string s = genData(n);
  int rc = ms_load(a, s.data(), n);
  api("load", a, n, rc);
  bool all = true;
  uint32_t done = 0, t0;
  // every byte must be mapped; a load which reaches into a second region may be refused, as it is stored in words
  while (done < n && M.find(a + done, 1, &t0) >= 0) done++;
  if (done < n || (M.find(a, n, &t0) < 0 && rc)) all = false;
  expectExc(rc, all ? 0 : ms_exc_bus, "load", a, n);
  // what precedes the failing address may or may not have been stored
  // (an alias can make the same byte the target of several of the values)
  std::map<std::pair<int, uint32_t>, std::set<char>> may;
  for (uint32_t i = 0; i < done; i++) {
    uint32_t t;
    int d = M.find(a + i, 1, &t);
    t -= M.r[d].base;
    if (all) M.r[d].data[t] = s[i];
    else may[{d, t}].insert(s[i]);
  }
  for (auto& m : may) {
    const void* volatile pp = NULL;
    char& old = M.r[m.first.first].data[m.first.second];
    uint32_t at = M.r[m.first.first].base + m.first.second;
    if (ms_mapr(at, 1, &pp)) violation("outcome", "0x%08x is not readable", at);
    char c = *(const char*)pp;
    if (c != old && !m.second.count(c)) violation("data", "a refused load left 0x%02x at 0x%08x", (uint8_t)c, at);
    old = c;
  }
}
// ------------------------------------------------------------------ C16 at the API: aliases of aliases, unaligned accesses
void aliasHistory() {
  envEnterApi();
  M = ApiModel();
  g_hit = NO;
  ms_init();
  for (int n = 1 + pick(4), tries = 0; n && tries < 40; tries++) if (tryCreate(0)) n--;
  if (M.r.empty()) { finish(); return; }
  populate();
  if (pick(3) == 1) tryReadOnly(0);
  for (int n = 1 + pick(6); n; n--) tryAlias(0);
  for (int ops = 10 + pick(pick(4) ? 60 : 300); ops; ops--) {
    size_t before = M.r.size();
    uint32_t a = someAddress();
    if (pick(2)) {                                  // an alias or what it stands for
      const ApiRegion& q = M.r[pick(M.r.size())];
      if (q.alias && q.size) { uint32_t off = pick(q.size); a = (pick(3) == 1 ? q.redirect : q.base) + off; nontrivial(); count(CT_p_alias_access); }
    }
    switch (pick(12)) {
      case 0: tryAlias(0); break;
      case 1: if (pick(4) == 1) tryCreate(0); else if (pick(4) == 1) tryReadOnly(0); break;
      case 2: loadAt(a, pick(4) == 1 ? 1 + pick(100) : 1 + pick(12)); break;
      case 3: mapAt(true, a, 1 + pick(40)); break;
      case 4: mapAt(false, a, 3 + pick(40)); break;
      case 5: checkCount(a); break;
      default: access(pick(2), a, 1 << pick(3));
    }
    if (M.r.size() != before) compareState("after an alias was added", true);
  }
  compareState("at the end", true);
  finish();
}

// ------------------------------------------------------------------ C19
static void flashOp(uint32_t permille) {
  // only where neither of the two regions would overlap something that exists
  uint32_t n = pick(8) == 7 ? pick(4) : 4 + pick(120);
  std::string s = genData(n < 4 ? 4 : n);
  uint32_t top = ((1 + pick(15)) << 28) | (pick(10) == 9 ? 0x0FFFFFF0 : pick(700));
  memcpy(&s[0], &top, 4);
  uint32_t rb = top & 0xF0000000, rn = top - rb;
  if (M.overlaps(0, n ? n : 1) || (rn && M.overlaps(rb, rn))) return;
  armAlloc(permille * 2);
  int rc = ms_flash(s.data(), n);
  bool f = disarm((uint64_t)n + rn + 4096);
  api("create from flash image", rb, n, rc);
  expectExc(rc, n < 4 ? ms_exc_overrun : f ? ms_exc_oom : 0, "create from flash image", rb, n);
  if (rc) { compareState("after a failed flash image", true); return; }
  M.add(0, n);
  M.r.back().data = s.substr(0, n);
  M.makeRo(M.r.size() - 1);
  M.add(rb, rn);
}
SCENARIO(C19) {
  envEnterApi();
  uint32_t permille = (uint32_t[]){0, 80, 250, 500}[pick(4)];
  for (int life = 1 + pick(3) / 2; life; life--) {
    M = ApiModel();
    g_hit = NO;
    ms_init();
    compareState("fresh", false);
    int ops = 4 + pick(pick(4) ? 20 : 80);
    for (; ops; ops--) {
      size_t before = M.r.size();
      bool failedBefore = false;
      g_heap.anyFailed = false;
      switch (pick(12)) {
        case 0: case 1: tryCreate(permille); break;
        case 2: tryAlias(permille); break;
        case 3: tryReadOnly(permille); break;
        case 4: case 5: loadAt(someAddress(), pick(4) == 1 ? 1 + pick(100) : 1 + pick(12)); break;
        case 6: flashOp(permille); break;
        case 7: {
          const char* volatile x = NULL;
          armAlloc(permille);
          int rc = ms_xml(&x);
          bool f = disarm();
          api("memory map", 0, 0, rc);
          expectExc(rc, f ? ms_exc_oom : 0, "memory map", 0, 0);
          break;
        }
        case 8: mapAt(true, someAddress(), 1 + pick(40)); break;
        case 9: mapAt(false, someAddress(), 1 + pick(40)); break;
        case 10: {
          uint32_t a = someAddress(), n = 1 + pick(8), t;
          int d = M.find(a, n, &t);
          armAlloc(permille);
          int type = pick(2) ? W_BP : 1 + pick(3);
          int rc = type == W_BP ? ms_setbp(a, n) : ms_setwp(a, n, type);
          bool f = disarm();
          api("set break/watchpoint", a, n, rc);
          expectExc(rc, d < 0 ? ms_exc_bus : f ? ms_exc_oom : 0, "set break/watchpoint", a, n, f);
          if (!rc && pick(2)) M.r[d].watches.insert({type, t, n});
          else if (!rc && !M.r[d].watches.count({type, t, n})) { rc = type == W_BP ? ms_clrbp(a, n) : ms_clrwp(a, n, type); expectExc(rc, 0, "clear break/watchpoint", a, n); }
          break;
        }
        default: access(pick(2), someAddress(), 1 << pick(3));
      }
      if (g_heap.anyFailed || M.r.size() != before) { nontrivial(); compareState(g_heap.anyFailed ? "after a failed allocation" : "after an operation", true); }
      (void)failedBefore;
    }
    compareState("at the end", true);
    finish();
  }
}

// ------------------------------------------------------------------ C20
extern "C" {
extern FILE* (*mk_hook_fopen)(const char*, const char*);
extern int (*mk_hook_fclose)(FILE*);
extern int (*mk_hook_fseek)(FILE*, long, int);
extern long (*mk_hook_ftell)(FILE*);
extern size_t (*mk_hook_fwrite)(const void*, size_t, size_t, FILE*);
extern size_t (*mk_hook_fread)(void*, size_t, size_t, FILE*);
extern char* (*mk_hook_fgets)(char*, int, FILE*);
extern void* (*mk_hook_malloc)(size_t);
extern void* (*mk_hook_realloc)(void*, size_t);
extern void (*mk_hook_free)(void*);
extern int (*mk_hook_printf)(const char*, ...);
extern int (*mk_hook_fprintf)(FILE*, const char*, ...);
void fopenSetReturn(FILE*);
void fopenRestore(void);
void fcloseIgnore(void);
void fcloseRestore(void);
void fseekSetReturn(int);
void fseekSetCallsBeforeFailure(int);
void fseekRestore(void);
void ftellFail(long);
void ftellRestore(void);
void fwriteFail(size_t);
void fwriteRestore(void);
void freadFail(size_t);
void freadToFail(int);
void freadRestore(void);
void fgetsSetData(const char**, size_t);
void fgetsRestore(void);
void MallocFailureInject_FailAllocation(unsigned);
void MallocFailureInject_Restore(void);
void printfSpy_Hook(size_t);
void printfSpy_Unhook(void);
const char* printfSpy_GetLastOutput(void);
const char* printfSpy_GetPreviousOutput(void);
const char* printfSpy_GetNthOutput(size_t);
const char* printfSpy_GetLastErrorOutput(void);
const char* printfSpy_GetPreviousErrorOutput(void);
const char* printfSpy_GetNthErrorOutput(size_t);
size_t printfSpy_GetCallCount(void);
}
static void fileHistory() {
  // Model: one input stream with contents D and position pos, plus the state of every injector.
  std::string D = genData(1 + pick(300));
  for (auto& ch : D) if (pick(9) == 0) ch = '\n'; else if (!ch) ch = 'x';
  g_vfs.files["input"] = VFile{D, "", false};
  if (pick(3) == 1) g_vfs.dflt.chunk = 1 + pick(20);
  FILE* f = NULL;
  size_t pos = 0;
  bool oFail = false, cIgn = false, sFail = false, tFail = false, wFail = false, rFail = false, gSet = false;
  FILE* oRet = NULL;
  int sRet = 0, sPass = 0, rLeft = 0;      // rLeft: -1 all fail, n: n-th from now fails
  long tRet = 0;
  size_t wRet = 0, rRet = 0, gi = 0;
  std::vector<std::string> lines;
  std::vector<const char*> lp;
  static char cookie[16];
  FILE* out = mk_hook_fopen("output", "wb");
  std::string written;
  auto open = [&] { f = mk_hook_fopen("input", "rb"); };
  for (int ops = 20 + pick(120); ops; ops--) {
    switch (pick(24)) {
      case 0: oFail = true; oRet = pick(2) ? NULL : (FILE*)cookie; fopenSetReturn(oRet); note("fopenSetReturn"); break;
      case 1: oFail = false; fopenRestore(); note("fopenRestore"); break;
      case 2: cIgn = true; fcloseIgnore(); note("fcloseIgnore"); break;
      case 3: cIgn = false; fcloseRestore(); note("fcloseRestore"); break;
      case 4: sFail = true; sRet = pick(4) ? -1 - (int)pick(3) : (int)pick32(); fseekSetReturn(sRet);
              if (sPass || pick(2)) { sPass = pick(10) == 1 ? 100 + pick(500) : pick(4); fseekSetCallsBeforeFailure(sPass); }
              note("fseekSetReturn pass %d", sPass); nontrivial(); break;
      case 5: sFail = false; sPass = 0; fseekRestore(); note("fseekRestore"); break;
      case 6: tFail = true; tRet = pick(4) ? -1 - (int)pick(3) : (long)(((uint64_t)pick32() << 32) | pick32()); ftellFail(tRet); note("ftellFail"); break;
      case 7: tFail = false; ftellRestore(); note("ftellRestore"); break;
      case 8: wFail = true; wRet = pick(4) ? pick(3) : (size_t)(((uint64_t)pick32() << 32) | pick32()); fwriteFail(wRet); note("fwriteFail"); break;
      case 9: wFail = false; fwriteRestore(); note("fwriteRestore"); break;
      case 10: case 11: rFail = true; rRet = pick(4) ? pick(3) : (size_t)(((uint64_t)pick32() << 32) | pick32()); rLeft = -1; freadFail(rRet); if (pick(3)) { rLeft = pick(10) == 1 ? 100 + pick(500) : 1 + pick(4); freadToFail(rLeft); } note("freadFail %d", rLeft); nontrivial(); break;
      case 12: rFail = false; freadRestore(); note("freadRestore"); break;
      case 13: {
        // the lines of the previous set may not be released while they are installed
        static std::vector<std::unique_ptr<std::vector<std::string>>> keepL;
        static std::vector<std::unique_ptr<std::vector<const char*>>> keepP;
        lines.clear();
        for (int n = pick(12) == 1 ? 250 + pick(20) : pick(4); n; n--) { std::string s; uint32_t len = pick(10) == 1 ? pick(400) : pick(30); for (uint32_t k = 0; k < len; k++) s += 'a' + pick(26); if (pick(2)) s += "\n"; lines.push_back(s); }
        keepL.push_back(std::make_unique<std::vector<std::string>>(lines));
        auto v = std::make_unique<std::vector<const char*>>();
        for (auto& s : *keepL.back()) v->push_back(s.c_str());
        fgetsSetData(v->data(), v->size());
        keepP.push_back(std::move(v));
        gSet = true; gi = 0;
        note("fgetsSetData %zu", lines.size());
        break;
      }
      case 14: gSet = false; fgetsRestore(); note("fgetsRestore"); break;
      case 15: {
        FILE* r = NULL;
        static const char* const modes[] = {"rb", "r", "w", "ab", "r+b", "wb", "a"};
        if (oFail) { r = mk_hook_fopen(pick(2) ? "input" : "other", modes[pick(7)]); if (r != oRet) violation("fopen", "fopen returned %s although %s was requested", r ? "a stream" : "NULL", oRet ? "another stream" : "a failure"); }
        else if (!f) { open(); if (!f) violation("fopen", "fopen failed although no failure was requested"); pos = 0; }
        else { r = mk_hook_fopen("missing", "rb"); if (r) violation("fopen", "fopen of a missing file succeeded"); }
        break;
      }
      case 16:
        if (f) {
          int was = g_vfs.openNow, rc = mk_hook_fclose(f);
          if (rc) violation("fclose", "fclose returned %d", rc);
          if (cIgn) { if (g_vfs.openNow != was) violation("fclose", "fclose was to be ignored but closed the stream"); }
          else { if (g_vfs.openNow != was - 1) violation("fclose", "fclose did not close the stream"); f = NULL; }
        } else if (cIgn) { if (mk_hook_fclose((FILE*)cookie)) violation("fclose", "an ignored fclose failed"); }
        break;
      case 17: case 18:
        for (int burst = sPass > 50 && pick(2) ? sPass - 3 + pick(6) : 1; f && burst; burst--) {
          long o = pick(D.size() + 1);
          int wh = pick(3), rc = mk_hook_fseek(f, wh == 0 ? o : wh == 1 ? o - (long)pos : o - (long)D.size(), wh == 0 ? SEEK_SET : wh == 1 ? SEEK_CUR : SEEK_END);
          if (sFail && sPass == 0) { if (rc != sRet) violation("fseek", "fseek returned %d although failure %d was requested", rc, sRet); }
          else { if (sFail) sPass--; if (rc) violation("fseek", "fseek failed although this call was not to fail (%d calls before the failure left)", sPass); pos = o; }
        }
        break;
      case 19:
        if (f) { long t = mk_hook_ftell(f); if (t != (tFail ? tRet : (long)pos)) violation("ftell", "ftell returned %ld, expected %ld", t, tFail ? tRet : (long)pos); }
        break;
      case 20: case 21:
        for (int burst = rLeft > 50 && pick(2) ? rLeft - 3 + pick(6) : 1; f && burst; burst--) {
          char buf[64];
          memset(buf, 0x5A, sizeof buf);
          size_t n = 1 + pick(40), left = D.size() - pos, want = n < left ? n : left, item = 1;
          if (pick(4) == 3 && left >= 40) item = 2 + pick(3), n = want = item * (1 + pick(10));
          size_t got = mk_hook_fread(buf, item, n / item, f);
          bool failNow = rFail && (rLeft < 0 || --rLeft == 0);
          if (failNow) {
            if (got != rRet) violation("fread", "fread returned %zu although failure %zu was requested", got, rRet);
            if (rLeft == 0) rFail = false;
          } else {
            if (got != want / item || memcmp(buf, D.data() + pos, want)) violation("fread", "fread returned %zu items, expected %zu, although this call was not to fail", got, want / item);
            pos += want;
          }
        }
        break;
      case 22:
      for (int burst = gSet && lines.size() > 50 && pick(2) ? (int)lines.size() - 3 + pick(6) : 1; burst; burst--) {
        int n = pick(8) == 1 ? 250 + pick(20) : 2 + pick(40);
        std::string buf(n + 8, '\x5A');
        char* r = NULL;
        if (gSet) {
          r = mk_hook_fgets(&buf[0], n, (FILE*)cookie);
          if (gi >= lines.size()) { if (r) violation("fgets", "a line arrived after the last one"); gi = 0; }
          else {
            std::string want = lines[gi++].substr(0, n - 1);
            if (r != &buf[0] || want != r) violation("fgets", "line %zu is '%.40s', expected '%.40s'", gi - 1, r ? r : "(null)", want.c_str());
          }
          for (int k = n; k < n + 8; k++) if (buf[k] != '\x5A') violation("fgets", "wrote beyond the %d byte buffer", n);
        } else if (f) {
          r = mk_hook_fgets(&buf[0], n, f);
          size_t e = pos;
          while (e < D.size() && e - pos < (size_t)n - 1) if (D[e++] == '\n') break;
          std::string want = D.substr(pos, e - pos);
          if (want.empty() ? r != NULL : (!r || want != r)) violation("fgets", "read '%.40s', expected '%.40s'", r ? r : "(null)", want.c_str());
          pos = e;
        }
      }
      break;
      default: {
        std::string d = genData(1 + pick(40));
        size_t item = pick(4) == 3 ? d.size() : 1;
        size_t r = mk_hook_fwrite(d.data(), item, d.size() / item, out);
        if (wFail) { if (r != wRet) violation("fwrite", "fwrite returned %zu, expected %zu", r, wRet); nontrivial(); }
        else { if (r != d.size() / item) violation("fwrite", "fwrite failed although no failure was requested"); written += d; }
      }
    }
    evlog(EV_api, "op");
  }
  fopenRestore(); fcloseRestore(); fseekRestore(); ftellRestore(); fwriteRestore(); freadRestore(); fgetsRestore();
  // after every injector was restored, the whole file reads through
  if (!f) open();
  if (!f) violation("restore", "fopen still fails after it was restored");
  if (mk_hook_fseek(f, 0, SEEK_SET)) violation("restore", "fseek still fails after it was restored");
  std::string all;
  char buf[33];
  size_t n;
  while ((n = mk_hook_fread(buf, 1, sizeof buf, f)) > 0) { if (n > sizeof buf) violation("restore", "fread still fails after it was restored"); all.append(buf, n); if (all.size() > D.size()) break; }
  if (all != D) violation("restore", "the file reads differently after every injector was restored");
  if (mk_hook_ftell(f) != (long)D.size()) violation("restore", "ftell still fails after it was restored");
  std::string tail = genData(7);
  if (mk_hook_fwrite(tail.data(), 1, 7, out) != 7) violation("restore", "fwrite still fails after it was restored");
  if (mk_hook_fclose(f) || mk_hook_fclose(out) || g_vfs.openNow) violation("restore", "fclose is still ignored after it was restored");
  if (g_vfs.files["output"].data != written + tail) violation("fwrite", "the output holds %zu bytes, expected %zu", g_vfs.files["output"].data.size(), written.size() + 7);
}
static void heapHistory() {
  struct Blk { char* p; std::string d; };
  std::vector<Blk> b;
  uint32_t left = 0;
  bool hooked = false;
  auto willFail = [&] { return hooked && left && --left == 0; };
  size_t live0 = g_heap.live.size();
  for (int ops = 20 + pick(100); ops; ops--) {
    switch (pick(6)) {
      case 0: left = pick(10) == 1 ? 100 + pick(500) : pick(6); hooked = true; MallocFailureInject_FailAllocation(left); note("FailAllocation %u", left); if (left) nontrivial(); break;
      case 1: if (pick(3) == 1) { hooked = false; MallocFailureInject_Restore(); note("Restore"); } break;
      case 2: case 3:
      for (int burst = left > 50 && pick(2) ? left - 3 + pick(6) : 1, keep = burst; burst; burst--) {
        size_t n = 1 + pick(64);
        char* p = (char*)mk_hook_malloc(n);
        bool f = willFail();
        if (!p != f) violation("malloc", f ? "an allocation which was to fail succeeded" : "an allocation which was not to fail failed");
        if (p && keep > 1) mk_hook_free(p);
        else if (p) { std::string d = genData(n); memcpy(p, d.data(), n); b.push_back({p, d}); }
      }
      break;
      case 4: {
        size_t n = 1 + pick(64), i = b.empty() ? 0 : pick(b.size());
        char* p = (char*)mk_hook_realloc(b.empty() ? NULL : b[i].p, n);
        bool f = willFail();
        if (!p != f) violation("realloc", f ? "a reallocation which was to fail succeeded" : "a reallocation which was not to fail failed");
        if (f) break;
        if (b.empty()) { b.push_back({p, std::string(n, 0)}); memset(p, 0, n); break; }
        size_t k = n < b[i].d.size() ? n : b[i].d.size();
        if (memcmp(p, b[i].d.data(), k)) violation("realloc", "a reallocation lost the contents");
        b[i].p = p;
        b[i].d.resize(n, 'z');
        memcpy(p, b[i].d.data(), n);
        break;
      }
      default: if (!b.empty()) { size_t i = pick(b.size()); mk_hook_free(b[i].p); b.erase(b.begin() + i); }
    }
    for (auto& x : b) if (memcmp(x.p, x.d.data(), x.d.size())) violation("heap", "a live block changed");
    if (g_heap.live.size() - live0 != b.size()) violation("leak", "%zu blocks are live, expected %zu", g_heap.live.size() - live0, b.size());
    evlog(EV_api, "op");
  }
  MallocFailureInject_Restore();
  for (int i = 0; i < 8; i++) { void* p = mk_hook_malloc(4); if (!p) violation("restore", "an allocation still fails after the injector was restored"); mk_hook_free(p); }
  for (auto& x : b) mk_hook_free(x.p);
}
static void spyHistory() {
  struct Out { bool err; std::string s; };
  std::vector<Out> h;
  bool hooked = false;
  size_t size = 0, calls = 0;
  std::string realOut;
  auto check = [&] {
    if (!hooked) return;
    if (printfSpy_GetCallCount() != calls) violation("spy-count", "%zu calls counted, expected %zu", printfSpy_GetCallCount(), calls);
    for (size_t n = 1; n <= 4 && n <= h.size(); n++) {
      const Out& o = h[h.size() - n];
      const char* g[2] = {o.err ? printfSpy_GetNthErrorOutput(n) : printfSpy_GetNthOutput(n),
                          n == 1 ? (o.err ? printfSpy_GetLastErrorOutput() : printfSpy_GetLastOutput()) :
                          n == 2 ? (o.err ? printfSpy_GetPreviousErrorOutput() : printfSpy_GetPreviousOutput()) : NULL};
      std::string want = o.s.substr(0, size);
      if (!g[0] || want != g[0]) violation("spy-output", "output %zu back is '%.60s', expected '%.60s'", n, g[0] ? g[0] : "(null)", want.c_str());
      if (n <= 2 && (!g[1] || want != g[1])) violation("spy-output", "%s output is '%.60s', expected '%.60s'", n == 1 ? "last" : "previous", g[1] ? g[1] : "(null)", want.c_str());
    }
  };
  size_t live0 = g_heap.live.size();
  for (int ops = pick(12) == 11 ? 300 + pick(600) : 8 + pick(60); ops; ops--) {
    switch (pick(ops > 100 ? 400 : 8)) {
      case 0: size = pick(4) == 1 ? pick(8) : pick(12) == 1 ? 200 + pick(5000) : 1 + pick(100); printfSpy_Hook(size); hooked = true; h.clear(); calls = 0; note("hook %zu", size); nontrivial(); break;
      case 1: if (pick(3) == 1) { printfSpy_Unhook(); hooked = false; h.clear(); note("unhook"); if (g_heap.live.size() != live0) violation("leak", "buffers survive unhooking"); } break;
      default: {
        bool err = pick(3) == 1, viaF = err || pick(2);
        std::string s;
        for (uint32_t k = pick(pick(3) ? 20 : pick(8) == 1 ? 6000 : 130); k; k--) s += 'A' + pick(26);
        int v = (int)pick32(), rc;
        bool bare = pick(4) == 1;             /* "%s" alone, and one in three of those print nothing at all */
        if (bare && pick(3) == 1) s.clear();
        std::string full = bare ? s : fmt("%d:%s", v, s.c_str());
        size_t so = g_strayStdout.size(), se = g_stderrText.size();
        FILE* to = err ? stderr : stdout;
        if (bare) rc = viaF ? mk_hook_fprintf(to, "%s", s.c_str()) : mk_hook_printf("%s", s.c_str());
        else rc = viaF ? mk_hook_fprintf(to, "%d:%s", v, s.c_str()) : mk_hook_printf("%d:%s", v, s.c_str());
        if (full.empty()) count(CT_p_spy_empty);
        if (rc != (int)full.size()) violation("spy-return", "printf returned %d, expected %zu", rc, full.size());
        if (hooked) { h.push_back({err, full}); calls++; if (g_strayStdout.size() != so || g_stderrText.size() != se) violation("spy-leak", "hooked output reached the real stream"); }
        else if ((err ? g_stderrText : g_strayStdout) != (err ? g_stderrText.substr(0, se) : g_strayStdout.substr(0, so)) + full)
          violation("spy-leak", "output while unhooked did not reach the real stream");
      }
    }
    check();
    evlog(EV_api, "op");
  }
  printfSpy_Unhook();
  if (g_heap.live.size() != live0) violation("leak", "buffers survive unhooking");
}
SCENARIO(C20) {
  envEnterApi();
  switch (pick(4)) {
    case 0: case 1: fileHistory(); break;
    case 2: heapHistory(); break;
    default: spyHistory();
  }
}
