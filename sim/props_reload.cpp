// C22: loads made one after the other in one process (the library entry point main() uses) do not depend on each other.
#include "scenario.h"
#include <algorithm>

extern "C" {
uint32_t cd_size(void);
void cd_scribble(const void* p);
int cd_load(int argc, const char** argv);
void cd_unload(void);
int cd_haveMemory(void);
uint32_t cd_reg(int i);
uint32_t cd_psr(void);
uint32_t cd_fpr(int i);
uint32_t cd_flags(void);
int ms_xml(const char* volatile* pp);
int ms_read(uint32_t a, int n, volatile uint32_t* p);
int ms_write(uint32_t a, int n, uint32_t v);
int ms_setwp(uint32_t a, uint32_t n, int t);
int ms_count(uint32_t a, volatile uint32_t* p);
int ms_hit(void);
int ms_handlers_balanced(void);
extern const int ms_exc_bus, ms_exc_oom;
}

static void expectMap(const World& w, const char* ctx) {
  const char* volatile x = NULL;
  if (ms_xml(&x)) violation("memory-map", "%s: the memory map could not be made", ctx);
  std::string xml = x;
  hashBytes(xml.data(), xml.size());
  std::multiset<std::pair<std::pair<uint32_t, uint32_t>, std::string>> a, b;
  for (size_t p = 0; (p = xml.find("<memory ", p)) != std::string::npos;) {
    std::string tag = xml.substr(p, xml.find('>', p) - p);
    auto attr = [&](const char* n) { size_t q = tag.find(std::string(n) + "=\""); if (q == std::string::npos) violation("memory-map", "%s: no %s in %s", ctx, n, tag.c_str()); q += strlen(n) + 2; return tag.substr(q, tag.find('"', q) - q); };
    a.insert({{(uint32_t)strtoul(attr("start").c_str(), NULL, 0), (uint32_t)strtoul(attr("length").c_str(), NULL, 0)}, attr("type")});
    p++;
  }
  for (auto& r : w.regs) b.insert({{r.base, r.size()}, r.ro ? "flash" : "ram"});
  for (auto& e : b) if (a.count(e) != b.count(e)) violation("memory-map", "%s: %s 0x%08x+0x%x is listed %zu times, expected %zu", ctx, e.second.c_str(), e.first.first, e.first.second, a.count(e), b.count(e));
  for (auto& e : a) if (!b.count(e)) violation("memory-map", "%s: %s 0x%08x+0x%x is listed but was not loaded", ctx, e.second.c_str(), e.first.first, e.first.second);
}
static void expectByte(const World& w, uint32_t a, const char* ctx) {
  volatile uint32_t v = 0;
  int rc = ms_read(a, 1, &v), want = w.get(a);
  if (!ms_handlers_balanced()) violation("handler-leak", "%s: reading 0x%08x left an exception handler installed", ctx, a);
  if (rc != (want < 0 ? ms_exc_bus : 0)) violation("memory", "%s: reading 0x%08x ended with %d, expected %s", ctx, a, rc, want < 0 ? "a bus error" : "success");
  if (!rc && (int)v != want) violation("memory", "%s: 0x%08x holds 0x%02x, expected 0x%02x", ctx, a, (uint32_t)v, want);
}
static void expectLoaded(const World& w, const World* before, const char* ctx) {
  for (int i = 0; i < 19; i++) if (cd_reg(i) != w.R[i]) violation("registers", "%s: register %d is 0x%08x, expected 0x%08x", ctx, i, cd_reg(i), w.R[i]);
  if (cd_psr() != w.psr) violation("registers", "%s: the exception PSR is 0x%08x, expected 0x%08x", ctx, cd_psr(), w.psr);
  if ((cd_flags() & 1) != (w.fpu ? 1u : 0u)) violation("registers", "%s: floating point registers are said to be %s", ctx, w.fpu ? "missing" : "there");
  if (w.fpu) for (int i = 0; i < 33; i++) if (cd_fpr(i) != w.F[i]) violation("registers", "%s: floating point register %d is 0x%08x, expected 0x%08x", ctx, i, cd_fpr(i), w.F[i]);
  expectMap(w, ctx);
  for (auto& r : w.regs) {
    uint32_t n = r.size(), stride = n > 4096 ? n / 4096 : 1;
    for (uint32_t i = 0; i < n; i += stride) expectByte(w, r.base + i, ctx);
    if (n) { expectByte(w, r.base + n - 1, ctx); if (r.base) expectByte(w, r.base - 1, ctx); if (r.base + n) expectByte(w, r.base + n, ctx); }
  }
  // nothing of the previous load may still be there
  if (before) for (auto& r : before->regs) if (r.size()) for (uint32_t i : {0u, r.size() / 2, r.size() - 1}) expectByte(w, r.base + i, ctx);
  if (ms_hit()) violation("watch-hit", "%s: a watchpoint hit is reported although none was set since the load", ctx);
}
// What a debugger would do with the memory before it is thrown away.
static void use(World& w) {
  for (int n = pick(12); n; n--) {
    auto& r = w.regs[pick(w.regs.size())];
    if (!r.size()) continue;
    uint32_t a = r.base + pick(r.size()), eff;
    volatile uint32_t v = 0;
    switch (pick(4)) {
      case 0: {
        uint8_t b = pick(256);
        int rc = ms_write(a, 1, b);
        bool ok = w.set(a, b);
        if (rc != (ok ? 0 : ms_exc_bus)) violation("memory", "writing 0x%08x ended with %d, expected %s", a, rc, ok ? "success" : "a bus error");
        expectByte(w, a, "after a write");
        break;
      }
      case 1: ms_setwp(a, 1, 3); ms_read(a, 1, &v); break;              // a hit nobody asks for
      case 2: { int i = w.find(a, 2, &eff); if (i >= 0 && w.regs[i].ro) { ms_read(a, 2, &v); ms_count(a, &v); } break; }
      default: { const char* volatile p; ms_xml(&p); }
    }
  }
}
SCENARIO(C22) {
  envEnterApi();
  switch (pick(4)) { case 1: g_vfs.dflt.chunk = -1; break; case 2: g_vfs.dflt.chunk = 1 + pick(64); break; default: break; }
  GenOpts o;
  o.maxRamSize = o.maxFlashSize = pick(4) == 1 ? 2000 : 200;
  o.maxRam = 4;
  o.allowMany = false;
  std::vector<Capture> past;
  World last;
  bool haveLast = false;
  int loads = 2 + pick(4);
  for (int k = 0; k < loads; k++) {
    Capture c;
    bool again = !past.empty() && pick(4) == 1, aliasOk = true;
    if (again) c = past[pick(past.size())];
    else {
      c = genCapture((DumpKind)pick(3), o);
      if (pick(3) == 1) aliasOk = genAliases(c, 1 + pick(3), pick(3) == 1, false);
    }
    std::vector<std::string> args = c.args(pick(3) == 1);
    std::string dump = c.dump;
    const char* why = aliasOk ? NULL : "an alias refers to memory which does not exist";
    bool judge = true;
    int what = pick(10);
    g_vfs.anyFault = g_vfs.readErr = false;
    g_vfs.plan.assign(g_vfs.opens + 8, g_vfs.dflt);
    g_heap.anyFailed = false;
    g_heap.failAt.clear();
    g_heap.armed = false;
    if (pick(3) == 1) g_heap.fill = (uint8_t)pick(256);
    switch (what) {
      case 5: g_heap.failAt.insert(g_heap.calls + 1 + pick(8 + 3 * c.w.regs.size())); g_heap.armed = true; break;
      case 6: if (pick(2)) g_vfs.plan[g_vfs.opens + pick(3)].fail = true; else g_vfs.plan[g_vfs.opens + pick(3)].eioAt = pick(2) ? pick(300) : pick(c.dump.size() + 1); break;
      case 7: for (auto& a : args) if (a == (pick(2) ? "image" : "dump")) { a = "missing"; why = "an input file does not exist"; break; } break;
      case 8:
        switch (pick(4)) {
          case 0: args.insert(args.begin(), "--nonsense"); why = "an option is unknown"; break;
          case 1: args.push_back("--alias"); if (pick(2)) args.push_back("0"); why = "an option is incomplete"; break;
          case 2: args.push_back("--dump"); why = "an option is incomplete"; break;
          default: args.clear(); why = "there are no options";
        }
        break;
      case 9:
        if (pick(2) && dump.size() > 1 && c.extraArgs.empty()) {       // too short to be recognised: a log which says nothing
          dump = dump.substr(0, pick(2));
          if (c.kind == D_LOG) dump = dump.empty() ? "" : "\n";
          memset(c.w.R, 0, sizeof c.w.R);
          c.w.R[rMSP] = c.w.R[rPSP] = 0xBAADBAAD;
          c.w.fpu = false;
          c.w.psr = 0;
          c.w.regs.resize(c.nFlash);
          count(CT_p_empty_dump);
        } else { dump.resize(pick(dump.size() + 1)); judge = false; }
        break;
      default: break;
    }
    g_vfs.files["image"].data = c.image;
    g_vfs.files["dump"].data = dump;
    if (pick(3) == 1) { std::string junk = genData(cd_size()); cd_scribble(junk.data()); }
    std::vector<const char*> argv;
    for (auto& a : args) argv.push_back(a.c_str());
    argv.push_back(NULL);
    g_stderrText.clear();
    int rc = cd_load((int)args.size(), argv.data());
    g_heap.armed = false;
    bool faulted = g_heap.anyFailed || g_vfs.anyFault || g_vfs.readErr;
    std::string ctx = fmt("load %d of %d", k + 1, loads);
    evlog(rc ? EV_apithrow : EV_api, "%s (%s) -> %d", ctx.c_str(), why ? why : faulted ? "fault" : judge ? "valid" : "cut short", rc);
    if (!ms_handlers_balanced()) violation("handler-leak", "%s left an exception handler installed", ctx.c_str());
    if (!g_strayStdout.empty()) violation("stdout", "%s printed on stdout: %.60s", ctx.c_str(), g_strayStdout.c_str());
    if (k) nontrivial();
    if (rc) {
      count(CT_p_load_failed);
      if (judge && !why && !faulted) violation("refused", "%s was refused (%d: %.120s) although nothing was wrong with it", ctx.c_str(), rc, g_stderrText.c_str());
      size_t e = g_stderrText.find("ERROR: ");
      if (e == std::string::npos || g_stderrText.find("ERROR: ", e + 1) != std::string::npos) violation("message", "%s failed without exactly one error message: %.200s", ctx.c_str(), g_stderrText.c_str());
      if (g_stderrText.find("Usage:") == std::string::npos) violation("message", "%s failed without the usage text", ctx.c_str());
      if (cd_haveMemory()) violation("memory", "%s failed but left memory behind", ctx.c_str());
    } else {
      if (why) violation("not-rejected", "%s succeeded although %s", ctx.c_str(), why);
      if (g_heap.anyFailed) violation("alloc-failure-ignored", "%s succeeded although an allocation failed", ctx.c_str());
      if (!g_stderrText.empty()) violation("message", "%s succeeded but printed: %.120s", ctx.c_str(), g_stderrText.c_str());
      if (judge) {
        expectLoaded(c.w, haveLast ? &last : NULL, ctx.c_str());
        if (k) count(CT_p_reload);
        last = c.w;
        haveLast = true;
        World w = c.w;
        use(w);
        if (pick(3) == 1) { for (auto& r : w.regs) if (r.size()) expectByte(w, r.base + pick(r.size()), "after use"); ms_hit(); }
      }
    }
    if (g_vfs.openNow) violation("file-left-open", "%s left %d files open", ctx.c_str(), g_vfs.openNow);
    cd_unload();
    if (!g_heap.live.empty()) violation("leak", "%zu allocations (%llu bytes) survive %s", g_heap.live.size(), (unsigned long long)g_heap.inUse, ctx.c_str());
    count(CT_p_leakcheck);
    if (!rc && judge && !again && aliasOk && what != 9) past.push_back(c);
  }
}
