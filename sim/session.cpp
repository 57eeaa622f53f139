#include "world.h"

static bool g_finished;
bool g_keepFiles;          // the scenario prepared the files itself
// Two independent knobs: how bytes are paced, and how long GDB takes before it connects.
void pacing(bool wild) {
  ChannelCfg& c = g_gdb.cfg;
  c.delayMaxUs = wild ? (1u << pick(16)) : pick(100);
  c.s2cDelayMaxUs = wild ? (1u << pick(16)) : pick(100);
  c.chunkPermille = wild ? pick(1000) : pick(4) ? 0 : 200;
  c.s2cChunkPermille = wild ? pick(1000) : pick(4) ? 0 : 200;
  if (wild && pick(3) == 1) g_con.outCap = 1 + pick(64);
  if (wild && pick(3) == 1) g_con.eintrPermille = pick(150);
}
ProcResult runSession(Capture& c, std::function<void()> body, const std::vector<std::string>* args) {
  if (!g_keepFiles) {
    g_vfs.files["image"].data = c.image;
    g_vfs.files["dump"].data = c.dump;
  }
  std::vector<std::string> a = args ? *args : c.args();
  g_finished = false;
  gdbStart([body] {
    if (g_gdb.strict && !g_gdb.cfg.lossy) {
      uint64_t wait = pick(3) ? 0 : pick(2) ? pick(5000) : 1000000ull * pick(3600);
      if (wait > 100000) count(CT_late_connect);
      if (wait) g_gdb.sleepUs(wait);
    }
    body();
    g_finished = true;
    g_gdb.kill();
  });
  ProcResult r = runCrashDebug(a);
  return r;
}
static std::string errLine() {
  std::string s = g_stderrText;
  size_t p = s.find("ERROR:");
  if (p != std::string::npos) s = s.substr(p);
  p = s.find('\n');
  if (p != std::string::npos) s.resize(p);
  return s.substr(0, 200);
}
void mustHaveBeenKilled(const ProcResult& r) {
  if (!r.killed)
    violation("ended-early", "CrashDebug ended by itself (%s %d) before GDB was done: %s",
              r.signaled ? "signal" : "exit", r.signaled ? r.sig : r.code, errLine().c_str());
  if (!g_strayStdout.empty()) violation("stdout", "text on stdout: %.80s", g_strayStdout.c_str());
}
bool failedCleanly(const ProcResult& r) {
  return r.exited && r.code != 0 && !g_stderrText.empty() && g_con.bytesOut == 0;
}
void mustHaveFailedCleanly(const ProcResult& r, const char* why) {
  if (r.killed) violation("not-rejected", "a debug session was started although %s", why);
  if (r.signaled) violation("crash", "killed by signal %d although %s", r.sig, why);
  if (r.code == 0) violation("exit-status", "exit status 0 although %s", why);
  if (g_stderrText.empty()) violation("no-message", "no error message although %s", why);
  if (g_con.bytesOut) violation("stdout", "%llu bytes on GDB's channel although %s", (unsigned long long)g_con.bytesOut, why);
}

static uint32_t parseHex32(const std::string& s) { return (uint32_t)strtoul(s.c_str(), NULL, 16); }


void takePacketSize(const std::string& r) {
  size_t p = r.find("PacketSize=");
  uint32_t n = p == std::string::npos ? 0 : parseHex32(r.substr(p + 11, 8));
  if (n < 1024) violation("qsupported", "no usable PacketSize in: %.100s", r.c_str());   // the register packet must fit
  g_packetSize = n < 0x4000 ? n : 0x4000;
}
void handshake() {
  if (g_con.bytesOut) violation("spoke-first", "%llu bytes written before GDB connected", (unsigned long long)g_con.bytesOut);
  count(CT_p_session_started);
  g_gdb.connect();
  std::string r = g_gdb.request("qSupported:multiprocess+;swbreak+;hwbreak+;qRelocInsn+;fork-events+;vfork-events+;exec-events+;vContSupported+;QThreadEvents+;no-resumed+;xmlRegisters=i386");
  if (r.find("qXfer:memory-map:read+") == std::string::npos || r.find("qXfer:features:read+") == std::string::npos)
    violation("qsupported", "qSupported reply lacks memory-map or features: %.100s", r.c_str());
  takePacketSize(r);
}
void checkRegisters(const World& w, const char* ctx) {
  std::string r = g_gdb.request("g"), e = w.g();
  for (auto& ch : r) ch = tolower(ch);
  if (r == e) return;
  if (r.size() != e.size())
    violation("registers", "%s: register packet has %zu hex digits, expected %zu (fpu=%d)", ctx, r.size(), e.size(), w.fpu);
  for (size_t i = 0; i < e.size(); i += 8)
    if (r.compare(i, 8, e, i, 8))
      violation("registers", "%s: register #%zu reads %s, expected %s (little endian)", ctx, i / 8, r.substr(i, 8).c_str(), e.substr(i, 8).c_str());
}
std::string readMem(uint32_t a, uint32_t n, std::string* raw) {
  std::string r = g_gdb.request(fmt("m%x,%x", a, n)), d;
  if (raw) *raw = r;
  if (r.size() == 3 && r[0] == 'E') { count(CT_p_mem_read_err); return ""; }
  if (!unhex(r, &d)) violation("protocol", "malformed reply to a memory read: %.60s", r.c_str());
  return d;
}
// True if a wide access starting at a (2- or 4-byte aligned read) cannot be served by a single region.
static bool straddles(const World& w, uint32_t a, uint32_t n) {
  uint32_t e;
  return w.find(a, n, &e) < 0;
}
// A word where pieces of memory, which was captured twice, begin or end.
static void checkJoin(const World& w, uint32_t a, uint32_t n, const char* ctx) {
  for (uint32_t i = 0; i < n; i++) checkRead(w, a + i, 1, ctx);
  std::string raw, d = readMem(a, n, &raw);
  count(CT_p_join);
  if (raw.size() == 3 && raw[0] == 'E') return;      // the pieces are separate regions
  bool zero = false;
  for (size_t i = 0; i < d.size() && i < n; i++) {
    int e = w.get(a + i);
    if (e == (uint8_t)d[i]) continue;
    if (e < 0 || d[i]) violation("read-data", "%s: 0x%08x reads 0x%02x, expected 0x%02x (request 0x%08x,%u)", ctx, a + (uint32_t)i, (uint8_t)d[i], e, a, n);
    zero = true;
  }
  if (zero) knownFinding(2, "%s: a word read at 0x%08x, where memory was captured twice in pieces which do not end at a word, shows zeroes for bytes which read right one by one", ctx, a);
}
void checkRead(const World& w, uint32_t a, uint32_t n, const char* ctx) {
  uint32_t eff;
  if (n == 2 || n == 4) {
    auto j = w.joins.upper_bound(a);
    if (j != w.joins.end() && *j - a < n) { checkJoin(w, a, n, ctx); return; }
  }
  if ((n == 2 || n == 4) && w.find(a, n, &eff) >= 0 && w.ambiguous(a, n)) {
    for (uint32_t i = 0; i < n; i++) checkRead(w, a + i, 1, ctx);
    return;
  }
  uint32_t most = (g_packetSize - 16) / 2;
  if (n > most) {                                  // GDB splits what does not fit in a packet
    for (uint32_t o = 0; o < n; o += most) checkRead(w, a + o, n - o < most ? n - o : most, ctx);
    return;
  }
  std::string raw, d = readMem(a, n, &raw), e = w.bytes(a, n);
  if (raw.size() == 3 && raw[0] == 'E') {
    if (e.empty()) { if (raw != "E03") violation("error-code", "%s: read of unmapped 0x%08x,%u replied %s", ctx, a, n, raw.c_str()); return; }
    if ((n == 2 || n == 4) && straddles(w, a, n)) { count(CT_p_straddle); return; }
    violation("read-refused", "%s: read of 0x%08x,%u replied %s although %zu bytes are mapped", ctx, a, n, raw.c_str(), e.size());
  }
  if (d.size() > n) violation("read-length", "%s: read of 0x%08x,%u returned %zu bytes", ctx, a, n, d.size());
  for (size_t i = 0; i < d.size(); i++) {
    if (i >= e.size()) violation("read-invented", "%s: read of 0x%08x,%u returned data for unmapped 0x%08x", ctx, a, n, (uint32_t)(a + i));
    if (d[i] != e[i]) violation("read-data", "%s: 0x%08x reads 0x%02x, expected 0x%02x (request 0x%08x,%u)", ctx, (uint32_t)(a + i), (uint8_t)d[i], (uint8_t)e[i], a, n);
  }
  if (d.size() != e.size()) violation("read-short", "%s: read of 0x%08x,%u returned %zu of %zu mapped bytes", ctx, a, n, d.size(), e.size());
  if (d.size() < n) count(CT_p_mem_read_prefix);
  count(CT_p_mem_read_ok);
}
void checkAllMemory(const World& w, const char* ctx, uint32_t limit) {
  static const uint32_t steps[] = {512, 2000, 4096, 256, 64, 1024, 0};
  uint32_t chunk = steps[pick(7)];
  if (!chunk) chunk = (g_packetSize - 16) / 2;     // as much as fits in a packet
  for (auto& r : w.regs) {
    uint32_t n = r.size(), off = 0;
    if (n == 0) continue;
    if (n > 300000 && limit > 20000) {             // too much to read all of it: both ends, where counters overflow, and anywhere
      auto look = [&](uint64_t o, uint32_t len) { if (o < n) checkRead(w, r.base + (uint32_t)o, std::min<uint64_t>(len, n - o), ctx); };
      for (uint32_t o = 0; o < 16384; o += 4096) { look(o, 4096); look(n - 16384 + o, 4096); }
      for (uint32_t p = 0x8000; p <= n; p *= 2) look(p - 300, 600);
      for (int k = 30; k; k--) look(pick(n), 2000);
      continue;
    }
    if (n > limit) { off = pick(n - limit + 1); n = off + limit; }
    while (off < n) {
      uint32_t k = n - off < chunk ? n - off : chunk;
      checkRead(w, r.base + off, k, ctx);
      off += k;
    }
  }
}
void checkEdges(const World& w, const char* ctx) {
  size_t n = w.regs.size(), lim = n > 12 ? 12 : n;
  for (size_t i = 0; i < lim; i++) {
    const Region& r = w.regs[n > 12 ? pick(n) : i];
    if (!r.size()) continue;
    uint32_t last = r.base + r.size() - 1;
    if (r.base) checkRead(w, r.base - 1, 1, ctx);
    checkRead(w, r.base, 1, ctx);
    checkRead(w, last, 1, ctx);
    if (last != 0xFFFFFFFF) checkRead(w, last + 1, 1, ctx);
    if (last < 0xFFFFFFF0) checkRead(w, last - (r.size() > 3 ? 3 : 0), 8, ctx);
    if ((r.base & 3) == 0 && r.size() >= 4) checkRead(w, r.base, 4, ctx);
    if (r.size() >= 4 && last < 0xFFFFFFF0) { uint32_t a = (last - 1) & ~3u; checkRead(w, a, 4, ctx); checkRead(w, (last - 1) & ~1u, 2, ctx); checkRead(w, last & ~1u, 2, ctx); }
  }
}
uint32_t interestingAddress(const World& w) {
  if (w.regs.empty() || pick(12) == 1) return genWord();
  const Region& r = w.regs[pick(w.regs.size())];
  switch (pick(6)) {
    case 0: return r.base;
    case 1: return r.base + r.size() - pick(8);
    case 2: return r.base - pick(8);
    default: return r.base + pick(r.size() ? r.size() : 1);
  }
}
void randomReads(const World& w, int count_) {
  for (int i = 0; i < count_; i++) {
    uint32_t a = interestingAddress(w), n;
    switch (pick(8)) {
      case 0: n = 1; break;
      case 1: n = 2; break;
      case 2: n = 4; break;
      case 3: n = 8; break;
      case 4: n = 3; break;
      case 5: n = 1 + pick(2048); if (pick(6) == 5) n = (g_packetSize - 16) / 2 - pick(4); break;
      default: n = 1 + pick(64);
    }
    if ((uint64_t)a + n > 0xFFFFFFFFull) { if ((uint64_t)a + n > 0x100000000ull) n = 0x100000000ull - a; }
    if (pick(3) == 1) a &= ~3u;
    if ((uint64_t)a + n > 0x100000000ull) n = 1;
    checkRead(w, a, n, "random read");
  }
}

// ------------------------------------------------------------------ qXfer
std::string xfer(const std::string& object, const std::string& annex, uint32_t chunkMax) {
  std::string all;
  for (int i = 0;; i++) {
    uint32_t len = chunkMax == 0 ? g_packetSize - 5 : 1 + pick(chunkMax);
    if (len > g_packetSize - 5) len = g_packetSize - 5;
    std::string r = g_gdb.request(fmt("qXfer:%s:read:%s:%x,%x", object.c_str(), annex.c_str(), (unsigned)all.size(), len));
    if (r.empty() || (r[0] != 'm' && r[0] != 'l'))
      violation("xfer", "qXfer:%s at offset %zu replied '%.20s'", object.c_str(), all.size(), r.c_str());
    if (r.size() - 1 > len) violation("xfer", "qXfer:%s returned %zu bytes for a %u byte request", object.c_str(), r.size() - 1, len);
    if (r[0] == 'm' && r.size() == 1) violation("xfer", "qXfer:%s makes no progress at offset %zu", object.c_str(), all.size());
    if (r[0] == 'm' && i > 0) count(CT_p_qxfer_chunked);
    all += r.substr(1);
    if (r[0] == 'l') return all;
    if (all.size() > (1u << 22)) violation("xfer", "qXfer:%s never ends", object.c_str());
  }
}
static std::string attr(const std::string& tag, const char* name) {
  std::string k = std::string(" ") + name + "=\"";
  size_t p = tag.find(k);
  if (p == std::string::npos) return "";
  size_t q = tag.find('"', p + k.size());
  return tag.substr(p + k.size(), q - p - k.size());
}
// Minimal well-formedness check plus the list of element start tags in order.
static std::vector<std::string> parseXml(const std::string& x, std::vector<std::string>* texts = NULL, std::vector<std::string>* parents = NULL) {
  std::vector<std::string> tags, stack;

  size_t i = 0;
  if (x.compare(0, 5, "<?xml")) violation("xml", "does not start with an XML declaration: %.40s", x.c_str());
  while (i < x.size()) {
    if (x[i] != '<') {
      if (x[i] == '&' || (unsigned char)x[i] >= 0x80 || x[i] == 0) violation("xml", "stray byte 0x%02x in document text", (uint8_t)x[i]);
      if (stack.empty() && !isspace((unsigned char)x[i])) violation("xml", "text outside the root element at %zu", i);
      if (texts && !tags.empty()) texts->back() += x[i];
      i++;
      continue;
    }
    size_t e = x.find('>', i);
    if (e == std::string::npos) violation("xml", "unterminated tag: %.60s", x.c_str() + i);
    std::string t = x.substr(i + 1, e - i - 1);
    i = e + 1;
    if (t.empty()) violation("xml", "empty tag");
    if (t[0] == '?' || t[0] == '!') continue;
    if (t[0] == '/') {
      if (stack.empty() || stack.back() != t.substr(1)) violation("xml", "mismatched </%s>", t.substr(1).c_str());
      stack.pop_back();
      continue;
    }
    tags.push_back(t);
    if (texts) texts->push_back("");
    if (parents) parents->push_back(stack.empty() ? "" : stack.back());
    if (t[t.size() - 1] != '/') stack.push_back(t.substr(0, t.find_first_of(" \t\n")));
  }
  if (!stack.empty()) violation("xml", "<%s> is never closed", stack.back().c_str());
  return tags;
}
std::vector<MapEntry> readMemoryMap(uint32_t chunkMax) {
  std::string x = xfer("memory-map", "", chunkMax);
  std::vector<MapEntry> m;
  bool root = false;
  std::vector<std::string> texts, parents, tags = parseXml(x, &texts, &parents);
  bool sized = true;
  for (size_t i = 0; i < tags.size(); i++) {
    const std::string& t = tags[i];
    if (t.compare(0, 10, "memory-map") == 0) root = true;
    if (t.compare(0, 8, "property") == 0) {
      if (parents[i] != "memory") violation("xml", "<property> outside <memory>");
      if (attr(t, "name") == "blocksize" && strtoul(texts[i].c_str(), NULL, 0)) sized = true;
    }
    if (t.compare(0, 7, "memory ") == 0) {
      if (!root) violation("xml", "<memory> outside <memory-map>");
      if (!sized) violation("memory-map", "flash without a block size: GDB refuses the map");
      MapEntry e;
      e.type = attr(t, "type");
      e.start = (uint32_t)strtoul(attr(t, "start").c_str(), NULL, 0);
      e.length = (uint32_t)strtoul(attr(t, "length").c_str(), NULL, 0);
      m.push_back(e);
      sized = e.type != "flash";
    }
  }
  if (!sized) violation("memory-map", "flash without a block size: GDB refuses the map");
  if (!root) violation("xml", "no <memory-map> element");
  return m;
}
void checkMemoryMap(const World& w, uint32_t chunkMax) {
  std::vector<MapEntry> m = readMemoryMap(chunkMax);
  std::multiset<std::pair<std::pair<uint32_t, uint32_t>, std::string>> a, b;
  for (auto& e : m) a.insert({{e.start, e.length}, e.type});
  for (auto& r : w.regs) b.insert({{r.base, r.size()}, r.ro ? "flash" : "ram"});
  // whether captures of nothing are listed makes no difference
  for (auto i = a.begin(); i != a.end();) if (!i->first.second && w.empties.count(i->first.first) && !b.count(*i)) i = a.erase(i); else ++i;
  for (auto& e : b) if (!a.count(e)) violation("memory-map", "memory map lacks %s 0x%08x+0x%x", e.second.c_str(), e.first.first, e.first.second);
  for (auto& e : a) if (!b.count(e)) violation("memory-map", "memory map lists %s 0x%08x+0x%x which is not there", e.second.c_str(), e.first.first, e.first.second);
  if (a.size() != b.size()) violation("memory-map", "memory map lists %zu regions, expected %zu", a.size(), b.size());
}
typedef std::vector<std::pair<uint64_t, uint64_t>> Spans;
static Spans merged(Spans v) {
  std::sort(v.begin(), v.end());
  Spans m;
  for (auto& s : v) {
    if (!m.empty() && s.first <= m.back().second) m.back().second = std::max(m.back().second, s.second);
    else m.push_back(s);
  }
  return m;
}
void checkMemoryCover(const World& w, uint32_t chunkMax) {
  for (int ro = 0; ro < 2; ro++) {
    Spans a, b;
    for (auto& e : readMemoryMap(chunkMax)) if ((e.type == "flash") == (ro != 0)) a.push_back({e.start, (uint64_t)e.start + e.length});
    for (auto& r : w.regs) if (r.ro == (ro != 0)) b.push_back({r.base, (uint64_t)r.base + r.size()});
    a = merged(a);
    b = merged(b);
    if (a != b) violation("memory-map", "the %s entries of the memory map do not cover exactly the %s of the session", ro ? "flash" : "ram", ro ? "flash" : "ram");
  }
}
void checkTargetXml(const World& w, uint32_t chunkMax) {
  std::string x = xfer("features", "target.xml", chunkMax);
  std::vector<std::string> names;
  std::map<int, std::pair<std::string, int>> regs;   // number -> name, bits
  int next = 0;
  bool vfp = false, prof = false;
  std::string feature;
  for (auto& t : parseXml(x)) {
    if (t.compare(0, 7, "feature") == 0) {
      std::string n = feature = attr(t, "name");
      if (n == "org.gnu.gdb.arm.vfp") vfp = true;
      if (n == "org.gnu.gdb.arm.m-profile") prof = true;
    }
    if (t.compare(0, 4, "reg ")) continue;
    std::string n = attr(t, "regnum");
    std::string name = attr(t, "name"), type = attr(t, "type");
    bool fp = name[0] == 'd' || name == "fpscr", system = name == "msp" || name == "psp";
    if (!system && feature != (fp ? "org.gnu.gdb.arm.vfp" : "org.gnu.gdb.arm.m-profile")) violation("target-xml", "%s is described in feature %s: GDB does not find it", name.c_str(), feature.c_str());
    static const std::set<std::string> types = {"", "int8", "int16", "int32", "int64", "int128", "uint8", "uint16", "uint32", "uint64", "uint128", "int", "long", "float", "bool",
                                                "code_ptr", "data_ptr", "ieee_half", "ieee_single", "ieee_double", "arm_fpa_ext"};
    if (!types.count(type)) violation("target-xml", "%s has the type %s which GDB does not know", name.c_str(), type.c_str());
    int num = n.empty() ? next : atoi(n.c_str());
    if (regs.count(num)) violation("target-xml", "register number %d is described twice", num);
    regs[num] = {attr(t, "name"), atoi(attr(t, "bitsize").c_str())};
    next = num + 1;
  }
  if (!prof) violation("target-xml", "no org.gnu.gdb.arm.m-profile feature");
  if (vfp != w.fpu) violation("target-xml", "vfp feature is %s but the capture has %s FPU registers", vfp ? "described" : "missing", w.fpu ? "" : "no");
  // the g packet is the concatenation of the registers in number order
  std::vector<std::string> want;
  for (int i = 0; i <= 12; i++) want.push_back(fmt("r%d/32", i));
  want.insert(want.end(), {"sp/32", "lr/32", "pc/32", "xpsr/32", "msp/32", "psp/32"});
  if (w.fpu) { for (int i = 0; i < 16; i++) want.push_back(fmt("d%d/64", i)); want.push_back("fpscr/32"); }
  std::vector<std::string> got;
  size_t bits = 0;
  for (auto& r : regs) { got.push_back(fmt("%s/%d", r.second.first.c_str(), r.second.second)); bits += r.second.second; }
  if (got != want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    violation("target-xml", "register #%zu is described as %s, expected %s", i, i < got.size() ? got[i].c_str() : "(none)", i < want.size() ? want[i].c_str() : "(none)");
  }
  if (regs.count(25) == 0 || regs[25].first != "xpsr") violation("target-xml", "xpsr does not have register number 25");
  std::string g = g_gdb.request("g");
  if (g.size() * 4 != bits) violation("target-xml", "description covers %zu bits but the register packet has %zu", bits, g.size() * 4);
}

// ------------------------------------------------------------------ stop reason
bool g_judgeSignals;
static int hostSignal(const World& w) {
  switch (w.psr & 0xFF) {
    case 2: return 2;
    case 3: case 4: return 11;
    case 5: return 7;          // see known_findings: GDB numbers SIGBUS 10 and SIGSTOP 17
    case 6: return 4;
    case 12: return 5;
    default: return 19;
  }
}
std::string expectedStop(const World& w) {
  std::string s = fmt("T%02x", hostSignal(w));
  for (int i = 12; i < 16; i++) s += fmt("%02x:", i) + hexOf(&w.R[i], 4) + ";";
  return s;
}
void checkStop(const World& w, const std::string& r0, const char* ctx) {
  std::string r = r0, e = expectedStop(w);
  for (size_t i = 1; i < r.size(); i++) r[i] = tolower(r[i]);
  if (r == e) {
    // GDB's protocol has its own signal numbers: what the host calls SIGBUS and SIGSTOP are 10 and 17 there.
    if (g_judgeSignals && hostSignal(w) == 7) knownFinding(0, "stop reply after a bus fault says signal 7, which GDB shows as SIGEMT; its SIGBUS is 10");
    if (g_judgeSignals && hostSignal(w) == 19) knownFinding(1, "stop reply outside the known fault handlers says signal 19, which GDB shows as SIGCONT; its SIGSTOP is 17");
    return;
  }
  int sig = r.size() >= 3 ? (int)strtoul(r.substr(1, 2).c_str(), NULL, 16) : -1;
  int gdbSig = (w.psr & 0xFF) == 5 ? 10 : hostSignal(w) == 19 ? 17 : hostSignal(w);
  if (r[0] == 'T' && r.substr(3) == e.substr(3) && sig == gdbSig) return;
  violation("stop-reply", "%s: stop reply is %.80s, expected %s (exception %u)", ctx, r0.c_str(), e.c_str(), w.psr & 0xFF);
}
std::string expectedFaultText(const World& w) {
  static const uint32_t CFSR = 0xE000ED28, HFSR = 0xE000ED2C, MMFAR = 0xE000ED34, BFAR = 0xE000ED38;
  uint32_t cfsr = 0, hfsr = 0, v;
  bool haveC = w.rd32(CFSR, &cfsr), haveH = w.rd32(HFSR, &hfsr);
  auto hex = [](uint32_t x) { return fmt("0x%08x", x); };
  auto mem = [&]() -> std::string {
    uint32_t s = cfsr & 0xFF;
    if (!haveC || !s) return "";
    std::string t = "\n**MPU Fault**\n  Status Register: " + hex(s);
    if (s & 0x80 && w.rd32(MMFAR, &v)) t += "\n    Fault Address: " + hex(v);
    if (s & 0x20) t += "\n    FP Lazy Preservation";
    if (s & 0x10) t += "\n    Stacking Error";
    if (s & 0x08) t += "\n    Unstacking Error";
    if (s & 0x02) t += "\n    Data Access";
    if (s & 0x01) t += "\n    Instruction Fetch";
    return t;
  };
  auto bus = [&]() -> std::string {
    uint32_t s = cfsr >> 8 & 0xFF;
    if (!haveC || !s) return "";
    std::string t = "\n**Bus Fault**\n  Status Register: " + hex(s);
    if (s & 0x80 && w.rd32(BFAR, &v)) t += "\n    Fault Address: " + hex(v);
    if (s & 0x20) t += "\n    FP Lazy Preservation";
    if (s & 0x10) t += "\n    Stacking Error";
    if (s & 0x08) t += "\n    Unstacking Error";
    if (s & 0x04) t += "\n    Imprecise Data Access";
    if (s & 0x02) t += "\n    Precise Data Access";
    if (s & 0x01) t += "\n    Instruction Prefetch";
    return t;
  };
  auto usage = [&]() -> std::string {
    uint32_t s = cfsr >> 16;
    if (!haveC || !s) return "";
    std::string t = "\n**Usage Fault**\n  Status Register: " + hex(s);
    if (s & 0x200) t += "\n    Divide by Zero";
    if (s & 0x100) t += "\n    Unaligned Access";
    if (s & 0x008) t += "\n    Coprocessor Access";
    if (s & 0x004) t += "\n    Invalid Exception Return State";
    if (s & 0x002) t += "\n    Invalid State";
    if (s & 0x001) t += "\n    Undefined Instruction";
    return t;
  };
  switch (w.psr & 0xFF) {
    case 3: {
      std::string t = "\n**Hard Fault**";
      if (haveH) {
        t += "\n  Status Register: " + hex(hfsr);
        if (hfsr & 0x80000000) t += "\n    Debug Event";
        if (hfsr & 2) t += "\n    Vector Table Read";
        if (hfsr & 0x40000000) t += "\n    Forced" + mem() + bus() + usage();
      }
      return t + "\n";
    }
    case 4: return mem() + "\n";
    case 5: return bus() + "\n";
    case 6: return usage() + "\n";
    default: return "";
  }
}

// ------------------------------------------------------------------ writes
WriteRec doWrite(World& w, uint32_t a, const std::string& data, bool binary) {
  uint32_t eff;
  if (data.size() > (g_packetSize - 64) / 2) return doWrite(w, a, data.substr(0, (g_packetSize - 64) / 2), binary);
  if ((data.size() == 2 || data.size() == 4) && w.find(a, data.size(), &eff) >= 0 && w.ambiguous(a, data.size()))
    return doWrite(w, a, data.substr(0, 1), binary);
  std::string p = fmt("%c%x,%x:", binary ? 'X' : 'M', a, (unsigned)data.size()) + (binary ? binEscape(data) : hexOf(data));
  std::string old = "", r;
  uint32_t n = data.size(), e;
  bool allOk = true, anyRo = false, oneRegion = w.find(a, n, &e) >= 0;
  uint32_t okPrefix = 0;
  for (uint32_t i = 0; i < n; i++) {
    bool m = (uint64_t)a + i < 0x100000000ull && w.mapped(a + i), ro = m && w.readonly(a + i);
    if (m && !ro && allOk) okPrefix++;
    if (!m || ro) allOk = false;
    if (ro) anyRo = true;
  }
  if (anyRo) count(CT_p_flash_write);
  r = g_gdb.request(p);
  WriteRec rec{a, data, r == "OK"};
  if (r == "OK") {
    if (anyRo) violation("flash-write", "write of %u bytes at 0x%08x covers read-only memory but was acknowledged with OK", n, a);
    if (!allOk) violation("write-ok", "write of %u bytes at 0x%08x covers unmapped memory but was acknowledged with OK", n, a);
    for (uint32_t i = 0; i < n; i++) w.set(a + i, data[i]);
    count(CT_p_mem_write_ok);
    return rec;
  }
  if (r.size() != 3 || r[0] != 'E') violation("write-reply", "write at 0x%08x,%u replied '%.20s'", a, n, r.c_str());
  count(CT_p_mem_write_err);
  if (allOk && !((n == 2 || n == 4) && !oneRegion))
    violation("write-refused", "write of %u bytes at 0x%08x to writable memory replied %s", n, a, r.c_str());
  // A refused write may have been carried out up to the first bad byte: each byte must be old or new.
  std::string now;
  if (okPrefix == 2 || okPrefix == 4) for (uint32_t i = 0; i < okPrefix; i++) now += readMem(a + i, 1);
  else if (okPrefix) now = readMem(a, okPrefix);
  if (now.size() != okPrefix) violation("read-refused", "0x%08x,%u unreadable after a refused write", a, okPrefix);
  for (uint32_t i = 0; i < okPrefix; i++) {
    int o = w.get(a + i);
    bool fine = (uint8_t)now[i] == o || now[i] == data[i];
    if (!fine) {                                  // through an alias one request may write the same byte twice
      uint32_t e1, e2;
      w.find(a + i, 1, &e1);
      for (uint32_t k = 0; k < okPrefix && !fine; k++) { w.find(a + k, 1, &e2); if (e1 == e2 && now[i] == data[k]) fine = true; }
    }
    if (!fine)
      violation("torn-write", "0x%08x holds 0x%02x after a refused write: neither old 0x%02x nor new 0x%02x", a + i, (uint8_t)now[i], o, (uint8_t)data[i]);
    w.set(a + i, now[i]);
  }
  return rec;
}
void randomWrites(World& w, int n, bool flashOnly) {
  for (int i = 0; i < n; i++) {
    uint32_t a = interestingAddress(w), len;
    if (flashOnly) {
      std::vector<uint32_t> ro;
      for (size_t k = 0; k < w.regs.size(); k++) if (w.regs[k].ro && w.regs[k].size()) ro.push_back(k);
      if (ro.empty()) return;
      const Region& r = w.regs[ro[pick(ro.size())]];
      a = pick(3) == 1 ? r.base : pick(3) == 1 ? r.base + r.size() - 1 - pick(r.size() < 8 ? r.size() : 8) : r.base + pick(r.size());
      if (pick(6) == 1 && r.base > 4) a = r.base - 1 - pick(4);
    } else if (pick(3)) {                       // prefer RAM
      for (int t = 0; t < 8 && w.readonly(a); t++) a = interestingAddress(w);
    }
    switch (pick(8)) {
      case 0: len = 1; break;
      case 1: len = 2; break;
      case 2: len = 4; break;
      case 3: len = 8; break;
      case 4: len = 1 + pick(1500); break;
      case 5: len = 3; break;
      default: len = 1 + pick(40);
    }
    if (pick(3) == 1) a &= ~3u;
    if ((uint64_t)a + len > 0x100000000ull) len = 1;
    doWrite(w, a, genData(len), pick(2));
  }
}
void writeRegisters(World& w) {
  for (auto& r : w.R) if (pick(3) == 1) r = genWord();
  if (w.fpu) for (auto& r : w.F) if (pick(4) == 1) r = genWord();
  std::string r = g_gdb.request("G" + w.g());
  if (r != "OK") violation("reg-write", "register write replied '%.20s'", r.c_str());
  count(CT_p_reg_write);
}

// ------------------------------------------------------------------ aliases
// Adds up to n aliases to the command line and, as far as they are valid, to the model. false: loading must fail.
bool genAliases(Capture& c, int n, bool mayFail, bool overlap) {
  Layout l;
  for (auto& r : c.w.regs) l.used.push_back({r.base, (uint64_t)r.base + r.size()});
  bool ok = true;
  for (int i = 0; i < n; i++) {
    uint32_t base, size, to;
    size_t k = pick(c.w.regs.size());
    if (c.w.regs[k].size() == 0) continue;
    uint32_t ts = c.w.regs[k].size(), off = pick(3) == 0 ? 0 : pick(4) == 1 ? ts - 1 : pick(ts);
    to = c.w.regs[k].base + off;
    uint32_t left = ts - off;
    switch (pick(6)) {
      case 0: size = left; break;
      case 1: size = left + 1 + pick(3000); break;
      case 2: size = 1 + pick(8); break;
      case 3: size = pick(12) == 1 ? 0 : 1 + pick(left); break;
      case 4: size = pick(4) ? 0x1000u << pick(8) : pick(2) ? 0x80000000u : pick(2) ? 0xFFFFFFFFu : pick32(); break;
      default: size = 1 + pick(left);
    }
    if (mayFail && pick(10) == 1) {
      for (int t = 0; t < 20; t++) { to = pick(2) ? (uint32_t)(c.w.regs[k].base + ts) : genWord(); if (!c.w.mapped(to)) break; }
    }
    uint32_t eff = size > left ? left : size, e;
    int target = c.w.find(to, 1, &e);
    if (target >= 0) eff = std::min(size, (uint32_t)(c.w.regs[target].size() - (e - c.w.regs[target].base)));      // clamped to the end of what it names
    bool placed = false;
    for (int t = 0; t < 12 && !placed; t++) {
      switch (pick(5)) {
        case 0: base = 0x22000000 + 0x01000000 * pick(16); break;
        case 1: base = pick32(); break;
        case 2: base = (uint32_t)l.used[pick(l.used.size())].second; break;
        case 3: base = (uint32_t)l.used[pick(l.used.size())].first - eff; break;
        default: base = overlap ? (uint32_t)l.used[pick(l.used.size())].first + pick(64) - 32 : 0x70000000 + pick(0x10000);
      }
      if ((uint64_t)base + eff > 0x100000000ull) continue;     // wraps around: meaningless
      if (!overlap && !l.ok(base, eff ? eff : 1)) continue;
      placed = true;
    }
    if (!placed) continue;
    static const char* const nf[] = {"0x%x", "%u", "0%o", "0X%08X"};
    auto num = [&](uint32_t v) { return fmt(v ? nf[pick(4)] : "0x%x", v); };
    c.extraArgs.insert(c.extraArgs.end(), {"--alias", num(base), num(size), num(to)});
    l.used.push_back({base, (uint64_t)base + eff});
    if (!c.w.addAlias(base, size, to)) { ok = false; break; }
  }
  return ok;
}
