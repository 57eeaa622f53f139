// C01-C08: what a capture and an image turn into, whole, cut short, unreadable, unallocatable or hostile.
#include "scenario.h"

static GenOpts loadOpts() {
  GenOpts o;
  o.scs = pick(6) == 1;
  if (pick(25) == 1) {
    o.maxRamSize = 40000; o.maxFlashSize = 40000; o.maxRam = 2;
    if (pick(4) == 1) {
      o.maxRamSize = 160000; o.bigRam = true; count(CT_p_big_region);
      if (pick(20) == 19) { o.maxRamSize = o.maxFlashSize = (1u << 20) + pick(1u << 20); o.maxRam = 1; count(CT_p_mb_region); g_stepCap = 200000000; }
    }
  }
  return o;
}
static void readPattern() {
  switch (pick(5)) {
    case 1: g_vfs.dflt.chunk = -1; break;
    case 2: g_vfs.dflt.chunk = 1 + pick(64); break;
    case 3: g_vfs.dflt.chunk = 1; break;
    default: break;
  }
}
// Everything a debugger can see, in a random order of inspection.
void inspectAll(const World& w) {
  int order = pick(6);
  auto regs = [&] { checkRegisters(w, "session"); };
  auto mem = [&] { checkAllMemory(w, "session"); };
  auto edges = [&] { checkEdges(w, "region edge"); };
  switch (order) {
    case 0: regs(); mem(); edges(); break;
    case 1: mem(); regs(); edges(); break;
    case 2: edges(); mem(); regs(); break;
    case 3: randomReads(w, 20); regs(); mem(); break;
    case 4: regs(); edges(); randomReads(w, 10); mem(); regs(); break;
    default: mem(); mem(); edges(); regs(); break;
  }
}
static void fidelity(DumpKind k) {
  pacing(pick(4) == 1);
  readPattern();
  GenOpts o = loadOpts();
  o.reprint = true;
  o.overlap = true;
  o.empties = true;
  Capture c = genCapture(k, o);
  if (pick(3) == 1) g_heap.fill = (uint8_t)pick(256);
  ProcResult r = runSession(c, [&] {
    handshake();
    nontrivial();
    inspectAll(c.w);
    for (uint32_t b : c.w.joins) if (pick(2)) checkRead(c.w, b & ~3u, 4, "session");
    if (pick(3) == 1) { if (c.reprint) checkMemoryCover(c.w, 0); else checkMemoryMap(c.w, 0); }
  });
  mustHaveBeenKilled(r);
}
// Dumps in a version which isn't known can't be understood.
static void otherVersion(DumpKind k) {
  pacing(pick(4) == 1);
  readPattern();
  Capture c = genCapture(k, loadOpts());
  static const uint16_t near[] = {0x0100, 0x0101, 0x0201, 0x0301, 0x0400, 0x0000, 0x0002, 0x0003, 0x02FF, 0x0303, 0xFFFF, 0x8300, 0x1300, 0x2300};
  uint16_t v;
  do v = pick(3) ? near[pick(14)] : pick(65536); while (v == 0x0200 || v == 0x0300);
  if (k == D_BIN) { c.dump[2] = v >> 8; c.dump[3] = v; }
  else {
    std::string t = fmt("%04X", v);
    size_t d = 0;
    for (size_t i = 0; i < c.dump.size() && d < 8; i++) if (isxdigit((unsigned char)c.dump[i])) { if (d >= 4) c.dump[i] = t[d - 4]; d++; }
  }
  nontrivial();
  count(CT_p_bad_version);
  ProcResult r = runSession(c, [&] { handshake(); });
  mustHaveFailedCleanly(r, "the dump has an unknown version");
}
SCENARIO(C01) { if (pick(30) == 29) otherVersion(D_BIN); else fidelity(D_BIN); }
SCENARIO(C02) {
  if (pick(30) == 29) { otherVersion(D_HEX); return; }
  if (pick(10) != 1) { fidelity(D_HEX); return; }
  // a digit that was garbled into something else (serial lines, editors) makes the dump unusable
  pacing(pick(4) == 1);
  readPattern();
  Capture c = genCapture(D_HEX, loadOpts());
  std::vector<size_t> digits;
  for (size_t i = 4; i < c.dump.size(); i++) if (isxdigit((unsigned char)c.dump[i])) digits.push_back(i);
  size_t at = pick(3) ? digits[pick(digits.size())] : digits[pick(std::min<size_t>(digits.size(), 60))];
  static const char near[] = "/:@G`g xX-+.,;OolI\t\0\x7f\x1a\xff\xb0";
  char ch;
  do ch = pick(3) ? near[pick(sizeof near - 1)] : (char)pick(256); while (isxdigit((unsigned char)ch) || ch == '\r' || ch == '\n');
  c.dump[at] = ch;
  nontrivial();
  count(CT_p_bad_digit);
  ProcResult r = runSession(c, [&] { handshake(); });
  mustHaveFailedCleanly(r, "a hex digit of the dump is garbled");
}
SCENARIO(C03) { fidelity(D_LOG); }

static uint32_t rd32(const std::string& s, size_t at) { uint32_t v; memcpy(&v, &s[at], 4); return v; }
static uint16_t rd16(const std::string& s, size_t at) { uint16_t v; memcpy(&v, &s[at], 2); return v; }
SCENARIO(C04) {
  pacing(pick(6) == 1);
  readPattern();
  GenOpts o;
  o.maxRam = 2;
  o.maxFlash = 8;
  o.maxFlashSize = pick(10) == 1 ? 200000 : 6000;
  if (pick(600) == 599) { o.maxFlashSize = (1u << 20) + pick(2u << 20); o.maxFlash = 2; count(CT_p_mb_region); g_stepCap = 200000000; }
  Capture c = genCapture(pick(4) == 1 ? D_HEX : D_BIN, o);
  // images that only differ from a good one in something that matters to the loader must be refused
  if (c.elf && pick(6) == 1) {
    struct { size_t off; unsigned char v; const char* why; } bad[] = {
      {0, 0x7e, "the magic number is wrong"}, {1, 'e', "the magic number is wrong"}, {3, 'f', "the magic number is wrong"},
      {4, 2, "the image is 64-bit"}, {5, 2, "the image is big endian"}, {16, 1, "the image is a relocatable object"}, {16, 3, "the image is a shared object"}};
    const char* why;
    switch (pick(4)) {
      case 3: {                       // nothing in it to load
        size_t off = rd32(c.image, 28), size = rd16(c.image, 42), n = rd16(c.image, 44);
        static const uint32_t types[] = {0, 2, 3, 4, 6, 7, 0x70000001, 0x6474e551};
        for (size_t i = 0; i < n; i++) {
          char* p = &c.image[off + i * size];
          if (pick(3)) { uint32_t t = types[pick(8)]; memcpy(p, &t, 4); }
          else memset(p + 16, 0, 4);            // .bss only
        }
        why = "no program header has anything to load";
        count(CT_p_elf_no_segment);
        break;
      }
      case 0: case 1: { auto& b = bad[pick(7)]; why = b.why; c.image[b.off] = pick(3) || b.off < 4 ? b.v : b.off == 16 ? 3 + pick(250) : 3 + pick(253); break; }
      default:
        switch (pick(4)) {
          case 0: for (int i = 28; i < 32; i++) c.image[i] = 0; why = "there are no program headers"; break;
          case 1: c.image[44] = c.image[45] = 0; why = "there are no program headers"; break;
          case 2: c.image[42] = pick(32); c.image[43] = 0; why = "the program headers are too small"; break;
          default: for (int i = 28; i < 32; i++) c.image[i] = 0xFF - (i == 28 ? pick(64) : 0); why = "the program headers are outside of the file";
        }
    }
    nontrivial();
    ProcResult r = runSession(c, [&] { handshake(); });
    mustHaveFailedCleanly(r, why);
    return;
  }
  ProcResult r = runSession(c, [&] {
    handshake();
    nontrivial();
    checkAllMemory(c.w, "image");
    checkEdges(c.w, "image edge");
    checkMemoryMap(c.w, 0);
    checkRegisters(c.w, "image");
    randomReads(c.w, 10);
  });
  mustHaveBeenKilled(r);
}

// ------------------------------------------------------------------ C05 truncation
static size_t cutPoint(const std::vector<size_t>& cuts, size_t size) {
  size_t n;
  switch (pick(4)) {
    case 0: n = cuts.empty() ? pick(size) : cuts[pick(cuts.size())]; break;
    case 1: n = (cuts.empty() ? 0 : cuts[pick(cuts.size())]) + pick(17) - 8; break;
    case 2: n = pick(64); break;
    default: n = pick(size);
  }
  return (int64_t)n < 0 ? 0 : n > size ? size : n;
}
static bool isHexDigit(char c) { return isxdigit((unsigned char)c); }

static void truncatedRecord(Capture& c) {
  // Lay out the record boundaries of the binary form of the capture.
  std::vector<size_t> ends;                  // ends[i]: offset after which i regions are complete
  size_t hdr = 8 + (c.v2 ? 17 : 19) * 4 + 4 + (c.w.fpu ? 132 : 0), o = hdr;
  ends.push_back(o);
  for (size_t i = 0; i < c.nRam; i++) { o += 8 + c.w.regs[c.nFlash + i].data.size(); ends.push_back(o); }
  bool sentinel = pick(6) == 1, sentinelTail = false;
  size_t n, dangling = 0;
  if (sentinel) {
    size_t k = pick(ends.size());
    std::string m = le32(0xACCE55ED);
    if (c.kind == D_BIN) c.dump = c.dump.substr(0, ends[k]) + m;
    else {
      size_t digits = 0, p = 0;
      while (p < c.dump.size() && digits < ends[k] * 2) { if (isHexDigit(c.dump[p])) digits++; p++; }
      c.dump.resize(p);
      for (unsigned char ch : m) c.dump += fmt("%02X", ch);
      if (pick(2)) { c.dump += "\r\n"; sentinelTail = true; }
    }
    count(CT_p_overflow_sentinel);
    nontrivial();
    ProcResult r = runSession(c, [&] { handshake(); });
    mustHaveFailedCleanly(r, "the capture says that its own stack overflowed");
    if (g_stderrText.find("stack overflow") == std::string::npos)
      violation("overflow-message", "the error message does not mention the stack overflow: %.120s", g_stderrText.c_str());
    (void)sentinelTail;
    return;
  }
  size_t cut = cutPoint(c.cuts, c.dump.size());
  c.dump.resize(cut);
  if (c.kind == D_BIN) n = cut;
  else {
    size_t d = 0;
    for (char ch : c.dump) if (isHexDigit(ch)) d++;
    n = d / 2;
    dangling = d & 1;
  }
  count(CT_file_torn);
  bool asLog = c.kind == D_BIN ? cut < 2 : (cut < 4);
  size_t k = 0;
  bool boundary = false;
  for (size_t i = 0; i < ends.size(); i++) if (ends[i] == n) { boundary = true; k = i; }
  World w = c.w;
  if (asLog) {
    // Not recognisable as a capture at all: an empty GDB log. Nothing may be made up.
    memset(w.R, 0, sizeof w.R);
    w.R[rMSP] = w.R[rPSP] = 0xBAADBAAD;
    w.fpu = false;
    w.psr = 0;
    w.regs.resize(c.nFlash);
  } else if (boundary) {
    w.regs.resize(c.nFlash + k);
    count(CT_p_region_boundary_cut);
  } else count(CT_p_midregion_cut);
  nontrivial();
  ProcResult r = runSession(c, [&] {
    handshake();
    if (!asLog && !boundary) violation("truncated-accepted", "a session was started from a capture cut in the middle of a record (byte %zu)", n);
    inspectAll(w);
    for (size_t i = w.regs.size(); i < c.w.regs.size() && i < w.regs.size() + 3; i++) checkRead(w, c.w.regs[i].base, 1, "region that was cut off");
    checkMemoryMap(w, 0);
  });
  if (r.killed) { mustHaveBeenKilled(r); return; }
  if (boundary && !asLog && !dangling) mustHaveBeenKilled(r);
  mustHaveFailedCleanly(r, "the capture is truncated");
}

static void truncatedImage(Capture& c) {
  size_t need = c.imgCuts[0];
  std::vector<size_t> cuts = c.imgCuts;
  cuts.push_back(52);
  size_t cut = cutPoint(cuts, c.image.size());
  if (c.elf && need && pick(8) == 1) cut = need - 1 - pick(4) % need;       // just misses the last segment's end
  c.image.resize(cut);
  count(CT_file_torn);
  World w = c.w;
  bool must = c.elf ? cut >= need : cut > 0;
  if (!c.elf) w.regs[0].data.resize(cut);
  nontrivial();
  ProcResult r = runSession(c, [&] {
    handshake();
    if (c.elf && !must) violation("truncated-accepted", "a session was started from an ELF cut to %zu of %zu needed bytes", cut, need);
    inspectAll(w);
    checkMemoryMap(w, 0);
  });
  if (must) mustHaveBeenKilled(r);
  else if (!r.killed) mustHaveFailedCleanly(r, "the image is truncated");
}

static void truncatedLog(Capture& c) {
  size_t cut = cutPoint(c.cuts, c.dump.size());
  // Also aim inside lines that carry state.
  if (!c.lines.empty() && pick(2)) { const LogLine& l = c.lines[pick(c.lines.size())]; cut = l.start + pick(l.end - l.start + 1); }
  c.dump.resize(cut);
  count(CT_file_torn);
  World w = c.w;
  w.regs.resize(c.nFlash);
  memset(w.R, 0, sizeof w.R);
  w.R[rMSP] = w.R[rPSP] = 0xBAADBAAD;
  memset(w.F, 0, sizeof w.F);
  bool fpu = false;
  const LogLine* torn = NULL;
  for (auto& l : c.lines) {
    if (l.end > cut) { if (l.start < cut && !torn) torn = &l; continue; }
    if (l.reg >= 0) w.R[l.reg] = l.value;
    if (l.fp >= 0) { w.F[l.fp] = l.value; if (l.fp < 32) fpu = true; }
    if (l.mem) {
      std::string d;
      for (uint32_t v : l.words) d += le32(v);
      if (w.regs.size() > c.nFlash && (uint64_t)w.regs.back().base + w.regs.back().data.size() == l.addr) w.regs.back().data += d;
      else { Region q; q.base = l.addr; q.data = d; w.regs.push_back(q); }
    }
  }
  w.fpu = fpu;
  nontrivial();
  ProcResult r = runSession(c, [&] {
    handshake();
    // registers
    std::string g = g_gdb.request("g"), raw;
    if (!unhex(g, &raw)) violation("protocol", "malformed g reply");
    bool tornFp = torn && torn->fp >= 0;
    if (raw.size() != (fpu ? 208u : 76u) && !(tornFp && raw.size() == 208)) violation("registers", "register packet has %zu bytes", raw.size());
    for (size_t i = 0; i < 19; i++) {
      uint32_t v;
      memcpy(&v, &raw[i * 4], 4);
      if (v == w.R[i]) continue;
      if (torn && torn->reg == (int)i && v == torn->value) continue;
      violation("invented-register", "register #%zu reads 0x%08x from a log cut at byte %zu; the cut log says 0x%08x and %s", i, v, cut, w.R[i],
                torn && torn->reg == (int)i ? "ends inside that line" : "does not change that");
    }
    for (size_t i = 0; raw.size() == 208 && i < 33; i++) {
      uint32_t v;
      memcpy(&v, &raw[76 + i * 4], 4);
      if (v == w.F[i]) continue;
      if (tornFp && torn->fp == (int)i && (v == torn->value || v == 0xFFFFFFFF)) continue;
      violation("invented-register", "FP register #%zu reads 0x%08x from a log cut at byte %zu; the cut log says 0x%08x", i, v, cut, w.F[i]);
    }
    // memory: complete lines in full, words of the torn line only if right
    World x = w;
    if (torn && torn->mem) {
      uint32_t have = 0;
      std::string d, raw2;
      for (size_t k = 0; k < torn->words.size(); k++) {
        std::string b = readMem(torn->addr + 4 * k, 4);
        if (b.empty()) break;
        uint32_t v;
        memcpy(&v, b.data(), 4);
        if (v != torn->words[k])
          violation("invented-memory", "0x%08x reads 0x%08x from a log cut at byte %zu inside that line; the log says 0x%08x", (uint32_t)(torn->addr + 4 * k), v, cut, torn->words[k]);
        d += b;
        have++;
      }
      if (have) {
        if (x.regs.size() > c.nFlash && (uint64_t)x.regs.back().base + x.regs.back().data.size() == torn->addr) x.regs.back().data += d;
        else { Region q; q.base = torn->addr; q.data = d; x.regs.push_back(q); }
      }
    }
    checkAllMemory(x, "cut log");
    checkEdges(x, "cut log edge");
    checkMemoryMap(x, 0);
  });
  if (!r.killed) mustHaveFailedCleanly(r, "the log is truncated");
  else mustHaveBeenKilled(r);
}
SCENARIO(C05) {
  GenOpts o;
  o.maxRamSize = 600;
  o.maxFlashSize = 600;
  o.maxRam = 4;
  int what = pick(8);
  readPattern();
  if (what < 2) { Capture c = genCapture(D_BIN, o); truncatedRecord(c); }
  else if (what < 4) { Capture c = genCapture(D_HEX, o); truncatedRecord(c); }
  else if (what < 6) { Capture c = genCapture(D_LOG, o); truncatedLog(c); }
  else if (what == 6) { o.maxRam = 1; if (pick(3) == 1) o.maxFlashSize = 20000; Capture c = genCapture(D_BIN, o, 1); truncatedImage(c); }
  else { o.maxRam = 1; if (pick(3) == 1) o.maxFlashSize = 20000; Capture c = genCapture(D_BIN, o, 0); truncatedImage(c); }
}

// ------------------------------------------------------------------ C06 input errors
static void closedAndFreed(const ProcResult& r) {
  if (r.killed) return;
  if (g_vfs.openNow) violation("stream-leak", "%d input files still open when the process ended", g_vfs.openNow);
  if (!g_heap.live.empty()) violation("leak", "%zu allocations (%llu bytes) never released", g_heap.live.size(), (unsigned long long)g_heap.inUse);
  count(CT_p_leakcheck);
}
SCENARIO(C06) {
  GenOpts o;
  o.maxRamSize = pick(3) == 1 ? 9000 : 700;
  o.maxFlashSize = pick(3) == 1 ? 9000 : 700;
  o.maxRam = 4;
  readPattern();
  DumpKind k = (DumpKind)pick(3);
  Capture c = genCapture(k, o);
  g_vfs.plan.assign(8, g_vfs.dflt);
  int what = pick(10), open = pick(3), nth = pick(3) == 1 ? 3 + pick(4) : open;   // later opens: only code that opens a file again sees those
  size_t size = open == 0 ? c.image.size() : c.dump.size();
  const std::vector<size_t>& cuts = open == 0 ? c.imgCuts : c.cuts;
  bool mustFail = false;
  const char* why = "an input file could not be read";
  std::vector<std::string> args = c.args(pick(3) == 1);
  switch (what) {
    case 0: g_vfs.plan[nth].fail = true; if (pick(3) == 1) for (size_t i = nth; i < 8; i++) g_vfs.plan[i].fail = true; mustFail = true; why = "an input file could not be opened"; break;
    case 1: switch (pick(3)) {
      case 0: g_vfs.plan[nth].seekFailAt = pick(5); break;
      case 1: g_vfs.plan[nth].apiSeekFailAt = pick(4); break;
      default: g_vfs.plan[nth].apiTellFailAt = pick(2);
    }
    break;
    case 2: g_vfs.plan[nth].closeFail = true; break;
    case 5:
      if (c.elf && c.imgCuts[0]) {                   // the image is replaced (rebuilt) while it is read
        size_t need = c.imgCuts[0], keep = pick(2) ? need - 1 - pick(std::min<size_t>(need, 8)) : pick(c.image.size());
        g_vfs.files["image"].altData = c.image.substr(0, keep);
        g_vfs.files["image"].hasAlt = true;
        g_vfs.plan[0].resizeAtRewind = keep;
        why = "the image got shorter while it was read";
        count(CT_file_shrink_while_read);
        break;
      }
      /* fall through */
    case 3: {                                        // file missing
      std::string gone = pick(2) ? "image" : "dump";
      for (auto& a : args) if (a == gone) a = "missing";
      mustFail = true;
      why = "an input file does not exist";
      break;
    }
    case 4:
      if (k == D_LOG) {                              // still being written while it is read
        c.nRam = c.nRam;
        std::string more = c.dump;
        if (!more.empty() && more.back() != '\n') more += "\n";
        for (int i = 1 + pick(4); i; i--) more += pick(2) ? fmt("0x%08x:\t0x%08x\t0x%08x\n", pick32() & ~3u, pick32(), pick32()) : pick(2) ? "r3             0x1234\t4660\n" : "noise line\n";
        g_vfs.files["dump"].altData = more;
        g_vfs.files["dump"].hasAlt = true;
        g_vfs.plan[2].resizeAtRewind = more.size();
        break;
      }
      /* fall through */
    default: {
      size_t at = cutPoint(cuts, size);
      g_vfs.plan[nth].eioAt = at;
      g_vfs.plan[nth].eioTransient = pick(4) == 1;
      if (open == 1 && pick(2)) g_vfs.plan[2].eioAt = at;
    }
  }
  nontrivial();
  ProcResult r = runSession(c, [&] {
    handshake();
    if (mustFail && (what == 3 || g_vfs.anyFault)) violation("not-rejected", "a session was started although %s", why);
    checkRegisters(c.w, "after an input fault");
    checkAllMemory(c.w, "after an input fault");
    checkMemoryMap(c.w, 0);
  }, &args);
  if (r.killed) { mustHaveBeenKilled(r); return; }
  mustHaveFailedCleanly(r, why);
  closedAndFreed(r);
  count(CT_p_load_failed);
}

// ------------------------------------------------------------------ C07 memory exhaustion
SCENARIO(C07) {
  GenOpts o;
  o.maxRamSize = 600;
  o.maxFlashSize = 600;
  o.maxRam = 5;
  readPattern();
  DumpKind k = (DumpKind)pick(3);
  Capture c = genCapture(k, o);
  int mode = pick(8);
  if (mode == 7) {
    // The capture or the image asks for more memory than there is.
    if (k == D_BIN && pick(2)) {
      uint32_t b = pick32(), e = b + 0x04000001u + pick(0x70000000);
      g_heap.cap = 64u << 20;
      c.dump += le32(b) + le32(e) + genData(pick(200));
    } else g_heap.cap = 400 + pick(2000);
  } else {
    uint32_t est = 6 + 3 * (c.nFlash + c.nRam);
    uint32_t n = 1 + pick(est);
    if (mode == 6) g_heap.failFrom = n;
    else { g_heap.failAt.insert(n); if (mode == 5) g_heap.failAt.insert(n + 1 + pick(3)); }
    g_heap.armed = true;
  }
  // In-session: the memory map is built on demand.
  bool inSession = mode == 4;
  if (inSession) { g_heap.armed = false; g_heap.failAt.clear(); }
  if (pick(3) == 1 && c.w.regs.size()) {
    const Region t = c.w.regs[pick(c.w.regs.size())];
    if (t.size()) {
      uint32_t b = 0x50000000;
      bool free = true;
      for (auto& q : c.w.regs) if (q.base < b + 4096 && (uint64_t)q.base + q.size() > b) free = false;
      if (free && c.w.addAlias(b, 64, t.base)) c.extraArgs = {"--alias", fmt("0x%x", b), "64", fmt("0x%x", t.base)};
    }
  }
  ProcResult r = runSession(c, [&] {
    handshake();
    if (g_heap.anyFailed && !inSession) violation("alloc-failure-ignored", "a session was started although an allocation failed while loading");
    if (inSession) {
      if (pick(2)) readMemoryMap(0);
      uint32_t base = g_heap.calls;
      g_heap.failAt.insert(base + 1 + pick(3));
      g_heap.armed = true;
      // An error reply if something failed, or the true map: but never a wrong one.
      struct Got { uint32_t at, len; std::string rep; };
      std::vector<Got> got;
      for (int i = 1 + pick(4); i > 0; i--) {
        uint32_t room = g_packetSize - 8 < 0x1000 ? g_packetSize - 8 : 0x1000;
        Got q = {pick(2) ? pick(800) : 0, pick(2) ? 1 + pick(room) : room, ""};
        q.rep = g_gdb.request(fmt("qXfer:memory-map:read::%x,%x", q.at, q.len));
        if (!q.rep.empty() && (q.rep[0] == 'm' || q.rep[0] == 'l')) got.push_back(q);
        else if (!g_heap.anyFailed) violation("xfer", "memory map refused with '%s'", q.rep.c_str());
        else if (q.rep.size() != 3 || q.rep[0] != 'E') violation("xfer", "out of memory is answered with '%s'", q.rep.c_str());
      }
      nontrivial();
      g_heap.armed = false;
      checkRegisters(c.w, "after memory ran out");
      checkAllMemory(c.w, "after memory ran out");
      checkMemoryMap(c.w, 0);
      std::string all = xfer("memory-map", "", 0);
      for (auto& q : got) {
        size_t at = std::min<size_t>(q.at, all.size());
        // 'm' with all that is left is as good as 'l': the next read then is empty
        if (q.rep.substr(1) != all.substr(at, q.rep.size() - 1) || (q.rep[0] == 'l' && at + q.rep.size() - 1 < all.size()) || q.rep == "m")
          violation("memory-map", "memory map at %u,%u was '%c' with %zu bytes while memory ran out, which is not part of the map of %zu bytes", q.at, q.len, q.rep[0], q.rep.size() - 1, all.size());
      }
      return;
    }
    checkRegisters(c.w, "allocation faults armed");
    checkAllMemory(c.w, "allocation faults armed");
  });
  if (r.killed) { mustHaveBeenKilled(r); return; }
  nontrivial();
  if (!g_heap.anyFailed && g_heap.failAt.empty() && !g_heap.failFrom && mode != 7) violation("ended-early", "process ended although no allocation failed: %.100s", g_stderrText.c_str());
  if (inSession) {
    if (!r.exited || r.code == 0 || g_stderrText.empty()) violation("oom-exit", "running out of memory ended the session without a clean failure (code %d signal %d)", r.code, r.sig);
  } else {
    if (!g_heap.anyFailed) violation("ended-early", "process ended although no allocation failed: %.100s", g_stderrText.c_str());
    mustHaveFailedCleanly(r, "memory ran out while loading");
  }
  closedAndFreed(r);
}

// ------------------------------------------------------------------ C08 hostile input
static void mutate(std::string& s, const std::vector<size_t>& hot, bool text) {
  int n = 1 + pick(4);
  while (n--) {
    if (s.empty()) { s = genData(1 + pick(40)); continue; }
    size_t at = !hot.empty() && pick(2) ? hot[pick(hot.size())] : pick(s.size());
    if (pick(2)) at += pick(16);
    if (at >= s.size()) at = s.size() - 1;
    switch (pick(text ? 9 : 7)) {
      case 0: s[at] = (char)pick(256); break;
      case 1: s[at] ^= 1 << pick(8); break;
      case 2: s.insert(at, genData(1 + pick(20))); break;
      case 3: s.erase(at, 1 + pick(20)); break;
      case 4: { uint32_t v = pick(2) ? genWord() : (uint32_t)s.size() - pick(64); for (int i = 0; i < 4 && at + i < s.size(); i++) s[at + i] = (char)(v >> (8 * i)); break; }
      case 5: { size_t k = pick(s.size()), m = 1 + pick(64); s.insert(at, s.substr(k, m)); break; }
      case 6: s.resize(pick(s.size() + 1)); break;
      case 7: {
        static const char* const t[] = {"0x", "<", ">", "<<", ":", "\t", "(raw ", "0xFFFFFFFF", "0xFFFFFFFC:", "\xff", "s0             ", "r0             ", "\r", "\n", "0x20000000:\t", "0x00000000:\t0x1\n"};
        s.insert(at, t[pick(16)]);
        break;
      }
      default:
        if (pick(2)) for (size_t k = at, m = 0; k < s.size() && m < 400; k++, m++) { if (s[k] == '\n' || s[k] == ':') s[k] = '\t'; }   // lines run together
        else s.insert(at, std::string(1 + pick(3000), "x<> 0\xe9"[pick(6)]));
    }
    count(CT_file_flip);
  }
}
static void hostileElfHeader(std::string& s) {
  auto put = [&](size_t o, uint32_t v, int n) { for (int i = 0; i < n && o + i < s.size(); i++) s[o + i] = (char)(v >> (8 * i)); };
  auto get = [&](size_t o) { uint32_t v = 0; for (int i = 0; i < 4 && o + i < s.size(); i++) v |= (uint32_t)(uint8_t)s[o + i] << (8 * i); return v; };
  for (int n = 1 + pick(3); n; n--) {
    uint32_t v = pick(3) ? genWord() : (uint32_t)s.size() + pick(16) - 8;
    switch (pick(6)) {
      case 0: put(28, v, 4); break;                       // e_phoff
      case 1: put(44, pick(2) ? 0xFFFF : pick(70), 2); break;
      case 2: put(42, pick(4) ? pick(65) : 0xFFFF, 2); break;
      default: {
        uint32_t ph = get(28), num = get(44) & 0xFFFF, sz = get(42) & 0xFFFF;
        if (!num) break;
        size_t e = ph + (size_t)pick(num) * sz;
        uint32_t off = pick(2) ? 0xFFFFFFFFu - pick(256) : v, len = 0 - off + pick((uint32_t)s.size() + 1);
        switch (pick(5)) {
          case 0: put(e + 4, v, 4); break;
          case 1: put(e + 16, v, 4); put(e + 20, 0xFFFFFFFF, 4); break;
          case 2: put(e + 12, pick(2) ? v : get(ph + 12), 4); break;   // overlaps another segment
          case 3: off = pick((uint32_t)s.size() + 1); len = 0 - off + pick((uint32_t)s.size() + 1); put(e + 4, off, 4); put(e + 16, len, 4); put(e + 20, 0xFFFFFFFF, 4); put(e, 1, 4); break;
          default: put(e, 1, 4); put(e + 20, 0xFFFFFFFF, 4); put(e + 16, pick((uint32_t)s.size() + 4), 4);
        }
      }
    }
  }
}
static std::string hostileRequest(const World& w) {
  static const char cmds[] = "?cgGmMqsSXzZvHTkDPpRQ!ABIibdtx";
  std::string p;
  uint32_t a = interestingAddress(w);
  static const uint32_t lens[] = {0, 1, 2, 4, 0x3FFF, 0x4000, 0x4001, 0x1FFF, 0x2000, 0x2001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
  uint32_t n = pick(2) ? lens[pick(13)] : genWord();
  switch (pick(14)) {
    case 0: p = fmt("m%x,%x", a, n); break;
    case 1: p = fmt("M%x,%x:", a, n) + hexOf(genData(pick(40))); break;
    case 2: p = fmt("X%x,%x:", a, n) + binEscape(genData(pick(40))); break;
    case 3: p = "G" + hexOf(genData(pick(230))); break;
    case 4: p = fmt("qXfer:memory-map:read::%x,%x", pick(3) ? pick(400) : genWord(), n); break;
    case 5: p = fmt("qXfer:features:read:target.xml:%x,%x", pick(3) ? pick(3000) : genWord(), n); break;
    case 6: { static const char* const q[] = {"qXfer", "qXfer:", "qXfer:memory-map", "qXfer:memory-map:read", "qXfer:memory-map:read::", "qXfer:memory-map:read::0", "qXfer:features:read:other.xml:0,100", "qXfer:features:write:target.xml:0,1", "qXfer:::::", "qSupported", "qSupported:", "qAttached", "qRcmd,68656c70", "qC", "qfThreadInfo", "q"}; p = q[pick(16)]; break; }
    case 7: p = fmt("%c%u,%x,%x", pick(2) ? 'Z' : 'z', pick(7), a, n); break;
    case 8: p = std::string(1, cmds[pick(sizeof cmds - 1)]); break;
    case 9: p = fmt("m%x", a); break;
    case 10: p = std::string(1, "mMXGqzZg?"[pick(9)]) + genData(pick(60)); break;
    case 11: p = fmt("m%x,%x", a, 1 + pick(0x2100)); break;
    case 12: p = std::string(1, cmds[pick(sizeof cmds - 1)]) + fmt("%x", n) + std::string(pick(3) ? pick(30) : pick(17000), ",:;0f-"[pick(6)]); break;
    default: p = "X" + fmt("%x,%x:", a, pick(64)) + genData(pick(64));
  }
  std::string r;
  for (char ch : p) if (ch != '$' && ch != '#' && ch != 3) r += ch; else r += 'A';
  if (r.empty() || r[0] == 'F') r = "m0,4";
  return r;
}
SCENARIO(C08) {
  GenOpts o;
  o.maxRamSize = 400;
  o.maxFlashSize = 400;
  o.maxRam = 4;
  o.scs = true;
  readPattern();
  g_heap.cap = 48u << 20;
  Capture c = genCapture((DumpKind)pick(3), o);
  if (c.kind == D_BIN && pick(3) == 1) {           // hostile region descriptors
    uint32_t b = pick(2) ? genWord() : interestingAddress(c.w), e = pick(3) ? b + pick(64) : genWord();
    std::string rec = le32(b) + le32(e) + genData(pick(80));
    if (pick(2) || c.cuts.empty()) c.dump += rec; else c.dump.insert(c.cuts[pick(c.cuts.size())], rec);
  }
  bool mutDump = pick(3) != 0, mutImage = pick(3) == 1;
  if (mutDump) mutate(c.dump, c.cuts, c.kind != D_BIN);
  if (mutImage) { if (c.elf && pick(3)) hostileElfHeader(c.image); else mutate(c.image, {0, 4, 28, 42, 44, 52, 56, 68, 72}, false); }
  std::vector<std::string> args = c.args();
  for (int n = pick(4); n; n--) {
    args.push_back("--alias");
    args.push_back(fmt("0x%x", pick(2) ? interestingAddress(c.w) : genWord()));
    args.push_back(fmt("0x%x", pick(3) ? 1 + pick(500) : genWord()));
    uint32_t to = interestingAddress(c.w);
    if (args.size() > 8 && pick(2)) to = (uint32_t)strtoul(args[args.size() - 6].c_str(), NULL, 0) + pick(16);   // chain onto the previous alias
    args.push_back(fmt("0x%x", to));
  }
  if (pick(40) == 1) args.push_back(std::string(1 + pick(3000), 'a'));
  if (pick(40) == 1) args.push_back("--" + std::string(1 + pick(3000), 'b'));
  std::string literal;                            // text the error message has to show as it was typed
  if (pick(16) == 1) {
    static const char* const bits[] = {"%s", "%n", "%x", "%%", "%d", "%5000d", "%.9999s", "%p", "%*d", "%", "%hhn", "%1$s", "a", "\\n"};
    for (int n = 1 + pick(8); n; n--) literal += bits[pick(sizeof bits / sizeof *bits)];
    switch (pick(3)) {
      case 0: args.push_back("--dump"); args.push_back(literal); break;
      case 1: args.insert(args.begin(), {"--dump", "dump", "--elf", literal}); break;
      default: literal = "--" + literal; args.insert(args.begin(), literal); break;
    }
  }
  g_gdb.strict = false;
  nontrivial();
  bool alive = false;
  ProcResult r = runSession(c, [&] {
    alive = true;
    count(CT_p_session_started);
    g_gdb.connect();
    g_gdb.sleepUs(2000);
    takePacketSize(g_gdb.request("qSupported"));
    std::string before = g_gdb.request("g");
    for (int n = 8 + pick(24); n; n--) {
      std::string q = pick(5) ? hostileRequest(c.w) : "";
      if (q.empty()) {                            // line noise between packets
        std::string junk;
        for (int k = 1 + pick(30); k; k--) { char b = (char)pick(256); junk += b == '$' ? '%' : b; }
        if (pick(4) == 1) junk += "$" + genData(pick(20));
        g_gdb.sendRaw(junk);
        g_gdb.sleepUs(3000);
        g_gdb.quietly(500000);
        continue;
      }
      char k = q[0];
      bool resumes = k == 'c' || k == 's' || k == 'C' || k == 'S';
      if (q.size() > 17000) q.resize(17000);
      if (resumes) { g_gdb.sendRaw(rspFrame(q)); g_gdb.quietly(500000); continue; }
      if (q.size() > g_packetSize - 1384) { g_gdb.sendRaw(rspFrame(q)); g_gdb.sleepUs(50000); g_gdb.quietly(500000); continue; }
      std::string rep = g_gdb.request(q);
      if (rep.size() > g_packetSize) violation("oversize-reply", "reply of %zu bytes exceeds the packet size CrashDebug announces", rep.size());
    }
    g_gdb.quietly(500000);
    std::string after = g_gdb.request("g");
    if (after.size() != before.size()) violation("unresponsive", "register packet changed size from %zu to %zu", before.size(), after.size());
  }, &args);
  if (r.signaled) violation("crash", "killed by signal %d", r.sig);
  if (!r.killed) {
    if (alive && g_con.bytesOut) violation("ended-early", "hostile requests ended the session (exit %d): %.100s", r.code, g_stderrText.c_str());
    mustHaveFailedCleanly(r, "the input is malformed");
    closedAndFreed(r);
    if (literal.compare(0, 2, "--") == 0 && literal.size() < 80 && g_stderrText.find(literal) == std::string::npos)
      violation("no-message", "the error message does not name '%s': %.120s", literal.c_str(), g_stderrText.c_str());
  }
}
