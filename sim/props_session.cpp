// C09-C17: what a debug session does, on good lines and bad ones.
#include "scenario.h"

static GenOpts sessOpts() {
  GenOpts o;
  o.scs = pick(8) == 1;
  o.maxRamSize = pick(6) == 1 ? 5000 : 600;
  o.maxFlashSize = pick(6) == 1 ? 5000 : 600;
  o.maxRam = 4;
  return o;
}
static void maybeAliases(Capture& c) { if (pick(2)) genAliases(c, 1 + pick(4), false, pick(4) == 1); }
static void fewReads(const World& w, int n) { randomReads(w, n); }
static void aliasUse(const World& w) { for (auto& r : w.regs) if (r.alias && r.size()) { count(CT_p_alias_access); return; } }

static std::string breakReq(const World& w) {
  uint32_t a = interestingAddress(w);
  static const uint32_t lens[] = {1, 2, 4, 8, 3, 0, 16, 1024};
  return fmt("%c%u,%x,%x", pick(3) ? 'Z' : 'z', pick(5), a, pick(4) ? lens[pick(8)] : genWord());
}
static void doBreak(const World& w) {
  std::string q = breakReq(w), r = g_gdb.request(q);
  if (!(r.empty() || r == "OK" || (r.size() == 3 && r[0] == 'E'))) violation("break-reply", "%s replied '%.40s'", q.c_str(), r.c_str());
}
static std::string resumeReq(const World& w) {
  switch (pick(7)) {
    case 0: return "c";
    case 1: return "s";
    case 2: return fmt("c%x", interestingAddress(w));
    case 3: return fmt("s%x", interestingAddress(w));
    case 4: return fmt("C%02x", pick(32));
    case 5: return fmt("S%02x", pick(32));
    default: return fmt("%c%02x;%x", pick(2) ? 'C' : 'S', pick(32), interestingAddress(w));
  }
}
// The monitor core decides how many leading zeros a number gets.
static std::string canonHex(const std::string& t) {
  std::string r;
  for (size_t i = 0; i < t.size();) {
    if (t.compare(i, 2, "0x") == 0) {
      size_t e = i + 2;
      while (e < t.size() && isxdigit((unsigned char)t[e])) e++;
      r += fmt("0x%llx", strtoull(t.substr(i, e - i).c_str(), NULL, 16));
      i = e;
    } else r += t[i++];
  }
  return r;
}
static void doResume(const World& w, const char* ctx) {
  std::string r = g_gdb.resume(resumeReq(w)), text;
  count(CT_p_resume);
  for (auto& s : g_gdb.console) text += s;
  text = canonHex(text);
  std::string want = canonHex(expectedFaultText(w));
  if (text != want) {
    size_t i = 0;
    while (i < text.size() && i < want.size() && text[i] == want[i]) i++;
    violation("fault-text", "%s: fault description differs at byte %zu: '%.60s' expected '%.60s'", ctx, i, text.c_str() + i, want.c_str() + i);
  }
  if (!want.empty()) count(CT_p_fault_text);
  checkStop(w, r, ctx);
}

// ------------------------------------------------------------------ C09 FLASH cannot be modified
// What a capture claims to have found in memory which the image defines must not replace the image.
static void captureOverFlash() {
  pacing(pick(6) == 1);
  GenOpts o = sessOpts();
  o.hitFlash = true;
  Capture c = genCapture((DumpKind)pick(3), o);
  World w = c.w;
  w.regs.resize(c.nFlash);
  nontrivial();
  count(CT_p_dump_hits_flash);
  ProcResult r = runSession(c, [&] {
    handshake();
    for (auto& f : w.regs) checkRead(w, f.base, f.size() > 600 ? 600 : f.size(), "image");
    for (auto& f : w.regs) if (f.size() > 600) checkRead(w, f.base + f.size() - 600, 600, "image");
  });
  if (r.killed) mustHaveBeenKilled(r);
  else mustHaveFailedCleanly(r, "the capture holds memory which belongs to the image");
}
SCENARIO(C09) {
  if (pick(25) == 24) { captureOverFlash(); return; }
  pacing(pick(6) == 1);
  GenOpts o = sessOpts();
  Capture c = genCapture((DumpKind)pick(3), o);
  maybeAliases(c);
  World w = c.w;
  ProcResult r = runSession(c, [&] {
    handshake();
    if (pick(3) == 1) checkMemoryMap(w, 0);
    for (int n = 3 + pick(10); n; n--) {
      switch (pick(9)) {
        case 0: randomWrites(w, 1, false); break;
        case 1: doBreak(w); break;
        case 2: writeRegisters(w); break;
        case 3: doResume(w, "resume"); break;
        default: randomWrites(w, 1 + pick(3), true); nontrivial();
      }
    }
    aliasUse(w);
    checkAllMemory(w, "after write attempts");
    checkMemoryMap(w, 0);
  });
  mustHaveBeenKilled(r);
}

// ------------------------------------------------------------------ C10 writes
static void shortG(const World& w) {
  std::string g = w.g();
  size_t n = pick(4) == 1 ? pick(16) : pick(g.size());
  std::string bad = hexOf(genData(g.size() / 2 + 1)).substr(0, n);
  std::string r = g_gdb.request("G" + bad);
  if (r == "OK") violation("reg-write", "a register write with %zu of %zu hex digits was acknowledged", bad.size(), g.size());
  if (r.size() != 3 || r[0] != 'E') violation("reg-write", "malformed register write replied '%.20s'", r.c_str());
}
static void badWrite(const World& w) {
  // malformed requests must be refused and must not change anything they do not name
  uint32_t a = interestingAddress(w);
  std::string q;
  switch (pick(5)) {
    case 0: q = fmt("M%x", a); break;
    case 1: q = fmt("M%x,", a); break;
    case 2: q = fmt("M%x:00", a); break;
    case 3: q = fmt("X%x;4:abcd", a); break;
    default: q = fmt("Mzz,4:00000000");
  }
  std::string r = g_gdb.request(q);
  if (r.size() != 3 || r[0] != 'E') violation("write-reply", "malformed write %s replied '%.20s'", q.c_str(), r.c_str());
}
SCENARIO(C10) {
  pacing(pick(6) == 1);
  GenOpts o = sessOpts();
  o.minRam = 1;
  Capture c = genCapture((DumpKind)pick(3), o);
  maybeAliases(c);
  World w = c.w;
  ProcResult r = runSession(c, [&] {
    handshake();
    nontrivial();
    for (int n = 4 + pick(14); n; n--) {
      switch (pick(12)) {
        case 0: writeRegisters(w); break;
        case 1: checkRegisters(w, "after writes"); break;
        case 2: shortG(w); if (pick(2)) checkRegisters(w, "after a malformed register write"); break;
        case 3: badWrite(w); break;
        case 4: fewReads(w, 3); break;
        case 5: doResume(w, "resume after writes"); break;
        case 6: doBreak(w); break;
        default: randomWrites(w, 1 + pick(3), false);
      }
    }
    aliasUse(w);
    checkRegisters(w, "after writes");
    checkAllMemory(w, "after writes");
    checkEdges(w, "after writes");
    checkMemoryMap(w, 0);
  });
  mustHaveBeenKilled(r);
}

// ------------------------------------------------------------------ C11 nothing runs
SCENARIO(C11) {
  pacing(pick(6) == 1);
  GenOpts o = sessOpts();
  o.scs = pick(2);
  Capture c = genCapture((DumpKind)pick(3), o);
  if (pick(3) == 1) { static const uint32_t ex[] = {0, 2, 3, 4, 5, 6, 11, 12, 15, 16}; if (c.kind != D_LOG) { c.w.psr = (c.w.psr & ~0x1FFu) | ex[pick(10)]; c.cuts.clear(); c.dump = c.kind == D_BIN ? encodeBinary(c) : encodeHex(c); } }
  maybeAliases(c);
  World w = c.w;
  // the code at PC may be a breakpoint or semihosting instruction: it must not matter
  ProcResult r = runSession(c, [&] {
    handshake();
    nontrivial();
    for (int n = 4 + pick(16); n; n--) {
      // the user presses Ctrl-C: there is nothing to interrupt
      if (pick(8) == 1) { g_gdb.sendRaw(std::string(1 + pick(3), '\x03')); if (pick(2)) g_gdb.sleepUs(pick(20000)); }
      switch (pick(8)) {
        case 0: case 1: doBreak(w); break;
        case 2: fewReads(w, 2); break;
        case 3: if (pick(3) == 1) writeRegisters(w); else { std::string s = g_gdb.request("?"); checkStop(w, s, "stop reason query"); } break;
        case 4: if (pick(3) == 1) randomWrites(w, 1, false); else checkRegisters(w, "between resumes"); break;
        default: doResume(w, "resume");
      }
    }
    checkRegisters(w, "after resuming");
    checkAllMemory(w, "after resuming");
    checkMemoryMap(w, 0);
  });
  mustHaveBeenKilled(r);
}

// ------------------------------------------------------------------ C12 why it stopped
SCENARIO(C12) {
  g_judgeSignals = true;
  pacing(pick(6) == 1);
  GenOpts o;
  o.maxRam = 3;
  o.maxRamSize = 200;
  o.maxFlash = 2;
  o.maxFlashSize = 200;
  o.top = false;
  o.scs = true;
  Capture c = genCapture((DumpKind)(pick(8) == 1 ? 2 : pick(2)), o);
  // fault status with few and many bits, and a System Control Space that may be missing in part
  size_t k = 0;
  for (; k < c.w.regs.size(); k++) if (c.w.regs[k].base == 0xE000ED28 || c.w.regs[k].base == 0xE000ED00) break;
  if (k < c.w.regs.size()) {
    Region& s = c.w.regs[k];
    auto put = [&](uint32_t a, uint32_t v) { for (int i = 0; i < 4; i++) if (a + i >= s.base && a + i - s.base < s.data.size()) s.data[a + i - s.base] = (char)(v >> (8 * i)); };
    uint32_t cfsr = 0;
    switch (pick(6)) {
      case 0: cfsr = 1u << pick(32); break;
      case 1: cfsr = pick32(); break;
      case 2: cfsr = 0; break;
      case 3: cfsr = (1u << pick(8)) | 0x80; break;
      case 4: cfsr = ((1u << pick(8)) | 0x80) << 8; break;
      default: for (int n = 1 + pick(5); n; n--) cfsr |= 1u << pick(26);
    }
    put(0xE000ED28, cfsr);
    uint32_t hf = 0;
    static const uint32_t hb[] = {0x80000000, 0x40000000, 2};
    for (auto b : hb) if (pick(2)) hf |= b;
    if (pick(4) == 1) hf = pick32();
    put(0xE000ED2C, hf);
    put(0xE000ED34, genWord());
    put(0xE000ED38, genWord());
    // odd-sized: cut inside one of the registers
    if (c.kind != D_LOG && pick(5) == 1) s.data.resize(1 + pick(s.data.size()));
  }
  if (c.kind != D_LOG) {
    static const uint32_t ex[] = {3, 4, 5, 6, 2, 12, 0, 1, 7, 11, 14, 15, 16, 255};
    c.w.psr = (c.w.psr & ~0x1FFu) | (pick(3) ? ex[pick(4)] : pick(2) ? ex[pick(14)] : pick(256));
    c.cuts.clear();
    c.dump = c.kind == D_BIN ? encodeBinary(c) : encodeHex(c);
  }
  World w = c.w;
  ProcResult r = runSession(c, [&] {
    handshake();
    nontrivial();
    checkStop(w, g_gdb.request("?"), "stop reason query");
    for (int n = 1 + pick(3); n; n--) {
      doResume(w, "resume");
      if (pick(3) == 1) writeRegisters(w);
      if (pick(4) == 1 && k < w.regs.size()) {                // what is shown is the current content, also after a write
        uint32_t a = 0xE000ED28 + 4 * pick(5);
        doWrite(w, a, le32(pick(2) ? 1u << pick(32) : pick32()), pick(2));
      }
      checkStop(w, g_gdb.request("?"), "stop reason query");
    }
  });
  mustHaveBeenKilled(r);
}

// ------------------------------------------------------------------ C13 bad line
SCENARIO(C13) {
  pacing(pick(3) == 1);
  GenOpts o;
  o.maxRam = 3;
  o.maxRamSize = 700;
  o.maxFlash = 2;
  o.maxFlashSize = 300;
  o.allowMany = false;
  o.minRam = 1;
  Capture c = genCapture((DumpKind)pick(2), o);
  World w = c.w;
  ProcResult r = runSession(c, [&] {
    handshake();
    g_gdb.strict = false;
    ChannelCfg& f = g_gdb.cfg;
    f.lossy = true;
    f.faultBudget = 1 + pick(12);
    uint32_t rate = 50 + pick(500);
    uint32_t* kinds[] = {&f.fC2sCorrupt, &f.fC2sDrop, &f.fC2sDup, &f.fC2sNoise, &f.fC2sLost, &f.fC2sCtrlC, &f.fNak, &f.fS2cCorrupt, &f.fS2cDrop, &f.fAckLost, &f.fAckCorrupt, &f.fS2cAckLost};
    bool any = false;
    for (auto k : kinds) if (pick(3) == 1) { *k = rate; any = true; }
    if (!any) *kinds[pick(12)] = rate;
    for (int n = 6 + pick(20); n; n--) {
      switch (pick(8)) {
        case 0: checkRegisters(w, "bad line"); break;
        case 1: writeRegisters(w); break;
        case 2: randomWrites(w, 1, false); break;
        case 3: checkStop(w, g_gdb.request("?"), "bad line"); break;
        case 4: if (pick(3) == 1) checkMemoryMap(w, pick(2) ? 0 : 600); else checkRead(w, w.regs[0].base, 1 + pick(w.regs[0].size()), "bad line"); break;
        case 5: if (pick(2)) doBreak(w); else fewReads(w, 1); break;
        default: randomReads(w, 1);
      }
    }
    if (f.faultBudget == 0 || g_gdb.maxTx > 1) nontrivial();
    // the line is good again
    f.lossy = false;
    f.faultBudget = 0;
    g_gdb.quietly(5000000);
    g_gdb.request("?");
    g_gdb.strict = true;
    g_gdb.faultFired = false;
    checkRegisters(w, "after the line recovered");
    checkAllMemory(w, "after the line recovered");
    doResume(w, "after the line recovered");
  });
  mustHaveBeenKilled(r);
}

// ------------------------------------------------------------------ C14 GDB goes away
SCENARIO(C14) {
  pacing(pick(3) == 1);
  GenOpts o;
  o.maxRam = 2;
  o.maxRamSize = 3000;
  o.maxFlash = 2;
  o.maxFlashSize = 300;
  o.allowMany = false;
  Capture c = genCapture((DumpKind)pick(2), o);
  if (pick(3) == 1) { c.w.psr = (c.w.psr & ~0x1FFu) | 3; c.cuts.clear(); c.dump = c.kind == D_BIN ? encodeBinary(c) : encodeHex(c); }
  World w = c.w;
  g_vfs.files["image"].data = c.image;
  g_vfs.files["dump"].data = c.dump;
  if (pick(4) == 1) g_con.sigpipeIgnored = true;
  if (pick(40) == 39) g_con.badStdin = true;
  bool ioErr = false, outOnly = false;
  static bool done;
  done = false;
  nontrivial();
  gdbStart([&] {
    int when = g_con.badStdin ? 0 : pick(9);
    if (when == 0) { count(CT_hangup_before_connect); g_gdb.sleepUs(pick(1000)); }
    else {
      if (pick(3) == 1) { g_gdb.connect(); } else handshake();
      for (int n = pick(5); n; n--) {
        if (pick(3) == 1) checkRegisters(w, "before the hang-up"); else randomReads(w, 1);
      }
      g_gdb.strict = false;
      switch (when) {
        case 1: g_gdb.sendRaw("$m0,4"); count(CT_hangup_midpacket); break;
        case 2: g_gdb.sendRaw(rspFrame(fmt("m%x,%x", interestingAddress(w), 1 + pick(3000)))); break;     // never reads the reply
        case 3: g_gdb.sendRaw(rspFrame("g")); g_gdb.getByte(pick(5000)); break;
        case 4: g_gdb.sendRaw(rspFrame("c")); if (pick(2)) g_gdb.sleepUs(pick(5000)); break;               // stop reply is never acknowledged
        case 5: g_gdb.sendRaw("$"); count(CT_hangup_midpacket); break;
        case 6: g_gdb.sendRaw(rspFrame("?").substr(0, 1 + pick(4))); count(CT_hangup_midpacket); break;
        case 7: g_gdb.sendRaw("+-\x03" + std::string(pick(20), '+')); break;
        default: break;
      }
      if (pick(2)) g_gdb.sleepUs(pick(3000));
    }
    if (pick(5) == 1) {                                       // the pipe itself breaks
      ioErr = true;
      if (pick(2)) { g_con.readErrIn = 0; g_gdb.sendRaw(rspFrame("g") + rspFrame("g")); }
      else { g_con.writeErrIn = pick(40); g_gdb.sendRaw("+" + rspFrame("g") + "+++"); }
      g_gdb.sleepUs(100000);
      if (g_con.readErrFired || g_con.writeErrFired) violation("hang-after-hangup", "still there long after a console %s failed", g_con.readErrFired ? "read" : "write");
      g_gdb.close(true, false);
    } else {
      switch (pick(4)) {
        case 0: count(CT_hangup_both); g_gdb.close(true, true); break;
        case 1: count(CT_hangup_input); g_gdb.close(true, false); break;
        case 2: count(CT_hangup_output); outOnly = true; g_gdb.close(false, true); g_gdb.sendRaw("+" + rspFrame("g")); g_gdb.sleepUs(1 + pick(pick(2) ? 3000 : 200000));
                if (g_con.epipes) { g_gdb.sleepUs(100000); violation("hang-after-hangup", "still there long after a write to GDB failed"); }
                g_gdb.close(true, false); break;
        default: count(CT_hangup_both); g_gdb.close(true, false); g_gdb.sleepUs(pick(50)); g_gdb.close(false, true); break;
      }
    }
    done = true;
    for (int n = 0; n < 300000; n++) if (g_gdb.getByte(100000000) < 0) break;   // a reply may still be on its way
    if (ioErr || outOnly) g_gdb.sleepUs(1000000);
    violation("hang-after-hangup", "CrashDebug is still there long after GDB went away");
  });
  (void)ioErr;
  ProcResult r = runCrashDebug(c.args());
  if (!done && !ioErr && !g_con.readErrFired && !g_con.writeErrFired && !g_con.outClosed && !g_con.inEof && !g_con.badStdin) violation("ended-early", "CrashDebug ended before GDB went away (exit %d)", r.code);
  if (r.signaled && !(r.sig == 13 && g_con.outClosed)) violation("crash", "killed by signal %d when GDB went away", r.sig);
  if (r.exited && r.code == 0) violation("exit-status", "exit status 0 although the connection to GDB was lost");
  if (r.exited && g_vfs.openNow) violation("stream-leak", "%d input files still open when the process ended", g_vfs.openNow);
  if (r.exited && !g_heap.live.empty()) violation("leak", "%zu allocations never released", g_heap.live.size());
  if (r.exited) count(CT_p_leakcheck);
  if (!g_strayStdout.empty()) violation("stdout", "text on GDB's channel: %.60s", g_strayStdout.c_str());
}

// ------------------------------------------------------------------ C15 descriptions
SCENARIO(C15) {
  pacing(pick(5) == 1);
  GenOpts o = sessOpts();
  o.maxRam = 8;
  o.maxFlash = 8;
  o.maxRamSize = 200;
  o.maxFlashSize = 200;
  Capture c = genCapture((DumpKind)pick(3), o);
  maybeAliases(c);
  World w = c.w;
  ProcResult r = runSession(c, [&] {
    handshake();
    nontrivial();
    for (int n = 1 + pick(4); n; n--) {
      static const uint32_t ch[] = {0, 0x3FFB, 2000, 300, 64, 17, 4, 1};
      uint32_t k = ch[pick(8)];
      if (w.regs.size() > 30 && k && k < 64) k = 300;
      if (pick(2)) checkMemoryMap(w, k);
      else checkTargetXml(w, k && k < 64 ? 300 : k);
      if (pick(4) == 1) randomWrites(w, 1, false);
      if (pick(4) == 1) writeRegisters(w);
      if (pick(6) == 1) doResume(w, "between transfers");
      // reads beyond the end, and re-reads in the middle
      std::string obj = pick(2) ? "memory-map:read::" : "features:read:target.xml:";
      if (pick(2)) {
        std::string all = xfer(obj[0] == 'm' ? "memory-map" : "features", obj[0] == 'm' ? "" : "target.xml", 0);
        uint32_t off = pick(3) == 1 ? all.size() : pick(all.size() + 1), len = 1 + pick(pick(3) ? 40 : 5000);
        if (len > g_packetSize - 8) len = g_packetSize - 8;
        std::string rep = g_gdb.request(fmt("qXfer:%s%x,%x", obj.c_str(), off, len));
        std::string want = all.substr(off, len);
        bool last = off + want.size() >= all.size();
        if (off == all.size()) { if (rep != "l" && !(rep.size() == 3 && rep[0] == 'E')) violation("xfer", "transfer at the end replied '%.20s'", rep.c_str()); }
        else if (rep.size() > 1 && rep[0] == 'm' && rep.size() <= want.size() && !want.compare(0, rep.size() - 1, rep, 1)) ;   // a part of it is fine
        else if (rep.size() != want.size() + 1 || rep.substr(1) != want || (rep[0] != 'm' && rep[0] != 'l') || (rep[0] == 'l' && !last) || (last && rep[0] != 'l' && want.size() < len))
          violation("xfer", "qXfer:%s at %u,%u of %zu replied '%c' with %zu bytes", obj.c_str(), off, len, all.size(), rep.empty() ? '?' : rep[0], rep.size() ? rep.size() - 1 : 0);
        else if (rep[0] == 'm' && last) { std::string r2 = g_gdb.request(fmt("qXfer:%s%x,%x", obj.c_str(), (uint32_t)all.size(), len)); if (r2 != "l") violation("xfer", "transfer does not end: '%.20s'", r2.c_str()); }
      }
    }
    // the map agrees with what can be read: region ends, first byte behind
    checkEdges(w, "described region");
  });
  mustHaveBeenKilled(r);
}

// ------------------------------------------------------------------ C16 aliases
SCENARIO(C16) {
  if (pick(3) == 1) { aliasHistory(); return; }
  pacing(pick(8) == 1);
  GenOpts o = sessOpts();
  o.minRam = 0;
  Capture c = genCapture((DumpKind)pick(3), o);
  bool overlap = pick(3) == 1;
  bool ok = genAliases(c, 1 + pick(6), true, overlap);
  std::vector<std::string> args = c.args(pick(2));
  World w = c.w;
  ProcResult r = runSession(c, [&] {
    handshake();
    if (!ok) violation("not-rejected", "a session was started although an alias refers to memory which does not exist");
    bool any = false;
    for (auto& q : w.regs) if (q.alias && q.size()) any = true;
    if (any) { nontrivial(); count(CT_p_alias_access); }
    for (int n = 2 + pick(6); n; n--) {
      size_t k = pick(w.regs.size());
      const Region& q = w.regs[k];
      if (q.alias && q.size() && pick(2)) {
        uint32_t off = pick(q.size()), len = 1 + pick(pick(3) ? 16 : 600);
        if ((uint64_t)q.base + off + len > 0x100000000ull) len = 1;
        uint32_t via = pick(3) == 1 ? q.redirect : q.base;
        if ((uint64_t)via + off + len > 0x100000000ull) len = 1;
        doWrite(w, via + off, genData(len), pick(2));
      } else randomWrites(w, 1, pick(3) == 1);
      fewReads(w, 2);
    }
    checkAllMemory(w, "alias session");
    checkEdges(w, "alias edge");
    checkMemoryMap(w, 0);
    checkRegisters(w, "alias session");
  }, &args);
  if (ok) mustHaveBeenKilled(r);
  else { mustHaveFailedCleanly(r, "an alias refers to memory which does not exist"); nontrivial(); }
}

// ------------------------------------------------------------------ C17 channel purity
SCENARIO(C17) {
  // the same conversation under a different pacing of both directions must read the same
  pacing(true);
  GenOpts o = sessOpts();
  o.maxRamSize = 3000;
  Capture c = genCapture((DumpKind)pick(3), o);
  maybeAliases(c);
  World w = c.w;
  ProcResult r = runSession(c, [&] {
    handshake();
    nontrivial();
    for (int n = 6 + pick(20); n; n--) {
      switch (pick(9)) {
        case 0: checkRegisters(w, "paced"); break;
        case 1: checkMemoryMap(w, pick(2) ? 0 : 500); break;
        case 2: {
          static const char* const unk[] = {"vCont?", "vMustReplyEmpty", "Hg0", "Hc-1", "qTStatus", "qfThreadInfo", "qL1200000000000000000", "qOffsets", "T1", "k2", "D2", "p0", "P0=00000000", "!", "A", "b", "B", "d", "i", "I", "t", "v", "QStartNoAckMode", "qRcmd,68656c70", "_", "z9,0,0", "Z7,0,4", "qXfer:threads:read::0,100", "qXfer:auxv:read::0,100", "jThreads", "x0,4", "e", "\x7f"};
          const char* q = unk[pick(sizeof unk / sizeof *unk)];
          std::string rep = g_gdb.request(q);
          if (!rep.empty() && !(rep.size() == 3 && rep[0] == 'E')) violation("unknown-command", "'%s' is not supported but was answered with '%.40s'", q, rep.c_str());
          break;
        }
        case 3: { std::string rep = g_gdb.request("qAttached"); if (rep.size() > 3) violation("unknown-command", "qAttached replied '%.40s'", rep.c_str()); break; }
        case 4: randomWrites(w, 1, false); break;
        case 5: doResume(w, "paced"); break;
        case 6: {
          uint32_t big = 0x1FF0;                     // a reply that just fits the announced packet size
          for (auto& q : w.regs) if (q.size() > 1000) { checkRead(w, q.base, q.size() < big ? q.size() : big, "big read"); count(CT_p_big_packet); break; }
          break;
        }
        default: randomReads(w, 1 + pick(3));
      }
      // nothing may arrive unasked
      if (pick(4) == 1) { int b = g_gdb.getByte(1 + pick(2000000)); if (b >= 0) violation("protocol", "byte 0x%02x arrived although nothing was asked", b); }
    }
    checkRegisters(w, "paced");
    checkAllMemory(w, "paced");
    int b = g_gdb.getByte(10000000);
    if (b >= 0) violation("protocol", "byte 0x%02x arrived although nothing was asked", b);
    if (!g_stderrText.empty()) violation("stderr", "text on stderr during a session: %.80s", g_stderrText.c_str());
  });
  mustHaveBeenKilled(r);
}
