#include "gdb.h"
#include <ucontext.h>

Gdb g_gdb;
std::function<void(const std::string&)> g_packetTap;

// ------------------------------------------------------------------ fibre
static ucontext_t g_mainCtx, g_cliCtx;
static std::function<void()> g_body;
static bool g_cliDone, g_cliWaiting, g_killReq;
static uint64_t g_wakeGen;
static std::deque<uint8_t> g_rx;          // bytes delivered to GDB

static void fibreEntry() {
  g_body();
  g_cliDone = true;
  swapcontext(&g_cliCtx, &g_mainCtx);
}
static void enterClient() {               // main -> client
  if (g_cliDone) return;
  swapcontext(&g_mainCtx, &g_cliCtx);
  if (g_killReq) { g_killReq = false; killProcess(); }
}
static void leaveClient() { swapcontext(&g_cliCtx, &g_mainCtx); }   // client -> main

static bool waitUntil(uint64_t deadline) {   // client blocks until woken or the deadline; false on timeout
  uint64_t gen = ++g_wakeGen;
  g_cliWaiting = true;
  if (deadline != ~0ull)
    at(deadline, [gen] { if (g_cliWaiting && g_wakeGen == gen) { g_cliWaiting = false; enterClient(); } });
  leaveClient();
  return true;
}
static void wake() {
  if (g_cliWaiting) { g_cliWaiting = false; g_wakeGen++; enterClient(); }
}
uint32_t g_packetSize;
void gdbStart(std::function<void()> body) {
  g_packetSize = 1024;                             // until qSupported says otherwise
  static char* stack;
  if (!stack) stack = (char*)malloc(1 << 20);
  g_body = std::move(body);
  getcontext(&g_cliCtx);
  g_cliCtx.uc_stack.ss_sp = stack;
  g_cliCtx.uc_stack.ss_size = 1 << 20;
  g_cliCtx.uc_link = NULL;
  makecontext(&g_cliCtx, (void (*)())fibreEntry, 0);
  // bytes from CrashDebug: a transfer event moves them to GDB after some latency
  static bool scheduled;
  static uint64_t lastArrive;
  scheduled = false;
  lastArrive = 0;
  static std::function<void()> transfer;
  transfer = [] {
    scheduled = false;
    size_t n = g_con.out.size();
    if (n > 1 && chance(g_gdb.cfg.s2cChunkPermille)) n = 1 + pick(n < 64 ? n : 64);
    if (n > g_con.out.size()) n = g_con.out.size();
    for (size_t i = 0; i < n; i++) { g_rx.push_back(g_con.out.front()); g_con.out.pop_front(); }
    if (!g_con.out.empty()) { scheduled = true; at(g_now + 1 + pick(g_gdb.cfg.s2cDelayMaxUs), transfer); count(CT_s2c_delay); }
    ev(EV_s2c);
    wake();
  };
  g_con.onOutput = [] {
    if (scheduled || g_con.outClosed) return;
    scheduled = true;
    at(g_now + 1 + (g_gdb.cfg.s2cDelayMaxUs ? pick(2) ? pick(g_gdb.cfg.s2cDelayMaxUs) : 0 : 0), transfer);
  };
  at(0, [] { enterClient(); });
}

// ------------------------------------------------------------------ encoding helpers
std::string rspFrame(const std::string& p) {
  unsigned s = 0;
  for (unsigned char c : p) s += c;
  char t[8];
  snprintf(t, sizeof t, "#%02x", s & 0xFF);
  return "$" + p + t;
}
std::string hexOf(const void* p, size_t n) {
  static const char d[] = "0123456789abcdef";
  std::string r;
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { r += d[c[i] >> 4]; r += d[c[i] & 15]; }
  return r;
}
std::string hexOf(const std::string& s) { return hexOf(s.data(), s.size()); }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
bool unhex(const std::string& h, std::string* out) {
  out->clear();
  if (h.size() & 1) return false;
  for (size_t i = 0; i < h.size(); i += 2) {
    int a = hexv(h[i]), b = hexv(h[i + 1]);
    if (a < 0 || b < 0) return false;
    *out += (char)(a << 4 | b);
  }
  return true;
}
std::string binEscape(const std::string& d) {
  std::string r;
  for (unsigned char c : d) {
    if (c == '$' || c == '#' || c == '}' || c == '*') { r += '}'; r += (char)(c ^ 0x20); }
    else r += (char)c;
  }
  return r;
}

// ------------------------------------------------------------------ byte transport
static uint64_t g_lastC2s;   // in-order delivery
static void deliver(const std::string& bytes) {
  size_t i = 0;
  uint64_t t = g_now + (g_gdb.cfg.delayMaxUs && pick(2) ? pick(g_gdb.cfg.delayMaxUs) : 0);
  if (t < g_lastC2s) t = g_lastC2s;
  bool chunk = g_gdb.cfg.chunkPermille && bytes.size() > 1 && chance(g_gdb.cfg.chunkPermille);
  if (chunk) count(CT_c2s_chunked);
  if (t > g_now) count(CT_c2s_delay);
  int pieces = 0;
  while (i < bytes.size()) {
    size_t n = bytes.size() - i;
    if (chunk && n > 1 && ++pieces < 40) { size_t m = 1 + pick(n < 40 ? n : 40); if (m < n) n = m; }
    std::string part = bytes.substr(i, n);
    at(t, [part] {
      if (g_con.inEof) return;
      for (unsigned char c : part) g_con.in.push_back(c);
      ev(EV_c2s);
    });
    i += n;
    g_lastC2s = t;
    if (i < bytes.size()) t += 1 + pick(g_gdb.cfg.delayMaxUs + 1);
  }
}
int Gdb::getByte(uint64_t timeoutUs) {
  uint64_t deadline = timeoutUs == ~0ull ? ~0ull : g_now + timeoutUs;
  while (g_rx.empty()) {
    if (g_now >= deadline) return -1;
    waitUntil(deadline);
  }
  int c = g_rx.front();
  g_rx.pop_front();
  return c;
}
bool Gdb::pending() const { return !g_rx.empty() || !g_con.out.empty(); }
void Gdb::sleepUs(uint64_t us) {
  uint64_t end = g_now + us;
  while (g_now < end) waitUntil(end);
}
void Gdb::sendRaw(const std::string& b) {
  hashBytes(b.data(), b.size());
  deliver(b);
}
void Gdb::connect() { note("GDB connects"); sendRaw("+"); }
void Gdb::close(bool in, bool out) {
  evlog(EV_hangup, "GDB closes%s%s", in ? " its output" : "", out ? " its input" : "");
  uint64_t t = g_lastC2s > g_now ? g_lastC2s : g_now;
  at(t, [in, out] {
    if (in) g_con.inEof = true;
    if (out) { g_con.outClosed = true; g_con.out.clear(); }
    ev(EV_hangup);
  });
  waitUntil(t + 1);
}
void Gdb::kill() {
  note("GDB kills the stub");
  g_killReq = true;
  g_cliDone = true;
  leaveClient();
  __builtin_unreachable();
}
void Gdb::quietly(uint64_t us) {
  for (;;) {
    int c = getByte(us);
    if (c < 0) return;
    if (c == '$') {
      // let a whole stale packet through, then acknowledge it so that the stub stops resending
      int n = 0;
      while ((c = getByte(us)) >= 0 && c != '#') if (++n > 70000) break;
      getByte(us);
      getByte(us);
      deliver("+");
    }
  }
}

// ------------------------------------------------------------------ faults
static bool faultNow(uint32_t permille, Counter c) {
  if (!g_gdb.cfg.lossy || !g_gdb.cfg.faultBudget || !permille || !chance(permille)) return false;
  g_gdb.cfg.faultBudget--;
  g_gdb.faultFired = true;
  count(c);
  evlog(EV_fault, "channel fault: %s", g_counterNames[c]);
  return true;
}
static std::string mangleOut(std::string f) {     // one transmission of a framed packet
  ChannelCfg& c = g_gdb.cfg;
  if (!c.lossy) return f;
  if (faultNow(c.fC2sLost, CT_c2s_lost_packet)) return "";
  bool bent = false;                              // one checksum-relevant fault per transmission: two can cancel out
  if (f.size() > 4 && faultNow(c.fC2sCorrupt, CT_c2s_corrupt)) {
    bent = true;
    size_t i = 1 + pick(f.size() - 1);            // payload, '#' or a checksum digit
    if (i < f.size() - 3) {
      unsigned char b = f[i], n;
      do { n = b ^ (1u << pick(8)); if (n == '$' || n == '#' || n == b) n = b ^ 0x81; } while (n == b);
      f[i] = n;
    } else if (i >= f.size() - 2) {
      int v = hexv(f[i]);
      f[i] = "0123456789abcdef"[(v + 1 + pick(15)) & 15];
    } else {
      f[i] = '"';                                 // the '#' itself: the packet never ends
    }
  }
  if (!bent && f.size() > 4 && faultNow(c.fC2sDrop, CT_c2s_drop)) {
    size_t i = pick(f.size());
    if (f[i] != 0) f.erase(i, 1);
  }
  if (faultNow(c.fC2sDup, CT_c2s_dup)) f += f;
  if (faultNow(c.fC2sNoise, CT_c2s_noise)) {
    std::string n;
    for (uint32_t k = 1 + pick(12); k; k--) { char b = (char)(1 + pick(255)); if (b == '$' || b == '#') b = 'x'; n += b; }
    if (pick(2)) f = n + f; else f += n;
  }
  if (faultNow(c.fC2sCtrlC, CT_c2s_ctrl_c)) f = pick(2) ? f + "\x03" : "\x03" + f;
  return f;
}

static const uint64_t RSP_TIMEOUT = 2000000;

// Reads a frame body after '$'. Returns 1 good, 0 bad checksum, -1 timeout.
static int readFrame(std::string* payload) {
  payload->clear();
  for (;;) {
    int c = g_gdb.getByte(RSP_TIMEOUT);
    if (c < 0) return -1;
    if (c == '$') {
      if (g_gdb.strict) violation("protocol", "'$' inside a reply packet (after %zu payload bytes)", payload->size());
      payload->clear();
      continue;
    }
    if (c == '#') break;
    *payload += (char)c;
    if (payload->size() > 70000) violation("protocol", "reply packet never ends");
  }
  int a = g_gdb.getByte(RSP_TIMEOUT), b = a < 0 ? -1 : g_gdb.getByte(RSP_TIMEOUT);
  if (a < 0 || b < 0) return -1;
  unsigned s = 0;
  for (unsigned char ch : *payload) s += ch;
  // channel faults towards GDB are applied to whole packets here, where the packet is known
  if (faultNow(g_gdb.cfg.fS2cCorrupt, CT_s2c_corrupt)) return 0;
  if (faultNow(g_gdb.cfg.fS2cDrop, CT_s2c_drop)) return -1;
  if (hexv(a) < 0 || hexv(b) < 0 || (unsigned)(hexv(a) << 4 | hexv(b)) != (s & 0xFF)) {
    if (g_gdb.strict) violation("protocol", "reply checksum is %c%c but should be %02x", a, b, s & 0xFF);
    return 0;
  }
  return 1;
}
static void sendAck() {
  if (faultNow(g_gdb.cfg.fAckLost, CT_s2c_ack_lost)) return;
  if (faultNow(g_gdb.cfg.fNak, CT_c2s_nak)) { ev(EV_nak); deliver("-"); return; }
  if (faultNow(g_gdb.cfg.fAckCorrupt, CT_c2s_corrupt)) { deliver(std::string(1, (char)(0x40 + pick(26)))); return; }
  deliver("+");
}

// Expands RLE (the stub never uses it, but it would be legal).
static std::string expandRle(const std::string& p) {
  if (p.find('*') == std::string::npos) return p;
  std::string r;
  for (size_t i = 0; i < p.size(); i++) {
    if (p[i] == '*' && i + 1 < p.size() && !r.empty()) { int n = (unsigned char)p[++i] - 29; for (int k = 0; k < n; k++) r += r[r.size() - 1]; }
    else r += p[i];
  }
  return r;
}

static std::string getReply(bool* timedOut) {
  *timedOut = false;
  int naks = 0;
  for (;;) {
    int c = g_gdb.getByte(RSP_TIMEOUT);
    if (c < 0) { *timedOut = true; return ""; }
    if (c != '$') {
      if (g_gdb.strict) violation("protocol", "unexpected byte 0x%02x where a reply packet should start", c);
      continue;
    }
    std::string p;
    int r = readFrame(&p);
    if (r == 1) {
      sendAck();
      if (g_packetTap) g_packetTap(p);
      return p;
    }
    if (g_gdb.strict) violation("protocol", "truncated reply packet");
    if (++naks > 12) { *timedOut = true; return ""; }
    count(CT_c2s_nak);
    ev(EV_nak);
    deliver("-");
  }
}

// Transmits until acknowledged. false: gave up.
static bool putPacket(const std::string& payload) {
  std::string f = rspFrame(payload);
  int clean = 0;                        // transmissions since the channel faults stopped
  for (int tx = 1; tx <= 30; tx++) {
    if ((uint32_t)tx > g_gdb.maxTx) g_gdb.maxTx = tx;
    if (tx > 1) { count(CT_retransmit); g_gdb.faultFired = true; }
    if (!g_gdb.cfg.lossy || !g_gdb.cfg.faultBudget) clean++;
    deliver(mangleOut(f));
    for (;;) {
      int c = g_gdb.getByte(RSP_TIMEOUT);
      if (c < 0) {
        ev(EV_timeout);
        if (g_gdb.strict) violation("no-progress", "request of %zu bytes not acknowledged within %llu us: %.60s", f.size(), (unsigned long long)RSP_TIMEOUT, payload.c_str());
        break;
      }
      if (c == '+') {
        if (faultNow(g_gdb.cfg.fS2cAckLost, CT_s2c_drop)) continue;      // CrashDebug's acknowledgement is lost
        return true;
      }
      if (c == '-') {
        ev(EV_nak);
        if (g_gdb.strict) violation("protocol", "well-formed request was NAKed: %.60s", payload.c_str());
        break;
      }
      if (g_gdb.strict) violation("protocol", "unexpected byte 0x%02x where an acknowledgement should be (request %.60s)", c, payload.c_str());
      if (c == '$') { std::string p; if (readFrame(&p) == 1) deliver("+"); g_gdb.faultFired = true; }
    }
    if (clean > 5)
      violation("no-progress", "request still unacknowledged after %d transmissions although channel faults have stopped", clean);
  }
  return false;
}

std::string Gdb::request(const std::string& payload) {
  requests++;
  evlog(EV_req, "request %.100s%s", payload.c_str(), payload.size() > 100 ? "..." : "");
  int clean = 0;
  for (int attempt = 1;; attempt++) {
    bool lossyNow = cfg.lossy && cfg.faultBudget > 0;
    faultFired = faultFired && attempt > 1;
    bool to = false;
    bool acked = putPacket(payload);
    std::string r;
    if (acked) {
      r = getReply(&to);
      if (to && strict) violation("no-reply", "no reply to request %.100s", payload.c_str());
    }
    if (acked && !to && !faultFired) {
      replies++;
      evlog(EV_reply, "reply %.100s%s (%zu)", r.c_str(), r.size() > 100 ? "..." : "", r.size());
      return expandRle(r);
    }
    // Something went wrong on the line: let it go quiet, then repeat the (idempotent) request.
    ev(EV_timeout);
    quietly(2 * RSP_TIMEOUT);
    faultFired = false;
    if (!lossyNow && ++clean > 4) violation("no-progress", "no reply to %.60s after %d attempts although channel faults have stopped", payload.c_str(), clean);
    if (attempt > 200) harnessError("attempts");
  }
}
std::string Gdb::resume(const std::string& payload) {
  requests++;
  console.clear();
  evlog(EV_req, "resume %s", payload.c_str());
  bool to;
  if (!putPacket(payload)) violation("no-progress", "resume request not acknowledged");
  for (int n = 0;; n++) {
    std::string r = getReply(&to);
    if (to) violation("no-reply", "no stop reply after %s", payload.c_str());
    if (!r.empty() && r[0] == 'O' && r != "OK") {
      std::string t;
      if (!unhex(r.substr(1), &t)) violation("protocol", "malformed console packet %.60s", r.c_str());
      console.push_back(t);
      ev(EV_opkt);
      if (n > 2000) violation("no-progress", "endless console output");
      continue;
    }
    replies++;
    evlog(EV_reply, "stop reply %.100s", r.c_str());
    return r;
  }
}
