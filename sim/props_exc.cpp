// C23: errors raised anywhere in a tree of calls and handlers reach the innermost handler, whatever the history.
#include "scenario.h"

extern "C" {
int tc_run(const int* p, int n, int how, volatile int* pResult);
int tc_code(void);
extern const int tc_first, tc_last, tc_bus;
int ms_handlers_balanced(void);
void ms_init(void);
void ms_uninit(void);
void tc_event(int kind, int id, int code, const char* msg);
const char* tc_text(int i);
}
namespace {
enum { T_TRACE, T_THROW, T_THROWMSG, T_BUS, T_CALL, T_LOOP, T_TRY };
enum { H_SWALLOW, H_RETHROW, H_NOTHROW, H_NOTHROWRET, H_THROW, H_THROWMSG, H_CLEARTHROW };
typedef std::vector<int> Prog;
struct Event { int kind, id, code; std::string msg; };
std::vector<Event> g_got;
std::vector<std::string> g_texts;
size_t g_maxEvents;
int g_ids, g_budget, g_depth;

// ---- generator
int someCode() { return tc_first + (int)pick(tc_last - tc_first + 1); }
int someText() {
  std::string s;
  uint32_t n = pick(8) == 7 ? 900 + pick(2500) : pick(40);
  Bulk b(pick32());
  for (uint32_t i = 0; i < n; i++) s += "abcdefghij%sn-_ "[b.next() % 16];
  if (n > 1000) count(CT_p_long_message);
  g_texts.push_back(s);
  return (int)g_texts.size() - 1;
}
Prog block(int depth, bool mayTry, uint32_t throwiness);
Prog tryOp(int depth, uint32_t throwiness) {
  Prog body = block(depth + 1, true, throwiness);
  int kind = (int)pick(7), a = 0, b = 0;
  // what is being handled is forgotten by a further try: nothing is left to be raised again
  Prog handler = block(depth + 3, kind != H_RETHROW && kind != H_THROW, throwiness / 3);
  if (kind == H_NOTHROWRET) a = (int)pick(1000);
  if (kind == H_THROW || kind == H_THROWMSG || kind == H_CLEARTHROW) a = someCode();
  if (kind == H_THROWMSG) b = someText();
  Prog r = {T_TRY, ++g_ids, (int)body.size(), (int)handler.size(), kind, a, b};
  r.insert(r.end(), body.begin(), body.end());
  r.insert(r.end(), handler.begin(), handler.end());
  return r;
}
Prog block(int depth, bool mayTry, uint32_t throwiness) {
  Prog r;
  for (int n = 1 + pick(4); n && g_budget > 0; n--) {
    g_budget--;
    Prog x;
    if (chance(throwiness)) {
      switch (pick(4)) {
        case 0: x = {T_THROW, someCode()}; break;
        case 1: x = {T_BUS, (int)pick32()}; break;
        default: x = {T_THROWMSG, someCode(), someText()};
      }
    } else {
      int what = depth > g_depth ? 0 : (int)pick(6);
      if (what >= 3 && !mayTry) what = 1;
      if (what == 1 || what == 2) {
        Prog in = block(depth + 1, mayTry, throwiness);
        if (what == 1) x = {T_CALL, (int)in.size()};
        else x = {T_LOOP, depth == 0 && pick(20) == 19 ? 300 : 1 + (int)pick(4), (int)in.size()};
        x.insert(x.end(), in.begin(), in.end());
      } else if (what >= 3) x = tryOp(depth, throwiness);
      else x = {T_TRACE, ++g_ids};
    }
    r.insert(r.end(), x.begin(), x.end());
  }
  return r;
}

// ---- model
struct Thrown {};
struct TooLong {};
struct Want { int kind, id; int code; bool judgeMsg; std::string msg; };
std::vector<Want> g_want;
struct Model {
  int code = 0;                   // of what is being handled
  enum { NONE, TEXT, ANY } m = NONE;
  std::string text;
  void event(int kind, int id, int c = 0, bool j = false, const std::string& s = "") { if (g_want.size() > g_maxEvents) throw TooLong(); g_want.push_back({kind, id, c, j, s}); }
  [[noreturn]] void raise(int c) {
    code = c > code ? c : code;       // raised while handling another one: the higher code stays
    throw Thrown();
  }
  [[noreturn]] void raiseMsg(int c, int t) { m = TEXT; text = g_texts[t] + "|" + std::to_string(t); raise(c); }
  // Returns false when the function was left early.
  bool exec(const int* p, int n) {
    for (int i = 0; i < n;) {
      const int* q = p + i;
      switch (q[0]) {
        case T_TRACE: event(0, q[1]); i += 2; break;
        case T_THROW: if (m == TEXT) m = ANY; raise(q[1]);
        case T_THROWMSG: raiseMsg(q[1], q[2]);
        case T_BUS: m = ANY; raise(tc_bus);
        case T_CALL: exec(q + 2, q[1]); event(1, q[1]); i += 2 + q[1]; break;
        case T_LOOP: for (int k = 0; k < q[1]; k++) exec(q + 3, q[2]); i += 3 + q[2]; break;
        default: {
          code = 0;
          m = NONE;
          bool caught = false;
          event(2, q[1]);
          try { exec(q + 7, q[2]); } catch (Thrown&) { caught = true; }
          if (caught) {
            event(3, q[1], code, m != ANY, m == TEXT ? text : "");
            exec(q + 7 + q[2], q[3]);
            switch (q[4]) {
              case H_RETHROW: count(CT_p_rethrown); throw Thrown();
              case H_NOTHROW: case H_NOTHROWRET: clear(); return false;
              case H_THROW: if (m == TEXT) m = ANY; raise(q[5]);
              case H_THROWMSG: raiseMsg(q[5], q[6]);
              case H_CLEARTHROW: clear(); raise(q[5]);
              default: clear();
            }
          }
          event(4, q[1]);
          i += 7 + q[2] + q[3];
        }
      }
    }
    return true;
  }
  void clear() { code = 0; if (m == TEXT) m = ANY; }
};
}
void tc_event(int kind, int id, int code, const char* msg) {
  static const char* const name[] = {"trace", "return", "try", "caught", "after", "left", "", "", "", "clobbered"};
  if (kind == 9) violation("clobbered", "the handler of block %d sees changed local variables", id);
  if (kind == 3) { evlog(EV_apithrow, "caught in %d: %d %.40s", id, code, msg); hashBytes(msg, strlen(msg)); }
  else evlog(EV_api, "%s %d", name[kind], id);
  size_t k = g_got.size();
  g_got.push_back({kind, id, code, msg ? msg : ""});
  if (k >= g_want.size()) violation("control-flow", "'%s %d' happened after everything should have been over", name[kind], id);
  const Want& w = g_want[k];
  if (w.kind != kind || w.id != id) violation("control-flow", "'%s %d' happened where '%s %d' was expected", name[kind], id, name[w.kind], w.id);
  if (kind != 3) return;
  if (code != w.code) violation("code", "the handler of block %d was given error %d, %d was raised", id, code, w.code);
  if (!w.judgeMsg) return;
  std::string got = msg;
  if (w.msg.size() < 1000 ? got != w.msg : got.size() < 1000 || w.msg.compare(0, got.size(), got))
    violation("message", "the handler of block %d was given the message '%.60s' (%zu), '%.60s' (%zu) was raised", id, got.c_str(), got.size(), w.msg.c_str(), w.msg.size());
}
const char* tc_text(int i) { return g_texts[i].c_str(); }

SCENARIO(C23) {
  envEnterApi();
  ms_init();
  g_maxEvents = 20000;
  int progs = 1 + pick(4);
  for (int k = 0; k < progs; k++) {
    g_texts.clear();
    g_got.clear();
    g_want.clear();
    g_ids = 0;
    g_budget = pick(6) == 5 ? 400 : 60;
    g_depth = pick(6) == 5 ? 40 : 8;
    Prog p = block(0, true, (uint32_t[]){150, 40, 350, 0}[pick(4)]);
    int how = pick(4);
    Model m;
    bool caught = false;
    try { m.exec(p.data(), (int)p.size()); if (how == 1) m.event(5, (int)p.size()); } catch (Thrown&) { caught = true; } catch (TooLong&) { continue; }
    volatile int result = 0;
    int rc = tc_run(p.data(), (int)p.size(), how, &result);
    evlog(rc ? EV_apithrow : EV_api, "program of %zu words ended with %d", p.size(), rc);
    for (auto& w : g_want) if (w.kind == 3) nontrivial();
    if (g_got.size() != g_want.size()) violation("control-flow", "it was over after %zu steps, expected %zu", g_got.size(), g_want.size());
    if (how == 1 || how == 2) {
      if (rc) violation("not-caught", "error %d got past a handler which swallows everything", rc);
      if (how == 2 && result != (caught ? -77 : 77)) violation("control-flow", "the value returned is %d", (int)result);
    } else if (caught ? rc != m.code : rc != 0) violation("code", "the outermost handler was given error %d, %d was raised", rc, caught ? m.code : 0);
    if (!ms_handlers_balanced()) violation("handler-leak", "a handler is still installed at the end");
    if (tc_code()) violation("code", "error %d is still pending at the end", tc_code());
    if (!g_strayStdout.empty() || !g_stderrText.empty()) violation("output", "something was printed");
  }
  ms_uninit();
}
