// C21: what the user typed on the command line decides the session, or is refused.
#include "scenario.h"

static std::string number(uint32_t v) {
  switch (pick(5)) {
    case 0: return fmt("0x%X", v);
    case 1: return fmt("%u", v);
    case 2: return fmt("0%o", v);
    case 3: return fmt("0X%08x", v);
    default: return fmt("0x%08x", v);
  }
}
static std::string oddName() {
  static const char* const n[] = {"input file.elf", "a%s%n%d.bin", "-", "--elf", "--dump", "0x100", "\xc3\xa9", "x", "img.ELF", "a\"b", ".", "--"};
  if (pick(8) == 7) { std::string s = "/"; for (uint32_t k = pick(2) ? 20 + pick(300) : 200 + pick(4000); k; k--) s += 'a' + k % 26; return s; }
  return n[pick(sizeof n / sizeof *n)];
}
typedef std::vector<std::vector<std::string>> Groups;
SCENARIO(C21) {
  pacing(pick(8) == 1);
  GenOpts o;
  o.maxRamSize = 300; o.maxFlashSize = 400;
  Capture c = genCapture((DumpKind)pick(3), o);
  bool aliasOk = true;
  if (pick(2)) aliasOk = genAliases(c, 1 + pick(3), pick(4) == 1, false);
  std::string img = "image", dump = "dump";
  if (pick(3) == 1) {
    img = oddName();
    do dump = oddName(); while (dump == img);
    g_vfs.files.clear();
  }
  g_keepFiles = true;
  g_vfs.files[img] = VFile{c.image, "", false};
  g_vfs.files[dump] = VFile{c.dump, "", false};
  Groups a, b;
  if (c.elf) b.push_back({"--elf", img});
  else b.push_back({"--bin", img, number(c.binBase)});
  b.push_back({"--dump", dump});
  for (size_t i = 0; i < c.extraArgs.size(); i += 4)
    a.push_back({"--alias", number(strtoul(c.extraArgs[i + 1].c_str(), NULL, 0)), number(strtoul(c.extraArgs[i + 2].c_str(), NULL, 0)), number(strtoul(c.extraArgs[i + 3].c_str(), NULL, 0))});
  if (pick(2)) std::swap(b[0], b[1]);
  // an earlier, superseded occurrence of an option
  if (pick(5) == 1) {
    auto g = b[pick(2)];
    g[1] = pick(2) ? "nowhere" : img;
    if (g.size() > 2) g[2] = number(pick32());
    b.insert(b.begin(), g);
  }
  // An image of the other kind as well: what the sections of an ELF say wins over a raw image, in whatever order they are named.
  if (c.elf && pick(4) == 1) {
    g_vfs.files["raw"] = VFile{genData(1 + pick(300)), "", false};
    b.insert(b.begin() + pick(b.size() + 1), {"--bin", pick(4) ? "raw" : img, number(pick(2) ? pick32() & ~0xFFFu : c.w.regs[0].base)});
    count(CT_p_both_images);
  }
  Groups all;
  size_t i = 0, k = 0;
  while (i < a.size() || k < b.size()) {
    bool fromB = i >= a.size() || (k < b.size() && pick(2));
    all.push_back(fromB ? b[k++] : a[i++]);
  }
  for (auto& g : all) if (pick(3) == 1) for (auto& ch : g[0]) if (pick(2)) ch = toupper(ch);
  const char* why = aliasOk ? NULL : "an alias refers to memory which does not exist";
  std::string mention;
  int mode = pick(3) ? 0 : 1 + pick(8);
  auto drop = [&](const char* name) { for (size_t n = 0; n < all.size();) if (!strcasecmp(all[n][0].c_str(), name)) all.erase(all.begin() + n); else n++; };
  switch (mode) {
    case 1: drop("--dump"); why = "no dump was named"; mention = "--dump"; break;
    case 2: drop("--elf"); drop("--bin"); why = "no image was named"; mention = "--"; break;
    case 3: {   // unknown option anywhere
      static const char* const u[] = {"--elfs", "--el", "--", "--dumpfile", "--help", "--version", "--bin=x", "--elf=image", "--aliases", "--\xff"};
      std::string s = pick(6) == 5 ? "--" + std::string(1 + pick(pick(2) ? 300 : 5000), 'q') : u[pick(sizeof u / sizeof *u)];
      all.insert(all.begin() + pick(all.size() + 1), {s});
      why = "an option does not exist";
      mention = s.substr(0, 400);
      break;
    }
    case 4: {   // not an option at all
      static const char* const u[] = {"image", "-elf", "-d", "-", "", "0x20000000", "elf", "/elf"};
      all.insert(all.begin() + pick(all.size() + 1), {u[pick(sizeof u / sizeof *u)]});
      why = "an argument is not an option";
      break;
    }
    case 5: {   // the last option lacks its parameters
      static const struct { const char* o; int n; } u[] = {{"--elf", 1}, {"--bin", 2}, {"--dump", 1}, {"--alias", 3}};
      auto& x = u[pick(4)];
      std::vector<std::string> g = {x.o};
      for (int n = pick(x.n); n; n--) g.push_back(number(0x20000000));
      all.push_back(g);
      why = "an option lacks its parameters";
      mention = x.o;
      break;
    }
    case 6: g_vfs.files.erase(img); why = "the image does not exist"; mention = img.substr(0, 400); break;
    case 7: g_vfs.files.erase(dump); why = "the dump does not exist"; mention = dump.substr(0, 400); break;
    case 8: all.clear(); why = "no options were given"; break;
    default: break;
  }
  std::vector<std::string> args;
  for (auto& g : all) for (auto& s : g) args.push_back(s);
  World w = c.w;
  note("invocation of %zu arguments, mode %d", args.size(), mode);
  nontrivial();
  ProcResult r = runSession(c, [&] {
    handshake();
    if (why) violation("not-rejected", "a session was started although %s", why);
    checkRegisters(w, "invocation");
    checkAllMemory(w, "invocation");
    checkMemoryMap(w, 0);
  }, &args);
  if (!why) { mustHaveBeenKilled(r); return; }
  count(CT_p_load_failed);
  mustHaveFailedCleanly(r, why);
  if (!g_strayStdout.empty()) violation("stdout", "text on stdout: %.60s", g_strayStdout.c_str());
  size_t e = g_stderrText.find("ERROR: "), u = g_stderrText.find("Usage:");
  if (e == std::string::npos) violation("no-message", "no ERROR message although %s", why);
  if (u == std::string::npos || g_stderrText.find("--elf", u) == std::string::npos) violation("no-usage", "no usage text although %s", why);
  std::string line = g_stderrText.substr(e, g_stderrText.find('\n', e) - e);
  if (line.size() < 12) violation("no-message", "the error message is empty although %s: '%s'", why, line.c_str());
  if (aliasOk && !mention.empty() && line.find(mention) == std::string::npos) violation("no-message", "the error message does not name '%.60s': %.120s", mention.c_str(), line.c_str());
  if (g_vfs.openNow) violation("stream-leak", "%d input files still open when the process ended", g_vfs.openNow);
  if (!g_heap.live.empty()) violation("leak", "%zu allocations never released", g_heap.live.size());
}
