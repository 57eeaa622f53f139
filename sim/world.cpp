#include "world.h"
#include <cstdarg>

std::string fmt(const char* f, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (n < (int)sizeof b) return b;
  std::string s(n + 1, 0);
  va_start(ap, f);
  vsnprintf(&s[0], n + 1, f, ap);
  va_end(ap);
  s.resize(n);
  return s;
}
std::string le32(uint32_t v) { return std::string((char*)&v, 4); }

// ------------------------------------------------------------------ model
int World::find(uint32_t a, uint32_t n, uint32_t* eff) const {
  for (size_t i = 0; i < regs.size(); i++) {
    const Region& r = regs[i];
    if (a < r.base || (uint64_t)a + n > (uint64_t)r.base + r.size()) continue;
    if (!r.alias) { *eff = a; return i; }
    uint32_t t = a - r.base + r.redirect;
    for (size_t k = 0; k < i; k++) {
      const Region& q = regs[k];
      if (!q.alias && t >= q.base && (uint64_t)t + n <= (uint64_t)q.base + q.size()) { *eff = t; return k; }
    }
    return -1;
  }
  return -1;
}
int World::get(uint32_t a) const {
  uint32_t e;
  int i = find(a, 1, &e);
  return i < 0 ? -1 : (uint8_t)regs[i].data[e - regs[i].base];
}
bool World::set(uint32_t a, uint8_t v) {
  uint32_t e;
  int i = find(a, 1, &e);
  if (i < 0 || regs[i].ro) return false;
  regs[i].data[e - regs[i].base] = v;
  return true;
}
uint32_t World::prefix(uint32_t a, uint32_t n) const {
  uint32_t k = 0;
  while (k < n && (uint64_t)a + k < 0x100000000ull && mapped(a + k)) k++;
  return k;
}
std::string World::bytes(uint32_t a, uint32_t n) const {
  std::string s;
  // fast path: wholly inside one region that no earlier one overlaps
  uint32_t e;
  int i = n ? find(a, n, &e) : -1;
  if (i >= 0 && !ambiguous(a, n)) return regs[i].data.substr(e - regs[i].base, n);
  for (uint32_t k = 0; k < n && (uint64_t)a + k < 0x100000000ull; k++) {
    int v = get(a + k);
    if (v < 0) break;
    s += (char)v;
  }
  return s;
}
bool World::ambiguous(uint32_t a, uint32_t n) const {
  for (size_t i = 0; i < regs.size(); i++) {
    uint64_t b = regs[i].base, t = b + regs[i].size();
    if (a >= t || (uint64_t)a + n <= b) continue;
    return !(a >= b && (uint64_t)a + n <= t);      // the first region that is touched holds all of it, or not
  }
  return false;
}
bool World::rd32(uint32_t a, uint32_t* v) const {
  uint32_t e;
  int i = find(a, 4, &e);
  if (i < 0) return false;
  memcpy(v, regs[i].data.data() + (e - regs[i].base), 4);
  return true;
}
bool World::addAlias(uint32_t base, uint32_t size, uint32_t redirect) {
  uint32_t e;
  int i = find(redirect, 1, &e);
  if (i < 0) return false;
  Region r;
  r.base = base;
  r.alias = true;
  r.ro = regs[i].ro;
  r.redirect = e;
  uint32_t max = regs[i].size() - (e - regs[i].base);
  r.aliasSize = size > max ? max : size;
  if (size > max) count(CT_p_alias_clamped);
  regs.push_back(r);
  return true;
}
std::string World::g() const {
  std::string s = hexOf(R, sizeof R);
  if (fpu) s += hexOf(F, sizeof F);
  return s;
}

// ------------------------------------------------------------------ generators
bool Layout::ok(uint64_t a, uint64_t n) const {
  if (a + n > 0x100000000ull) return false;
  for (auto& u : used) if (a < u.second && u.first < a + n) return false;
  return true;
}
uint32_t genWord() {
  switch (pick(8)) {
    case 0: return pick(256);
    case 1: return 0xFFFFFFFFu - pick(4);
    case 2: return 0x80000000u + pick(4);
    case 3: return 1u << pick(32);
    default: return pick32();
  }
}
std::string genData(uint32_t n) {
  uint32_t seed = pick32();
  uint32_t style = pick(8);
  Bulk b(seed);
  std::string s(n, 0);
  switch (style) {
    case 1: for (uint32_t i = 0; i < n; i++) s[i] = (char)0xFF; break;
    case 2: for (uint32_t i = 0; i < n; i++) s[i] = "\0\xFF\x80\x7F$#}*\r\n\x1a+-\x03" [b.next() % 15]; break;
    case 3: for (uint32_t i = 0; i < n; i++) s[i] = (char)i; break;
    default: for (uint32_t i = 0; i < n; i++) s[i] = (char)b.next();
  }
  if (style == 5 && n >= 4) {           // looks like a marker, a signature, a header, text ...
    static const char* const magic[] = {"\xED\x55\xCE\xAC", "\x63\x43\x02\x00", "\x63\x43\x03\x00", "6343", "\x7F" "ELF", "0x20", "\r\n0x", "$#00", "\xCE\xAC\xED\x55", "\xFF\xFF\xFF\xFF"};
    for (uint32_t k = b.next() % 6, i = 0; i <= k; i++) {
      uint32_t at = i == 0 ? n - 4 : i == 1 ? 0 : 4 * (b.next() % (n / 4));
      s.replace(at, 4, magic[b.next() % 10], 4);
    }
  }
  return s;
}
uint32_t genSize(uint32_t max, bool word) {
  uint32_t n;
  switch (pick(10)) {
    case 0: n = 1 + pick(8); break;
    case 1: n = 4 * (1 + pick(8)); break;
    case 2: n = 16 * (1 + pick(16)); break;
    case 3: n = 256 + pick(3) - 1; break;
    case 4: n = 1024 + pick(3) - 1; break;
    case 5: n = 1u << pick(13); break;
    case 6: n = (1u << (1 + pick(12))) - 1; break;
    default: n = 1 + pick(max);
  }
  if (n > max) n = max;
  if (word) n = n < 4 ? 4 : n & ~3u;
  if (n & 3) count(CT_p_odd_size);
  return n;
}
bool genRegion(Layout& l, GenOpts const& o, bool flash, Region* out) {
  static const uint32_t ramBases[] = {0x20000000, 0x10000000, 0x2007C000, 0x1FFF0000, 0x00000400, 0x7FFFFF00, 0x80000000, 0xC0000000, 0xD0000000, 0x60000000, 0xE000E000, 0x40000000};
  static const uint32_t flBases[] = {0x00000000, 0x08000000, 0x00010000, 0x00400000, 0x08004000, 0x30000000, 0x90000000, 0xF0000000};
  uint64_t total = 0;
  for (auto& u : l.used) total += u.second - u.first;
  uint32_t limit = total > (6u << 20) ? 4096 : ~0u;    // all of it has to fit into the simulated heap a few times
  for (int t = 0; t < 20; t++) {
    uint32_t size = genSize(std::min(limit, flash ? o.maxFlashSize : o.maxRamSize), o.wordAligned && !flash);
    if (o.bigRam && !flash && o.maxRamSize > 70000 && pick(2)) size = 65536 + (pick(3) ? 4 * pick((o.maxRamSize - 65536) / 4) : 0);
    uint64_t base;
    uint32_t how = pick(10);
    if (how == 1 && !l.used.empty()) {          // adjacent after an existing region
      base = l.used[pick(l.used.size())].second;
      if (o.wordAligned && !o.oddBase && !flash && (base & 3)) continue;
      if (base > 0xFFFFFFFFull || !l.ok(base, size)) continue;
      count(CT_p_adjacent_regions);
    } else if (how == 2 && !l.used.empty()) {   // adjacent before
      uint64_t b = l.used[pick(l.used.size())].first;
      if (b < size) continue;
      base = b - size;
      if (o.wordAligned && !o.oddBase && !flash && (base & 3)) continue;
      if (!l.ok(base, size)) continue;
      count(CT_p_adjacent_regions);
    } else if (how == 3 && o.top && !l.used.empty()) {
      base = 0x100000000ull - size;
      if (l.ok(base, size)) count(CT_p_top_of_memory);
    } else if (how == 4) {
      base = pick(30) == 1 ? 0xACCE55EDu : pick32();
      if (o.wordAligned && !o.oddBase && !flash) base &= ~3ull;
    } else if (how == 5) {
      base = (flash ? flBases[pick(8)] : ramBases[pick(12)]) + pick(0x4000);
      if (o.wordAligned && !o.oddBase && !flash) base &= ~3ull;
    } else if (how == 6) {                       // small gap behind an existing region
      if (l.used.empty()) continue;
      base = l.used[pick(l.used.size())].second + (o.wordAligned && !flash ? 4 * (1 + pick(4)) : 1 + pick(16));
      if (o.wordAligned && !o.oddBase && !flash) base &= ~3ull;
    } else {
      base = flash ? flBases[how == 0 ? 0 : pick(8)] : ramBases[how == 0 ? 0 : pick(12)];
    }
    if (!l.take(base, size)) continue;
    out->base = (uint32_t)base;
    out->data = genData(size);
    out->ro = flash;
    return true;
  }
  return false;
}
void genRegisters(World& w, bool allowFpu) {
  for (auto& r : w.R) r = genWord();
  w.psr = genWord() & ~0x100u;     // exception numbers above 255 do not exist on the devices CrashDebug supports
  w.fpu = allowFpu && pick(2);
  if (w.fpu) { for (auto& r : w.F) r = genWord(); count(CT_p_fpu); }
}

std::vector<std::string> Capture::args(bool shuffle) const {
  std::vector<std::vector<std::string>> groups;
  if (elf) groups.push_back({"--elf", "image"});
  else groups.push_back({"--bin", "image", binBaseText});
  groups.push_back({"--dump", "dump"});
  for (size_t i = 0; i < extraArgs.size(); i += 4)
    groups.push_back(std::vector<std::string>(extraArgs.begin() + i, extraArgs.begin() + i + 4));
  // option order: aliases keep their relative order (it is their creation order)
  if (shuffle) {
    std::vector<std::vector<std::string>> a(groups.begin() + 2, groups.end()), b(groups.begin(), groups.begin() + 2), o;
    if (pick(2)) std::swap(b[0], b[1]);
    size_t i = 0, k = 0;
    while (i < a.size() || k < b.size()) {
      bool fromB = i >= a.size() || (k < b.size() && pick(2));
      o.push_back(fromB ? b[k++] : a[i++]);
    }
    groups = o;
    if (pick(3) == 1) for (auto& g : groups) for (auto& ch : g[0]) if (pick(2)) ch = toupper(ch);
  }
  std::vector<std::string> r;
  for (auto& g : groups) for (auto& s : g) r.push_back(s);
  return r;
}

// ------------------------------------------------------------------ images
static void put16(std::string& s, size_t o, uint16_t v) { memcpy(&s[o], &v, 2); }
static void put32(std::string& s, size_t o, uint32_t v) { memcpy(&s[o], &v, 4); }

std::string buildElf(Capture& c, GenOpts const& o, Layout& l) {
  std::vector<ElfSeg> segs;
  int nload = 1 + pick(o.maxFlash);
  if (o.allowMany && pick(40) == 1) { nload = 20 + pick(30); count(CT_p_many_regions); }
  // tools emit hundreds of entries for some images
  uint32_t extra = o.allowMany && pick(60) == 1 ? 200 + pick(400) : 0;
  bool huge = extra && pick(4) == 3;               // more than 64 KB of them
  if (huge) extra = 1000 + pick(2000);
  if (extra) count(CT_p_many_headers);
  if (huge) count(CT_p_huge_headers);
  for (int i = 0; i < nload; i++) {
    for (; pick(4) == 1 || extra; extra -= extra != 0) {             // entries that contribute nothing to FLASH
      ElfSeg s{};
      if (huge) { s.type = extra % 5; if (s.type == 1) s.type = 4; s.offset = 52; s.paddr = extra << 8; s.filesz = s.memsz = 32; segs.push_back(s); continue; }
      s.offset = pick(3) ? pick(64) : pick32();
      s.vaddr = pick32();
      s.paddr = pick(2) && !l.used.empty() ? (uint32_t)l.used[0].first : pick32();
      switch (pick(4)) {
        case 0: s.type = 1; s.filesz = 0; s.memsz = pick(2) ? 0 : 1 + pick(4096); break;      // .bss
        case 1: s.type = 0x70000001; s.filesz = s.memsz = 8 * (1 + pick(4)); break;           // .ARM.exidx
        case 2: s.type = pick(2) ? 4 : 0; s.filesz = s.memsz = pick(64); break;               // note, null
        default: s.type = pick(2) ? 2 : 0x6474e551; s.filesz = pick(64); s.memsz = pick(64);
      }
      segs.push_back(s);
    }
    Region r;
    if (!genRegion(l, o, true, &r)) continue;
    ElfSeg s{};
    s.type = 1;
    s.vaddr = pick(2) ? r.base : pick32();
    s.paddr = r.base;
    s.filesz = r.data.size();
    s.memsz = s.filesz + (pick(3) == 1 ? pick(4096) : 0);
    s.loadable = true;
    s.shares = s.covers = -1;
    int from = segs.empty() ? -1 : (int)pick(segs.size());
    if (pick(8) == 1 && from >= 0 && segs[from].loadable && segs[from].shares < 0 && segs[from].covers < 0 && segs[from].filesz >= s.filesz) {
      // the same bytes of the file appear at two addresses
      s.shares = from;
      s.sharedAt = pick(2) ? 0 : pick(segs[from].filesz - s.filesz + 1);
      r.data = segs[from].data.substr(s.sharedAt, s.filesz);
      count(CT_p_elf_shared);
    } else if (pick(20) == 1) { s.covers = (int)c.w.regs.size(); count(CT_p_elf_header_loaded); }    // as linkers do: headers included
    s.data = r.data;
    segs.push_back(s);
    c.w.regs.push_back(r);
  }
  if (c.w.regs.empty()) {
    Region r;
    r.base = 0; r.data = genData(64); r.ro = true;
    if (!l.take(0, 64)) harnessError("layout");
    ElfSeg s{};
    s.type = 1; s.paddr = s.vaddr = 0; s.filesz = s.memsz = 64; s.data = r.data; s.loadable = true; s.shares = s.covers = -1;
    segs.push_back(s);
    c.w.regs.push_back(r);
  }
  c.nFlash = c.w.regs.size();
  uint32_t phentsize = 32 + (pick(4) == 1 ? pick(33) : 0);
  std::string f(52, 0);
  memcpy(&f[0], "\x7f" "ELF\x01\x01\x01", 7);
  f[7] = pick(2) ? 0 : (char)pick(256);
  for (int i = 8; i < 16; i++) f[i] = pick(4) ? 0 : (char)pick(256);
  put16(f, 16, 2);
  put16(f, 18, 40);
  put32(f, 20, 1);
  put32(f, 24, pick32());
  put32(f, 36, 0x05000200);
  put16(f, 40, 52);
  put16(f, 42, phentsize);
  put16(f, 44, segs.size());
  put16(f, 46, pick(2) ? 40 : 0);
  put16(f, 48, pick(2) ? pick(40) : 0);
  // lay out: header, then program headers and data in either order with arbitrary padding
  bool phFirst = pick(4) != 1;
  auto pad = [&] { uint32_t n = pick(3) ? 0 : pick(97); f += genData(n); };
  std::string ph(phentsize * segs.size(), 0);
  size_t phoff = 0;
  if (phFirst) { pad(); phoff = f.size(); f += ph; }
  std::vector<size_t> ord(segs.size());
  for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
  if (pick(3) == 1) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[pick(i)]);
  size_t needed = 52;
  for (size_t k : ord) {
    if (!segs[k].loadable || segs[k].shares >= 0 || segs[k].covers >= 0) continue;
    pad();
    segs[k].offset = f.size();
    f += segs[k].data;
    needed = f.size();
    c.imgCuts.push_back(f.size());
  }
  if (!phFirst) { pad(); phoff = f.size(); f += ph; }
  size_t phEnd = phoff + phentsize * (segs.size() - 1) + 32;      // what is behind the known part of the last entry may be missing
  if (needed < phEnd) needed = phEnd;
  for (auto& q : segs) {
    if (!q.loadable) continue;
    if (q.shares >= 0) q.offset = segs[q.shares].offset + q.sharedAt;
    if (q.covers >= 0) { q.offset = 0; if (f.size() < q.filesz) f += genData(q.filesz - f.size()); if (needed < q.filesz) needed = q.filesz; }
  }
  put32(f, 28, phoff);
  put32(f, 32, pick(2) ? f.size() : pick32());
  for (size_t i = 0; i < segs.size(); i++) {
    size_t p = phoff + i * phentsize;
    put32(f, p, segs[i].type);
    put32(f, p + 4, segs[i].offset);
    put32(f, p + 8, segs[i].vaddr);
    put32(f, p + 12, segs[i].paddr);
    put32(f, p + 16, segs[i].filesz);
    put32(f, p + 20, segs[i].memsz);
    put32(f, p + 24, pick(8));
    put32(f, p + 28, 1u << pick(17));
    for (size_t k = 32; k < phentsize; k++) f[p + k] = (char)0xEE;
  }
  for (auto& q : segs) if (q.loadable && q.covers >= 0) c.w.regs[q.covers].data = f.substr(0, q.filesz);
  c.imgCuts.insert(c.imgCuts.begin(), needed);      // [0]: shortest prefix that still holds everything
  if (pick(2)) f += genData(pick(300));             // sections, symbols, strings
  return f;
}
std::string buildBin(Capture& c, GenOpts const& o, Layout& l) {
  Region r;
  if (!genRegion(l, o, true, &r)) harnessError("layout");
  c.w.regs.push_back(r);
  c.nFlash = 1;
  c.binBase = r.base;
  switch (pick(4)) {
    case 1: c.binBaseText = fmt("%u", r.base); break;
    case 2: c.binBaseText = fmt("0X%X", r.base); break;
    case 3: c.binBaseText = r.base ? fmt("0%o", r.base) : "0"; break;
    default: c.binBaseText = fmt("0x%08x", r.base);
  }
  c.imgCuts.push_back(r.data.size());
  return r.data;
}

// ------------------------------------------------------------------ captures
std::string encodeBinary(Capture& c) {
  std::string s("cC");
  World& w = c.w;
  s += c.v2 ? std::string("\x02\x00", 2) : std::string("\x03\x00", 2);
  c.cuts.push_back(s.size());
  uint32_t flags = (w.fpu ? 1 : 0);
  if (pick(8) == 1) { flags |= pick(2) ? pick32() & ~1u : 2u << pick(31); count(CT_p_other_flags); }     // only bit 0 has a meaning
  s += le32(flags);
  c.cuts.push_back(s.size());
  s.append((char*)w.R, c.v2 ? 17 * 4 : 19 * 4);
  c.cuts.push_back(s.size());
  s += le32(w.psr);
  c.cuts.push_back(s.size());
  if (w.fpu) { s.append((char*)w.F, sizeof w.F); c.cuts.push_back(s.size()); }
  if (c.v2) { w.R[rMSP] = w.R[rPSP] = 0xBAADBAAD; count(CT_p_v2); }
  auto empty = [&] {
    while (c.withEmpties && pick(4) == 1) {
      uint32_t at = pick(2) && !w.regs.empty() ? w.regs[pick(w.regs.size())].base + (pick(2) ? 0 : pick(16)) : pick(8) ? pick32() : 0;
      s += le32(at) + le32(at);
      c.cuts.push_back(s.size());
      w.empties.insert(at);
      count(CT_p_dump_empty_region);
    }
  };
  empty();
  for (size_t i = c.nFlash; i < c.nFlash + c.nRam; i++) {
    const Region& r = w.regs[i];
    s += le32(r.base);
    s += le32(r.base + r.data.size());
    c.cuts.push_back(s.size());
    s += r.data;
    c.cuts.push_back(s.size());
    empty();
  }
  return s;
}
std::string encodeHex(Capture& c) {
  std::string b = encodeBinary(c), s;
  std::vector<size_t> cuts;
  size_t ci = 0;
  int nl = pick(4);            // newline style
  const char* nls = nl == 1 ? "\r\n" : nl == 2 ? "\r" : "\n";
  uint32_t width = pick(3) == 1 ? 1 + pick(64) : 16;
  bool lower = pick(3) == 1, mixed = pick(4) == 1, noNl = pick(8) == 1, perRecord = pick(3) != 1;
  uint32_t col = 0;
  for (size_t i = 0; i < b.size(); i++) {
    unsigned char ch = b[i];
    const char* d = (lower ^ (mixed && pick(2))) ? "0123456789abcdef" : "0123456789ABCDEF";
    s += d[ch >> 4];
    if (mixed && i >= 4 && pick(200) == 1) s += nls;       // a newline may even split a byte
    s += d[ch & 15];
    bool rec = ci < c.cuts.size() && c.cuts[ci] == i + 1;
    while (ci < c.cuts.size() && c.cuts[ci] == i + 1) { cuts.push_back(s.size()); ci++; }
    if (!noNl && (++col >= width || (rec && perRecord)) && i >= 1) { s += nls; col = 0; }
  }
  if (pick(2)) s += nls;
  if (pick(6) == 1) s += "\r\n\n\n";
  c.cuts = cuts;
  return s;
}

static const char* const g_noise[] = {
  "Using memory regions provided by the target.", "Num Enb Low Addr   High Addr  Attrs ",
  "0   y  \t0x00000000 0x00010000 flash blocksize 0x1000 nocache", "2   y  \t0x10000000 0x10008000 rw nocache ", "",
  "$1 = 0x20000000", "(gdb) info all-registers", "+x/4wx $ptr", "f0             0\t(raw 0x000000000000000000000000)",
  "fps            0x0\t0", "d0             0\t(raw 0x0000000000000000)", "d15            1.5\t(raw 0x3ff8000000000000)",
  "primask        0x0\t0", "basepri        0x12\t18", "control        0x2\t2", "faultmask      0x0\t0",
  "Breakpoint 1 at 0x1234: file main.c, line 10.", "#0  0x0000021c in main () at main.c:33", "r0 = 5", "sp 0x10007f00",
  "Program received signal SIGSEGV, Segmentation fault.", "0x00000234 in ?? ()", "  ", "\t", "Cannot access memory at address 0x30000000",
  "x/4wx $ptr", "set var $ptr+=16", "s32            1\t(raw 0x3f800000)", "r13            0x1\t1", "xpsr", "r1", "q0             {u8 = {0x0 <repeats 16 times>}}",
};
static const char* const g_symbols[] = {
  "impure_data", "impure_data+16", "main", "__malloc_av_+1028", "std::vector<int, std::allocator<int> >::s_pool+8", "Foo<Bar<3> >::inst",
  "operator<<(std::ostream&, int)::buf+4", "Ptr<Foo>::operator->() const+6", "operator>(Key const&, Key const&)+12", "Pool::operator->*(int Node::*)+2", "a b c", "_ZGVZN3mbed6TickerC1EvE1x", "g_buffer+65536", "(anonymous namespace)::g_state",
};
std::string encodeLog(Capture& c) {
  World& w = c.w;
  const char* nl = pick(5) == 1 ? "\r\n" : "\n";
  std::string s;
  bool noisy = pick(2), symbols = pick(3) == 1, upper = pick(8) == 1, newGdb = pick(2), longNoise = pick(6) == 1;
  LogLine pend;
  auto line = [&](const std::string& t) {
    pend.start = s.size();
    s += t; s += nl; c.cuts.push_back(s.size());
    pend.end = s.size();
    if (pend.reg >= 0 || pend.fp >= 0 || pend.mem) c.lines.push_back(pend);
    pend = LogLine();
  };
  auto noise = [&] {
    if (!noisy) return;
    for (uint32_t k = pick(4); k; k--) {
      if (longNoise && s.size() < 1000000 && pick(4) == 1) {
        uint32_t n = pick(3) ? 900 + pick(300) : pick(40) == 1 ? 65000 + pick(1000) : 1 + pick(4000);
        std::string t(n, "#-.x "[pick(5)]);
        // text in the middle of a line never is a register or memory line, no matter where it starts
        if (pick(2)) t.resize(pick(3) == 1 ? n : (pick(24) == 1 ? 65536 : 1024 * (1 + pick(3))) - 1 - (pick(4) == 1), t[0]), t += pick(2) ? fmt("0x%08x:\t0x%08x\t0x%08x", pick32() & ~3u, pick32(), pick32()) : fmt("r%-14u0x%x\t%u", pick(13), pick32(), pick(9));
        if (pick(4) == 1) t.resize((1u << (5 + pick(6))) - 3 + pick(4) - strlen(nl) + 1, t[0]);   // exactly fills a buffer, or not quite
        line(t);
        count(CT_p_log_long);
      }
      else if (pick(8) == 1) {                          // not an address
        std::string t = fmt("0x%08x:\t0x%08x\t0x%08x", pick32() & ~3u, pick32(), pick32());
        t[2 + pick(8)] = "gGzZ:. -/@`\t"[pick(12)];
        line(t);
      }
      else line(g_noise[pick(sizeof g_noise / sizeof *g_noise)]);
    }
  };
  bool haveMsp = pick(3) != 1;
  c.logSeesMsp = haveMsp;
  if (!haveMsp) w.R[rMSP] = w.R[rPSP] = 0xBAADBAAD;
  static const char* const names[19] = {"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "sp", "lr", "pc", "xpsr", "msp", "psp"};
  auto reg = [&](int i, uint32_t value) {
    std::string v = upper ? fmt("0x%X", value) : pick(2) ? fmt("0x%x", value) : fmt("0x%08x", value);
    std::string second = i == rSP || i == rMSP || i == rPSP ? v : i == rPC || i == rLR ? v + " <main+" + fmt("%u", pick(999)) + ">" : fmt("%d", (int)value);
    pend.reg = i;
    pend.value = value;
    line(fmt("%-15s", names[i]) + (newGdb ? fmt("%-19s", v.c_str()) : v + "\t") + second);
  };
  auto fpscr = [&](uint32_t value) { pend.fp = 32; pend.value = value; line("fpscr          " + fmt("0x%x", value) + (newGdb ? "              " : "\t") + fmt("%d", (int)value)); };
  auto fpReg = [&](int i, uint32_t value) {
    float f;
    memcpy(&f, &value, 4);
    std::string dec = f != f ? (value >> 31 ? fmt("-nan(0x%x)", value & 0x7FFFFF) : fmt("nan(0x%x)", value & 0x7FFFFF)) : fmt("%.9g", f);
    pend.fp = i;
    pend.value = value;
    line(fmt("%-15s", fmt("s%d", i).c_str()) + (newGdb ? fmt("%-18s ", dec.c_str()) : dec + "\t") + fmt("(raw 0x%08x)", value));
  };
  // Printed before the state that counts: the registers as they were a few steps earlier.
  bool stales = pick(5) == 4;
  auto stale = [&] {
    if (!stales || pick(2)) return;
    count(CT_p_log_stale);
    bool all = pick(2);
    for (int i = 0; i < (haveMsp ? 19 : 17); i++) if (all || pick(4) == 1) reg(i, pick(3) ? pick32() : pick(3) == 1 ? 0 : w.R[i] ^ (1u << pick(32)));
    if (w.fpu && pick(2)) {
      if (pick(2)) fpscr(pick32());
      for (int i = 0; i < 32; i++) if (all || pick(4) == 1) fpReg(i, pick32());
    }
  };
  auto regs = [&] {
    std::vector<int> order;
    for (int i = 0; i <= rXPSR; i++) order.push_back(i);
    if (pick(8) == 1) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[pick(i)]);
    for (int i : order) { reg(i, w.R[i]); if (noisy && pick(12) == 1) noise(); }
    if (w.fpu) {
      bool fpscrFirst = pick(2);
      if (fpscrFirst) fpscr(w.F[32]);
      for (int i = 0; i < 32; i++) fpReg(i, w.F[i]);
      if (!fpscrFirst) fpscr(w.F[32]);
    }
    if (haveMsp) { reg(rMSP, w.R[rMSP]); reg(rPSP, w.R[rPSP]); }
    noise();
  };
  bool regsFirst = pick(4) == 1;
  noise();
  stale();
  if (regsFirst) regs();
  auto mem = [&](const Region& r, uint32_t from, uint32_t to) {
    uint32_t a = from, perLine = pick(4) == 1 ? 1 + pick(4) : 4;
    while (a < to) {
      uint32_t n = perLine;
      std::string t = fmt(upper ? "0x%08X" : "0x%08x", r.base + a);
      if (symbols && pick(2)) {
        std::string sym = g_symbols[pick(sizeof g_symbols / sizeof *g_symbols)];
        if (longNoise && s.size() < 1000000 && pick(8) == 1) for (uint32_t n = 1 + pick(60); n; n--) sym = "tree<" + sym + ", std::pair<int, long> >";
        t += " <" + sym + ">";
      }
      if (longNoise && s.size() < 1000000 && symbols && pick(3) == 1) {       // a line which exactly fills a buffer, or not quite
        size_t words = std::min<size_t>(n, (to - a) / 4), rest = 1 + 11 * words + strlen(nl);
        size_t total = (1u << (7 + (pick(60) == 1 ? 9 : pick(5)))) - 3 + pick(4);
        if (total > 65535) total = 65535;
        if (t.back() != '>') t += " <x>";
        if (t.size() + rest < total) t.insert(t.size() - 1, std::string(total - t.size() - rest, 'y'));
        count(CT_p_log_long);
      }
      t += ":";
      bool valueSymbols = symbols && t.size() < 20000 && pick(8) == 1, asAddress = valueSymbols && pick(2);      // x/4wa: no leading zeroes
      pend.mem = true;
      pend.addr = r.base + a;
      bool cut = false;
      for (uint32_t k = 0; k < n; k++) {
        if (a >= to) { cut = true; break; }
        uint32_t v;
        memcpy(&v, &r.data[a], 4);
        t += fmt(asAddress ? upper ? "\t0x%X" : "\t0x%x" : upper ? "\t0x%08X" : "\t0x%08x", v);
        if (valueSymbols && pick(2)) t += " <" + std::string(g_symbols[pick(sizeof g_symbols / sizeof *g_symbols)]) + ">", count(CT_p_log_value_symbol);
        pend.words.push_back(v);
        a += 4;
      }
      if (cut && to == r.data.size() && pick(2)) t += "\tCannot access memory at address " + fmt("0x%x", r.base + a);
      line(t);
      if (noisy && pick(20) == 1) noise();
    }
  };
  for (size_t i = c.nFlash; i < c.nFlash + c.nRam; i++) {
    if (c.reprint && w.regs[i].data.size() >= 16 && pick(4) == 1) {
      // looked at in pieces which overlap
      uint32_t words = w.regs[i].data.size() / 4, b = 2 + pick(words - 2), a = 1 + pick(b - 1);
      mem(w.regs[i], 0, 4 * b);
      mem(w.regs[i], 4 * a, 4 * words);
      if (w.regs[i].base & 3) { w.joins.insert(w.regs[i].base + 4 * a); w.joins.insert(w.regs[i].base + 4 * b); }
      count(CT_p_log_reprint);
    } else
    mem(w.regs[i], 0, w.regs[i].data.size());
    // The user looks at something again: nothing new is learnt, no matter how it overlaps what was printed before.
    uint32_t lastEnd = w.regs[i].base + w.regs[i].data.size();
    for (int k = c.reprint ? pick(4) : 0; k > 0; k--) {
      const Region& q = w.regs[pick(2) ? i : c.nFlash + pick(i - c.nFlash + 1)];
      uint32_t words = q.data.size() / 4, from = pick(3) ? 4 * pick(words) : 0;
      uint32_t to = pick(3) ? from + 4 * (1 + pick(words - from / 4)) : words * 4;
      if (q.base + from == lastEnd) continue;
      if (i + 1 < c.nFlash + c.nRam && q.base + to == w.regs[i + 1].base) continue;
      mem(q, from, to);
      if (q.base & 3) { w.joins.insert(q.base + from); w.joins.insert(q.base + to); }
      count(CT_p_log_reprint);
      lastEnd = q.base + to;
    }
    noise();
    if (!regsFirst) stale();
  }
  if (!regsFirst) regs();
  // No newline at the very end; but a value without leading zeroes would then look as if its last digits were missing.
  size_t lastTab = s.rfind('\t');
  bool shortValue = lastTab != std::string::npos && s.compare(lastTab, 3, "\t0x") == 0 && s.size() - strlen(nl) - lastTab < 11 && s.find(' ', lastTab) == std::string::npos;
  if (pick(3) == 1 && s.size() && !shortValue) {
    s.resize(s.size() - strlen(nl));
    c.cuts.back() = s.size();
    for (auto& l : c.lines) if (l.end > s.size()) l.end = s.size();
  }
  return s;
}

Capture genCapture(DumpKind kind, GenOpts const& o0, int elfChoice) {
  Capture c;
  GenOpts o = o0;
  if (kind == D_LOG) { o.wordAligned = true; o.oddBase = pick(8) == 7; if (o.oddBase) count(CT_p_log_odd_base); }
  c.kind = kind;
  Layout l;
  bool scs = o.scs && pick(4) != 1;
  Region scsR;
  if (scs) {
    uint32_t from = 0xE000ED28, to = 0xE000ED3C;
    if (pick(6) == 1) to = from + 4 * (1 + pick(5));
    if (pick(6) == 1) from = 0xE000ED00;
    scsR.base = from;
    scsR.data = genData(to - from);
    if (!l.take(from, to - from)) harnessError("scs");
  }
  c.elf = elfChoice < 0 ? pick(3) != 1 : elfChoice;
  c.image = c.elf ? buildElf(c, o, l) : buildBin(c, o, l);
  c.nFlash = c.w.regs.size();
  int n = range(o.minRam, o.maxRam);
  if (o.allowMany && pick(60) == 1) { n = 40 + pick(160); count(CT_p_many_regions); }
  std::vector<Region> ram;
  for (int i = 0; i < n; i++) {
    Region r;
    GenOpts oo = o;
    if (n > 10) oo.maxRamSize = 32;
    if (genRegion(l, oo, false, &r)) ram.push_back(r);
  }
  if (scs) ram.insert(ram.begin() + pick(ram.size() + 1), scsR);
  if (kind == D_LOG) {
    // a log shows regions as runs of consecutive addresses: adjacent blocks in log order become one region
    std::vector<Region> m;
    for (auto& r : ram) {
      if (!m.empty() && (uint64_t)m.back().base + m.back().data.size() == r.base) m.back().data += r.data;
      else m.push_back(r);
    }
    ram = m;
  }
  if (o.hitFlash) {
    const Region& f = c.w.regs[pick(c.nFlash)];
    Region r;
    uint32_t off = pick(4) ? pick(f.size()) : 0;
    r.base = f.base + off;
    if (pick(3) == 1) r.base -= std::min(r.base, 1 + pick(64));
    if (kind == D_LOG) r.base &= ~3u;
    uint64_t room = (0x100000000ull - r.base) & ~3ull;
    r.data = genData((uint32_t)std::min<uint64_t>(room, 4 * (1 + pick(pick(2) ? 4 : 64))));
    if (r.size()) ram.insert(ram.begin() + pick(ram.size() + 1), r);
  }
  if (kind != D_LOG && o.overlap && !ram.empty() && pick(15) == 1) {
    // memory which the device was told to capture twice, in word sized pieces
    size_t k = pick(ram.size());
    Region q = ram[k];
    uint64_t end = (uint64_t)q.base + q.size();
    uint32_t unit = q.base % 4 == 0 && end % 4 == 0 && pick(4) ? 4 : 1;
    if (q.size() >= 8) {
      uint32_t words = q.size() / unit, from = pick(3) ? pick(words) : 0, n = 1 + pick(words - from);
      Region r;
      r.base = q.base + unit * from;
      r.data = q.data.substr(unit * from, unit * n);
      uint32_t more = unit * (1 + pick(64)), before = unit * (1 + pick(64));
      if (unit * (from + n) == q.size() && pick(2) && l.take(end, more)) r.data += genData(more);
      if (from == 0 && pick(2) && q.base >= before && l.take(q.base - before, before)) { r.data = genData(before) + r.data; r.base -= before; }
      ram.insert(ram.begin() + k + pick(ram.size() - k + 1), r);
      count(CT_p_dump_overlap);
      for (uint64_t b : {(uint64_t)q.base, end, (uint64_t)r.base, (uint64_t)r.base + r.size()}) if (b & 3) c.w.joins.insert((uint32_t)b);
    }
  }
  // the device stopped at a breakpoint instruction (semihosting calls look like that too)
  uint32_t pc = 0;
  bool atBkpt = pick(8) == 7;
  if (atBkpt) {
    size_t k = ram.empty() ? 0 : pick(ram.size());
    atBkpt = false;
    static const uint8_t imm[] = {0xAB, 0x00, 0xFF, 0xFE, 0x80};
    if (!ram.empty() && ram[k].size() >= 4 && !o.overlap) {
      uint32_t off = pick(ram[k].size() / 2) * 2;
      if ((ram[k].base + off) & 1) off++;
      pc = ram[k].base + off;
      if (off + 2 <= ram[k].size()) { ram[k].data[off] = (char)imm[pick(5)]; ram[k].data[off + 1] = (char)0xBE; atBkpt = true; }
    } else for (size_t i = 0; i < c.nFlash && !atBkpt; i++)
      for (uint32_t off = 0; off + 1 < c.w.regs[i].size() && !atBkpt; off++)
        if ((uint8_t)c.w.regs[i].data[off + 1] == 0xBE && !((c.w.regs[i].base + off) & 1)) { pc = c.w.regs[i].base + off; atBkpt = true; }
  }
  c.nRam = ram.size();
  if (!c.nRam) count(CT_p_empty_dump);
  for (auto& r : ram) c.w.regs.push_back(r);
  genRegisters(c.w, true);
  if (atBkpt) {
    c.w.R[rPC] = pc;
    count(CT_p_at_bkpt);
    if (pick(2)) { c.w.psr = (c.w.psr & ~0x1FFu) | 12; c.w.R[0] = pick(0x20); }      // as the debug monitor's own stops look, with a semihosting call's number in r0
  }
  if (kind == D_LOG) c.w.psr = 0;      // a GDB log does not say which exception was active
  c.v2 = kind != D_LOG && pick(3) == 1;
  c.reprint = kind == D_LOG && o.reprint && pick(3) == 1;
  c.withEmpties = kind != D_LOG && o.empties && pick(5) == 1;
  c.dump = kind == D_BIN ? encodeBinary(c) : kind == D_HEX ? encodeHex(c) : encodeLog(c);
  return c;
}
