// The reference model (what the debugged device looked like) and generators of images and captures describing it.
#pragma once
#include "gdb.h"

struct Region {
  uint32_t base = 0;
  std::string data;
  bool ro = false, alias = false;
  uint32_t redirect = 0, aliasSize = 0;   // alias: effective (clamped) size
  uint32_t size() const { return alias ? aliasSize : (uint32_t)data.size(); }
};
enum { rSP = 13, rLR = 14, rPC = 15, rXPSR = 16, rMSP = 17, rPSP = 18 };
struct World {
  std::vector<Region> regs;     // in creation order: image segments, dumped RAM, aliases
  uint32_t R[19] = {0}, F[33] = {0}, psr = 0;
  bool fpu = false;
  std::set<uint32_t> empties;   // where the device captured nothing at all (start == end)
  std::set<uint32_t> joins;     // where pieces of memory which was captured twice begin and end, not at a multiple of four
  // First region (creation order) that contains [a, a+n); resolves aliases. -1: bus error.
  int find(uint32_t a, uint32_t n, uint32_t* eff) const;
  bool mapped(uint32_t a) const { uint32_t e; return find(a, 1, &e) >= 0; }
  bool readonly(uint32_t a) const { uint32_t e; int i = find(a, 1, &e); return i >= 0 && regs[i].ro; }
  int  get(uint32_t a) const;              // -1 unmapped
  bool set(uint32_t a, uint8_t v);         // false: unmapped or read only
  std::string bytes(uint32_t a, uint32_t n) const;   // mapped prefix
  // Regions overlap (aliases, memory captured twice) such that a wide access and byte accesses would be served by different ones.
  bool ambiguous(uint32_t a, uint32_t n) const;
  uint32_t prefix(uint32_t a, uint32_t n) const;     // number of mapped bytes from a (stops at 2^32)
  bool rd32(uint32_t a, uint32_t* v) const;
  bool addAlias(uint32_t base, uint32_t size, uint32_t redirect);   // false: must be rejected
  std::string g() const;                   // expected 'g' payload
};

struct GenOpts {
  int  minRam = 0, maxRam = 6, maxFlash = 4;
  uint32_t maxRamSize = 2048, maxFlashSize = 2048;
  bool wordAligned = false;     // RAM bases and sizes are multiples of 4 (a GDB log can only express that)
  bool scs = false;             // offer a System Control Space fault status region
  bool allowMany = true;
  bool top = true;              // may touch the top of the address space
  bool bigRam = false;          // regions of more than 64 KB
  bool overlap = false;         // the device captured some memory twice (D_BIN, D_HEX)
  bool oddBase = false;         // wordAligned only concerns the sizes
  bool hitFlash = false;        // the device captured memory which belongs to the image
  bool empties = false;         // the device was asked to capture nothing (start == end), too
  bool reprint = false;         // D_LOG: the user looked at some memory more than once
};
// Interval bookkeeping so that generated regions never overlap.
struct Layout {
  std::vector<std::pair<uint64_t, uint64_t>> used;
  bool ok(uint64_t a, uint64_t n) const;
  bool take(uint64_t a, uint64_t n) { if (!ok(a, n)) return false; used.push_back({a, a + n}); return true; }
};
uint32_t genSize(uint32_t max, bool word);
std::string genData(uint32_t n);
uint32_t genWord();
bool genRegion(Layout& l, GenOpts const& o, bool flash, Region* out);
void genRegisters(World& w, bool allowFpu);

struct LogLine { size_t start = 0, end = 0; int reg = -1; int fp = -1; uint32_t value = 0; uint32_t addr = 0; std::vector<uint32_t> words; bool mem = false; };
enum DumpKind { D_BIN, D_HEX, D_LOG };
struct Capture {
  World w;                 // expected session state, aliases included
  size_t nFlash = 0, nRam = 0;
  bool elf = true;
  uint32_t binBase = 0;
  std::string binBaseText;
  std::string image, dump;
  DumpKind kind = D_BIN;
  bool v2 = false;
  bool withEmpties = false;
  std::vector<size_t> cuts;        // interesting offsets in dump: record boundaries
  std::vector<size_t> imgCuts;
  std::vector<LogLine> lines;      // D_LOG: structured copy of the lines that carry state
  bool logSeesMsp = true;
  bool bigRam = false;          // regions of more than 64 KB
  bool reprint = false;            // D_LOG: some ranges are printed again (same values, nothing new)
  std::vector<std::string> extraArgs;   // aliases
  std::vector<std::string> args(bool shuffle = false) const;
};
struct ElfSeg { uint32_t type, offset, vaddr, paddr, filesz, memsz; std::string data; bool loadable; int shares; uint32_t sharedAt; int covers; };
std::string buildElf(Capture& c, GenOpts const& o, Layout& l);    // fills c.w.regs
std::string buildBin(Capture& c, GenOpts const& o, Layout& l);
std::string encodeBinary(Capture& c);
std::string encodeHex(Capture& c);
std::string encodeLog(Capture& c);
Capture genCapture(DumpKind kind, GenOpts const& o, int elfChoice = -1 /* -1 random, 0 bin, 1 elf */);
std::string le32(uint32_t v);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---- session helpers (used inside the GDB fibre) ----
ProcResult runSession(Capture& c, std::function<void()> body, const std::vector<std::string>* args = NULL);
void mustHaveBeenKilled(const ProcResult& r);
void mustHaveFailedCleanly(const ProcResult& r, const char* why);
bool failedCleanly(const ProcResult& r);
void takePacketSize(const std::string& qSupportedReply);
void handshake();                                   // connect + qSupported
void checkRegisters(const World& w, const char* ctx = "");
std::string readMem(uint32_t a, uint32_t n, std::string* raw = NULL);   // decoded; raw reply
void checkRead(const World& w, uint32_t a, uint32_t n, const char* ctx);
void checkAllMemory(const World& w, const char* ctx, uint32_t limitPerRegion = ~0u);
void checkEdges(const World& w, const char* ctx);
void randomReads(const World& w, int count);
std::string xfer(const std::string& object, const std::string& annex, uint32_t chunkMax);
struct MapEntry { std::string type; uint32_t start, length; };
std::vector<MapEntry> readMemoryMap(uint32_t chunkMax);
void checkMemoryMap(const World& w, uint32_t chunkMax);
void checkMemoryCover(const World& w, uint32_t chunkMax);   // entries may repeat and overlap but must cover exactly what is there
void checkTargetXml(const World& w, uint32_t chunkMax);
std::string expectedStop(const World& w);
std::string expectedFaultText(const World& w);
void checkStop(const World& w, const std::string& reply, const char* ctx);
// writes through GDB; updates the model
struct WriteRec { uint32_t a; std::string data; bool ok; };
WriteRec doWrite(World& w, uint32_t a, const std::string& data, bool binary);
void randomWrites(World& w, int count, bool flashOnly);
void writeRegisters(World& w);
uint32_t interestingAddress(const World& w);
void pacing(bool wild);
bool genAliases(Capture& c, int n, bool mayFail, bool overlap);
extern bool g_judgeSignals, g_keepFiles;

