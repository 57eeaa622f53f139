// The simulated operating environment: heap, files, console pipes, process exit.
#pragma once
#include "core.h"
#include <deque>

// ---- heap ----
struct Heap {
  uint32_t calls = 0;                 // allocation calls seen
  std::set<uint32_t> failAt;          // 1-based indexes of allocation calls that fail
  uint32_t failFrom = 0;              // all calls >= failFrom fail (0: off)
  uint64_t cap = 128u << 20, inUse = 0, peak = 0;
  bool     armed = false;             // faults only while armed
  std::map<void*, size_t> live;
  uint8_t  fill = 0xA5;
  bool     anyFailed = false;
  uint64_t capAsked = 0;              // largest request refused because of the cap
};
extern Heap g_heap;

// ---- files ----
struct OpenFault {                    // faults of one open() of one file
  bool     fail = false;
  int64_t  eioAt = -1;                // read error at this offset
  bool     eioTransient = false;
  int      seekFailAt = -1;           // n-th seek on this stream fails (0-based)
  int      apiSeekFailAt = -1;        // n-th fseek()/ftell() call on this stream fails
  int      apiTellFailAt = -1;
  bool     closeFail = false;
  int      chunk = 0;                 // 0: whole buffers; k: at most k bytes per read; -1: random sizes
  int64_t  resizeAtRewind = -1;       // file content becomes 'altData' when rewound
};
struct VFile { std::string data; std::string altData; bool hasAlt = false; };
struct Vfs {
  std::map<std::string, VFile> files;
  std::vector<OpenFault> plan;        // indexed by global open number; beyond: fault free
  OpenFault dflt;
  uint32_t opens = 0;
  int openNow = 0;
  bool anyFault = false;              // a fault that must not be survivable silently has fired
  bool readErr = false;
  std::string faultDesc;
};
extern Vfs g_vfs;

// ---- console ----
struct Console {
  std::deque<uint8_t> in;             // bytes GDB -> CrashDebug available to read
  bool inEof = false;                 // writer closed
  bool badStdin = false;              // descriptor 0 isn't open at all
  bool outClosed = false;             // reader closed: writes raise SIGPIPE
  uint32_t outCap = 65536;            // pipe capacity towards GDB
  std::deque<uint8_t> out;            // not yet consumed by GDB
  bool sigpipeIgnored = false;
  int  readErrIn = -1;                // n-th read() call from now fails with EIO
  int  writeErrIn = -1;
  uint32_t eintrPermille = 0;         // select() interrupted
  uint32_t pollCostUs = 20;
  bool readErrFired = false, writeErrFired = false;
  uint64_t bytesIn = 0, bytesOut = 0;
  std::function<void()> onOutput;     // called when bytes were appended to out
  uint32_t epipes = 0;                // writes which failed because nobody reads
  uint64_t eofStep = 0;               // step count at which EOF / hang-up became visible
};
extern Console g_con;
extern std::string g_stderrText;
extern std::string g_strayStdout;
extern uint64_t g_postHangupCap;      // max system calls after the channel is gone
extern uint64_t g_quietReads;

// Runs CrashDebug's real main() in the simulated environment.
struct ProcResult { bool exited; int code; bool signaled; int sig; bool killed; };
ProcResult runCrashDebug(const std::vector<std::string>& args);
// Ends the simulated process from inside an event (GDB killed it / scenario complete).
[[noreturn]] void killProcess();
[[noreturn]] void exitProcess(int code);
bool processRunning();
void envReset();
extern "C" void envEnterApi();   // direct API scenarios: make exit()/abort() visible as violations
