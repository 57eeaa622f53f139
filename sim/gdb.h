// Simulated GDB remote-serial-protocol client. Runs on its own fibre, interleaved with CrashDebug by the event queue.
#pragma once
#include "env.h"

struct ChannelCfg {                 // how bytes travel; timing is always varied, loss only in lossy mode
  uint32_t delayMaxUs = 400;        // per-burst latency towards CrashDebug
  uint32_t chunkPermille = 0;       // chance a burst towards CrashDebug is split
  uint32_t s2cDelayMaxUs = 400;
  uint32_t s2cChunkPermille = 0;
  // faults (permille per packet / ack), active only while lossy
  bool     lossy = false;
  uint32_t faultBudget = 0;
  uint32_t fC2sCorrupt = 0, fC2sDrop = 0, fC2sDup = 0, fC2sNoise = 0, fC2sLost = 0, fC2sCtrlC = 0, fNak = 0;
  uint32_t fS2cCorrupt = 0, fS2cDrop = 0, fAckLost = 0, fAckCorrupt = 0, fS2cAckLost = 0;
};

struct Gdb {
  ChannelCfg cfg;
  bool strict = true;               // any byte that the protocol does not call for is a violation
  bool eof = false;                 // CrashDebug's output ended
  std::vector<std::string> console; // decoded O packets of the current resume
  uint64_t requests = 0, replies = 0;
  uint32_t maxTx = 0;               // most transmissions one request needed
  bool faultFired = false;          // a channel fault was injected since the last clean resync

  // Straight-line client operations: call only from the client fibre.
  void sleepUs(uint64_t us);
  void connect();                                   // '+'
  std::string request(const std::string& payload);  // one reply; "" allowed. Channel faults are recovered from.
  std::string resume(const std::string& payload);   // collects O packets in console, returns the stop reply
  void sendRaw(const std::string& bytes);           // no framing
  void quietly(uint64_t us);                        // swallow input until the line is quiet for us
  int  getByte(uint64_t timeoutUs);                 // -1 timeout, -2 EOF
  bool pending() const;
  void close(bool in, bool out);                    // GDB's ends of the two pipes close
  [[noreturn]] void kill();                         // scenario complete: GDB kills the stub
};
extern Gdb g_gdb;
extern uint32_t g_packetSize;                       // as announced by CrashDebug; requests and replies stay below it
extern std::function<void(const std::string&)> g_packetTap;  // every checksummed reply payload that GDB accepts
extern int g_connBytes;

std::string rspFrame(const std::string& payload);
std::string hexOf(const void* p, size_t n);
std::string hexOf(const std::string& s);
bool unhex(const std::string& h, std::string* out);
std::string binEscape(const std::string& d);

// Starts the client fibre when the process starts: body is executed as GDB.
void gdbStart(std::function<void()> body);
