// Deterministic simulation core: choice stream, virtual clock and event queue, event log, result block.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#define COUNTERS(X) \
  X(read_short) X(read_eio) X(open_enoent) X(open_emfile) X(seek_fail) X(tell_fail) X(close_fail) X(file_torn) \
  X(file_flip) X(file_lostwrite) X(file_grow_between_passes) X(file_shrink_between_passes) \
  X(alloc_fail) X(alloc_cap) \
  X(select_eintr) X(select_spurious_delay) X(read_stdin_err) X(write_stdout_err) X(write_eagain_block) X(write_short) \
  X(c2s_chunked) X(c2s_delay) X(c2s_corrupt) X(c2s_drop) X(c2s_dup) X(c2s_noise) X(c2s_lost_packet) X(c2s_ctrl_c) \
  X(c2s_nak) X(s2c_corrupt) X(s2c_drop) X(s2c_ack_lost) X(s2c_delay) X(s2c_backpressure) \
  X(hangup_both) X(hangup_input) X(hangup_output) X(hangup_midpacket) X(hangup_before_connect) X(stdin_not_open) X(sigpipe) \
  X(gdb_restart) X(retransmit) X(late_connect) \
  X(p_session_started) X(p_load_failed) X(p_overflow_sentinel) X(p_region_boundary_cut) X(p_midregion_cut) \
  X(p_mem_read_ok) X(p_mem_read_err) X(p_mem_read_prefix) X(p_mem_write_ok) X(p_mem_write_err) X(p_flash_write) \
  X(p_alias_access) X(p_alias_clamped) X(p_reg_write) X(p_resume) X(p_fault_text) X(p_qxfer_chunked) X(p_straddle) \
  X(p_wp_hit) X(p_bp_hit) X(p_wp_set) X(p_wp_clear) X(p_adjacent_regions) X(p_top_of_memory) X(p_fpu) X(p_v2) \
  X(p_known_finding) X(p_big_packet) X(p_empty_dump) X(p_leakcheck) X(p_odd_size) X(p_many_regions) X(p_log_reprint) X(p_log_long) X(p_spy_empty) X(p_many_headers) X(p_big_region) X(p_bad_digit) X(p_elf_shared) X(p_elf_header_loaded) X(p_other_flags) X(p_bad_version) X(p_dump_overlap) X(p_dump_hits_flash) X(p_log_odd_base) X(p_huge_headers) X(p_join) X(p_mb_region) X(p_reload) X(p_rethrown) X(p_long_message) X(p_at_bkpt) X(p_log_stale) X(p_log_value_symbol) X(p_both_images) X(p_dump_empty_region) X(p_elf_no_segment) X(file_shrink_while_read)

enum Counter {
#define X(n) CT_##n,
  COUNTERS(X)
#undef X
  CT_COUNT
};
extern const char* const g_counterNames[CT_COUNT];

// Event classes used for the schedule signature and the bigram coverage measure.
#define EVENTS(X) X(none) X(fopen) X(fread) X(fseek) X(fclose) X(malloc) X(realloc) X(free) X(allocfail) X(iofail) \
  X(select) X(sread) X(sreadblock) X(swrite) X(swriteblock) X(c2s) X(s2c) X(req) X(reply) X(opkt) X(timeout) X(hangup) \
  X(exit) X(api) X(apithrow) X(fault) X(nak) X(err)
enum Ev {
#define X(n) EV_##n,
  EVENTS(X)
#undef X
  EV_COUNT
};
extern const char* const g_evNames[EV_COUNT];

enum Verdict : uint32_t { V_RUNNING = 0, V_OK = 1, V_VIOLATION = 2, V_HARNESS = 3 };

static const uint32_t MAX_CHOICES = 1u << 18;
struct Result {
  volatile uint32_t verdict;
  char     kind[64];
  char     msg[2048];
  uint64_t hash;        // full event log hash
  uint64_t sched;       // hash of event classes only (schedule + fault signature)
  uint64_t simTimeUs;
  uint64_t steps;
  uint32_t counters[CT_COUNT];
  uint64_t bigrams[EV_COUNT * EV_COUNT / 64 + 1];
  uint32_t known;       // bit mask of known findings that fired
  uint32_t nontrivial;  // scenario says the run exercised its property
  uint32_t nchoices;
  uint32_t choices[MAX_CHOICES];
};

extern Result* R;
extern bool    g_verbose;
extern bool    g_sanVariant;

// ---- choices: the only source of randomness in a run. 0 is always the simplest / fault-free outcome. ----
void     choicesStartRandom(uint64_t seed);
void     choicesStartReplay(const uint32_t* p, uint32_t n);
uint32_t pick(uint32_t n);                       // [0,n)
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + pick(hi - lo + 1); }
bool     chance(uint32_t permille);              // 0-choice => false
uint32_t pick32();                               // raw 32-bit value
template <class T> const T& oneOf(const std::vector<T>& v) { return v[pick(v.size())]; }
// Bulk data derived from one choice.
struct Bulk {
  uint64_t s;
  explicit Bulk(uint32_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
};

// ---- event log ----
void ev(Ev e);                                               // class only
void evlog(Ev e, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // hashed, no class
void hashBytes(const void* p, size_t n);
inline void count(Counter c) { R->counters[c]++; }

[[noreturn]] void violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void runOk();
// A recorded genuine defect showed itself: tolerated only if known_findings.txt lists it for this property.
static const char* const g_knownNames[] = {"bus-fault-signal", "stop-signal", "overlap-word"};
void knownFinding(int bit, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

// ---- time and events ----
extern uint64_t g_now;    // microseconds
void     at(uint64_t when, std::function<void()> fn);
bool     runNextEvent();                 // false: queue empty
void     runDueEvents();                 // all events with time <= now
bool     nextEventTime(uint64_t* t);
void     step(uint32_t n = 1);           // counts simulated system calls; enforces the step cap
extern uint64_t g_stepCap;
extern const char* g_stepCapKind;
