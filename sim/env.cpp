#include "env.h"
#include <sys/stat.h>
#include <fcntl.h>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <poll.h>
#include <sys/uio.h>
#include <sys/select.h>
#include <sys/time.h>
#include <ctime>
#include <unistd.h>
#include <malloc.h>

extern "C" int crashdebug_main(int argc, const char** argv);
#if defined(__SANITIZE_ADDRESS__)
#endif
extern "C" int __asan_address_is_poisoned(void const volatile*) __attribute__((weak));

Heap g_heap;
Vfs g_vfs;
Console g_con;
std::string g_stderrText, g_strayStdout;
uint64_t g_postHangupCap = 60000;
uint64_t g_quietReads;
static uint64_t g_idlePolls;

static jmp_buf g_procExit;
static bool g_inProc, g_apiMode;
static ProcResult g_pr;

void killProcess() {
  if (!g_inProc) harnessError("killProcess outside process");
  g_pr.killed = true;
  longjmp(g_procExit, 1);
}
static int drainStdio();
static void endProcess(int code) {
  if (g_apiMode) violation("exit", "library code called exit(%d)", code);
  if (!g_inProc) harnessError("exit outside process");
  g_pr.exited = true;
  g_pr.code = code & 0xFF;
  longjmp(g_procExit, 1);
}
void exitProcess(int code) {
  if (g_inProc) drainStdio();
  endProcess(code);
}
static void signalProcess(int sig) {
  g_pr.signaled = true;
  g_pr.sig = sig;
  longjmp(g_procExit, 1);
}
bool processRunning() { return g_inProc; }


// ------------------------------------------------------------------ heap
extern "C" void* sim_malloc(size_t n);
static bool allocFails(size_t n) {
  g_heap.calls++;
  step();
  bool fail = false;
  if (g_heap.armed && (g_heap.failAt.count(g_heap.calls) || (g_heap.failFrom && g_heap.calls >= g_heap.failFrom))) {
    fail = true;
    count(CT_alloc_fail);
    evlog(EV_allocfail, "allocation #%u of %zu bytes fails", g_heap.calls, n);
  } else if (n > g_heap.cap || g_heap.inUse + n > g_heap.cap) {
    fail = true;
    count(CT_alloc_cap);
    if (n > g_heap.capAsked) g_heap.capAsked = n;
    evlog(EV_allocfail, "allocation #%u of %zu bytes exceeds the memory limit", g_heap.calls, n);
  }
  if (fail) { g_heap.anyFailed = true; errno = ENOMEM; }
  return fail;
}
// Freed blocks keep a fixed content and are not handed out again, and in the plain build every block is followed by
// a guard: whoever reads or writes where it must not (the debug monitor's machine code included) does so repeatably.
extern "C" void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
static const size_t GUARD = 64;
static std::deque<std::pair<void*, size_t>> g_quarantine;
static size_t g_quarantined;
static void checkGuard(void* p, size_t n) {
  if (g_sanVariant) return;
  for (size_t i = 0; i < GUARD; i++)
    if (((uint8_t*)p)[n + i] != 0xEE) violation("heap-overflow", "a byte %zu behind a block of %zu bytes was overwritten", i, n);
}
static void release(void* p, size_t n) {
  checkGuard(p, n);
  memset(p, 0xDD, n);
  if (g_sanVariant && __asan_poison_memory_region) __asan_poison_memory_region(p, n);
  g_quarantine.push_back({p, n});
  for (g_quarantined += n + 64; g_quarantined > (48u << 20);) {
    auto q = g_quarantine.front();
    g_quarantine.pop_front();
    g_quarantined -= q.second + 64;
    if (g_sanVariant && __asan_unpoison_memory_region) __asan_unpoison_memory_region(q.first, q.second);
    free(q.first);
  }
}
static void* doAlloc(size_t n) {
  void* p = malloc(g_sanVariant ? n : n + GUARD);
  if (!p && n) harnessError("host out of memory");
  if (!p) { p = malloc(1); }
  memset(p, g_heap.fill, n);
  if (!g_sanVariant) memset((char*)p + n, 0xEE, GUARD);
  g_heap.live[p] = n;
  g_heap.inUse += n;
  if (g_heap.inUse > g_heap.peak) g_heap.peak = g_heap.inUse;
  return p;
}
extern "C" void* sim_malloc(size_t n) {
  if (allocFails(n)) return NULL;
  evlog(EV_malloc, "malloc #%u %zu", g_heap.calls, n);
  return doAlloc(n);
}
extern "C" void* sim_calloc(size_t a, size_t b) {
  if (b && a > (size_t)-1 / b) { errno = ENOMEM; return NULL; }
  if (allocFails(a * b)) return NULL;
  evlog(EV_malloc, "calloc #%u %zu", g_heap.calls, a * b);
  void* p = doAlloc(a * b);
  memset(p, 0, a * b);
  return p;
}
extern "C" void* sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }   // every block is aligned to 16 at least
extern "C" int sim_posix_memalign(void** p, size_t, size_t n) {
  void* q = sim_malloc(n);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
extern "C" void sim_free(void* p) {
  step();
  if (!p) return;
  auto it = g_heap.live.find(p);
  if (it == g_heap.live.end()) violation("bad-free", "free() of a pointer that is not a live allocation");
  size_t n = it->second;
  evlog(EV_free, "free %zu", n);
  g_heap.inUse -= n;
  g_heap.live.erase(it);
  release(p, n);
}
extern "C" void* sim_realloc(void* p, size_t n) {
  if (!p) {
    if (allocFails(n)) return NULL;
    evlog(EV_realloc, "realloc #%u NULL -> %zu", g_heap.calls, n);
    return doAlloc(n);
  }
  auto it = g_heap.live.find(p);
  if (it == g_heap.live.end()) violation("bad-free", "realloc() of a pointer that is not a live allocation");
  if (allocFails(n)) return NULL;
  size_t old = it->second;
  evlog(EV_realloc, "realloc #%u %zu -> %zu", g_heap.calls, old, n);
  if (n == old) return p;              // no allocator moves a block that already has the requested size
  void* q = doAlloc(n);
  memcpy(q, p, old < n ? old : n);
  g_heap.inUse -= old;
  g_heap.live.erase(p);
  release(p, old);
  return q;
}
extern "C" void* sim_reallocarray(void* p, size_t a, size_t b) {
  if (b && a > (size_t)-1 / b) { errno = ENOMEM; return NULL; }
  return sim_realloc(p, a * b);
}
extern "C" char* sim_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*)sim_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
extern "C" char* sim_strndup(const char* s, size_t m) {
  size_t n = strnlen(s, m);
  char* p = (char*)sim_malloc(n + 1);
  if (p) { memcpy(p, s, n); p[n] = 0; }
  return p;
}

// ------------------------------------------------------------------ files
namespace {
struct Stream { VFile* vf; std::string name; size_t pos; OpenFault f; int seeks; bool useAlt; FILE* fp; uint32_t id; int apiSeeks = 0, apiTells = 0; };
std::map<FILE*, Stream*> g_streams;

ssize_t vf_read(void* c, char* buf, size_t n) {
  Stream* s = (Stream*)c;
  step();
  const std::string& d = s->useAlt ? s->vf->altData : s->vf->data;
  if (s->f.eioAt >= 0 && (int64_t)s->pos >= s->f.eioAt) {
    if (s->f.eioTransient) s->f.eioAt = -1;
    count(CT_read_eio);
    g_vfs.readErr = true;
    evlog(EV_iofail, "read of %s (stream %u) at offset %zu: EIO", s->name.c_str(), s->id, s->pos);
    errno = EIO;
    return -1;
  }
  size_t left = s->pos < d.size() ? d.size() - s->pos : 0;
  size_t k = n < left ? n : left;
  if (s->f.chunk > 0 && (size_t)s->f.chunk < d.size() >> 19) s->f.chunk = d.size() >> 19;      // keeps a run's steps within bounds
  if (s->f.chunk > 0 && k > (size_t)s->f.chunk) { k = s->f.chunk; count(CT_read_short); }
  else if (s->f.chunk < 0 && k > 1) { size_t m = 1 + pick(k < 512 ? k : 512); if (m < k) { k = m; count(CT_read_short); } }
  if (s->f.eioAt >= 0 && (int64_t)(s->pos + k) > s->f.eioAt) k = s->f.eioAt - s->pos;
  memcpy(buf, d.data() + s->pos, k);
  s->pos += k;
  if (s->f.chunk <= 0 || k != (size_t)s->f.chunk) evlog(EV_fread, "read %s (stream %u) -> %zu", s->name.c_str(), s->id, k);
  else ev(EV_fread);
  return k;
}
int vf_seek(void* c, off64_t* off, int whence) {
  Stream* s = (Stream*)c;
  step();
  const std::string& d = s->useAlt ? s->vf->altData : s->vf->data;
  if (s->seeks++ == s->f.seekFailAt) {
    count(CT_seek_fail);
    g_vfs.anyFault = true;
    evlog(EV_iofail, "seek on %s (stream %u) fails", s->name.c_str(), s->id);
    errno = EIO;
    return -1;
  }
  int64_t np = whence == SEEK_SET ? *off : whence == SEEK_CUR ? (int64_t)s->pos + *off : (int64_t)d.size() + *off;
  if (np < 0) { errno = EINVAL; return -1; }
  s->pos = np;
  *off = np;
  if (np == 0 && s->vf->hasAlt && whence == SEEK_SET && s->f.resizeAtRewind >= 0 && !s->useAlt) {
    s->useAlt = true;
    count(s->vf->altData.size() > s->vf->data.size() ? CT_file_grow_between_passes : CT_file_shrink_between_passes);
    evlog(EV_fault, "%s changes from %zu to %zu bytes at rewind", s->name.c_str(), s->vf->data.size(), s->vf->altData.size());
  }
  evlog(EV_fseek, "seek %s (stream %u) -> %lld", s->name.c_str(), s->id, (long long)np);
  return 0;
}
ssize_t vf_write(void* c, const char* b, size_t n) {
  Stream* s = (Stream*)c;
  step();
  if (s->vf->data.size() < s->pos + n) s->vf->data.resize(s->pos + n);
  s->vf->data.replace(s->pos, n, b, n);
  s->pos += n;
  ev(EV_fread);
  return n;
}
int vf_close(void* c) {
  Stream* s = (Stream*)c;
  step();
  g_vfs.openNow--;
  evlog(EV_fclose, "close %s (stream %u)", s->name.c_str(), s->id);
  int r = 0;
  if (s->f.closeFail) { count(CT_close_fail); errno = EIO; r = -1; }
  delete s;
  return r;
}
void chk(FILE* f, const char* fn) {
  if (f == stdin || f == stdout || f == stderr) return;
  if (!g_streams.count(f)) violation("bad-stream", "%s() on a stream that is not open", fn);
}
}
extern "C" FILE* sim_fopen(const char* name, const char* mode) {
  step();
  OpenFault of = g_vfs.opens < g_vfs.plan.size() ? g_vfs.plan[g_vfs.opens] : g_vfs.dflt;
  uint32_t id = g_vfs.opens++;
  auto it = g_vfs.files.find(name ? name : "");
  if (g_apiMode && !strcmp(mode, "wb")) it = g_vfs.files.insert({name, VFile{}}).first;
  else if (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+')) violation("input-file-opened-for-write", "fopen(\"%s\", \"%s\")", name, mode);
  if (it == g_vfs.files.end()) {
    count(CT_open_enoent);
    evlog(EV_iofail, "open %s: ENOENT", name);
    errno = ENOENT;
    return NULL;
  }
  if (of.fail) {
    count(CT_open_emfile);
    g_vfs.anyFault = true;
    evlog(EV_iofail, "open %s (stream %u): EMFILE", name, id);
    errno = EMFILE;
    return NULL;
  }
  Stream* s = new Stream{&it->second, name, 0, of, 0, false, NULL, id};
  bool wr = mode[0] == 'w';
  cookie_io_functions_t io = {vf_read, wr ? vf_write : NULL, vf_seek, vf_close};
  FILE* f = fopencookie(s, wr ? "w" : "r", io);
  if (!f) harnessError("fopencookie");
  s->fp = f;
  g_streams[f] = s;
  g_vfs.openNow++;
  evlog(EV_fopen, "open %s (stream %u)", name, id);
  errno = ENOTTY;                       // glibc has been known to leave this behind
  return f;
}
extern "C" int sim_fclose(FILE* f) {
  if (f == stdin || f == stdout || f == stderr) return 0;
  chk(f, "fclose");
  g_streams.erase(f);
  return fclose(f);
}
extern "C" size_t sim_fread(void* p, size_t a, size_t b, FILE* f) { chk(f, "fread"); return fread(p, a, b, f); }
extern "C" char* sim_fgets(char* p, int n, FILE* f) { chk(f, "fgets"); return fgets(p, n, f); }
extern "C" int sim_fgetc(FILE* f) { chk(f, "fgetc"); return fgetc(f); }
// getline() and asprintf() allocate: through the same heap as everything else.
extern "C" ssize_t sim_getdelim(char** line, size_t* cap, int delim, FILE* f) {
  chk(f, "getline");
  size_t n = 0;
  for (int c; (c = fgetc(f)) != EOF;) {
    if (!*line || n + 2 > *cap) {
      size_t want = *cap > n ? (*cap < 120 ? 120 : *cap * 2) : n + 120;
      char* p = (char*)sim_realloc(*line, want);
      if (!p) return -1;
      *line = p;
      *cap = want;
    }
    (*line)[n++] = (char)c;
    if (c == delim) break;
  }
  if (!n) return -1;
  (*line)[n] = 0;
  return (ssize_t)n;
}
extern "C" ssize_t sim_getline(char** line, size_t* cap, FILE* f) { return sim_getdelim(line, cap, '\n', f); }
extern "C" int sim_vasprintf(char** out, const char* format, va_list ap) {
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(NULL, 0, format, ap2);
  va_end(ap2);
  if (n < 0 || !(*out = (char*)sim_malloc(n + 1))) return -1;
  return vsnprintf(*out, n + 1, format, ap);
}
extern "C" int sim_asprintf(char** out, const char* format, ...) { va_list ap; va_start(ap, format); int r = sim_vasprintf(out, format, ap); va_end(ap); return r; }
extern "C" int sim_ungetc(int c, FILE* f) { chk(f, "ungetc"); return ungetc(c, f); }
static bool callFails(FILE* f, int OpenFault::*at, int Stream::*n, const char* what, Counter c) {
  auto it = g_streams.find(f);
  if (it == g_streams.end()) return false;
  Stream* s = it->second;
  if ((s->*n)++ != s->f.*at) return false;
  count(c);
  g_vfs.anyFault = true;
  evlog(EV_iofail, "%s on %s (stream %u) fails", what, s->name.c_str(), s->id);
  errno = EIO;
  return true;
}
extern "C" int sim_fseek(FILE* f, long o, int w) {
  chk(f, "fseek");
  if (callFails(f, &OpenFault::apiSeekFailAt, &Stream::apiSeeks, "fseek", CT_seek_fail)) return -1;
  int r = fseek(f, o, w);
  if (!r) errno = ESPIPE;               // what a successful call leaves in errno means nothing
  return r;
}
extern "C" long sim_ftell(FILE* f) {
  chk(f, "ftell");
  if (callFails(f, &OpenFault::apiTellFailAt, &Stream::apiTells, "ftell", CT_tell_fail)) return -1;
  return ftell(f);
}
extern "C" void sim_rewind(FILE* f) { chk(f, "rewind"); rewind(f); }
extern "C" int sim_ferror(FILE* f) { chk(f, "ferror"); return ferror(f); }
extern "C" int sim_feof(FILE* f) { chk(f, "feof"); return feof(f); }
// The size of a file can be asked for in other ways than by seeking.
extern "C" int sim_fileno(FILE* f) {
  auto it = g_streams.find(f);
  if (it != g_streams.end()) return 1000 + (int)it->second->id;
  if (f == stdin) return 0;
  if (f == stderr) return 2;
  if (f == stdout) return 1;
  violation("bad-stream", "fileno() on a stream that is not open");
}
static void fillStat(struct stat* st, size_t size) {
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644;
  st->st_nlink = 1;
  st->st_size = (off_t)size;
  st->st_blksize = 4096;
  st->st_blocks = (size + 511) / 512;
}
extern "C" int sim_fstat(int fd, struct stat* st) {
  step();
  for (auto& s : g_streams) if (1000 + (int)s.second->id == fd) {
    if (s.second->apiTells++ == s.second->f.apiTellFailAt) { count(CT_tell_fail); g_vfs.anyFault = true; evlog(EV_iofail, "fstat: EIO"); errno = EIO; return -1; }
    fillStat(st, (s.second->useAlt ? s.second->vf->altData : s.second->vf->data).size());
    return 0;
  }
  if (fd < 0 || fd > 2) { errno = EBADF; return -1; }
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFIFO | 0600;
  return 0;
}
extern "C" int sim_stat(const char* name, struct stat* st) {
  step();
  auto it = g_vfs.files.find(name ? name : "");
  if (it == g_vfs.files.end()) { errno = ENOENT; return -1; }
  fillStat(st, it->second.data.size());
  return 0;
}
extern "C" int sim_isatty(int) { errno = ENOTTY; return 0; }
extern "C" int sim_access(const char* name, int) { step(); if (g_vfs.files.count(name ? name : "")) return 0; errno = ENOENT; return -1; }
// Descriptors: the same files, unbuffered.
static std::map<int, FILE*> g_fds;
static FILE* fdFile(int fd) { auto it = g_fds.find(fd); return it == g_fds.end() ? NULL : it->second; }
extern "C" int sim_open(const char* name, int flags, ...) {
  FILE* f = sim_fopen(name, (flags & O_ACCMODE) == O_RDONLY ? "rb" : "r+b");
  if (!f) return -1;
  setvbuf(f, NULL, _IONBF, 0);
  int fd = sim_fileno(f);
  g_fds[fd] = f;
  return fd;
}
static ssize_t fileRead(int fd, void* buf, size_t n) {
  FILE* f = fdFile(fd);
  if (!f) { errno = EBADF; return -1; }
  clearerr(f);
  size_t k = fread(buf, 1, n, f);
  return ferror(f) ? -1 : (ssize_t)k;
}
extern "C" long sim_lseek(int fd, long off, int whence) {
  FILE* f = fdFile(fd);
  if (!f) { errno = fd < 3 ? ESPIPE : EBADF; return -1; }
  return sim_fseek(f, off, whence) ? -1 : sim_ftell(f);
}
extern "C" int sim_close(int fd) {
  FILE* f = fdFile(fd);
  if (!f) { if (fd >= 0 && fd < 3) return 0; errno = EBADF; return -1; }
  g_fds.erase(fd);
  return sim_fclose(f);
}
extern "C" void sim_clearerr(FILE* f) { chk(f, "clearerr"); clearerr(f); }

// ------------------------------------------------------------------ console
static void afterHangup() {
  if (!g_con.eofStep) g_con.eofStep = R->steps;
  if (R->steps - g_con.eofStep > g_postHangupCap)
    violation("hang-after-hangup", "still running %llu system calls after GDB's end of the channel was closed (in=%d out=%d)",
              (unsigned long long)(R->steps - g_con.eofStep), g_con.inEof, g_con.outClosed);
}
static bool badStdin(const char* call) {
  if (!g_con.badStdin) return false;
  if (!g_con.eofStep) count(CT_stdin_not_open);
  evlog(EV_iofail, "%s(stdin): EBADF", call);
  afterHangup();
  errno = EBADF;
  return true;
}
extern "C" ssize_t sim_read(int fd, void* buf, size_t n) {
  step();
  runDueEvents();
  if (fd != 0) return fileRead(fd, buf, n);
  if (badStdin("read")) return -1;
  if (g_con.inEof || g_con.outClosed) afterHangup();
  if (g_con.readErrIn == 0) {
    g_con.readErrFired = true;
    count(CT_read_stdin_err);
    evlog(EV_iofail, "read(stdin): EIO");
    afterHangup();
    errno = EIO;
    return -1;
  }
  if (g_con.readErrIn > 0) g_con.readErrIn--;
  if (n == 0) return 0;
  if (g_con.in.empty() && !g_con.inEof) {
    ev(EV_sreadblock);
    while (g_con.in.empty() && !g_con.inEof) {
      uint64_t t;
      if (!nextEventTime(&t)) violation("deadlock", "CrashDebug waits for input forever and GDB has nothing scheduled");
      runNextEvent();
    }
  }
  if (g_con.in.empty()) {
    evlog(EV_sread, "read(stdin) -> EOF");
    afterHangup();
    return 0;
  }
  size_t k = 0;
  while (k < n && !g_con.in.empty()) { ((uint8_t*)buf)[k++] = g_con.in.front(); g_con.in.pop_front(); }
  g_con.bytesIn += k;
  hashBytes(buf, k);
  ev(EV_sread);
  g_idlePolls = 0;
  return k;
}
static int pollReady() {
  step();
  g_now += 1 + g_con.pollCostUs;
  runDueEvents();
  // A long busy-wait is fast-forwarded to the next thing that happens.
  if (g_con.in.empty() && !g_con.inEof) {
    uint64_t t;
    if (++g_idlePolls > 400) {
      if (!nextEventTime(&t)) violation("deadlock", "CrashDebug polls for input forever and GDB has nothing scheduled");
      runNextEvent();
      if (g_idlePolls > 600) g_idlePolls = 400;
    }
  } else g_idlePolls = 0;
  if (g_con.inEof || g_con.outClosed) afterHangup();
  if (g_con.eintrPermille && chance(g_con.eintrPermille)) {
    count(CT_select_eintr);
    evlog(EV_err, "select: EINTR");
    errno = EINTR;
    return -1;
  }
  return (!g_con.in.empty() || g_con.inEof) ? 1 : 0;
}
static int waitReady(int64_t timeoutUs) {   // timeout <0: infinite
  int r = pollReady();
  if (r != 0 || timeoutUs == 0) { ev(EV_select); if (r != 0) hashBytes(&r, sizeof r); return r; }
  uint64_t deadline = timeoutUs < 0 ? ~0ull : g_now + timeoutUs;
  for (;;) {
    uint64_t t;
    bool have = nextEventTime(&t);
    if (!have && timeoutUs < 0) violation("deadlock", "CrashDebug waits for input forever and GDB has nothing scheduled");
    if (!have || t > deadline) { g_now = deadline; break; }
    runNextEvent();
    if (!g_con.in.empty() || g_con.inEof) { r = 1; break; }
  }
  ev(EV_select);
  return r;
}
extern "C" int sim_select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
  bool wantIn = r && nfds > 0 && FD_ISSET(0, r);
  bool wantOut = w && nfds > 1 && FD_ISSET(1, w);
  int64_t to = tv ? (int64_t)tv->tv_sec * 1000000 + tv->tv_usec : -1;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (e) FD_ZERO(e);
  int n = 0;
  if (wantIn && g_con.badStdin) { step(); runDueEvents(); badStdin("select"); return -1; }
  if (wantOut) { FD_SET(1, w); n++; to = 0; }
  int rc = waitReady(wantIn ? to : 0);
  if (rc < 0) return -1;
  if (wantIn && rc > 0) { FD_SET(0, r); n++; }
  return n;
}
extern "C" int sim_pselect(int nfds, fd_set* r, fd_set* w, fd_set* e, const struct timespec* ts, const void*) {
  struct timeval tv, *p = NULL;
  if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; p = &tv; }
  return sim_select(nfds, r, w, e, p);
}
extern "C" int sim_poll(struct pollfd* p, nfds_t n, int toMs) {
  for (nfds_t i = 0; i < n; i++) if (p[i].fd == 0 && g_con.badStdin) { step(); runDueEvents(); badStdin("poll"); p[i].revents = POLLNVAL; return 1; }
  int rc = waitReady(toMs < 0 ? -1 : (int64_t)toMs * 1000), out = 0;
  if (rc < 0) return -1;
  for (nfds_t i = 0; i < n; i++) {
    p[i].revents = 0;
    if (p[i].fd == 0 && (p[i].events & POLLIN) && rc > 0) p[i].revents = g_con.in.empty() ? POLLHUP : POLLIN;
    if (p[i].fd == 1 && (p[i].events & POLLOUT)) p[i].revents = POLLOUT;
    if (p[i].revents) out++;
  }
  return out;
}
extern "C" int sim_ioctl(int fd, unsigned long req, int* arg) {   // FIONREAD only
  step();
  runDueEvents();
  if (fd == 0 && badStdin("ioctl")) return -1;
  if (fd == 0 && req == 0x541B) { *arg = g_con.in.size(); return 0; }
  errno = EINVAL;
  return -1;
}
static ssize_t conOut(const void* buf, size_t n) {
  step();
  runDueEvents();
  if (g_con.outClosed || g_con.inEof) afterHangup();
  if (g_con.outClosed) {
    count(CT_sigpipe);
    g_con.epipes++;
    evlog(EV_err, "write(stdout): EPIPE");
    if (!g_con.sigpipeIgnored) signalProcess(SIGPIPE);
    errno = EPIPE;
    return -1;
  }
  if (g_con.writeErrIn == 0) {
    g_con.writeErrFired = true;
    count(CT_write_stdout_err);
    evlog(EV_iofail, "write(stdout): EIO");
    afterHangup();
    errno = EIO;
    return -1;
  }
  if (g_con.writeErrIn > 0) g_con.writeErrIn--;
  const uint8_t* c = (const uint8_t*)buf;
  size_t k = 0;
  while (k < n) {
    while (g_con.out.size() >= g_con.outCap) {
      count(CT_s2c_backpressure);
      ev(EV_swriteblock);
      if (k && g_con.onOutput) g_con.onOutput();       // GDB sees what is already in the pipe
      if (k && chance(250)) {    // interrupted by a signal (being stopped and continued is enough)
        count(CT_write_short);
        hashBytes(buf, k);
        ev(EV_swrite);
        return k;
      }
      if (!runNextEvent()) violation("deadlock", "CrashDebug blocks writing and GDB never drains the pipe");
      if (g_con.outClosed) {
        count(CT_sigpipe);
        g_con.epipes++;
        if (!g_con.sigpipeIgnored) signalProcess(SIGPIPE);
        errno = EPIPE;
        return -1;
      }
    }
    g_con.out.push_back(c[k++]);
    g_con.bytesOut++;
  }
  hashBytes(buf, n);
  ev(EV_swrite);
  if (g_con.onOutput) g_con.onOutput();
  return n;
}
// Everything CrashDebug sends must be acknowledgements and packets, whichever routine it sends them with.
static int g_wireState;
static void wireGrammar(const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (g_wireState == 1) { if (b[i] == '#') g_wireState = 2; }
    else if (g_wireState) g_wireState = (g_wireState + 1) & 3;
    else if (b[i] == '$') g_wireState = 1;
    else if (b[i] != '+' && b[i] != '-' && g_strayStdout.size() < 200) g_strayStdout.push_back(b[i]);
  }
}
// What went to stdout through stdio.  Like any pipe or file it is sent when the buffer fills up, on fflush() and on exit().
static std::string g_stdioOut;
static int g_stdioMode;
static int drainStdio() {
  while (!g_stdioOut.empty()) {
    ssize_t k = conOut(g_stdioOut.data(), g_stdioOut.size());
    if (k < 0) { g_stdioOut.clear(); return -1; }
    g_stdioOut.erase(0, k);
  }
  return 0;
}
extern "C" ssize_t sim_write(int fd, const void* buf, size_t n) {
  if (fd == 2) { step(); g_stderrText.append((const char*)buf, n); return n; }
  if (fd != 1) { errno = EBADF; return -1; }
  ssize_t k = conOut(buf, n);
  if (k > 0) wireGrammar((const char*)buf, k);
  return k;
}
extern "C" ssize_t sim_readv(int fd, const struct iovec* v, int n) {
  size_t total = 0;
  for (int i = 0; i < n; i++) total += v[i].iov_len;
  std::vector<char> b(total + 1);
  ssize_t k = sim_read(fd, b.data(), total), at = 0;
  for (int i = 0; i < n && at < k; i++) {
    size_t m = std::min<size_t>(v[i].iov_len, k - at);
    memcpy(v[i].iov_base, b.data() + at, m);
    at += m;
  }
  return k;
}
extern "C" ssize_t sim_writev(int fd, const struct iovec* v, int n) {
  std::string b;
  for (int i = 0; i < n; i++) b.append((const char*)v[i].iov_base, v[i].iov_len);
  return sim_write(fd, b.data(), b.size());
}
extern "C" ssize_t sim_pread(int fd, void* buf, size_t n, long off) {
  long was = sim_lseek(fd, 0, SEEK_CUR);
  if (was < 0 || sim_lseek(fd, off, SEEK_SET) < 0) return -1;
  ssize_t k = sim_read(fd, buf, n);
  int e = errno;
  if (sim_lseek(fd, was, SEEK_SET) < 0) return -1;
  errno = e;
  return k;
}
extern "C" int sim_ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t*) {
  return sim_poll(p, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1);
}
extern "C" int sim_vdprintf(int fd, const char* format, va_list ap) {
  char buf[8192];
  int n = vsnprintf(buf, sizeof buf, format, ap);
  return n < 0 ? n : (int)sim_write(fd, buf, n < (int)sizeof buf ? n : sizeof buf - 1);
}
extern "C" int sim_dprintf(int fd, const char* format, ...) { va_list ap; va_start(ap, format); int r = sim_vdprintf(fd, format, ap); va_end(ap); return r; }
extern "C" void sim_exit(int code) { exitProcess(code); }
extern "C" void sim_exit_now(int code) { endProcess(code); }
extern "C" void sim_abort(void) {
  violation("abort", "abort() called");
}
extern "C" void sim_assert_fail(const char* e, const char* file, unsigned line, const char*) {
  (void)file; (void)line;
  violation("assert", "assertion failed: %s", e);
}
extern "C" void* sim_signal(int sig, void* h) {
  if (sig == SIGPIPE) g_con.sigpipeIgnored = h == (void*)1;
  return NULL;
}
extern "C" int sim_sigaction(int sig, const struct sigaction* sa, struct sigaction*) {
  if (sig == SIGPIPE && sa) g_con.sigpipeIgnored = sa->sa_handler == SIG_IGN;
  return 0;
}
extern "C" int sim_usleep(unsigned us) {
  step();
  uint64_t end = g_now + us, t;
  while (nextEventTime(&t) && t <= end) runNextEvent();
  g_now = end;
  return 0;
}
extern "C" unsigned sim_sleep(unsigned s) { sim_usleep(s * 1000000); return 0; }
extern "C" int sim_nanosleep(const struct timespec* a, struct timespec*) { sim_usleep(a->tv_sec * 1000000 + a->tv_nsec / 1000); return 0; }
extern "C" time_t sim_time(time_t* p) { time_t t = 1600000000 + g_now / 1000000; if (p) *p = t; return t; }
extern "C" int sim_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = 1600000000 + g_now / 1000000; tv->tv_usec = g_now % 1000000; return 0; }
extern "C" int sim_clock_gettime(int, struct timespec* ts) { ts->tv_sec = 1600000000 + g_now / 1000000; ts->tv_nsec = (g_now % 1000000) * 1000; return 0; }

static ssize_t ck_out(void*, const char* b, size_t n) {
  wireGrammar(b, n);
  g_stdioOut.append(b, n);
  if (g_stdioMode == _IOFBF ? g_stdioOut.size() < 4096 : g_stdioMode == _IOLBF && !memchr(b, '\n', n)) return n;
  return drainStdio() ? 0 : n;
}
static ssize_t ck_err(void*, const char* b, size_t n) { g_stderrText.append(b, n); return n; }
static ssize_t ck_in(void*, char* b, size_t n) { return sim_read(0, b, n); }

static FILE *g_realStdout, *g_realStderr, *g_realStdin;
static void __attribute__((noinline)) paintStack() {
  volatile uint8_t a[48 * 1024];
  for (size_t i = 0; i < sizeof a; i++) a[i] = g_heap.fill;
}
static int __attribute__((noinline)) callMain(int argc, const char** argv) {
  paintStack();
  return crashdebug_main(argc, argv);
}
ProcResult runCrashDebug(const std::vector<std::string>& args) {
  static std::vector<const char*> argv;
  argv.clear();
  argv.push_back("CrashDebug");
  for (auto& a : args) { argv.push_back(a.c_str()); note("arg %s", a.c_str()); }
  argv.push_back(NULL);
  g_pr = ProcResult{};
  fflush(stdout);
  g_realStdout = stdout; g_realStderr = stderr; g_realStdin = stdin;
  cookie_io_functions_t o = {NULL, ck_out, NULL, NULL}, e = {NULL, ck_err, NULL, NULL}, i = {ck_in, NULL, NULL, NULL};
  FILE* so = fopencookie(NULL, "w", o);
  FILE* se = fopencookie(NULL, "w", e);
  FILE* si = fopencookie(NULL, "r", i);
  setvbuf(so, NULL, _IONBF, 0);
  setvbuf(se, NULL, _IONBF, 0);
  g_stdioOut.clear();
  g_fds.clear();
  g_stdioMode = _IOFBF;
  g_wireState = 0;
  bool verbose = g_verbose;
  (void)verbose;
  stdin = si; stderr = se;
  extern FILE* g_simStdout; g_simStdout = so;
  g_inProc = true;
  if (setjmp(g_procExit) == 0) {
    int rc = callMain((int)args.size() + 1, argv.data());
    drainStdio();
    g_pr.exited = true;
    g_pr.code = rc & 0xFF;
  }
  g_inProc = false;
  stdin = g_realStdin; stderr = g_realStderr;
  evlog(EV_exit, "process ended: %s code=%d sig=%d", g_pr.killed ? "killed by GDB" : g_pr.signaled ? "signal" : "exit", g_pr.code, g_pr.sig);
  hashBytes(g_stderrText.data(), g_stderrText.size());
  return g_pr;
}
FILE* g_simStdout;
static ssize_t ck_apiout(void*, const char* b, size_t n) { g_strayStdout.append(b, n); return n; }
extern "C" void envEnterApi() {
  g_apiMode = true;
  fflush(stdout);
  cookie_io_functions_t o = {NULL, ck_apiout, NULL, NULL}, e = {NULL, ck_err, NULL, NULL};
  g_realStdout = stdout; g_realStderr = stderr;
  g_simStdout = fopencookie(NULL, "w", o);
  stderr = fopencookie(NULL, "w", e);
  setvbuf(g_simStdout, NULL, _IONBF, 0);
  setvbuf(stderr, NULL, _IONBF, 0);
}
// stdio output routines called by repository code: anything aimed at stdout goes onto GDB's channel.
static FILE* so(FILE* f) { return f == stdout || f == g_realStdout ? g_simStdout : f; }
extern "C" int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(g_simStdout, fmt, ap); va_end(ap); return r; }
extern "C" int sim_vprintf(const char* fmt, va_list ap) { return vfprintf(g_simStdout, fmt, ap); }
extern "C" int sim_fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(so(f), fmt, ap); va_end(ap); return r; }
extern "C" int sim_vfprintf(FILE* f, const char* fmt, va_list ap) { return vfprintf(so(f), fmt, ap); }
extern "C" int sim_puts(const char* s) { return fprintf(g_simStdout, "%s\n", s); }
extern "C" int sim_fputs(const char* s, FILE* f) { return fputs(s, so(f)); }
extern "C" int sim_putchar(int c) { return fputc(c, g_simStdout); }
extern "C" int sim_fputc(int c, FILE* f) { return fputc(c, so(f)); }
extern "C" size_t sim_fwrite(const void* p, size_t a, size_t b, FILE* f) { return fwrite(p, a, b, so(f)); }
extern "C" int sim_fflush(FILE* f) {
  if (!g_apiMode && (!f || so(f) == g_simStdout)) return drainStdio() ? EOF : 0;
  return f ? fflush(so(f)) : 0;
}
extern "C" int sim_setvbuf(FILE* f, char* b, int mode, size_t n) {
  if (!g_apiMode && so(f) == g_simStdout) { g_stdioMode = mode; return 0; }
  return setvbuf(so(f), b, mode, n);
}
extern "C" void sim_setbuf(FILE* f, char* b) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
extern "C" void sim_setlinebuf(FILE* f) { sim_setvbuf(f, NULL, _IOLBF, 0); }
extern "C" FILE* sim_fdopen(int fd, const char*) {
  if (FILE* f = fdFile(fd)) { g_fds.erase(fd); return f; }
  if (fd >= 0 && fd < 3) return fd == 0 ? stdin : fd == 1 ? stdout : stderr; errno = EBADF; return NULL;
}
extern "C" void sim_perror(const char* s) { fprintf(stderr, "%s: error\n", s); }
extern "C" int sim_getchar(void) { return fgetc(stdin); }
