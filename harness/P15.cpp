//@bounds 1..NF frames over up to two objects (one with an empty name); the helper's output fully symbolic up to OUT bytes, or one line per frame of seven shapes with symbolic names; up to FAULTS failures anywhere in the sequence of pipe, fork, write, read, close, dup2 and waitpid calls (error, interruption, short transfer); helper exit by any status or signal
//@bound NF 3 4
//@bound OUT 5 7
//@bound FAULTS 2 3
//@assume fork, pipe, read, write, close, dup2, waitpid, exec are replaced by a descriptor and child table; requests are smaller than a pipe's capacity
//@entry {"name":"h_faults","jobs":8,"covers":["resolved","unresolved","no helper"]}
//@entry {"name":"h_bytes","jobs":8,"covers":["assigned","kept"]}
//@entry {"name":"h_lines","jobs":8,"covers":["all answered","some refused","miscounted"]}
//@entry {"name":"h_child","jobs":1,"covers":["probe child","resolve child"]}
#include "common.h"
#include "symbols/symbols.hpp"
#include "binary/object.hpp"
#include "utils/error.hpp"
#include <cerrno>
#include <unistd.h>
#include <sys/wait.h>
#include <cstdarg>
#include <cstdlib>
using namespace cpptrace;
namespace {
enum { FDS = 24 };
struct End { bool open, writeEnd; int pipe; } fds[FDS];
int nextFd, pipes, faults, openCount, badClose;
struct Child { bool reaped; int kind; } kids[6];
int nkids, childAt = -1;      // which fork returns in the child
char req[3][200]; int reqLen[3], reqPipe[3], nreq;
const char* out[2]; size_t outLen[2], outPos[2];
int wstatus0;                  // status of the probing child
int execs, dupIn = -1, dupOut = -1, childClosed;
bool fault(const char* what) {
  if (faults <= 0) return false;
  if (sym_pick(0, 1, what)) { faults--; return true; }
  return false;
}
bool inChild;
void (*answer)(int request);
}
extern "C" int vp_env_pipe(int* p) {
  if (fault("pipe fails")) { errno = EMFILE; return -1; }
  p[0] = nextFd; p[1] = nextFd + 1;
  fds[nextFd] = {true, false, pipes}; fds[nextFd + 1] = {true, true, pipes};
  pipes++; nextFd += 2; openCount += 2;
  return 0;
}
extern "C" pid_t vp_env_fork() {
  if (fault("fork fails")) { errno = EAGAIN; return -1; }
  if (nkids == childAt) { inChild = true; return 0; }
  kids[nkids] = {false, 0};
  return 100 + nkids++;
}
extern "C" int vp_env_close(int fd) {
  if (inChild) { if (fd < 3) childClosed |= 1 << fd; else if (fd < FDS) fds[fd].open = false; return 0; }
  if (fd < 0 || fd >= FDS || !fds[fd].open) { badClose++; errno = EBADF; return -1; }
  fds[fd].open = false; openCount--;
  return 0;
}
extern "C" int vp_env_dup2(int a, int b) { if (b == 0) dupIn = a; if (b == 1) dupOut = a; return b; }
extern "C" ssize_t vp_env_write(int fd, const void* d, size_t n) {
  sym_assert(fd >= 3 && fd < FDS && fds[fd].open && fds[fd].writeEnd, "writes go to an open write end");
  if (fault("write fails")) {
    uint64_t k = sym_pick(0, 2, "write fault");
    if (k == 0) { errno = EIO; return -1; }
    if (k == 1) { errno = EINTR; return -1; }
    if (n > 1) n = n / 2;
  }
  int i = nreq - 1;
  if (i < 0 || reqPipe[i] != fds[fd].pipe) { i = nreq++; reqPipe[i] = fds[fd].pipe; }
  memcpy(req[i] + reqLen[i], d, n); reqLen[i] += n;
  return n;
}
extern "C" ssize_t vp_env_read(int fd, void* d, size_t n) {
  sym_assert(fd >= 3 && fd < FDS && fds[fd].open && !fds[fd].writeEnd, "reads come from an open read end");
  // the read only ever ends if nobody in this process still holds the write end
  for (int i = 3; i < nextFd; i++) if (fds[i].open && fds[i].writeEnd) sym_fail("the parent waits for the helper while holding a write end open");
  if (fault("read fails")) { errno = sym_pick(0, 1, "read fault") ? EINTR : EIO; return -1; }
  int i = nreq - 1;
  if (i < 0) return 0;
  if (answer && !out[i]) answer(i);
  size_t left = outLen[i] - outPos[i];
  if (n > left) n = left;
  if (n > 1 && fault("short read")) n = 1;
  memcpy(d, out[i] + outPos[i], n); outPos[i] += n;
  return n;
}
extern "C" pid_t vp_env_waitpid(pid_t p, int* st, int) {
  sym_assert(p >= 100 && p < 100 + nkids && !kids[p - 100].reaped, "waits for a child it created");
  if (fault("wait fails")) { errno = EINTR; return -1; }
  kids[p - 100].reaped = true;
  if (st) *st = wstatus0;
  return p;
}
extern "C" int vp_env_execl(const char* path, const char* a0, const char* a1, const char* a2, const char* a3, const char* a4, const char* a5, const char* a6) {
  execs++;
  sym_assert(inChild && !strcmp(path, "/usr/bin/addr2line") && !strcmp(a0, path), "the helper is run");
  if (pipes == 0) {
    sym_assert(!strcmp(a1, "--help") && a2 == nullptr && childClosed == 6, "the probe prints nothing");
    sym_cover("probe child");
  } else {
    sym_assert(!strcmp(a1, "-e") && !strcmp(a2, "/obj/a"), "the helper gets the object");
    sym_assert(!strcmp(a3, "-f") && !strcmp(a4, "-C") && !strcmp(a5, "-p") && a6 == nullptr, "the helper prints functions, demangled, one line each");
    sym_assert(dupIn >= 3 && dupOut >= 3 && !fds[dupIn].writeEnd && fds[dupOut].writeEnd && fds[dupIn].pipe != fds[dupOut].pipe, "the helper reads the request and writes the answers");
    for (int i = 3; i < nextFd; i++) sym_assert(!fds[i].open, "the helper holds no other descriptor");
    sym_cover("resolve child");
  }
  return -1;
}
extern "C" void vp_env__exit(int c) {
  sym_assert(inChild && execs == 1 && c != 0, "only a child whose exec failed exits, and not successfully");
  sym_end_path();
}
extern "C" char* vp_env___cxa_demangle(const char* n, char*, size_t*, int* st) { *st = -2; return nullptr; }
namespace {
const char* names[3] = {"/obj/a", "/obj/b", ""};
std::vector<object_frame> input(size_t n, bool oneObject) {
  std::vector<object_frame> f;
  for (size_t i = 0; i < n; i++) {
    uint64_t o = oneObject ? 0 : sym_pick(0, 2, "object");
    f.push_back({0x1000 + i, 0xa0 + i, names[o]});
  }
  return f;
}
void reset(int f) {
  (void)stacktrace{}.to_string();
  try { throw detail::internal_error("x"); } catch (std::exception&) {}
  nextFd = 3; faults = f; absorb_trace_exceptions(true);
  set_log_callback([](log_level, const char*) {});
}
void resources() {
  sym_assert(openCount == 0, "every descriptor is closed");
  sym_assert(badClose == 0, "no descriptor is closed twice");
  for (int i = 0; i < nkids; i++) sym_assert(kids[i].reaped, "every child is reaped");
}
void sameFrames(const std::vector<object_frame>& in, const std::vector<stacktrace_frame>& t) {
  sym_assert(t.size() == in.size(), "one frame per input");
  for (size_t i = 0; i < in.size(); i++)
    sym_assert(t[i].raw_address == in[i].raw_address && t[i].object_address == in[i].object_address && !t[i].is_inline && !t[i].column.has_value(), "addresses unchanged and in order");
}
bool untouched(const object_frame& f, const stacktrace_frame& t) { return t.symbol.empty() && t.filename == f.object_path && !t.line.has_value(); }
int indexIn(const std::vector<object_frame>& in, size_t i) { int k = 0; for (size_t j = 0; j < i; j++) k += in[j].object_path == in[i].object_path; return k; }
}
// every combination of system-call failures; the helper answers each request properly
extern "C" void h_faults() {
  reset(FAULTS);
  bool helper = sym_pick(0, 1, "helper runs");
  uint64_t how = sym_pick(0, 1, "how it does not");
  wstatus0 = helper ? 0 : how ? 42 << 8 : 11;
  size_t n = sym_pick(1, 2, "frames");
  auto in = input(n, true);
  bool absorb = sym_pick(0, 1, "absorb");
  absorb_trace_exceptions(absorb);
  out[0] = n == 1 ? "foo at f.c:1\n" : "foo at f.c:1\nbar at g.c:2\n"; outLen[0] = strlen(out[0]);
  std::vector<stacktrace_frame> t;
  try {
    t = detail::resolve_frames(in);
  } catch (...) {
    sym_assert(!absorb, "failures are absorbed");
    resources();
    return;
  }
  resources();
  sameFrames(in, t);
  if (!helper) { sym_cover("no helper"); }
  bool done = t[0].symbol == "foo";
  if (!done) { for (size_t i = 0; i < n; i++) sym_assert(untouched(in[i], t[i]), "unanswered frames keep what is known"); sym_cover("unresolved"); return; }
  sym_assert(helper, "no answers without a helper");
  sym_assert(t[0].filename == "f.c" && t[0].line.value() == 1, "the first answer");
  if (n == 2) sym_assert(t[1].symbol == "bar" && t[1].filename == "g.c" && t[1].line.value() == 2, "the second answer");
  sym_assert(nreq == 1 && std::string(req[0], reqLen[0]) == (n == 1 ? "a0\n" : "a0\na1\n"), "the helper was asked about every frame");
  sym_cover("resolved");
}
// any bytes from the helper
extern "C" void h_bytes() {
  reset(0);
  size_t n = sym_pick(1, 2, "frames");
  auto in = input(n, true);
  char buf[OUT + 1];
  size_t len = sym_pick(0, OUT, "length");
  sym_make(buf, len ? len : 1, "output");
  out[0] = buf; outLen[0] = len;
  auto t = detail::resolve_frames(in);
  resources();
  sameFrames(in, t);
  for (size_t i = 0; i < n; i++) {
    if (untouched(in[i], t[i])) { sym_cover("kept"); continue; }
    sym_cover("assigned");
    // an answer is a piece of this frame's own line of the output
    std::string o(buf, len);
    size_t b = 0;
    while (b < len && isspace((unsigned char)o[b])) b++;
    for (size_t k = 0; k < i; k++) b = o.find('\n', b) + 1;
    size_t e = o.find('\n', b);
    std::string line = o.substr(b, e == std::string::npos ? e : e - b);
    sym_assert(t[i].symbol == line.substr(0, t[i].symbol.size()), "the name comes from the frame's own line");
    if (t[i].filename != in[i].object_path) sym_assert(line.find(t[i].filename + ":") != std::string::npos, "the file comes from the frame's own line");
  }
}
// one line per frame, of the shapes the helper prints, frames of several objects interleaved
namespace {
uint64_t shape[4];
std::string lineOf(size_t i) {
  std::string l(1, char('A' + i));
  switch (shape[i]) {
    case 0: return "f" + l + " at /s/" + l + ".c:1" + char('0' + i);
    case 1: return "n::f" + l + "(int, char) at /at at/" + l + ":x.c:1" + char('0' + i) + " (discriminator 2)";
    case 2: return "f" + l + " at ??:?";
    case 3: return "?? ??:0";
    case 4: return "f" + l + " at :?";
    case 5: return "f" + l + " :?";                        // refused
    default: return "f" + l + " at /s/" + l + ".c:99999999999";  // refused
  }
}
std::string texts[2];
uint64_t extra; int odd = -1;   // the object whose answer has a line too many or too few
const std::vector<object_frame>* askedAbout;
std::string asked(size_t i) { return (*askedAbout)[i].object_path; }
void answerShapes(int r) {
  for (int i = 0; i + 2 < reqLen[r]; i += 3) {
    sym_assert(req[r][i] == 'a' && req[r][i + 1] >= '0' && req[r][i + 1] <= '9' && req[r][i + 2] == '\n', "the request lists hexadecimal addresses, one per line");
    texts[r] += lineOf(req[r][i + 1] - '0') + "\n";
  }
  if (extra && odd < 0) {
    odd = names[0] == asked(req[r][1] - '0') ? 0 : 1;
    if (extra == 1) texts[r] += "extra at /s/x.c:77\n"; else texts[r].erase(texts[r].rfind('\n', texts[r].size() - 2) + 1);
  }
  out[r] = texts[r].data(); outLen[r] = texts[r].size();
}
}
extern "C" void h_lines() {
  reset(0);
  answer = answerShapes;
  size_t n = sym_pick(1, NF, "frames");
  auto in = input(n, false);
  for (size_t i = 0; i < n; i++) shape[i] = in[i].object_path.empty() ? 7 : sym_pick(0, 6, "shape");
  askedAbout = &in;
  if (n < 3) extra = sym_pick(0, 2, "line too many or too few");
  auto t = detail::resolve_frames(in);
  resources();
  sameFrames(in, t);
  bool bad[3] = {};
  bool any = false;
  for (size_t i = 0; i < n; i++) {
    int ob = in[i].object_path == names[0] ? 0 : in[i].object_path == names[1] ? 1 : 2;
    if (shape[i] == 5 || shape[i] == 6) bad[ob] = any = true;
    if (bad[ob] && untouched(in[i], t[i])) continue;
    if (ob == odd) { sym_assert(untouched(in[i], t[i]), "answers that cannot be matched to frames are not used"); sym_cover("miscounted"); continue; }
    if (ob == 2) { sym_assert(untouched(in[i], t[i]), "frames without an object are not resolved"); continue; }
    sym_assert(shape[i] < 5, "a malformed answer is not used");
    std::string l(1, char('A' + i));
    std::string s = t[i].symbol, f = t[i].filename;
    switch (shape[i]) {
      case 0: sym_assert(s == "f" + l && f == "/s/" + l + ".c" && t[i].line.value() == 10 + i, "name, file and line from the frame's answer"); break;
      case 1: sym_assert(s == "n::f" + l + "(int, char)" && f == "/at at/" + l + ":x.c" && t[i].line.value() == 10 + i, "name, file and line from the frame's answer, odd characters"); break;
      case 2: case 4: sym_assert(s == "f" + l && f == in[i].object_path && !t[i].line.has_value(), "a name without a location"); break;
      default: sym_assert(s == "??" && f == in[i].object_path, "nothing known"); break;
    }
  }
  if (any) sym_cover("some refused"); else sym_cover("all answered");
}
extern "C" void h_child() {
  reset(0);
  childAt = sym_pick(0, 1, "fork that returns in the child");
  out[0] = ""; 
  std::vector<object_frame> in{{1, 2, "/obj/a"}};
  detail::resolve_frames(in);
  sym_fail("the child never returns into the program");
}
