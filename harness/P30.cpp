//@bound H 4 5
//@bounds every history of up to H operations (setting one of five thresholds, including values outside the enumeration, installing one of two callbacks or the standard error logger, a message of one of the four levels as plain text, one with arguments, or a message that reports an internal failure) starting from any threshold
//@assume iostreams are replaced by a model whose streams append to a string
//@entry {"name":"h_history","jobs":8,"covers":["delivered","suppressed","stderr"]}
//@entry {"name":"h_defaults","jobs":1,"covers":["defaults"]}
//@entry {"name":"h_levels","jobs":1,"covers":["names"]}
//@entry {"name":"h_failures","jobs":2,"covers":["reported"]}
#include "common.h"
#include "logging.hpp"
#include "utils/error.hpp"
#include <cpptrace/utils.hpp>
#include <iostream>
#include <stdexcept>
using namespace cpptrace;
extern "C" char* vp_env___cxa_demangle(const char* n, char*, size_t*, int* st) { char* p = (char*)malloc(8); memcpy(p, "a::type", 8); *st = 0; return p; }
namespace {
struct Rec { int who; int level; std::string msg; };
std::vector<Rec>* got;
struct Cb { int who; std::string big = "callback state that does not fit in place"; void operator()(log_level l, const char* m) const { got->push_back({who, (int)l, m}); } };
void emit(int level, bool args) {
  switch (level) {
    case 0: args ? detail::log::debug("m {} {}", 5, "x") : detail::log::debug("text {}"); break;
    case 1: args ? detail::log::info("m {} {}", 5, "x") : detail::log::info("text {}"); break;
    case 2: args ? detail::log::warn("m {} {}", 5, "x") : detail::log::warn("text {}"); break;
    default: args ? detail::log::error("m {} {}", 5, "x") : detail::log::error("text {}"); break;
  }
}
}
extern "C" void h_history() {
  std::vector<Rec> g; got = &g; size_t want = 0;
  int threshold = (int)sym_pick(0, 4, "start"); set_log_level((log_level)threshold);
  int who = 0;   // 0: nothing installed, 1, 2: callbacks, 3: standard error
  std::string err;
  std::cerr.sink.clear();
  for (int s = 0; s < H; s++) {
    switch (sym_pick(0, 3, "op")) {
      case 0: threshold = (int)sym_pick(0, 4, "threshold"); set_log_level((log_level)threshold); break;
      case 1: who = (int)sym_pick(1, 2, "callback"); { Cb c; c.who = who; set_log_callback(c); } break;
      case 2: who = 3; use_default_stderr_logger(); break;
      default: {
        int l = (int)sym_pick(0, 3, "level"); bool args = sym_pick(0, 1, "args");
        emit(l, args);
        const char* text = args ? "m 5 x" : "text {}";
        bool on = l >= threshold;
        if (on && (who == 1 || who == 2)) {
          want++; sym_cover("delivered");
          sym_assert(g.size() == want, "an enabled message was not delivered exactly once");
          sym_assert(g.back().who == who && g.back().level == l && g.back().msg == text, "a message reached another callback, or with another level or text");
        } else if (on && who == 3) {
          static const char* const names[] = {"debug", "info", "warning", "error"};
          err += std::string("[cpptrace ") + names[l] + "] " + text + "\n"; sym_cover("stderr");
        } else sym_cover("suppressed");
      }
    }
    sym_assert(g.size() == want, "a message below the threshold, or for another callback, was delivered");
    sym_assert(std::cerr.sink == err, "standard error received something else");
  }
}
extern "C" void h_defaults() {
  std::cerr.sink.clear(); std::cout.sink.clear();
  for (int l = 0; l < 4; l++) emit(l, false);
  sym_assert(std::cerr.sink.empty() && std::cout.sink.empty(), "nothing is printed unless asked for");
  std::vector<Rec> g; got = &g; Cb c; c.who = 1; set_log_callback(c);
  emit(3, false);
  sym_assert(g.size() == 1, "errors are delivered by default");
  emit(0, false); emit(1, false);
  sym_assert(g.size() == 1, "debug and informational messages are not delivered by default");
  sym_cover("defaults");
}
extern "C" void h_levels() {
  sym_assert(!strcmp(to_string(log_level::debug), "debug") && !strcmp(to_string(log_level::info), "info") && !strcmp(to_string(log_level::warning), "warning") && !strcmp(to_string(log_level::error), "error"), "names of the levels");
  int v = (int)sym_u32("level"); sym_assume(v < 0 || v > 3);
  sym_assert(!strcmp(to_string((log_level)v), "unknown log level"), "name of no level");
  sym_cover("names");
}
// internal failures are reported at the error level, with what is known about them
extern "C" void h_failures() {
  std::vector<Rec> g; got = &g; Cb c; c.who = 1; set_log_callback(c);
  int threshold = (int)sym_pick(0, 4, "threshold"); set_log_level((log_level)threshold);
  std::exception_ptr p; std::string want;
  switch (sym_pick(0, 3, "kind")) {
    case 0: try { throw detail::internal_error("broken {}", 3); } catch (...) { p = std::current_exception(); } want = "Unhandled cpptrace internal error: Cpptrace internal error: broken 3"; break;
    case 1: try { throw std::runtime_error("rt"); } catch (...) { p = std::current_exception(); } want = "Unhandled cpptrace internal error of type a::type: rt"; break;
    case 2: try { throw 5; } catch (...) { p = std::current_exception(); } want = "Unhandled cpptrace internal error of type a::type"; break;
    default: break;
  }
  detail::log_and_maybe_propagate_exception(p);
  bool on = threshold <= 3 && p;
  sym_assert(g.size() == (on ? 1u : 0u), "a failure is reported exactly once");
  if (on) sym_assert(g[0].level == 3 && g[0].msg == want, "report of a failure");
  sym_cover("reported");
}
