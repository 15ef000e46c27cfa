// C33: log lines, timers, timing macros under a controlled clock
#include "clock.h"
#include <iostream>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
#include "utl/logging.h"
#include "utl/timer.h"
#include "utl/timing.h"
#include "common.h"
using utl::log_level;
struct piece {
  J const& j;
  std::string s;
};
// one statement per site and number of pieces; a piece streams with its own type
template <typename F> void with(J const& p, F&& f) {
  auto const ty = p["ty"].str();
  if (ty == "i") f(p["n"].n());
  else if (ty == "c") f(static_cast<char>(p["n"].n()));
  else if (ty == "b") f(p["n"].n() == 1);
  else if (ty == "u") f(std::strtoull(p["t"].bytes().c_str(), nullptr, 10));
  else if (ty == "s") f(p["t"].bytes());
  else if (ty == "v") { auto const s = p["t"].bytes(); exact e{s}; f(std::string_view{e.p, e.n}); }
  else if (ty == "p") { auto s = p["t"].bytes(); char* q = s.data(); f(q); }
  else if (ty == "l") { auto s = p["t"].bytes(); auto const& r = s; f(r); }
  else _exit(80);
}
template <typename F> void pieces(J const& ps, F&& f) {
  auto const n = ps.size();
  if (n == 0) f();
  else with(ps[0], [&](auto&& a) {
    if (n == 1) f(a);
    else with(ps[1], [&](auto&& b) {
      if (n == 2) f(a, b);
      else with(ps[2], [&](auto&& c) { f(a, b, c); });
    });
  });
}
static void statement(int site, int lvl, J const& ps) {
  auto const l = static_cast<log_level>(lvl);
  pieces(ps, [&](auto&&... x) {
    switch (site) {
#line 7 "plain.cc"
      case 0: (uLOG(l) << ... << x); break;
#line 12345 "/a/b.c/deep file.h"
      case 1: (uLOG(l) << ... << std::move(x)); break;
#line 1 "dir/x"
      case 2: (uLOG(l) << ... << x); break;
#line 99 "./"
      case 3: (uLOG(l) << ... << x); break;
#line 100 "log.cc"
      default: _exit(81);
    }
  });
}
static J go(J const& c) {
  std::ostringstream b;
  auto const old = std::clog.rdbuf(b.rdbuf());
  std::optional<utl::scoped_timer> sc[4];
  std::optional<utl::manual_timer> ma[4];
  using tp = std::chrono::steady_clock::time_point;
  tp t0[3], t1[3];
  J res = J::arr();
  clk_wall_s = 0;
  auto const base = c["base"].num() * 1000000000LL;
  clk_mono_ns = base;
  clk_armed = true;
  for (auto& t : t0) t = std::chrono::steady_clock::now();
  for (auto& t : t1) t = std::chrono::steady_clock::now();
  for (auto const& o : c["ops"]) {
    auto const op = o["op"].str();
    long long n = 0;
    std::string direct;
    if (op == "adv") clk_mono_ns += o["s"].num() * 1000000000LL + o["ns"].num();
    else if (op == "wall") clk_wall_s = o["day"].num() * 86400 + o["sec"].num();
    else if (op == "log") statement(o["site"].n(), o["lvl"].n(), o["pieces"]);
    else if (op == "time") direct = utl::time(static_cast<time_t>(o["day"].num() * 86400 + o["sec"].num()));
    else if (op == "now") direct = utl::time();
    else if (op == "tstart") { UTL_START_TIMING(x); t0[o["k"].n()] = x_start; }
    else if (op == "tstop") { UTL_STOP_TIMING(x); t1[o["k"].n()] = x_stop; }
    else if (op == "tget") { auto const x_start = t0[o["k"].n()]; n = o["u"].str() == "ms" ? UTL_GET_TIMING_MS(x) : UTL_GET_TIMING_US(x); }
    else if (op == "tread") { auto const x_start = t0[o["k"].n()], x_stop = t1[o["k"].n()]; n = o["u"].str() == "ms" ? UTL_TIMING_MS(x) : UTL_TIMING_US(x); }
    else {
      auto const k = o["k"].n();
      auto& s = sc[k];
      auto& m = ma[k];
      if (op == "new") { if (o["kind"].str() == "scoped") s.emplace(o["name"].bytes()); else m.emplace(o["name"].bytes()); }
      else if (op == "print") { auto const x = o["msg"].bytes(); exact e{x}; std::string_view const v{e.p, e.n}; if (s) s->print(v); else m->print(v); }
      else if (op == "stop") m->stop_and_print();
      else if (op == "del") { if (s) s.reset(); else m.reset(); }
      else if (op == "unwind") {
        struct leave { std::optional<utl::scoped_timer>& t; ~leave() { t.reset(); } };
        try { leave l{s}; throw 1; } catch (int) {}
      }
      else if (op == "copy") ma[o["j"].n()].emplace(*m);
      else _exit(82);
    }
    res.push(J::obj().set("text", hj::bytes(direct.empty() ? b.str() : direct + b.str())).set("n", n));
    b.str("");
  }
  for (int k = 0; k < 4; ++k) if (sc[k]) { b.str(""); sc[k].reset(); b.str(""); }
  for (auto& m : ma) m.reset();
  clk_armed = false;
  std::clog.rdbuf(old);
  return J::obj().set("res", res).set("tail", hj::bytes(b.str()));
}
HARNESS(go)
