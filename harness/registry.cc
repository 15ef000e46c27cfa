#include "common.h"
#include <cmath>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include "fmt/ostream.h"
#include "fmt/core.h"
#include "utl/progress_tracker.h"

static char const* const names[] = {"", "Ab", "alpha", "beta", "beta-long-name", "c", "d d", "e{}", "f%s", "g\\t", "longgggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggg", "m:m", "nnnnnnnnnnnnn", "x", "zz"};
static std::string text(int const n) { std::string s; for (int j = 1; j <= n; ++j) s += j % 3 == 0 ? '{' : 's'; return s; }
static float fl(int const e) { return static_cast<float>(e) / 8.F; }

static J one(J const& c) {
  std::stringbuf sb;
  auto const old = std::cout.rdbuf(&sb);
  auto& g = utl::get_global_progress_trackers();
  g.clear();
  g.silent_ = true;
  std::vector<utl::progress_tracker_ptr> hs;
  std::vector<std::unique_ptr<utl::global_progress_bars>> scopes;
  auto const id = [&](utl::progress_tracker_ptr const& p) {
    for (auto i = 0U; i != hs.size(); ++i) {
      if (hs[i] == p) return static_cast<int>(i) + 1;
    }
    hs.push_back(p);
    return static_cast<int>(hs.size());
  };
  auto obs = J::arr();
  for (auto const& o : c["ops"]) {
    auto const k = o[0].str();
    auto const a = o.size() > 1 ? o[1].n() : 0, b = o.size() > 2 ? o[2].n() : 0, d = o.size() > 3 ? o[3].n() : 0;
    auto ret = 0;
    sb.str("");
    auto const h = [&]() -> utl::progress_tracker& { return *hs.at(static_cast<std::size_t>(a) - 1); };
    try {
      if (k == "get") ret = id(g.get_tracker(names[a]));
      else if (k == "act") ret = id(utl::activate_progress_tracker(std::string{names[a]}));
      else if (k == "actp") ret = id(utl::activate_progress_tracker(hs.at(static_cast<std::size_t>(a) - 1)));
      else if (k == "actnull") utl::activate_progress_tracker(utl::progress_tracker_ptr{});
      else if (k == "getact") ret = id(utl::get_active_progress_tracker());
      else if (k == "goa") ret = id(utl::get_active_progress_tracker_or_activate(names[a]));
      else if (k == "u") h().update(static_cast<std::size_t>(b));
      else if (k == "m") h().update_monotonic(static_cast<std::size_t>(b));
      else if (k == "i") h().increment(static_cast<std::size_t>(b));
      else if (k == "status") h().status(text(b));
      else if (k == "show") h().show_progress(b != 0);
      else if (k == "mod") h().out_mod(fl(b));
      else if (k == "inhigh") h().in_high(static_cast<std::size_t>(b));
      else if (k == "bounds") h().out_bounds(fl(b), fl(d));
      else if (k == "print") g.print();
      else if (k == "clear") g.clear();
      else if (k == "begin") { if (a == 2) scopes.push_back(std::make_unique<utl::global_progress_bars>()); else scopes.push_back(std::make_unique<utl::global_progress_bars>(a != 0)); }
      else if (k == "end") scopes.pop_back();
    } catch (std::out_of_range const&) {
      _exit(96);
    } catch (std::exception const&) {
      ret = -2;
    }
    obs.push(J::arr().push(ret).push(hj::bytes(sb.str())));
  }
  while (!scopes.empty()) {
    scopes.pop_back();
  }
  std::cout.rdbuf(old);
  return J::obj().set("obs", obs);
}
HARNESS(one)
