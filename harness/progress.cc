#include "common.h"
#include <cmath>
#include <iostream>
#include <thread>
#include "fmt/ostream.h"
#include "fmt/core.h"
#include "utl/progress_tracker.h"

using utl::progress_tracker;

static int eighths(float const f) {
  auto const x = static_cast<double>(f) * 8.;
  return x == std::floor(x) && std::fabs(x) < 1e8 ? static_cast<int>(x) : -99999;
}
static float fl(int const e) { return static_cast<float>(e) / 8.F; }
static std::string status_of(int const k) { return k == 0 ? std::string{} : std::string(static_cast<std::size_t>(k), 's'); }

static std::size_t scale = 1;

template <typename T>
static progress_tracker::tracker_update set(T& t, J const& o) {
  auto const k = o[0].str();
  auto const a = o[1].n(), b = o[2].n();
  if (k == "status") return t.status(status_of(a));
  if (k == "show") return t.show_progress(a != 0);
  if (k == "reset") return t.reset_bounds();
  if (k == "bounds") return t.out_bounds(fl(a), fl(b));
  if (k == "mod") return t.out_mod(fl(a));
  return t.in_high(a == 100 ? 100U : static_cast<std::size_t>(a) * scale);
}
static void chain(progress_tracker::tracker_update u, J const& ops, std::size_t const i) {
  if (i < ops.size()) {
    chain(set(u, ops[i]), ops, i + 1);
  }
}

static J one(J const& c) {
  auto cbs = 0, free = 1, seen = -1;
  scale = static_cast<std::size_t>(c["scale"].num());
  progress_tracker t{[&](progress_tracker const& x) {
    ++cbs;
    seen = eighths(x.out_.load());
    auto ok = false;
    std::thread{[&] {
      [&](auto const& y) { if constexpr (requires { y.mutex_.try_lock(); }) { ok = y.mutex_.try_lock(); if (ok) y.mutex_.unlock(); } else ok = true; }(x);
    }}.join();
    free = free && ok;
  }};
  auto obs = J::arr();
  auto const up = t.update_fn();
  auto const inc = t.increment_fn();
  for (auto const& o : c["ops"]) {
    cbs = 0;
    free = 1;
    seen = -1;
    auto thrown = 0;
    auto const k = o[0].str();
    try {
      if (k == "c") {
        auto const& ch = o[1];
        if (ch.size() == 1) {
          set(t, ch[0]);
        } else {
          chain(set(t, ch[0]), ch, 1);
        }
      } else {
        auto const v = static_cast<std::size_t>(o[1].num()) * scale;
        auto const alt = o.size() > 2;
        if (k == "u") t.update(v);
        else if (k == "m") alt ? up(v) : t.update_monotonic(v);
        else if (alt && v == 1) inc();
        else t.increment(v);
      }
    } catch (std::exception const&) {
      thrown = 1;
    }
    auto const in = t.in_.load();
    auto r = J::obj();
    r.set("in", in % scale == 0 ? static_cast<long long>(in / scale) : -1).set("out", eighths(t.out_.load())).set("cb", cbs).set("seen", seen).set("thrown", thrown).set("free", free);
    r.set("low", eighths(t.out_low_)).set("high", eighths(t.out_high_)).set("mod", eighths(t.out_mod_));
    r.set("inhigh", t.in_high_ == 100U ? 100 : static_cast<long long>(t.in_high_ / scale));
    r.set("status", static_cast<int>(t.status_.size())).set("show", t.show_progress_);
    r.set("show", t.show_progress_ ? 1 : 0);
    obs.push(r);
  }
  return J::obj().set("obs", obs);
}
HARNESS(one)
