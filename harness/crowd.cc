// Many jobs, many workers, real threads (no controlled scheduling): every run is summarised by counts.
#include <atomic>
#include <deque>
#include <iostream>
#include <list>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include "utl/parallel_for.h"
#include "utl/thread_pool.h"
#include "common.h"

static int g_w = 4;
unsigned std::thread::hardware_concurrency() noexcept { return static_cast<unsigned>(g_w); }

struct tally {  // how often each index was seen
  explicit tally(std::size_t n) : seen(n + 64) {}
  void hit(std::size_t i) { total.fetch_add(1); if (i < n()) seen[i].fetch_add(1); else outside.fetch_add(1); }
  std::size_t n() const { return seen.size() - 64; }
  J sum() const {
    std::size_t once = 0;
    for (std::size_t i = 0; i != n(); ++i) once += seen[i].load() == 1;
    return J::arr().push(total.load()).push(once).push(outside.load());
  }
  std::vector<std::atomic<int>> seen;
  std::atomic<std::size_t> total{0}, outside{0};
};

static J pool(J const& c) {
  g_w = c["w"].n();
  bool const hooks = c["hooks"].n() != 0, nest = c["nest"].n() != 0;
  std::mutex m;
  std::map<std::thread::id, std::array<int, 2>> life;
  std::set<std::thread::id> workers;
  std::atomic<int> early{0}, late{0}, current{-1};
  auto const init = [&] { std::lock_guard l{m}; auto& x = life[std::this_thread::get_id()]; if (x[1]) ++late; ++x[0]; };
  auto const fin = [&] { std::lock_guard l{m}; auto& x = life[std::this_thread::get_id()]; if (!x[0]) ++early; ++x[1]; };
  J out = J::arr();
  {
    std::optional<utl::thread_pool> p;
    if (hooks) p.emplace(init, fin); else p.emplace();
    int b = 0;
    for (auto const n : c["batches"].ints()) {
      tally t(static_cast<std::size_t>(n));
      std::vector<long> res(static_cast<std::size_t>(n) + 64, -1);
      std::atomic<int> foreign{0}, refused{0}, let{0};
      current = b;
      p->execute(static_cast<std::size_t>(n), [&, b](std::size_t const i) {
        if (current != b) ++foreign;
        t.hit(i);
        if (i < res.size()) res[i] = static_cast<long>(i) * 3 + b;
        if (hooks && i % 64 == 0) { std::lock_guard l{m}; auto const& x = life[std::this_thread::get_id()]; if (x[0] != 1 || x[1] != 0) ++early; }
        if (nest && i % 1000 == 7) {
          try { p->execute(1, [&](std::size_t) {}); ++let; } catch (std::exception const&) { ++refused; }
        }
      });
      current = -1;
      int good = 0;
      for (std::size_t i = 0; i != static_cast<std::size_t>(n); ++i) good += res[i] == static_cast<long>(i) * 3 + b;
      out.push(t.sum().push(good).push(foreign.load()).push(refused.load()).push(let.load()));
      ++b;
    }
  }
  J li = J::arr();
  for (auto const& [k, v] : life) li.push(J::arr().push(v[0]).push(v[1]));
  return J::obj().set("r", out).set("life", li).set("odd", early.load() + late.load());
}

struct boom { std::size_t i; int where; };
struct mine {
  std::atomic<int> busy{0};
};

static J pf(J const& c) {
  g_w = c["w"].n();
  auto const n = static_cast<std::size_t>(c["n"].n());
  int const over = c["over"].n(), fm = c["fm"].n(), fr = c["fr"].n(), pm = c["pm"].n(), pr = c["pr"].n();
  auto const strat = c["strat"].n() ? utl::parallel_error_strategy::QUIT_EXEC : utl::parallel_error_strategy::CONTINUE_EXEC;
  std::atomic<bool> over_now{false};
  std::atomic<int> shared{0}, after{0}, running{0};
  tally t(n), pg(n);
  auto const job = [&](std::size_t const i) {
    if (over_now) ++after;
    ++running;
    t.hit(i);
    --running;
    if (fm && i % static_cast<std::size_t>(fm) == static_cast<std::size_t>(fr)) throw boom{i, 1};
  };
  auto const prog = [&](std::size_t const i) {
    if (over_now) ++after;
    pg.hit(i);
    if (pm && i % static_cast<std::size_t>(pm) == static_cast<std::size_t>(pr)) throw boom{i, 2};
  };
  std::vector<long> v(n);
  for (std::size_t i = 0; i != n; ++i) v[i] = static_cast<long>(i) * 2 + 1;
  std::vector<long> const& cv = v;
  std::deque<long> d(v.begin(), v.end());
  std::list<long> l;
  if (over == 6) l.assign(v.begin(), v.end());
  auto const el = [&](long const& x) { job(static_cast<std::size_t>((x - 1) / 2)); };
  auto* const old = std::clog.rdbuf(nullptr);
  utl::errors_t e;
  long thrown = -1, where = 0;
  int odd = 0;
  try {
    switch (over) {
      case 0: e = utl::parallel_for_run(n, job, prog, strat); break;
      case 1:
        e = utl::parallel_for_run_threadlocal<mine>(n, [&](mine& s, std::size_t const i) {
          if (s.busy.exchange(1)) ++shared;
          struct off { mine& s; ~off() { s.busy = 0; } } o{s};
          job(i);
        }, prog, strat);
        break;
      case 2: e = utl::parallel_for(v, [&](long& x) { el(x); x += 0; }, prog, strat); break;
      case 3: e = utl::parallel_for(cv, el, prog, strat); break;
      case 4: e = utl::parallel_for(std::string{"many"}, cv, static_cast<std::size_t>(c["mod"].n()), el, prog, strat); break;
      case 5: e = utl::parallel_for(d, [&](long& x) { el(x); }, prog, strat); break;
      case 6: e = utl::parallel_for(l, [&](long& x) { el(x); }, prog, strat); break;
    }
  } catch (boom const& b) { thrown = static_cast<long>(b.i); where = b.where; }
  over_now = true;
  odd = running.load();
  std::clog.rdbuf(old);
  tally er(n);
  int match = 0;
  for (auto const& [i, p] : e) {
    er.hit(i);
    try { std::rethrow_exception(p); } catch (boom const& b) { match += b.i == i && b.where == (fm && i % static_cast<std::size_t>(fm) == static_cast<std::size_t>(fr) ? 1 : 2); } catch (...) {}
  }
  return J::obj().set("jobs", t.sum()).set("prog", pg.sum()).set("errs", er.sum()).set("match", match).set("thrown", thrown).set("where", where).set("odd", odd + after.load() + shared.load());
}

static J run(J const& c) { return c["fn"].str() == "pool" ? pool(c) : pf(c); }
HARNESS(run)
