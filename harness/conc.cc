// Concurrent API programs run under the controlled scheduler (vsched). Each input case names a program, its
// parameters and a set of schedules to explore; the observation lists the distinct event traces.
#include "common.h"
#include "vsched/vsched.h"

#include <deque>
#include <iostream>
#include <list>
#include <set>
#include <sstream>
#include <thread>

#include "fmt/ostream.h"
#include "fmt/core.h"

#include "utl/parallel_for.h"
#include "utl/progress_tracker.h"
#include "utl/thread_pool.h"

namespace {
using vs::event;

struct job_error {
  int idx, kind;
};

// ------------------------------------------------------------------ thread pool
struct batch {
  int n;
  std::vector<std::pair<int, int>> nest;  // job index -> size of the nested batch
};
struct pool_prog {
  std::vector<batch> bs;
  bool hooks;

  void operator()() const {
    event("pb");
    {
      auto b = -1;
      std::vector<std::vector<int>> out;
      for (auto const& x : bs) {
        out.emplace_back(static_cast<std::size_t>(x.n), 0);
        vs::watch(out.back().data(), out.back().size() * sizeof(int));
      }
      auto init_count = 0;
      auto const init = [] { event("in"); };
      auto const fini = [] { event("fi"); };
      auto const play = [&](utl::thread_pool& p) {
        event("pc");
        for (auto const& x : bs) {
          ++b;
          auto const bi = b;
          event("xb", bi, x.n);
          auto payload = 100 * (bi + 1);  // written by the caller, read by the jobs
          vs::watch(&payload, sizeof payload);
          p.execute(static_cast<std::size_t>(x.n), [&, bi, tag = bi](std::size_t const idx) {
            event("js", tag, static_cast<int>(idx));
            for (auto const& [j, m] : x.nest) {
              if (static_cast<std::size_t>(j) != idx) {
                continue;
              }
              event("nb", tag, static_cast<int>(idx), m);
              auto refused = 0;
              try {
                p.execute(static_cast<std::size_t>(m), [&](std::size_t const k) {
                  event("nj", tag, static_cast<int>(idx), static_cast<int>(k));
                });
              } catch (std::exception const&) {
                refused = 1;
              }
              event("nx", tag, static_cast<int>(idx), m, refused);
            }
            if (idx < out[static_cast<std::size_t>(bi)].size()) {
              out[static_cast<std::size_t>(bi)][idx] += payload + static_cast<int>(idx);
            }
            event("je", tag, static_cast<int>(idx));
          });
          // everything the jobs wrote is visible here
          auto wrong = 0;
          for (auto i = 0; i != x.n; ++i) {
            wrong += out[static_cast<std::size_t>(bi)][static_cast<std::size_t>(i)] != payload + i;
          }
          event("xe", bi, wrong);
        }
        (void)init_count;
        event("db");
      };
      if (hooks) {
        utl::thread_pool p{init, fini};
        play(p);
      } else {
        utl::thread_pool p;
        play(p);
      }
      event("de");
    }
  }
};

// ------------------------------------------------------------------ parallel_for
struct tl_state {
  tl_state() : id{next++} { event("tl", id); }
  tl_state(tl_state const&) = delete;
  tl_state& operator=(tl_state const&) = delete;
  ~tl_state() { id = -7; }
  int id;
  int uses{0};
  static std::atomic<int> next;
};
std::atomic<int> tl_state::next{0};

struct pf_prog {
  int n, over;
  int strat;              // 0 continue, 1 quit, 2 default
  int prog;               // 1: with progress callback
  std::vector<int> fail;  // per index: 0 ok, 1 function throws, 2 progress callback throws, 3 throws an int

  void done(utl::errors_t const& errs) const {
    event("rt", static_cast<int>(errs.size()));
    for (auto const& [idx, ep] : errs) {
      if (ep == nullptr) {
        event("er", static_cast<int>(idx), -1, -1);
        continue;
      }
      try {
        std::rethrow_exception(ep);
      } catch (job_error const& e) {
        event("er", static_cast<int>(idx), e.idx, e.kind);
      } catch (int const i) {
        event("er", static_cast<int>(idx), i, 3);
      } catch (...) {
        event("er", static_cast<int>(idx), -2, -2);
      }
    }
  }

  void operator()() const {
    std::vector<int> out(static_cast<std::size_t>(n), 0);
    auto payload = 7;
    auto const work = [&](int const i, int const tl = -1) {
      event("js", i, tl);
      if (i >= 0 && i < n) {
        out[static_cast<std::size_t>(i)] += payload;
        if (fail[static_cast<std::size_t>(i)] == 1) {
          event("jf", i);
          throw job_error{i, 1};
        }
        if (fail[static_cast<std::size_t>(i)] == 3) {
          event("jf", i);
          throw i;
        }
      }
      event("je", i);
    };
    auto const progress = [&](std::size_t const i) {
      event("pg", static_cast<int>(i));
      if (i < fail.size() && fail[i] == 2) {
        event("jf", static_cast<int>(i));
        throw job_error{static_cast<int>(i), 2};
      }
    };
    auto const tlwork = [&](tl_state& s, std::size_t const i) {
      auto const mine = s.id;
      ++s.uses;
      work(static_cast<int>(i), mine);
      if (s.id != mine) {
        event("tb", mine, s.id);
      }
    };
    using E = utl::parallel_error_strategy;
    auto const st = strat == 0 ? E::CONTINUE_EXEC : E::QUIT_EXEC;
    auto const N = static_cast<std::size_t>(n);
    std::vector<int> vec, base;
    for (auto i = 0; i != n; ++i) {
      vec.push_back(i);
    }
    auto const cvec = vec;
    std::deque<int> deq(vec.begin(), vec.end());
    std::list<int> lst(vec.begin(), vec.end());
    std::list<int> const clst = lst;
    event("cb", n);
    try {
      auto const run = [&](auto&& f) -> void {
        // with/without progress callback, with/without an explicit strategy
        if (prog == 0 && strat == 2) {
          f();
        } else if (prog == 0) {
          f(utl::noop_progress_update{}, st);
        } else if (strat == 2) {
          f(progress);
        } else {
          f(progress, st);
        }
      };
      auto const fn = [&](std::size_t const i) { work(static_cast<int>(i)); };
      auto const el = [&](auto& e) { work(e); };
      auto const cel = [&](int const& e) { work(e); };
      switch (over) {
        case 0: run([&](auto&&... a) { done(utl::parallel_for_run(N, fn, a...)); }); break;
        case 1: run([&](auto&&... a) { done(utl::parallel_for_run_threadlocal<tl_state>(N, tlwork, a...)); }); break;
        case 2: run([&](auto&&... a) { done(utl::parallel_for(vec, el, a...)); }); break;
        case 3: run([&](auto&&... a) { done(utl::parallel_for(cvec, cel, a...)); }); break;
        case 4: run([&](auto&&... a) { done(utl::parallel_for(deq, el, a...)); }); break;
        case 5: run([&](auto&&... a) { done(utl::parallel_for(lst, el, a...)); }); break;
        case 6: run([&](auto&&... a) { done(utl::parallel_for(clst, cel, a...)); }); break;
        case 7: run([&](auto&&... a) { done(utl::parallel_for("desc", cvec, 2U, cel, a...)); }); break;
      }
    } catch (job_error const& e) {
      event("th", e.idx, e.kind);
    } catch (int const i) {
      event("th", i, 3);
    } catch (std::exception const&) {
      event("th", -2, -2);
    }
    auto wrote = 0;
    for (auto const x : out) {
      wrote += x;
    }
    event("vs", wrote / 7);
  }
};

// ------------------------------------------------------------------ progress tracker
struct tr_op {
  int kind;  // 0 update, 1 update_monotonic, 2 increment, 3 update_fn, 4 increment_fn, 5 status, 6 show_progress
  int v;
};
struct tr_prog {
  std::vector<std::vector<tr_op>> threads;
  int low, high, mod, in_high, in0;
  static int out_of(float f) {
    return f >= 0.F && f < 2e6F && static_cast<float>(static_cast<int>(f * 8.F)) == f * 8.F ? static_cast<int>(f * 8.F) : -999;
  }
  void operator()() const {
    utl::progress_tracker t{[](utl::progress_tracker const& x) { event("cb", out_of(x.out_.load())); }};
    t.out_bounds(static_cast<float>(low) / 8.F, static_cast<float>(high) / 8.F).out_mod(static_cast<float>(mod) / 8.F).in_high(static_cast<std::size_t>(in_high));
    t.update(static_cast<std::size_t>(in0));
    event("go", static_cast<int>(t.in_.load()), out_of(t.out_.load()));
    std::vector<std::thread> ts;
    for (auto const& ops : threads) {
      ts.emplace_back([&t, &ops] {
        auto const up = t.update_fn();
        auto const inc = t.increment_fn();
        for (auto const& o : ops) {
          event("ob", o.kind, o.v);
          auto const v = static_cast<std::size_t>(o.v);
          switch (o.kind) {
            case 0: t.update(v); break;
            case 1: t.update_monotonic(v); break;
            case 2: t.increment(v); break;
            case 3: up(v); break;
            case 4: inc(); break;
            case 5: t.status(std::to_string(o.v)); break;
            case 6: t.show_progress(o.v != 0); break;
          }
          event("oe", o.kind, o.v, static_cast<int>(t.in_.load()), out_of(t.out_.load()));
        }
      });
    }
    for (auto& x : ts) {
      x.join();
    }
    event("fn", static_cast<int>(t.in_.load()), out_of(t.out_.load()));
  }
};

// ------------------------------------------------------------------ registry
struct rg_op {
  int kind, a, b;
};
struct rg_prog {
  std::vector<std::vector<rg_op>> threads;
  bool silent;
  // fr(up, final): a frame begins; ln(name, shown, percent, status): a line of it; bx: bytes that are neither
  static void frames(std::string const& s, std::size_t const last) {
    auto const n = s.size();
    auto p = std::size_t{0};
    auto open = false;
    std::vector<int> seen;
    auto const lit = [&](std::string_view const x) {
      if (s.compare(p, x.size(), x) != 0) return false;
      p += x.size();
      return true;
    };
    auto const num = [&] {
      auto v = -1;
      while (p < n && std::isdigit(static_cast<unsigned char>(s[p]))) v = std::max(v, 0) * 10 + (s[p++] - '0');
      return v;
    };
    while (p < n) {
      if (p == last) open = false;
      if (s.compare(p, 3, "\x1b[K") != 0) {
        auto const at = p;
        if (!lit("\x1b[")) break;
        auto const up = num();
        if (up <= 0 || !lit("A")) { p = at; break; }
        event("fr", up, at >= last);
        open = true;
        continue;
      }
      if (!open) {
        event("fr", 0, p >= last);
        open = true;
      }
      p += 3;
      auto const e = s.find('\n', p);
      if (e == std::string::npos) break;
      auto name = -1, w = 0;
      while (p < e && s[p] == ' ') { ++p; ++w; }
      for (auto i = 0; i != 3; ++i) {
        static std::string_view const names[] = {"alpha", "beta", "gamma"};
        if (s.compare(p, names[i].size(), names[i]) == 0 && w + names[i].size() == 12) { name = i; p += names[i].size(); break; }
      }
      if (name == -1 || !lit(": ")) break;
      auto shown = 0, pct = -1;
      if (p < e && s[p] == '[') {
        ++p;
        shown = 1;
        auto cells = 0;
        while (cells < 55 && (lit("\xe2\x96\xa0") || lit(" "))) ++cells;
        if (cells != 55 || !lit(" ] ")) break;
        auto sp = 0;
        while (lit(" ")) ++sp;
        auto const d0 = p;
        pct = num();
        if (pct < 0 || sp + static_cast<int>(p - d0) != 3 || !lit("%")) break;
        if (p < e && !lit(" | ")) break;
      }
      auto st = 0;
      while (p < e && s[p] == 's') { ++p; ++st; }
      if (p != e) break;
      ++p;
      event("ln", name, shown, pct, st);
    }
    if (p < n) event("bx", static_cast<int>(p));
  }
  void operator()() const {
    std::stringbuf sb;
    auto const old = std::cout.rdbuf(&sb);
    static char const* names[] = {"alpha", "beta", "gamma"};
    auto& g = utl::get_global_progress_trackers();
    std::vector<utl::progress_tracker_ptr> ptrs;  // identity numbers
    std::mutex m;
    auto last_begin = std::size_t{0};
    auto const id = [&](utl::progress_tracker_ptr const& p) {
      std::lock_guard<std::mutex> l{m};
      for (auto i = 0U; i != ptrs.size(); ++i) {
        if (ptrs[i].get() == p.get()) {
          return static_cast<int>(i);
        }
      }
      ptrs.push_back(p);
      return static_cast<int>(ptrs.size()) - 1;
    };
    {
      auto const bars = utl::global_progress_bars{silent};
      std::vector<std::thread> ts;
      auto k = 0;
      for (auto const& ops : threads) {
        ts.emplace_back([&, k] {
          auto n = 0;
          for (auto const& o : ops) {
            event("ob", k, n);
            auto r = -1;
            switch (o.kind) {
              case 0: r = id(g.get_tracker(names[o.a])); break;
              case 1: r = id(utl::activate_progress_tracker(names[o.a])); break;
              case 2: r = id(utl::get_active_progress_tracker_or_activate(names[o.a])); break;
              case 3:
                try {
                  r = id(utl::get_active_progress_tracker());
                } catch (std::exception const&) {
                  r = -2;
                }
                break;
              case 4: g.get_tracker(names[o.a])->update(static_cast<std::size_t>(o.b)); break;
              case 5: g.get_tracker(names[o.a])->status(std::string(static_cast<std::size_t>(o.b), 's')); break;
              case 6: g.get_tracker(names[o.a])->show_progress(o.b != 0); break;
              case 7: g.print(); break;
              case 8: g.get_tracker(names[o.a])->increment(static_cast<std::size_t>(o.b)); break;
              case 9: r = id(utl::activate_progress_tracker(g.get_tracker(names[o.a]))); break;
              case 10: g.clear(); break;
            }
            event("oe", k, n, r);
            ++n;
          }
        });
        ++k;
      }
      for (auto& x : ts) {
        x.join();
      }
      last_begin = sb.str().size();
      g.print();
    }
    std::cout.rdbuf(old);
    frames(sb.str(), last_begin);
  }
};

// ------------------------------------------------------------------ driver
std::string key_of(vs::result const& r) {
  std::string k = r.end;
  for (auto const& e : r.evs) {
    k += e.k;
    for (auto const v : {e.t, e.a, e.b, e.c, e.d}) {
      k += static_cast<char>(v & 255);
      k += static_cast<char>((v >> 8) & 255);
    }
  }
  return k;
}

J one(J const& c) {
  auto const prog = c["prog"].str();
  std::function<void()> body;
  if (prog == "pool") {
    pool_prog p;
    for (auto const& b : c["batches"]) {
      batch x{b["n"].n(), {}};
      for (auto const& m : b["nest"]) {
        x.nest.emplace_back(m[0].n(), m[1].n());
      }
      p.bs.push_back(std::move(x));
    }
    p.hooks = c["hooks"].n() != 0;
    body = p;
  } else if (prog == "pf") {
    body = pf_prog{c["n"].n(), c["over"].n(), c["strat"].n(), c["progress"].n(), c["fail"].ints()};
  } else if (prog == "tr") {
    tr_prog p;
    for (auto const& t : c["threads"]) {
      p.threads.emplace_back();
      for (auto const& o : t) {
        p.threads.back().push_back({o[0].n(), o[1].n()});
      }
    }
    p.low = c["low"].n();
    p.high = c["high"].n();
    p.mod = c["mod"].n();
    p.in_high = c["in_high"].n();
    p.in0 = c["in0"].n();
    body = p;
  } else {
    rg_prog p;
    for (auto const& t : c["threads"]) {
      p.threads.emplace_back();
      for (auto const& o : t) {
        p.threads.back().push_back({o[0].n(), o[1].n(), o[2].n()});
      }
    }
    p.silent = c["silent"].n() != 0;
    body = p;
  }

  vs::cfg base;
  base.workers = c["workers"].n();
  base.spurious = c["spurious"].n();
  base.max_steps = 150000;
  auto const runs = c["runs"].n();
  auto const seed = static_cast<std::uint64_t>(c["seed"].num());
  auto const cap = c["cap"].n();
  auto const memcap = c["memcap"].n();
  std::set<std::string, std::less<>> kinds;  // only these events matter to the property at hand
  for (auto const& k : c["kinds"]) {
    kinds.insert(k.str());
  }
  auto o = J::obj();
  auto traces = J::arr(), mems = J::arr();
  std::set<std::string> seen, seenmem;
  auto total = 0, bad = 0, racy = 0, nmem = 0, dropped = 0;
  auto maxpoints = 0;
  auto const go = [&](vs::cfg const& cf) {
    if (bad >= 25) {
      return;  // enough counterexamples
    }
    auto r = vs::run(cf, body);
    if (!kinds.empty()) {
      std::erase_if(r.evs, [&](auto const& e) { return !kinds.contains(e.k); });
    }
    ++total;
    maxpoints = std::max(maxpoints, r.points);
    auto const ok = r.end == "ok";
    bad += !ok;
    auto const fresh = seen.insert(key_of(r)).second;
    if (fresh && (static_cast<int>(traces.size()) < cap || (!ok && bad < 20))) {
      auto t = J::obj();
      auto evs = J::arr();
      for (auto const& e : r.evs) {
        auto x = J::arr();
        x.push(std::string(e.k));
        for (auto const v : {e.t, e.a, e.b, e.c, e.d}) {
          x.push(v);
        }
        evs.push(x);
      }
      t.set("ev", evs).set("end", r.end).set("what", r.what).set("strat", cf.strat).set("seed", static_cast<long long>(cf.seed)).set("delays", cf.delays).set("threads", r.threads);
      traces.push(t);
    } else if (fresh) {
      ++dropped;
    }
    if (cf.mem) {
      std::string mk;
      auto m = J::arr();
      // one entry per cell; repeated accesses of a thread to a cell without a synchronisation in between add nothing
      std::set<std::tuple<int, int, int>> dup;
      for (auto const& e : r.mem) {
        auto const acc = e.kind <= vs::K_ARMW;
        for (auto q = 0; q < (acc && e.kind < vs::K_ALOAD ? std::max<int>(1, e.size) : 1); ++q) {
          auto const cell = static_cast<int>(e.addr) + q;
          if (e.kind <= vs::K_WR && !dup.insert({e.t, e.kind, cell}).second) {
            continue;
          }
          m.push(J::arr().push(static_cast<int>(e.kind)).push(static_cast<int>(e.t)).push(cell).push(static_cast<int>(e.mo)));
        }
        if (e.kind > vs::K_WR) {
          for (auto it = dup.begin(); it != dup.end();) {
            it = std::get<0>(*it) == e.t ? dup.erase(it) : std::next(it);
          }
        }
      }
      racy += r.race;
      hj::dump(mk, m);
      if (ok && seenmem.insert(mk).second && (r.race ? racy <= 3 : nmem < memcap)) {
        nmem += !r.race;
        mems.push(J::obj().set("m", m).set("n", r.threads).set("race", r.race).set("what", r.race_what));
      }
    }
  };
  auto const mode = c["mode"].str();
  base.mem = c["mem"].n() != 0;
  base.watch = c["mem"].n() == 2;
  if (mode == "random") {
    for (auto i = 0; i != runs; ++i) {
      auto cf = base;
      cf.seed = seed * 7919 + static_cast<std::uint64_t>(i) * 104729 + 1;
      cf.strat = i % 3 == 0 ? vs::RANDOM : vs::PCT;
      cf.depth = 2 + i % 5;
      cf.plain_pct = i % 7 == 6 ? 60 : 0;
      go(cf);
    }
  } else if (mode == "delay") {
    auto cf = base;
    cf.strat = vs::DELAY;
    cf.seed = seed;
    go(cf);
    auto const P = std::min(maxpoints + 2, c["maxpoint"].n());
    auto const k = c["delays"].n();
    auto left = runs;
    for (auto a = 1; a <= P && left > 0; ++a) {
      cf.delays = {a};
      go(cf);
      --left;
      if (k >= 2) {
        for (auto b = a; b <= P && left > 0; ++b) {
          cf.delays = {a, b};
          go(cf);
          --left;
          if (k >= 3) {
            for (auto d = b; d <= P && left > 0; ++d) {
              cf.delays = {a, b, d};
              go(cf);
              --left;
            }
          }
        }
      }
    }
    o.set("exhausted", left > 0);
  } else if (mode == "guide") {
    auto i = 0;
    for (auto const& g : c["guides"]) {
      auto cf = base;
      cf.strat = vs::GUIDE;
      cf.guide = g.ints();
      cf.seed = seed + static_cast<std::uint64_t>(++i);
      go(cf);
    }
  }
  o.set("traces", traces).set("mems", mems).set("runs", total).set("bad", bad).set("racy", racy).set("distinct", static_cast<int>(seen.size())).set("dropped", dropped).set("points", maxpoints);
  return o;
}
}  // namespace

HARNESS(one)
