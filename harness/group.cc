#include <deque>
#include <forward_list>
#include <list>
#include <string>
#include "utl/equal_ranges.h"
#include "utl/equal_ranges_linear.h"
#include "common.h"

// "full" elements compare by both members (and count how often they are copied from nothing)
struct el {
  int k, tag;
  friend bool operator<(el const& a, el const& b) { return a.k < b.k; }
  friend bool operator==(el const& a, el const& b) { return a.k == b.k; }
};
struct move_only {
  std::unique_ptr<int> k; int tag;
  friend bool operator<(move_only const& a, move_only const& b) { return *a.k < *b.k; }
};
static int key(el const& e) { return e.k; }
static int key(move_only const& e) { return *e.k; }

template <typename C, typename Call> J run(C& c, Call&& call) {
  auto ev = J::arr();
  call(c, [&](auto lo, auto hi) { ev.push(J::arr().push(std::distance(std::begin(c), lo)).push(std::distance(std::begin(c), hi))); });
  auto fin = J::arr();
  for (auto const& e : c) fin.push(J::arr().push(key(e)).push(e.tag));
  return J::obj().set("ev", ev).set("fin", fin);
}

J go(J const& c) {
  auto const d = c["div"].n();
  std::vector<el> v;
  for (auto k : c["a"].ints()) v.push_back({k, int(v.size())});
  v.shrink_to_fit();
  auto const less = [d](auto const& a, auto const& b) { return key(a) / d < key(b) / d; };
  auto const greater = [d](auto const& a, auto const& b) { return key(a) / d > key(b) / d; };
  auto const eq = [d](auto const& a, auto const& b) { return key(a) / d == key(b) / d; };
  std::deque<el> q(v.begin(), v.end());
  std::list<el> l(v.begin(), v.end());
  switch (c["variant"].n()) {
    case 0: return run(v, [](auto& x, auto f) { utl::equal_ranges(x, f); });
    case 1: return run(v, [&](auto& x, auto f) { utl::equal_ranges(x, less, f); });
    case 2: return run(q, [&](auto& x, auto f) { utl::equal_ranges(x, less, f); });
    case 3: return run(q, [&](auto& x, auto f) { utl::equal_ranges(x, f); });
    case 4: return run(v, [&](auto& x, auto f) { utl::equal_ranges(x, greater, f); });
    case 5: {
      std::vector<move_only> m;
      for (auto const& e : v) m.push_back({std::make_unique<int>(e.k), e.tag});
      return run(m, [&](auto& x, auto f) { utl::equal_ranges(x, less, f); });
    }
    case 10: return run(v, [](auto& x, auto f) { utl::equal_ranges_linear(x, f); });
    case 11: return run(v, [&](auto& x, auto f) { utl::equal_ranges_linear(x, eq, f); });
    case 12: return run(l, [](auto& x, auto f) { utl::equal_ranges_linear(x.begin(), x.end(), f); });
    case 13: return run(l, [&](auto& x, auto f) { utl::equal_ranges_linear(x.begin(), x.end(), eq, f); });
    case 14: return run(std::as_const(q), [](auto& x, auto f) { utl::equal_ranges_linear(x, f); });
    case 15: return run(std::as_const(v), [&](auto& x, auto f) { utl::equal_ranges_linear(x, eq, f); });
    case 16: {
      std::forward_list<el> fl(v.begin(), v.end());
      return run(fl, [&](auto& x, auto f) { utl::equal_ranges_linear(x, eq, f); });
    }
  }
  _exit(96);
}
HARNESS(go)
