#include <algorithm>
#include <cstdint>
#include <deque>
#include <list>
#include <set>
#include "utl/power_set_intersection.h"
#include "utl/sorted_diff.h"
#include "common.h"

struct el { int k, v, tag; };
inline bool operator<(el const& a, el const& b) { return a.k < b.k; }

template <typename C> C make(J const& c, int mul) {
  std::vector<el> r;
  for (auto const& e : c) r.push_back(e.t == J::INT ? el{e.n() * mul, 0, int(r.size())} : el{e[0].n() * mul, e[1].n(), int(r.size())});
  r.shrink_to_fit();
  return C(r.begin(), r.end());
}

template <typename C> J diff(J const& c, bool iters, int mul) {
  auto const a = make<C>(c["a"], mul), b = make<C>(c["b"], mul);
  auto ev = J::arr();
  struct rec {
    J& ev; int mul;
    void operator()(utl::op const o, el const& e) { ev.push(J::arr().push(std::string(utl::to_str(o))).push(e.k * mul).push(e.v)); }
    void operator()(el const& x, el const& y) { ev.push(J::arr().push("chg").push(x.k * mul).push(x.v).push(y.k * mul).push(y.v)); }
  } r{ev, mul};
  // mul == -1: the keys are stored negated and the ranges are sorted by the given order, not by operator<
  auto const lt = [mul](el const& x, el const& y) { return x.k * mul < y.k * mul; };
  auto const eq = [](el const& x, el const& y) { return x.v == y.v; };
  if (iters) utl::sorted_diff(a.begin(), a.end(), b.begin(), b.end(), lt, eq, r);
  else utl::sorted_diff(a, b, lt, eq, r);
  return ev;
}

template <typename C> J psi(J const& c, int how, int mul) {
  auto const a = make<C>(c["a"], mul), b = make<C>(c["b"], mul);
  auto ev = J::arr();
  auto fn = [&](el const& x, el const& y) { ev.push(J::arr().push(x.tag).push(y.tag).push(x.k * mul).push(y.k * mul)); };
  auto lt = [mul](el const& x, el const& y) { return x.k * mul < y.k * mul; };
  if (how == 0) utl::power_set_intersection(a, b, fn);
  else if (how == 1) utl::power_set_intersection(a.begin(), a.end(), b.begin(), b.end(), fn);
  else if (how == 2) utl::power_set_intersection(a, b, fn, lt);
  else utl::power_set_intersection(a.begin(), a.end(), b.begin(), b.end(), fn, lt);
  return ev;
}

J go(J const& c) {
  auto const v = c["variant"].n();
  J ev;
  if (c["fn"].str() == "diff") {
    switch (v) {
      case 0: ev = diff<std::vector<el>>(c, false, 1); break;
      case 1: ev = diff<std::vector<el>>(c, true, 1); break;
      case 2: ev = diff<std::list<el>>(c, false, 1); break;
      case 3: ev = diff<std::deque<el>>(c, true, 1); break;
      case 4: ev = diff<std::vector<el>>(c, false, -1); break;
      default: ev = diff<std::list<el>>(c, true, -1); break;
    }
  } else {
    switch (v) {
      case 0: ev = psi<std::vector<el>>(c, 0, 1); break;
      case 1: ev = psi<std::vector<el>>(c, 1, 1); break;
      case 2: ev = psi<std::list<el>>(c, 2, 1); break;
      case 3: ev = psi<std::deque<el>>(c, 3, 1); break;
      case 4: ev = psi<std::multiset<el>>(c, 0, 1); break;
      case 5: ev = psi<std::list<el>>(c, 1, 1); break;
      case 6: ev = psi<std::vector<el>>(c, 2, -1); break;
      default: ev = psi<std::list<el>>(c, 3, -1); break;
    }
  }
  return J::obj().set("ev", ev);
}
HARNESS(go)
