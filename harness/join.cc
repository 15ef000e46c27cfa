#include <forward_list>
#include <list>
#include <map>
#include <set>
#include "utl/join.h"
#include "common.h"

struct el { int k; int tag; };
struct el2 { int k; long pad; int tag; };
struct key_of { template <typename T> int key(T const& t) const { return t.k; } };

template <typename It> struct rec {
  It a0, b0;
  J ev = J::arr();
};

// Events as <<tag, lo, hi, ...>> with 0-based positions
template <typename A, typename B, typename Call>
J run(A const& a, B const& b, Call&& call) {
  J ev = J::arr();
  auto pa = [&](auto it) { return std::distance(std::begin(a), it); };
  auto pb = [&](auto it) { return std::distance(std::begin(b), it); };
  call([&](auto la, auto ua, auto lb, auto ub) { J e = J::arr(); e.push("m").push(pa(la)).push(pa(ua)).push(pb(lb)).push(pb(ub)); ev.push(e); },
       [&](auto l, auto u) { J e = J::arr(); e.push("a").push(pa(l)).push(pa(u)); ev.push(e); },
       [&](auto l, auto u) { J e = J::arr(); e.push("b").push(pb(l)).push(pb(u)); ev.push(e); });
  return ev;
}

template <typename A, typename B, typename Less>
J with_less(std::string const& kind, bool iter, A const& a, B const& b, Less less) {
  return run(a, b, [&](auto m, auto fa, auto fb) {
    using std::begin; using std::end;
    if (iter) {
      if (kind == "inner") utl::inner_join(begin(a), end(a), begin(b), end(b), less, m);
      else if (kind == "left") utl::left_join(begin(a), end(a), begin(b), end(b), less, m, fa);
      else utl::full_join(begin(a), end(a), begin(b), end(b), less, m, fa, fb);
    } else {
      if (kind == "inner") utl::inner_join(a, b, less, m);
      else if (kind == "left") utl::left_join(a, b, less, m, fa);
      else utl::full_join(a, b, less, m, fa, fb);
    }
  });
}
template <typename A, typename B>
J without_less(std::string const& kind, bool iter, A const& a, B const& b) {
  return run(a, b, [&](auto m, auto fa, auto fb) {
    using std::begin; using std::end;
    if (iter) {
      if (kind == "inner") utl::inner_join(begin(a), end(a), begin(b), end(b), m);
      else if (kind == "left") utl::left_join(begin(a), end(a), begin(b), end(b), m, fa);
      else utl::full_join(begin(a), end(a), begin(b), end(b), m, fa, fb);
    } else {
      if (kind == "inner") utl::inner_join(a, b, m);
      else if (kind == "left") utl::left_join(a, b, m, fa);
      else utl::full_join(a, b, m, fa, fb);
    }
  });
}

J go(J const& c) {
  auto ka = c["a"].ints(), kb = c["b"].ints();
  auto kind = c["kind"].str();
  auto variant = c["variant"].n();
  J o = J::obj();
  J ev;
  std::vector<el> a; std::vector<el2> b;
  for (auto k : ka) a.push_back({k, int(a.size())});
  for (auto k : kb) b.push_back({k, 0, int(b.size())});
  a.shrink_to_fit(); b.shrink_to_fit();
  switch (variant) {
    case 0: ev = without_less(kind, false, ka, kb); break;
    case 1: ev = without_less(kind, true, ka, kb); break;
    case 2: ev = with_less(kind, false, a, b, utl::join_less<key_of>{}); break;
    case 3: ev = with_less(kind, true, a, b, utl::join_less<key_of>{}); break;
    case 4: {  // list and vector with a lambda ordering
      std::list<el> l(a.begin(), a.end());
      ev = with_less(kind, false, l, b, [](auto const& x, auto const& y) { return x.k < y.k; });
      break;
    }
    case 5: {  // descending order
      std::vector<int> x(ka.rbegin(), ka.rend()), y(kb.rbegin(), kb.rend());
      for (auto& v : x) v = -v; for (auto& v : y) v = -v;
      std::reverse(x.begin(), x.end()); std::reverse(y.begin(), y.end());
      ev = with_less(kind, true, x, y, std::greater<int>{});
      break;
    }
    case 6: {
      std::forward_list<int> x(ka.begin(), ka.end()); std::multiset<int> y(kb.begin(), kb.end());
      ev = without_less(kind, true, x, y);
      break;
    }
    case 7: {
      std::list<int> x(ka.begin(), ka.end()), y(kb.begin(), kb.end());
      ev = without_less(kind, false, x, y);
      break;
    }
    case 8: {  // stateful ordering passed as lvalue, element type comparing by other member
      auto less = [](auto const& x, auto const& y) { return x.k < y.k; };
      std::vector<el> b2; for (auto k : kb) b2.push_back({k, 100 - k});
      ev = with_less(kind, false, a, b2, less);
      break;
    }
    default: _exit(96);
  }
  o.set("ev", ev);
  return o;
}
HARNESS(go)
