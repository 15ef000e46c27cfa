// C20 nwise / pairwise
#include <deque>
#include <forward_list>
#include <list>
#include <set>
#include <string>
#include <vector>
#include "common.h"
#include "utl/pairwise.h"

template <typename T> J el(T const& t) { return std::apply([](auto const&... x) { J a = J::arr(); (a.push(J(x)), ...); return a; }, t); }
// a long range (in.len elements, the column repeating) is observed at the positions in.samp only
static bool sampled;
static std::set<long long> samp;
static bool pick(long long k) { return !sampled || samp.contains(k); }
template <typename C> J col(C const& c) { J a = J::arr(); long long k = 0; for (auto const& x : c) if (pick(k++)) a.push(J(x)); return a; }
static std::vector<int> column(J const& c) {
  auto v = c["d"][0].ints();
  if (c.has("len")) { auto const m = v.size(); std::vector<int> w; for (std::size_t j = 0; j < static_cast<std::size_t>(c["len"].num()); ++j) w.push_back(v[j % m]); w.shrink_to_fit(); return w; }
  return v;
}
static void sampling(J const& c) { sampled = c.has("samp"); samp.clear(); if (sampled) for (auto const& x : c["samp"]) samp.insert(x.num()); }
template <typename C> C mk(std::vector<int> const& a) { C c(a.begin(), a.end()); if constexpr (requires { c.shrink_to_fit(); }) c.shrink_to_fit(); return c; }

// what a range over a temporary holds afterwards (where it can be seen)
template <typename R> J held(R const& r, std::vector<int> const& a) { if constexpr (requires { r.t_.begin(); }) return col(r.t_); else return col(a); }

template <typename It> J run(It b, It e, J const& c) {
  J out = J::obj();
  out.set("thr", 0);
  J all = J::arr();
  int n = 0;
  for (auto it = b; it != e; ++it, ++n) if (pick(n)) all.push(el(*it));
  out.set("all", all).set("cnt", n);
  out.set("cat", std::is_base_of_v<std::random_access_iterator_tag, typename It::iterator_category> ? 3 : 1);
  std::vector<It> r;
  for (auto const& p : c["init"]) {
    if (p.n() == n) { r.push_back(e); continue; }
    auto x = b;
    for (int k = 0; k < p.n(); ++k) ++x;
    r.push_back(x);
  }
  J rets = J::arr();
  for (auto const& o : c["ops"]) {
    auto const op = o[0].str();
    auto const i = static_cast<std::size_t>(o[1].n() - 1);
    int const a = o.size() > 2 ? o[2].n() : 0, v = o.size() > 3 ? o[3].n() : 0;
    J ret = J::arr();
    if (op == "inc") ++r[i];
    else if (op == "get") { auto const& k = r[i]; ret = el((v & 1) ? *k : *r[i]); }
    else if (op == "eq") ret.push(r[i] == r[static_cast<std::size_t>(a - 1)] ? 1 : 0);
    else if (op == "ne") ret.push(r[i] != r[static_cast<std::size_t>(a - 1)] ? 1 : 0);
    else if (op == "copy") r[static_cast<std::size_t>(a - 1)] = It{r[i]};
    else if (op == "set") {
      auto t = *r[i];
      int k = 1;
      std::apply([&](auto&... x) { ([&] { if (k++ == a) { if constexpr (std::is_assignable_v<decltype(x), int>) x = static_cast<std::decay_t<decltype(x)>>(v); else _exit(87); } }(), ...); }, t);
    } else _exit(88);
    rets.push(ret);
  }
  return out.set("rets", rets);
}
template <typename R> J rng(R&& r, J const& c) {
  J all = J::arr();
  long long cnt = 0;
  for (auto&& t : r) if (pick(cnt++)) all.push(el(t));
  J out = run(r.begin(), r.end(), c);
  out.set("size", r.size());
  J const one = out["all"];
  std::string x, y;
  hj::dump(x, one);
  hj::dump(y, all);
  if (x != y && c["ops"].size() == 0) out.set("all", all);  // the range-for and the iterator loop have to agree
  return out;
}
template <std::size_t N> J go(J const& c) {
  sampling(c);
  auto const a = column(c);
  J out, after = J::arr();
  switch (c["variant"].n()) {
    case 0: { auto v = mk<std::vector<int>>(a); out = rng(utl::nwise<N>(v), c); after.push(col(v)); break; }
    case 1: { auto const v = mk<std::vector<int>>(a); out = rng(utl::nwise<N>(v), c); after.push(col(v));
      static_assert(!std::is_assignable_v<std::tuple_element_t<0, decltype(*utl::nwise<N>(v).begin())>, int>); break; }
    case 2: { auto r = utl::nwise<N>(mk<std::vector<int>>(a)); out = rng(r, c); after.push(held(r, a)); break; }
    case 3: { auto v = mk<std::list<int>>(a); out = rng(utl::nwise<N>(v), c); after.push(col(v)); break; }
    case 4: { auto v = mk<std::forward_list<int>>(a); out = rng(utl::nwise<N>(v), c); after.push(col(v)); break; }
    case 5: { auto v = mk<std::set<int>>(a); out = rng(utl::nwise<N>(v), c); after.push(col(v)); break; }
    case 6: { auto v = mk<std::deque<int>>(a); auto const r = utl::nwise<N>(v); out = rng(r, c); after.push(col(v)); break; }
    case 7: { auto v = mk<std::string>(a); out = rng(utl::nwise<N>(v), c); after.push(col(v)); break; }
    case 8: { auto r = utl::nwise<N>(mk<std::list<int>>(a)); out = rng(r, c); after.push(held(r, a)); break; }
    case 20: { auto v = mk<std::vector<int>>(a); out = rng(utl::pairwise(v), c); after.push(col(v)); break; }
    case 21: { auto const v = mk<std::list<int>>(a); out = rng(utl::pairwise(v), c); after.push(col(v)); break; }
    case 22: { auto r = utl::pairwise(mk<std::deque<int>>(a)); out = rng(r, c); after.push(held(r, a)); break; }
    case 23: { auto v = mk<std::vector<int>>(a); out = run(utl::pairwise_begin(v), utl::pairwise_end(v), c); out.set("size", out["cnt"]); after.push(col(v)); break; }
    case 24: { auto const v = mk<std::list<int>>(a); out = run(utl::pairwise_begin(v), utl::pairwise_end(v), c); out.set("size", out["cnt"]); after.push(col(v)); break; }
    default: _exit(85);
  }
  return out.set("after", after);
}
static J nwise(J const& c) {
  switch (c["w"].n()) {
    case 1: return go<1>(c);
    case 2: return go<2>(c);
    case 3: return go<3>(c);
    case 4: return go<4>(c);
  }
  _exit(84);
}
HARNESS(nwise)
