#include <array>
#include <deque>
#include <list>
#include <set>
#include <string>
#include "utl/helpers/algorithm.h"
#include "utl/is_uniform.h"
#include "utl/repeat_n.h"
#include "utl/sort_by.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"
#include "common.h"

struct hv {  // heap-owning value
  hv() : p{std::make_unique<int>(-3)} {}
  hv(int x) : p{std::make_unique<int>(x)} {}
  hv(hv const& o) : p{std::make_unique<int>(o.p ? *o.p : -77)} {}
  hv(hv&&) = default;
  hv& operator=(hv const& o) { if (this != &o) p = std::make_unique<int>(o.p ? *o.p : -77); return *this; }
  hv& operator=(hv&&) = default;
  int v() const { return p ? *p : -99; }
  friend bool operator<(hv const& a, hv const& b) { return a.v() < b.v(); }
  friend bool operator==(hv const& a, hv const& b) { return a.v() == b.v(); }
  std::unique_ptr<int> p;
};
static int val(int i) { return i; }
static int val(hv const& h) { return h.v(); }
static int val(long i) { return static_cast<int>(i); }
static int val(char c) { return c - 'a'; }
template <typename C> J D(C const& c) { auto a = J::arr(); for (auto const& e : c) a.push(val(e)); return a; }
template <typename T> std::vector<T> vec(std::vector<int> const& x) { std::vector<T> r(x.begin(), x.end()); r.shrink_to_fit(); return r; }

struct rec {
  J calls = J::arr();
  int operator()(int x) { calls.push(x); return x * 3 + 1; }
  int operator()(hv const& x) { calls.push(x.v()); return x.v() * 3 + 1; }
};
static J conv(J const& c) {
  auto const a = c["a"].ints();
  rec f;
  auto op = [&](auto const& x) { return f(x); };
  auto hop = [&](auto const& x) { return hv{f(x)}; };
  J out, src = D(a);
  switch (c["variant"].n()) {
    case 0: { auto v = vec<int>(a); out = D(utl::to_vec(v, op)); src = D(v); break; }
    case 1: { std::list<int> v(a.begin(), a.end()); out = D(utl::to_vec(v.begin(), v.end(), hop)); src = D(v); break; }
    case 2: { auto v = vec<hv>(a); out = D(utl::to_vec(std::as_const(v), hop)); src = D(v); break; }
    case 3: { std::vector<long> o; utl::transform_to(a, o, op); out = D(o); break; }
    case 4: { out = D(utl::transform_to<std::vector<hv>>(std::list<int>(a.begin(), a.end()), op)); break; }
    case 5: { auto o = utl::transform_to<std::string>(a, [&](int x) { f(x); return static_cast<char>('a' + x * 3 + 1); }); out = D(o); break; }
    case 6: { std::vector<hv> o; o.emplace_back(50); utl::transform_to(std::deque<int>(a.begin(), a.end()), o, op); out = D(o); break; }
    case 7: { out = D(utl::to_vec(vec<int>(a), op)); break; }
    case 8: {  // the operation returns a reference into the source
      auto v = vec<hv>(a);
      auto r = utl::to_vec(v, [&](hv& x) -> hv& { f(x); return x; });
      static_assert(std::is_same_v<decltype(r), std::vector<hv>>);
      out = J::arr(); for (auto const& e : r) out.push(e.v() * 3 + 1);
      src = D(v);
      break;
    }
    case 9: { int arr[3] = {4, 4, 1}; auto r = utl::to_vec(arr, op); out = D(r); src = J(std::vector<int>{4, 4, 1}); break; }
  }
  return J::arr().push(out).push(f.calls).push(src);
}
static J copy(J const& c) {
  auto const a = c["a"].ints();
  switch (c["variant"].n()) {
    case 0: { auto v = vec<int>(a); auto r = utl::to_vec(v); return J::arr().push(D(r)).push(D(v)); }
    case 1: { std::list<hv> v(a.begin(), a.end()); auto r = utl::to_vec(v); return J::arr().push(D(r)).push(D(v)); }
    case 2: { auto const v = vec<hv>(a); auto r = utl::to_vec(v); return J::arr().push(D(r)).push(D(v)); }
    case 3: { auto v = std::deque<int>(a.begin(), a.end()); auto r = utl::to_vec(std::move(v)); return J::arr().push(D(r)).push(D(a)); }
  }
  _exit(96);
}
static J set(J const& c) {
  auto const a = c["a"].ints();
  auto const m = c["m"].n();
  rec f;
  auto op = [&](auto const& x) { f(x); return val(x) % m; };
  switch (c["variant"].n()) {
    case 0: { auto v = vec<int>(a); return J::arr().push(D(utl::to_set(v, op))).push(f.calls); }
    case 1: { std::list<hv> v(a.begin(), a.end()); return J::arr().push(D(utl::to_set(v.begin(), v.end(), op))).push(f.calls); }
    case 2: { auto v = vec<int>(a); return J::arr().push(D(utl::to_set(v.begin(), v.end(), [&, m](int x) { f(x); return hv{x % m}; }))).push(f.calls); }
    case 3: { auto v = vec<hv>(a); return J::arr().push(D(utl::to_set(v, [&, m](hv const& x) { f(x); return hv{x.v() % m}; }))).push(f.calls); }
  }
  _exit(96);
}
static J rep(J const& c) {
  auto const n = static_cast<std::size_t>(c["n"].n());
  auto const x = c["x"].n();
  switch (c["variant"].n()) {
    case 0: return D(utl::repeat_n(x, n));
    case 1: return D(utl::repeat_n(hv{x}, n));
    case 2: return D(utl::repeat_n<int, std::deque<int>>(x, n));
    case 3: return D(utl::repeat_n<hv, std::list<hv>>(hv{x}, n));
  }
  _exit(96);
}
static J sortby(J const& c) {
  auto const k = c["a"].ints();
  std::vector<int> tag; std::vector<hv> h; std::deque<long> q;
  for (auto i = 0U; i != k.size(); ++i) { tag.push_back(int(i)); h.emplace_back(int(i) + 1000); q.push_back(long(i) * 2); }
  auto keys = vec<int>(k);
  auto o = J::arr();
  switch (c["variant"].n()) {
    case 0: { auto [a, b] = utl::sort_by(keys, tag); o.push(D(a)).push(D(b)); break; }
    case 1: { auto const& ck = keys; auto [a, b, d, e] = utl::sort_by(ck, tag, h, q); o.push(D(a)).push(D(b)).push(D(d)).push(D(e)); break; }
    case 2: { std::vector<int> none; auto [a, b, d] = utl::sort_by(keys, none, tag); o.push(D(a)).push(D(d)); if (!b.empty()) o.push(0); break; }
    case 3: { auto [a, b, d] = utl::sort_by(vec<int>(k), std::vector<int>(tag), h); o.push(D(a)).push(D(b)).push(D(d)); break; }
    case 4: { std::vector<hv> hk(k.begin(), k.end()); auto const ct = tag; auto [a, b] = utl::sort_by(hk, ct); o.push(D(a)).push(D(b)); if (D(hk).size() != k.size() || hk != std::vector<hv>(k.begin(), k.end())) o.push(0); break; }
  }
  return J::arr().push(o).push(D(keys)).push(D(tag));
}
template <typename C> J algo(J const& c) {
  auto const a = c["a"].ints();
  auto const x = c["x"].n();
  auto const f = c["op"].str();
  C v(a.begin(), a.end());
  auto const p = [x](auto const& e) { return val(e) % 3 == x; };
  auto const pos = [&](auto it) { return std::distance(std::begin(v), typename C::iterator(it)); };
  J r;
  if (f == "all") r = utl::all_of(v, p) ? 1 : 0;
  else if (f == "any") r = utl::any_of(std::as_const(v), p) ? 1 : 0;
  else if (f == "none") r = utl::none_of(C(v), p) ? 1 : 0;
  else if (f == "findif") r = pos(utl::find_if(v, p));
  else if (f == "find") r = pos(utl::find(v, typename C::value_type(x)));
  else if (f == "count") r = utl::count_if(v, p);
  else if (f == "max") r = pos(utl::max_element(v, std::less<>{}));
  else if (f == "min") r = pos(utl::min_element(v, std::less<>{}));
  else if (f == "maxby") r = pos(utl::max_element(v, [](auto const& q, auto const& w) { return val(q) / 2 < val(w) / 2; }));
  else if (f == "minby") r = pos(utl::min_element(v, [](auto const& q, auto const& w) { return val(q) / 2 < val(w) / 2; }));
  else if (f == "sorted") r = utl::is_sorted(v, std::less<>{}) ? 1 : 0;
  else if (f == "sorteddesc") r = utl::is_sorted(v, [](auto const& q, auto const& w) { return val(w) < val(q); }) ? 1 : 0;
  else if (f == "fill") { utl::fill(v, typename C::value_type(x)); r = 0; }
  else if (f == "equal") { auto const b = c["b"].ints(); std::vector<typename C::value_type> w(b.begin(), b.end()); r = utl::equal(v, w) ? 1 : 0; }
  else if (f == "uniform") r = utl::is_uniform(v) ? 1 : 0;
  else if (f == "uniformit") r = utl::is_uniform(v.begin(), v.end()) ? 1 : 0;
  else if (f == "uniformlv") { auto b = v.begin(); auto e = v.end(); r = utl::is_uniform(b, e) ? 1 : 0; if (b != v.begin()) r = -1; }
  else if (f == "uniformby") { r = utl::is_uniform(v.begin(), v.end(), [](auto const& e) { return val(e) % 2; }) ? 1 : 0; }
  else if (f == "uniformbylv") { auto b = v.begin(); auto e = v.end(); auto fn = [](auto const& q) { return val(q) / 2; }; r = utl::is_uniform(b, e, fn) ? 1 : 0; if (b != v.begin()) r = -1; }
  else _exit(96);
  return J::arr().push(r).push(D(v));
}
static J sorts(J const& c) {
  auto const a = c["a"].ints();
  auto v = vec<hv>(a);
  auto const f = c["op"].str();
  if (f == "sort") utl::sort(v);
  else if (f == "sortdesc") utl::sort(v, [](hv const& x, hv const& y) { return y < x; });
  else if (f == "sortdq") { std::deque<int> d(a.begin(), a.end()); utl::sort(d); return D(d); }
  else if (f == "nth") utl::nth_element(v, static_cast<std::size_t>(c["x"].n()));
  else if (f == "nthdesc") utl::nth_element(v, static_cast<std::size_t>(c["x"].n()), [](hv const& x, hv const& y) { return y < x; });
  return D(v);
}
J go(J const& c) {
  auto const f = c["fn"].str();
  J r;
  if (f == "conv") r = conv(c);
  else if (f == "copy") r = copy(c);
  else if (f == "set") r = set(c);
  else if (f == "rep") r = rep(c);
  else if (f == "sortby") r = sortby(c);
  else if (f == "sorts") r = sorts(c);
  else switch (c["variant"].n()) {
    case 0: r = algo<std::vector<int>>(c); break;
    case 1: r = algo<std::list<hv>>(c); break;
    case 2: r = algo<std::vector<hv>>(c); break;
    default: r = algo<std::deque<int>>(c); break;
  }
  return J::obj().set("r", r);
}
HARNESS(go)
