// C17: pipelines of up to 3 stages over many sources and terminals. SRC selects the group of sources compiled.
#include <cmath>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <set>
#include <string>
#include "utl/pipes.h"
#include "common.h"

#ifndef ELEM
#define ELEM 0
#endif
#if ELEM == 1
struct hv {  // heap-owning value; a moved-from one reads as -99
  hv() : p{std::make_unique<int>(-3)} {}
  hv(int x) : p{std::make_unique<int>(x)} {}
  hv(hv const& o) : p{std::make_unique<int>(o.v())} {}
  hv(hv&&) = default;
  hv& operator=(hv const& o) { if (this != &o) p = std::make_unique<int>(o.v()); return *this; }
  hv& operator=(hv&&) = default;
  int v() const { return p ? *p : -99; }
  friend bool operator<(hv const& a, hv const& b) { return a.v() < b.v(); }
  friend bool operator==(hv const& a, hv const& b) { return a.v() == b.v(); }
  std::unique_ptr<int> p;
};
using E = hv;
static int val(hv const& h) { return h.v(); }
#else
using E = int;
static int val(int i) { return i; }
#endif

struct stage { int k, p; };  // 0 remove_if mask, 1 transform kind, 2 unique, 3 take_while mask
static bool bit(int m, int v) { return (m >> (v % 4)) & 1; }
static int fun(int k, int v) { return k == 0 ? v + 1 : k == 1 ? v / 2 : k == 2 ? 3 - v % 4 : k == 3 ? 2 : 3 * v; }

static std::vector<stage> sv;
static int term, arg;
static J result;

template <typename C> J D(C const& c) { auto a = J::arr(); for (auto const& e : c) a.push(val(e)); return a; }

static J one(J x) { return J::arr().push(x); }
// terminals that also accept a bare container
template <typename R>
J direct(R&& r) {
  int const m = arg;
  switch (term) {
    case 2: return one(std::forward<R>(r) | utl::accumulate([](int acc, E const& x) { return (acc * 5 + val(x) + 1) % 1009; }, 7));
    case 3: return one(std::forward<R>(r) | utl::count([m](E const& x) { return bit(m, val(x)); }));
    case 4: { auto o = std::forward<R>(r) | utl::find([m](E const& x) { return bit(m, val(x)); }); return o.has_value() ? one(val(*o)) : J::arr(); }
#if ELEM == 0
    case 5: return one(std::forward<R>(r) | utl::sum());
    case 7: return one(std::forward<R>(r) | utl::max<int>{m});
#endif
    case 9: return D(std::forward<R>(r) | utl::insert<std::multiset<E>>());
    case 10: return D(std::forward<R>(r) | utl::emplace<std::set<E>>());
    case 14: { auto acc = std::forward<R>(r) | utl::accumulate([](std::string a, E const& x) { a += static_cast<char>('a' + val(x)); return a; }, std::string{}); J o = J::arr(); for (auto c : acc) o.push(c - 'a'); return o; }
  }
  _exit(96);
}
template <int DEPTH, typename R>
J terminal(R&& r) {
  switch (term) {
    case 0: return D(std::forward<R>(r) | utl::vec());
    case 1: { J o = J::arr(); std::forward<R>(r) | utl::for_each([&](auto&& x) { o.push(val(x)); }); return o; }
    case 13: { J o = J::arr(); for (auto&& x : std::forward<R>(r) | utl::iterable()) o.push(val(x)); return o; }
  }
  if constexpr (DEPTH < 3) {
    switch (term) {
#if ELEM == 0
      case 6: { double a = std::forward<R>(r) | utl::avg(); return a != a ? J::arr() : one(std::fabs(a) < 4e5 ? std::llround(a * 5040) : -2000000000LL); }
#endif
      case 8: return D(std::forward<R>(r) | utl::emplace_back<std::list<E>>());
      case 11: return D(std::forward<R>(r) | utl::to<std::multiset<E>>());
      case 12: return D(std::forward<R>(r) | utl::emplace_back_to<std::deque<E>>());
      default: return direct(std::forward<R>(r));
    }
  }
  _exit(96);
}

#ifndef LV
#define LV 0
#endif
template <int D0, typename R>
void go(R&& r, std::size_t k);

template <int D0, typename R, typename S>
void with(R&& r, std::size_t k, S&& s) {
#if LV
  auto q = r | std::forward<S>(s);  // every intermediate range is an lvalue, used again afterwards
  go<D0 + 1>(q, k + 1);
  result.push(terminal<D0 + 1>(q));
#else
  go<D0 + 1>(std::forward<R>(r) | std::forward<S>(s), k + 1);
#endif
}
template <int D0, typename R>
void go(R&& r, std::size_t k) {
  if (k == sv.size()) { result.push(terminal<D0>(std::forward<R>(r))); return; }
  if constexpr (D0 < 3) {
    int const p = sv[k].p;
    switch (sv[k].k) {
      case 0: with<D0>(std::forward<R>(r), k, utl::remove_if([p](E const& x) { return bit(p, val(x)); })); break;
      case 1: with<D0>(std::forward<R>(r), k, utl::transform([p](E const& x) { return E{fun(p, val(x))}; })); break;
      case 2: with<D0>(std::forward<R>(r), k, utl::unique()); break;
      case 3: with<D0>(std::forward<R>(r), k, utl::take_while([p](E const& x) { return bit(p, val(x)); })); break;
    }
  }
}
// a bare container: only take_while and some of the terminals accept one
template <typename C>
void bare(C&& c) {
  if (sv.empty()) { result.push(direct(std::forward<C>(c))); return; }
  int const p = sv[0].p;
  if (sv[0].k != 3) _exit(93);
  go<1>(std::forward<C>(c) | utl::take_while([p](E const& x) { return bit(p, val(x)); }), 1);
}

template <typename C> C mk(std::vector<int> const& a) { C c(a.begin(), a.end()); if constexpr (requires { c.shrink_to_fit(); }) c.shrink_to_fit(); return c; }

template <typename R> void start(R&& r) {
#if LV
  auto r0 = std::forward<R>(r);
  go<0>(r0, 0);
  result.push(terminal<0>(r0));
#else
  go<0>(std::forward<R>(r), 0);
#endif
}

static J run(J const& c) {
  sv.clear();
  for (auto const& s : c["stages"]) sv.push_back({s[0].n(), s[1].n()});
  term = c["term"].n();
  arg = c["arg"].n();
  result = J::arr();
  auto const a = c["a"].ints();
  J src = J(a);
  switch (c["src"].n()) {
#if SRC == 0
    case 0: { auto v = mk<std::vector<E>>(a); start(utl::all(v)); src = D(v); break; }
#elif SRC == 1
    case 1: { auto const v = mk<std::list<E>>(a); start(utl::all(v)); src = D(v); break; }
#elif SRC == 2
    case 2: { start(utl::all(mk<std::vector<E>>(a))); break; }
#elif SRC == 3
    case 3: { auto v = mk<std::deque<E>>(a); start(utl::all(v.begin(), v.end())); src = D(v); break; }
#elif SRC == 4
    case 4: { start(utl::iota(a[0], a[1])); break; }
#elif SRC == 5
    case 5: { auto v = mk<std::deque<E>>(a); bare(v); src = D(v); break; }
    case 6: { auto const v = mk<std::vector<E>>(a); bare(v); src = D(v); break; }
    case 7: { auto v = mk<std::vector<E>>(a); bare(&v); src = D(v); break; }
    case 8: { result.push(direct(mk<std::list<E>>(a))); break; }
    case 9: { E v[3] = {E{a[0]}, E{a[1]}, E{a[2]}}; start(utl::all(v)); src = D(v); break; }
    case 10: { std::array<E, 3> const v = {E{a[0]}, E{a[1]}, E{a[2]}}; start(utl::all(std::begin(v), std::end(v))); src = D(v); break; }
#endif
    default: _exit(94);
  }
  return J::obj().set("r", result).set("src", src);
}
HARNESS(run)
