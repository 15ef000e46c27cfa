#include <deque>
#include <list>
#include <set>
#include <string>
#include <unordered_map>
#include "utl/concat.h"
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"
#include "utl/insert_sorted.h"
#include "common.h"

struct el {
  int k, tag;
  friend bool operator<(el const& a, el const& b) { return a.k < b.k; }
  friend bool operator==(el const& a, el const& b) { return a.k == b.k; }
};
struct heap_int {  // owns memory, so that lost or doubled elements show
  heap_int(int x) : p{std::make_unique<int>(x)} {}
  heap_int(heap_int const& o) : p{std::make_unique<int>(o.p ? *o.p : -77)} {}
  heap_int(heap_int&&) = default;
  heap_int& operator=(heap_int const& o) { if (this != &o) p = std::make_unique<int>(o.p ? *o.p : -77); return *this; }
  heap_int& operator=(heap_int&&) = default;
  int v() const { return p ? *p : -99; }
  friend bool operator<(heap_int const& a, heap_int const& b) { return a.v() < b.v(); }
  friend bool operator>(heap_int const& a, heap_int const& b) { return a.v() > b.v(); }
  friend bool operator==(heap_int const& a, heap_int const& b) { return a.v() == b.v(); }
  std::unique_ptr<int> p;
};
static J show(int i) { return i; }
static J show(heap_int const& h) { return h.v(); }
static J show(el const& e) { return J::arr().push(e.k).push(e.tag); }
template <typename C> J dump_c(C const& c) { auto a = J::arr(); for (auto const& e : c) a.push(show(e)); return a; }
template <typename T> std::vector<T> vec(std::vector<int> const& x) { std::vector<T> r(x.begin(), x.end()); r.shrink_to_fit(); return r; }
static std::vector<el> els(std::vector<int> const& x) { std::vector<el> r; for (auto k : x) r.push_back({k, int(r.size())}); r.shrink_to_fit(); return r; }

template <typename C> J do_erase(C c, int x) { utl::erase(c, typename C::value_type(x)); return dump_c(c); }

static J erase_case(J const& c) {
  auto const a = c["a"].ints();
  auto const x = c["x"].n();
  switch (c["variant"].n()) {
    case 0: return do_erase(vec<int>(a), x);
    case 1: return do_erase(std::deque<int>(a.begin(), a.end()), x);
    case 2: return do_erase(std::list<int>(a.begin(), a.end()), x);
    case 3: return do_erase(vec<heap_int>(a), x);
    case 4: {  // the element is one of the container's own
      auto v = vec<int>(a);
      auto const it = std::find(v.begin(), v.end(), x);
      if (it == v.end()) utl::erase(v, x); else utl::erase(v, *it);
      return dump_c(v);
    }
    case 5: { auto v = vec<int>(a); auto& r = v; utl::erase(std::move(r), x); return dump_c(v); }
    case 6: { auto v = vec<heap_int>(a); auto const it = std::find(v.begin(), v.end(), heap_int{x}); if (it == v.end()) utl::erase(v, heap_int{x}); else utl::erase(v, *it); return dump_c(v); }
    case 7: { std::set<int> s(a.begin(), a.end()); utl::erase(s, x); return dump_c(s); }
    case 8: { std::set<int> s(a.begin(), a.end()); utl::erase(std::move(s), x); return dump_c(s); }
    case 9: { std::string s; for (auto k : a) s += char('a' + k); utl::erase(s, char('a' + x)); auto r = J::arr(); for (auto ch : s) r.push(ch - 'a'); return r; }
    case 10: { std::vector<long> v(a.begin(), a.end()); utl::erase(v, static_cast<short>(x)); auto r = J::arr(); for (auto e : v) r.push(e); return r; }
  }
  _exit(96);
}
static J erase_if_case(J const& c) {
  auto const a = c["a"].ints();
  auto const m = c["m"].n();
  auto const p = [m](auto const& e) { if constexpr (std::is_same_v<std::decay_t<decltype(e)>, heap_int>) return (m >> e.v()) & 1; else if constexpr (std::is_same_v<std::decay_t<decltype(e)>, el>) return (m >> e.k) & 1; else return (m >> e) & 1; };
  switch (c["variant"].n()) {
    case 0: { auto v = vec<int>(a); utl::erase_if(v, p); return dump_c(v); }
    case 1: { std::deque<int> v(a.begin(), a.end()); utl::erase_if(v, p); return dump_c(v); }
    case 2: { std::list<heap_int> v(a.begin(), a.end()); utl::erase_if(v, p); return dump_c(v); }
    case 3: { auto v = vec<heap_int>(a); utl::erase_if(v, p); return dump_c(v); }
    case 4: { auto v = vec<int>(a); utl::erase_if(std::move(v), p); return dump_c(v); }
    case 5: { auto v = els(a); utl::erase_if(v, p); auto r = J::arr(); auto last = -1; for (auto const& e : v) { r.push(e.k); if (e.tag <= last) r.push(-1); last = e.tag; } return r; }
  }
  _exit(96);
}
static J erase_dup_case(J const& c) {
  auto const a = c["a"].ints();
  auto const d = c["div"].n();
  auto v = els(a);
  auto const less = [d](el const& x, el const& y) { return x.k / d < y.k / d; };
  auto const greater = [d](el const& x, el const& y) { return x.k / d > y.k / d; };
  auto const eq = [d](el const& x, el const& y) { return x.k / d == y.k / d; };
  switch (c["variant"].n()) {
    case 0: utl::erase_duplicates(v); return dump_c(v);
    case 1: utl::erase_duplicates(v, less, eq); return dump_c(v);
    case 2: utl::erase_duplicates(v, greater, eq); return dump_c(v);
    case 3: { std::deque<el> q(v.begin(), v.end()); utl::erase_duplicates(q); return dump_c(q); }
    case 4: utl::erase_duplicates(v, v.begin() + c["lo"].n(), v.begin() + c["hi"].n(), less, eq); return dump_c(v);
    case 5: { std::deque<el> q(v.begin(), v.end()); utl::erase_duplicates(q, q.begin() + c["lo"].n(), q.begin() + c["hi"].n(), less, eq); return dump_c(q); }
    case 6: utl::erase_duplicates(v, v.begin() + c["lo"].n(), v.end(), greater, eq); return dump_c(v);
  }
  _exit(96);
}
static J insert_case(J const& c) {
  auto const a = c["a"].ints();  // sorted, distinct or not
  auto const x = c["x"].n();
  auto const res = [](auto const& v, auto const& r, auto const& val) {
    return J::arr().push(std::distance(v.begin(), typename std::decay_t<decltype(v)>::const_iterator{r.first})).push(r.second ? 1 : 0).push(val).push(dump_c(v));
  };
  switch (c["variant"].n()) {
    case 0: { auto v = vec<int>(a); auto const r = utl::insert_sorted(v, x); return res(v, r, *r.first); }
    case 1: { auto v = vec<heap_int>(a); auto const r = utl::insert_sorted(v, heap_int{x}); return res(v, r, r.first->v()); }
    case 2: { std::deque<int> v(a.begin(), a.end()); auto const r = utl::insert_sorted(v, x); return res(v, r, *r.first); }
    case 3: { std::list<heap_int> v(a.begin(), a.end()); auto const r = utl::insert_sorted(v, heap_int{x}); return res(v, r, r.first->v()); }
    case 4: { std::vector<int> v(a.rbegin(), a.rend()); v.shrink_to_fit(); auto const r = utl::insert_sorted(v, x, std::greater<int>{}); return res(v, r, *r.first); }
    case 5: { std::set<int> v(a.begin(), a.end()); auto const r = utl::insert_sorted(v, x); return res(v, r, *r.first); }
    case 6: { auto v = vec<int>(a); auto const it = std::find(v.begin(), v.end(), x); auto const r = it == v.end() ? utl::insert_sorted(v, x) : utl::insert_sorted(v, *it); return res(v, r, *r.first); }
    case 7: { std::vector<heap_int> v; for (auto it = a.rbegin(); it != a.rend(); ++it) v.emplace_back(*it); auto const r = utl::insert_sorted(v, heap_int{x}, [](auto const& p, auto const& q) { return p > q; }); return res(v, r, r.first->v()); }
  }
  _exit(96);
}
static J concat_case(J const& c) {
  auto const a = c["a"].ints(), b = c["b"].ints();
  auto const res = [](auto& v, auto& r) { return J::arr().push(&v == &r ? 1 : 0).push(dump_c(v)); };
  switch (c["variant"].n()) {
    case 0: { auto v = vec<int>(a); auto& r = utl::concat(v, b); return res(v, r); }
    case 1: { auto v = vec<heap_int>(a); std::list<int> l(b.begin(), b.end()); auto& r = utl::concat(v, l); return res(v, r); }
    case 2: { std::list<int> v(a.begin(), a.end()); std::deque<int> l(b.begin(), b.end()); auto& r = utl::concat(v, l); return res(v, r); }
    case 3: { std::deque<int> v(a.begin(), a.end()); auto& r = utl::concat(v, b); return res(v, r); }
    case 4: { auto v = vec<int>(a); auto& r = utl::concat(utl::concat(v, b), std::vector<int>{}); return res(v, r); }
    case 5: { std::vector<int> v; v.reserve(100); v.assign(a.begin(), a.end()); auto& r = utl::concat(v, b); return res(v, r); }
  }
  _exit(96);
}
struct slim_map {  // no emplace_hint
  using key_type = int; using mapped_type = heap_int; using value_type = std::pair<int const, heap_int>;
  using iterator = std::list<value_type>::iterator;
  std::list<value_type> l;
  iterator find(int k) { return std::find_if(l.begin(), l.end(), [&](auto const& e) { return e.first == k; }); }
  iterator end_() { return l.end(); }
  friend iterator end(slim_map& m) { return m.l.end(); }
  std::pair<iterator, bool> emplace(int k, heap_int v) { if (auto const it = find(k); it != l.end()) return {it, false}; auto const at = k % 2 ? l.begin() : l.end(); return {l.emplace(at, k, std::move(v)), true}; }
  std::size_t size() const { return l.size(); }
};
template <typename M, typename Val, typename MkK> J goc(M& m, J const& c, Val&& val, MkK&& mk) {
  auto obs = J::arr();
  for (auto const& o : c["ops"]) {
    auto calls = 0, thrown = 0, got = -5, same = -1;
    auto const k = o[0].n(), v = o[1].n();
    try {
      auto& r = utl::get_or_create(m, mk(k), [&]() -> typename M::mapped_type {
        ++calls;
        if (v == -1) throw std::runtime_error{"f"};
        return typename M::mapped_type(v);
      });
      got = val(r);
      same = &r == &m.find(mk(k))->second ? 1 : 0;
      if (o[2].n() != 0) r = typename M::mapped_type(o[2].n());  // write through the reference
    } catch (std::runtime_error const&) { thrown = 1; }
    obs.push(J::arr().push(calls).push(thrown).push(got).push(same).push(m.size()));
  }
  return obs;
}
static J goc_case(J const& c) {
  auto const iv = [](int i) { return i; };
  auto const hv = [](heap_int const& h) { return h.v(); };
  auto const ik = [](int k) { return k; };
  switch (c["variant"].n()) {
    case 0: { std::map<int, int> m; return goc(m, c, iv, ik); }
    case 1: { std::unordered_map<int, heap_int> m; struct d : std::unordered_map<int, heap_int> {}; return goc(m, c, hv, ik); }
    case 2: { std::map<std::string, heap_int> m; return goc(m, c, hv, [](int k) { return std::string(40, static_cast<char>('a' + k)); }); }
    case 3: { slim_map m; return goc(m, c, hv, ik); }
    case 4: { std::map<int, int, std::greater<int>> m; return goc(m, c, iv, ik); }
  }
  _exit(96);
}
// the factory itself asks the same map for smaller keys (memoised recursion)
template <typename M, typename MkK> J rec_run(M m, J const& c, MkK&& mk) {
  auto calls = 0;
  std::function<int(int)> value = [&](int k) -> int {
    return utl::get_or_create(m, mk(k), [&]() -> typename M::mapped_type {
      ++calls;
      auto v = c["w"][k - 1].n();
      for (auto const& d : c["deps"][k - 1]) v += value(d.n());
      return typename M::mapped_type(v);
    });
  };
  auto obs = J::arr();
  for (auto const& o : c["ops"]) { calls = 0; auto const v = value(o.n()); obs.push(J::arr().push(v).push(calls).push(m.size())); }
  auto all = J::arr();
  for (auto k = 1; k <= static_cast<int>(c["w"].size()); ++k) { auto const it = m.find(mk(k)); all.push(it == end(m) ? -1 : static_cast<int>(it->second)); }
  return J::arr().push(obs).push(all);
}
struct plain_map : std::list<std::pair<int const, int>> {  // neither hints nor operator[]
  using key_type = int; using mapped_type = int; using value_type = std::pair<int const, int>;
  iterator find(int k) { return std::find_if(begin(), end(), [&](auto const& e) { return e.first == k; }); }
  std::pair<iterator, bool> emplace(int k, int v) { auto const it = find(k); if (it != end()) return {it, false}; return {list::emplace(k % 2 ? begin() : end(), k, v), true}; }
};
static J rec_case(J const& c) {
  auto const ik = [](int k) { return k; };
  switch (c["variant"].n()) {
    case 0: return rec_run(std::map<int, int>{}, c, ik);
    case 1: return rec_run(std::unordered_map<int, int>{}, c, ik);
    case 2: return rec_run(std::map<std::string, long>{}, c, [](int k) { return std::string(static_cast<std::size_t>(k), 'x'); });
    case 3: return rec_run(plain_map{}, c, ik);
    case 4: return rec_run(std::unordered_map<std::string, int>{}, c, [](int k) { return std::to_string(k); });
  }
  _exit(96);
}
static J goci_case(J const& c) {
  auto obs = J::arr();
  auto const v = c["variant"].n();
  std::map<int, std::size_t> m; std::unordered_map<std::string, unsigned> u; std::map<int, int> mi;
  for (auto const& o : c["ops"]) {
    auto const k = o.n();
    if (v == 0) { obs.push(J::arr().push(utl::get_or_create_index(m, k)).push(m.size())); }
    else if (v == 1) { obs.push(J::arr().push(utl::get_or_create_index(u, std::to_string(k))).push(u.size())); }
    else { obs.push(J::arr().push(utl::get_or_create_index(mi, k)).push(mi.size())); }
  }
  return obs;
}
J go(J const& c) {
  auto const f = c["fn"].str();
  J r;
  if (f == "erase") r = erase_case(c);
  else if (f == "erase_if") r = erase_if_case(c);
  else if (f == "dup") r = erase_dup_case(c);
  else if (f == "insert") r = insert_case(c);
  else if (f == "concat") r = concat_case(c);
  else if (f == "rec") r = rec_case(c);
  else if (f == "goc") r = goc_case(c);
  else r = goci_case(c);
  return J::obj().set("r", r);
}
HARNESS(go)
