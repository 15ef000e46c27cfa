// C19 zip, C20 enumerate, C21 iterator_facade: programs over iterators
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <set>
#include <vector>
#include "common.h"

static int iv(int x) { return x; }
static J iv(std::size_t x) { return J{x}; }
static int iv(int const* p) { return *p; }
template <typename T> J el(T const& t) {
  if constexpr (requires { std::tuple_size<T>::value; }) return std::apply([](auto const&... x) { J a = J::arr(); (a.push(iv(x)), ...); return a; }, t);
  else return J::arr().push(iv(t));
}
// a long range (in.len elements, the columns repeating) is observed at the positions in.samp only
static bool sampled;
static std::set<long long> samp;
static bool pick(long long k) { return !sampled || samp.contains(k); }
template <typename C> J col(C const& c) { J a = J::arr(); long long k = 0; for (auto const& x : c) if (pick(k++)) a.push(iv(x)); return a; }
static std::vector<int> column(J const& c, std::size_t k) {
  auto v = c["d"][k].ints();
  if (c.has("len")) { auto const m = v.size(); std::vector<int> w; for (std::size_t j = 0; j < static_cast<std::size_t>(c["len"].num()); ++j) w.push_back(v[j % m]); w.shrink_to_fit(); return w; }
  return v;
}
static void sampling(J const& c) { sampled = c.has("samp"); samp.clear(); if (sampled) for (auto const& x : c["samp"]) samp.insert(x.num()); }
template <typename It> int cat() {
  using C = typename std::iterator_traits<It>::iterator_category;
  return std::is_base_of_v<std::random_access_iterator_tag, C> ? 3 : std::is_base_of_v<std::bidirectional_iterator_tag, C> ? 2 : std::is_base_of_v<std::forward_iterator_tag, C> ? 1 : 0;
}
struct none {};
// run the operations on registers r[0..]
template <bool Rel = true, bool Eq = true, typename It, typename Sent, typename Set, typename Get>
J prog(std::vector<It> r, J const& ops, Sent const& sent, Set&& set, Get&& get) {
  J rets = J::arr();
  for (auto const& o : ops) {
    auto const op = o[0].str();
    int const i = o[1].n() - 1, a = o.size() > 2 ? o[2].n() : 0, b = o.size() > 3 ? o[3].n() : 0;
    J ret = J::arr();
    auto bit = [&](bool x) { ret.push(x ? 1 : 0); };
    if (op == "inc") ++r[i];
    else if (op == "copy") r[a - 1] = It{r[i]};
    else if (op == "set") set(r[i], a - 1, b);
    else if (op == "get") ret = get(*r[i]);
#define OPT(name, cond, code) else if (op == name) { if constexpr (requires(It x, It y, std::ptrdiff_t k, Sent s) { cond; }) { code; } else _exit(89); }
    OPT("dec", --x, --r[i])
    OPT("vinc", x++, r[i]++)
    OPT("pinc", y = x++, auto old = r[i]++; r[a - 1] = old; if (i == a - 1) {})
    OPT("pdec", y = x--, auto old = r[i]--; r[a - 1] = old)
    OPT("add", x += k, r[i] += a)
    OPT("sub", x -= k, r[i] -= a)
    OPT("uadd", x += std::size_t{}, r[i] += static_cast<std::size_t>(a))
    OPT("usub", x -= std::size_t{}, r[i] -= static_cast<std::size_t>(a))
    OPT("plus", y = x + k, r[b - 1] = r[i] + a)
    OPT("kplus", y = k + x, r[b - 1] = static_cast<std::ptrdiff_t>(a) + r[i])
    OPT("minus", y = x - k, r[b - 1] = r[i] - a)
    OPT("at", x[k], ret = get(r[i][a]))
    OPT("arr", x.operator->(), ret.push(r[i]->v))
    OPT("diff", x - y, ret.push(J{r[i] - r[a - 1]}))
#define EQ_(name, code) else if (op == name) { if constexpr (Eq && requires(It x, It y) { x != y; }) { code; } else _exit(84); }
    EQ_("eq", if constexpr (requires(It x, It y) { x == y; }) bit(r[i] == r[a - 1]); else _exit(83))
    EQ_("ne", bit(r[i] != r[a - 1]))
#define REL(name, code) else if (op == name) { if constexpr (Rel && requires(It x, It y) { x < y; }) { code; } else _exit(84); }
    REL("lt", bit(r[i] < r[a - 1]))
    REL("le", bit(r[i] <= r[a - 1]))
    REL("gt", bit(r[i] > r[a - 1]))
    REL("ge", bit(r[i] >= r[a - 1]))
    OPT("atend", x == s, bit(r[i] == sent); bit(sent == r[i]); bit(r[i] != sent); bit(sent != r[i]))
    OPT("sdiff", s - x, ret.push(J{sent - r[i]}))
    else _exit(88);
    rets.push(ret);
  }
  return rets;
}
template <typename It> std::vector<It> regs(J const& init, It b, It e, int n) {
  std::vector<It> r;
  for (auto const& p : init) {
    if (p.n() == n) { r.push_back(e); continue; }
    auto x = b;
    for (int k = 0; k < p.n(); ++k) ++x;
    r.push_back(x);
  }
  return r;
}
// ------------------------------------------------------------------ zip
#if KIND == 0
#include "utl/zip.h"
template <bool Rel = false, typename Z> J zip_run(Z&& z, J const& c) {
  J out = J::obj();
  out.set("thr", 0);
  J all = J::arr(), idx = J::arr();
  if (c.has("un")) {
    for (int k = 0; k < c["un"].n(); ++k) idx.push(el(z[static_cast<std::size_t>(k)]));
    return out.set("idx", idx);
  }
  long long cnt = 0;
  for (auto&& t : z) if (pick(cnt++)) all.push(el(t));
  out.set("all", all).set("size", z.size()).set("cnt", cnt);
  for (std::size_t k = 0; k < z.size(); ++k) if (pick(static_cast<long long>(k))) idx.push(el(z[k]));
  out.set("idx", idx);
  using It = std::decay_t<decltype(z.begin())>;
  int const n = static_cast<int>(z.size());
  out.set("cat", cat<It>());
  out.set("rets", prog<Rel>(regs<It>(c["init"], z.begin(), z.end(), n), c["ops"], none{},
                       [](It& it, int k, int v) {
                         auto t = *it;
                         auto w = [&](auto K) {
                           if constexpr (K() < std::tuple_size_v<std::decay_t<decltype(t)>>) {
                             using R = std::tuple_element_t<K(), std::decay_t<decltype(t)>>;
                             if constexpr (std::is_assignable_v<R, int>) std::get<K()>(t) = v; else _exit(87);
                           }
                         };
                         if (k == 0) w(std::integral_constant<std::size_t, 0>{});
                         if (k == 1) w(std::integral_constant<std::size_t, 1>{});
                         if (k == 2) w(std::integral_constant<std::size_t, 2>{});
                       },
                       [](auto&& t) { return el(t); }));
  J again = J::arr();
  cnt = 0;
  for (auto it = z.begin(); it != z.end(); ++it) if (pick(cnt++)) again.push(el(*it));
  out.set("again", again);
  return out;
}
template <typename C> C mk(std::vector<int> const& a) { C c(a.begin(), a.end()); if constexpr (requires { c.shrink_to_fit(); }) c.shrink_to_fit(); return c; }
static J zip(J const& c) {
  std::vector<std::vector<int>> d;
  sampling(c);
  for (std::size_t k = 0; k < c["d"].size(); ++k) d.push_back(column(c, k));
  using V = std::vector<int>;
  using L = std::list<int>;
  using D = std::deque<int>;
  J out = J::obj(), after = J::arr();
  int const n = static_cast<int>(d.size());
  auto const v0 = [&] { return mk<V>(d[0]); };
  try {
    switch (c["variant"].n()) {
      case 0: { auto v = v0(); auto z = utl::zip(v); out = zip_run<true>(z, c); after.push(col(v)); break; }
      case 1: { auto v = v0(); auto l = mk<L>(d[1]); auto z = utl::zip(v, l); out = zip_run(z, c); after.push(col(v)).push(col(l)); break; }
      case 2: { auto v = v0(); auto const q = mk<D>(d[1]); auto l = mk<L>(d[2]); auto z = utl::zip(v, q, l); out = zip_run(z, c); after.push(col(v)).push(col(q)).push(col(l));
        static_assert(!std::is_assignable_v<std::tuple_element_t<1, decltype(*z.begin())>, int>); break; }
      case 3: { auto v = v0(); auto l = mk<L>(d[1]); auto z = utl::czip(v, l); out = zip_run(z, c); after.push(col(v)).push(col(l));
        static_assert(!std::is_assignable_v<std::tuple_element_t<0, decltype(*z.begin())>, int> && !std::is_assignable_v<std::tuple_element_t<1, decltype(z[0])>, int>); break; }
      case 4: { auto l = mk<V>(d[1]); auto z = utl::zip(v0(), l); out = zip_run<true>(z, c); after.push(col(d[0])).push(col(l)); break; }
      case 5: { auto v = v0(); auto w = mk<V>(d[1]); auto l = mk<L>(d[2]); auto z = utl::zip_unchecked(v, w, l); out = zip_run(z, c); after.push(col(v)).push(col(w)).push(col(l)); break; }
      case 6: { auto z = utl::zip_no_size_check(v0(), mk<L>(d[1])); out = zip_run(z, c); after.push(col(d[0])).push(col(d[1])); break; }
      case 7: { auto q = mk<D>(d[1]); auto z = utl::czip(v0(), q); out = zip_run<true>(z, c); after.push(col(d[0])).push(col(q));
        static_assert(!std::is_assignable_v<std::tuple_element_t<0, decltype(*z.begin())>, int> && !std::is_assignable_v<std::tuple_element_t<1, decltype(*z.begin())>, int>); break; }
      case 8: { auto v = v0(); auto const w = mk<V>(d[1]); auto z = utl::czip_unchecked(v, w); out = zip_run<true>(z, c); after.push(col(v)).push(col(w)); break; }
      case 9: { auto v = v0(); auto l = mk<L>(d[1]); auto const z = utl::zip(v, l); out = zip_run(z, c); after.push(col(v)).push(col(l)); break; }
      case 10: { auto v = v0(); auto w = mk<std::set<int>>(d[1]); auto z = utl::zip(v, w); out = zip_run(z, c); after.push(col(v)).push(col(w)); break; }
      case 11: { auto v = v0(); auto w = mk<V>(d[1]); auto z = utl::czip_no_size_check(v, w); out = zip_run<true>(z, c); after.push(col(v)).push(col(w)); break; }
    }
    out.set("after", after);
  } catch (std::exception const&) {
    out = J::obj().set("thr", 1);
  }
  (void)n;
  return out;
}
#define RUN zip
#elif KIND == 1
#include "utl/enumerate.h"
template <typename C> C mk(std::vector<int> const& a) { C c(a.begin(), a.end()); if constexpr (requires { c.shrink_to_fit(); }) c.shrink_to_fit(); return c; }
template <typename E> J enum_run(E&& e, J const& c, int n) {
  J out = J::obj();
  out.set("thr", 0);
  J all = J::arr();
  long long cnt = 0;
  for (auto&& t : e) if (pick(cnt++)) all.push(el(t));
  out.set("all", all).set("cnt", cnt);
  using It = std::decay_t<decltype(e.begin())>;
  out.set("cat", cat<It>());
  out.set("rets", prog(regs<It>(c["init"], e.begin(), e.end(), n), c["ops"], none{},
                       [](It& it, int, int v) {
                         auto t = *it;
                         using R = std::tuple_element_t<1, decltype(t)>;
                         if constexpr (std::is_pointer_v<R>) *std::get<1>(t) = v;
                         else if constexpr (std::is_assignable_v<R, int>) std::get<1>(t) = v;
                         else _exit(87);
                       },
                       [](auto&& t) { return el(t); }));
  return out;
}
static J enumerate(J const& c) {
  sampling(c);
  auto const a = column(c, 0);
  int const n = static_cast<int>(a.size());
  J out, after = J::arr();
  switch (c["variant"].n()) {
    case 0: { auto v = mk<std::vector<int>>(a); out = enum_run(utl::enumerate(v), c, n); after.push(col(v)); break; }
    case 1: { auto const v = mk<std::vector<int>>(a); auto e = utl::enumerate(v); out = enum_run(e, c, n); after.push(col(v));
      static_assert(!std::is_assignable_v<std::tuple_element_t<1, decltype(*e.begin())>, int>); break; }
    case 2: { auto e = utl::enumerate(mk<std::vector<int>>(a)); out = enum_run(e, c, n); after.push(col(a)); break; }
    case 3: { auto v = mk<std::list<int>>(a); out = enum_run(utl::enumerate(v), c, n); after.push(col(v)); break; }
    case 4: { auto v = mk<std::forward_list<int>>(a); out = enum_run(utl::enumerate(v), c, n); after.push(col(v)); break; }
    case 5: { int v[3] = {a[0], a[1], a[2]}; out = enum_run(utl::enumerate(v), c, n); after.push(col(v)); break; }
    case 6: { auto s = mk<std::vector<int>>(a); std::vector<int*> v; for (auto& x : s) v.push_back(&x); out = enum_run(utl::enumerate(v), c, n); after.push(col(s)); break; }
    case 7: { auto v = mk<std::set<int>>(a); out = enum_run(utl::enumerate(v), c, n); after.push(col(v)); break; }
    case 8: { auto e = utl::enumerate(mk<std::deque<int>>(a)); out = enum_run(e, c, n); after.push(col(a)); break; }
    case 9: { auto v = mk<std::deque<int>>(a); out = enum_run(utl::enumerate(v), c, n); after.push(col(v)); break; }
  }
  return out.set("after", after);
}
#define RUN enumerate
#else
#include "utl/iterator_facade.h"
enum { INC = 1, DEC = 2, ADV = 4, DIST = 8, EQ = 16, SP = 32, REF = 64, ATEND = 128, SDIST = 256, IDIFF = 512 };
struct cell { int v; };
struct sentinel {};
template <int C> struct fac : utl::iterator_facade<fac<C>> {
  using sentinel_type = std::conditional_t<(C & ATEND) != 0, sentinel, void>;
  using diff = std::conditional_t<(C & IDIFF) != 0, int, std::ptrdiff_t>;
  static constexpr bool single_pass_iterator = (C & SP) != 0;
  cell* base{};
  int n{}, p{};
  fac() = default;
  fac(cell* b, int n, int p) : base{b}, n{n}, p{p} {}
  cell& dereference() const requires((C & REF) != 0) { if (p < 0 || p >= n) _exit(86); return base[p]; }
  cell dereference() const requires((C & REF) == 0) { if (p < 0 || p >= n) _exit(86); return base[p]; }
  void increment() requires((C & INC) != 0) { ++p; }
  void decrement() requires((C & DEC) != 0) { --p; }
  void advance(diff k) requires((C & ADV) != 0) { p += static_cast<int>(k); }
  diff distance_to(fac const& o) const requires((C & DIST) != 0) { return o.p - p; }
  std::ptrdiff_t distance_to(sentinel) const requires((C & ATEND) != 0) { return n - p; }
  bool equal_to(fac const& o) const requires((C & EQ) != 0) { return p == o.p; }
  bool at_end() const requires((C & ATEND) != 0) { return p == n; }
};
struct wrap : utl::iterator_wrapper_facade<wrap, std::vector<cell>::iterator> {
  wrap() = default;
  explicit wrap(std::vector<cell>::iterator it) : utl::iterator_wrapper_facade<wrap, std::vector<cell>::iterator>(it) {}
  cell& dereference() const { return *wrapped_iterator; }
};
template <bool Eq, typename It, typename S> J fac_run(std::vector<It> r, J const& c, S const& s, J all, long long cnt) {
  J out = J::obj();
  out.set("thr", 0).set("all", all).set("cat", cat<It>()).set("cnt", cnt);
  static_assert(std::is_same_v<typename std::iterator_traits<It>::value_type, cell>);
  out.set("rets", prog<true, Eq>(r, c["ops"], s, [](It& it, int, int v) { if constexpr (std::is_lvalue_reference_v<decltype(*it)>) (*it).v = v; else _exit(87); },
                       [](auto&& x) { return J::arr().push(x.v); }));
  return out;
}
template <int C> J fac_one(J const& c) {
  std::vector<cell> d;
  for (auto x : column(c, 0)) d.push_back({x});
  int const n = static_cast<int>(d.size());
  std::vector<fac<C>> r;
  for (auto const& p : c["init"]) r.push_back({d.data(), n, p.n()});
  J all = J::arr();
  fac<C> it{d.data(), n, 0};
  long long cnt = 0;
  if constexpr ((C & ATEND) != 0) for (; it != sentinel{}; ++it) { if (pick(cnt++)) all.push(J::arr().push((*it).v)); }
  else for (fac<C> e{d.data(), n, n}; it != e; it++) if (pick(cnt++)) all.push(J::arr().push(it->v));
  J out = fac_run<(C & (EQ | DIST)) != 0>(r, c, sentinel{}, all, cnt);
  J after = J::arr();
  cnt = 0;
  for (auto& x : d) if (pick(cnt++)) after.push(x.v);
  return out.set("after", J::arr().push(after));
}
static J facade(J const& c) {
  sampling(c);
  switch (c["variant"].n()) {
    case 0: return fac_one<INC | EQ | REF>(c);
    case 1: return fac_one<INC | DEC | EQ>(c);
    case 2: return fac_one<ADV | DIST | REF>(c);
    case 3: return fac_one<INC | DEC | ADV | DIST | EQ>(c);
    case 4: return fac_one<INC | SP | ATEND | REF>(c);
    case 5: {
      std::vector<cell> d;
      for (auto x : column(c, 0)) d.push_back({x});
      std::vector<wrap> r;
      for (auto const& p : c["init"]) r.push_back(wrap{d.begin() + p.n()});
      J all = J::arr();
      long long cnt = 0;
      for (wrap it{d.begin()}, e{d.end()}; it != e; ++it) if (pick(cnt++)) all.push(J::arr().push(it->v));
      J out = fac_run<true>(r, c, none{}, all, cnt);
      J after = J::arr();
      cnt = 0;
      for (auto& x : d) if (pick(cnt++)) after.push(x.v);
      return out.set("after", J::arr().push(after));
    }
    case 6: return fac_one<ADV | DIST | ATEND | SDIST>(c);
    case 7: return fac_one<INC | DIST | REF>(c);
    case 8: return fac_one<INC | DEC | DIST | EQ | REF>(c);
    case 9: return fac_one<DEC | ADV | DIST | REF | IDIFF>(c);
    case 10: return fac_one<INC | SP | ATEND | SDIST>(c);
  }
  _exit(85);
}
#define RUN facade
#endif
HARNESS(RUN)
