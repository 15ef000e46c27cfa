// Ranges longer than 16 bit counters and positions beyond 32 bits. Results are reduced to a few numbers.
// PART selects the property the operations belong to.
#include <sys/mman.h>
#include <algorithm>
#include <deque>
#include <limits>
#include <list>
#include <numeric>
#include <ranges>
#include <set>
#include <unordered_map>
#include "common.h"
#if PART == 11
#include "utl/join.h"
#elif PART == 12
#include "utl/sorted_diff.h"
#elif PART == 13
#include "utl/power_set_intersection.h"
#elif PART == 14
#include "utl/equal_ranges.h"
#include "utl/equal_ranges_linear.h"
#elif PART == 15
#include "utl/concat.h"
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"
#include "utl/insert_sorted.h"
#elif PART == 16
#include "utl/helpers/algorithm.h"
#include "utl/is_uniform.h"
#include "utl/repeat_n.h"
#include "utl/sort_by.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"
#elif PART == 19
#include "utl/zip.h"
#elif PART == 20
#include "utl/enumerate.h"
#include "utl/nwise.h"
#include "utl/pairwise.h"
#elif PART == 21
#include "utl/iterator_facade.h"
#elif PART == 22 || PART == 23
#include "utl/parser/cstr.h"
#elif PART == 25
#include "utl/parser/buf_reader.h"
#include "utl/parser/csv.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/line_range.h"
#include "utl/pipes/for_each.h"
#elif PART == 30
#include "utl/generator.h"
#endif
using V = std::vector<int>;
template <typename... F> struct overl : F... { using F::operator()...; };
using ll = long long;
static V blocks(ll n, ll g, ll s = 1, ll o = 0) { V v; for (ll j = 0; j < n; ++j) v.push_back(static_cast<int>(o + s * (j / g))); v.shrink_to_fit(); return v; }
static V stride(ll n, ll g, ll mul) { V v; for (ll j = 0; j < n; ++j) v.push_back(static_cast<int>(((j * mul) % n) / g)); v.shrink_to_fit(); return v; }  // a permutation of blocks(n, g) if gcd(n, mul) = 1
// pieces of a range: how many, smallest, largest, covered, pieces that do not start where the last one ended
struct Pieces {
  ll n{0}, lo{0}, hi{0}, sum{0}, gap{0}, next{0};
  void add(ll from, ll to) { auto const k = to - from; if (n == 0 || k < lo) lo = k; if (n == 0 || k > hi) hi = k; ++n; sum += k; if (from != next) ++gap; next = to; }
  J js() const { return J::arr().push(n).push(lo).push(hi).push(sum).push(gap); }
};
// a sequence: length, first, last, ascents, equal neighbours, descents
template <typename C> J shape(C const& c) {
  ll n = 0, up = 0, eq = 0, dn = 0, first = -1, prev = -1;
  for (auto const& x : c) { ll const v = static_cast<ll>(x); if (n == 0) first = v; else if (v > prev) ++up; else if (v == prev) ++eq; else ++dn; prev = v; ++n; }
  return J::arr().push(n).push(first).push(prev).push(up).push(eq).push(dn);
}
static J mb(unsigned long long n) { return J::arr().push(static_cast<ll>(std::min(n >> 20, 2000000000ULL))).push(static_cast<ll>(n & 0xfffff)); }
static unsigned long long at(J const& p) { return (static_cast<unsigned long long>(p[0].num()) << 20) + static_cast<unsigned long long>(p[1].num()); }

#if PART == 21
struct far : utl::iterator_facade<far> {
  unsigned long long p{0};
  unsigned long long dereference() const { return p; }
  void advance(std::ptrdiff_t n) { p += static_cast<unsigned long long>(n); }
  bool equal_to(far const& o) const { return p == o.p; }
  std::ptrdiff_t distance_to(far const& o) const { return static_cast<std::ptrdiff_t>(o.p) - static_cast<std::ptrdiff_t>(p); }
};
#endif
#if PART == 30
static utl::generator<int> count_to(int n) { for (int j = 0; j < n; ++j) co_yield j; }
#endif
#if PART == 25
using utl::cstr;
using utl::csv_col;
struct S { csv_col<int, UTL_NAME("A")> a_; csv_col<std::string, UTL_NAME("B")> b_; auto cista_members() { return std::tie(a_, b_); } };
#endif
#if PART == 19 || PART == 20
struct far_it {  // random access over the numbers from 0 on
  using iterator_category = std::random_access_iterator_tag;
  using value_type = unsigned long long;
  using difference_type = std::ptrdiff_t;
  using reference = value_type;
  using pointer = value_type const*;
  value_type p{0};
  reference operator*() const { return p; }
  reference operator[](difference_type n) const { return p + static_cast<value_type>(n); }
  far_it& operator++() { ++p; return *this; }
  far_it& operator--() { --p; return *this; }
  far_it operator++(int) { auto t = *this; ++p; return t; }
  far_it operator--(int) { auto t = *this; --p; return t; }
  far_it& operator+=(difference_type n) { p += static_cast<value_type>(n); return *this; }
  far_it& operator-=(difference_type n) { p -= static_cast<value_type>(n); return *this; }
  friend far_it operator+(far_it x, difference_type n) { return x += n; }
  friend far_it operator+(difference_type n, far_it x) { return x += n; }
  friend far_it operator-(far_it x, difference_type n) { return x -= n; }
  friend difference_type operator-(far_it x, far_it y) { return static_cast<difference_type>(x.p - y.p); }
  auto operator<=>(far_it const&) const = default;
};
struct far_range {
  using value_type = unsigned long long;
  using iterator = far_it;
  using const_iterator = far_it;
  unsigned long long n{0};
  std::size_t size() const { return n; }
  bool empty() const { return n == 0; }
  far_it begin() const { return {}; }
  far_it end() const { return {n}; }
};
#endif

static J run(J const& c) {
  auto const op = c["op"].str();
  ll const n = c["n"].num(), g = c["g"].num(), m = c["m"].num(), h = c["h"].num(), s = c["s"].num(), o = c["o"].num(), pos = c["pos"].num();
  int const k = c["k"].n();
  J r = J::arr();
  std::ignore = std::tie(n, g, m, h, s, o, pos, k);
#if PART == 11
  auto const a = blocks(n, g), b = blocks(m, h, s, o);
  Pieces pa, pb;  // every group of either side, in the order of the callbacks
  ll nm = 0, na = 0, nb = 0, odd = 0;
  auto fm = [&](auto x, auto xe, auto y, auto ye) { ++nm; pa.add(x - a.begin(), xe - a.begin()); pb.add(y - b.begin(), ye - b.begin()); if (*x != *y) ++odd; };
  auto fa = [&](auto x, auto xe) { ++na; pa.add(x - a.begin(), xe - a.begin()); };
  auto fb = [&](auto x, auto xe) { ++nb; pb.add(x - b.begin(), xe - b.begin()); };
  if (k == 0) utl::inner_join(a, b, fm);
  if (k == 1) utl::left_join(a.begin(), a.end(), b.begin(), b.end(), std::less<>{}, fm, fa);
  if (k == 2) utl::full_join(a, b, fm, fa, fb);
  r.push(nm).push(na).push(nb).push(odd).push(pa.js()).push(pb.js());
#elif PART == 12
  auto const a = blocks(n, 1, g), b = blocks(m, 1, h);
  ll add = 0, del = 0, upd = 0, bad = 0, prev = -1, odd = 0;
  auto see = [&](int x) { if (x <= prev) ++bad; prev = x; };
  utl::sorted_diff(a, b, std::less<>{}, [&](int x, int y) { if (x != y) ++odd; return x % s != 0; },
                   overl{[&](utl::op q, int x) { (q == utl::op::kAdd ? add : del) += 1; see(x); }, [&](int x, int y) { ++upd; see(x); if (x != y) ++odd; }});
  r.push(add).push(del).push(upd).push(bad).push(odd);
#elif PART == 13
  auto const a = blocks(n, g), b = blocks(m, h);
  ll cnt = 0, odd = 0, sum = 0;
  auto const dist = [&](int const& x, int const& y) { return (&x - a.data()) * m + (&y - b.data()); };
  std::vector<bool> seen(static_cast<std::size_t>(n * m), false);
  ll again = 0;
  utl::power_set_intersection(a, b, [&](int const& x, int const& y) {
    ++cnt;
    if (x != y) ++odd;
    auto const d = dist(x, y);
    if (d < 0 || d >= n * m) ++sum; else { if (seen[static_cast<std::size_t>(d)]) ++again; seen[static_cast<std::size_t>(d)] = true; }
  });
  r.push(cnt).push(odd).push(sum).push(again);
#elif PART == 14
  V v = k < 2 ? stride(n, g, s) : blocks(n, g);
  Pieces p;
  ll mixed = 0;
  auto f = [&](auto x, auto xe) { p.add(x - v.begin(), xe - v.begin()); for (auto y = x; y != xe; ++y) if (*y != *x) { ++mixed; break; } };
  if (k == 0) utl::equal_ranges(v, f);
  if (k == 1) utl::equal_ranges(v, [](int x, int y) { return x < y; }, f);
  if (k == 2) utl::equal_ranges_linear(v, f);
  if (k == 3) utl::equal_ranges_linear(v.begin(), v.end(), f);
  if (k == 4) utl::equal_ranges_linear(v, [](int x, int y) { return x == y; }, f);
  r.push(p.js()).push(mixed);
#elif PART == 15
  auto v = blocks(n, g);
  if (op == "erase") { utl::erase(v, static_cast<int>(pos / g)); r = shape(v); }
  else if (op == "eraseif") { utl::erase_if(v, [&](int x) { return x >= pos / g; }); r = shape(v); }
  else if (op == "dup") { auto w = stride(n, g, s); utl::erase_duplicates(w); r = shape(w); }
  else if (op == "insert") { auto w = blocks(n, 1, 2); auto const q = utl::insert_sorted(w, static_cast<int>(2 * pos + k)); r = shape(w); r.push(q.first - w.begin()).push(q.second ? 1 : 0); }
  else if (op == "concat") { auto w = blocks(m, 1, 1, v.back() + 1); utl::concat(v, w); r = shape(v); }
  else if (op == "index") {
    std::unordered_map<int, std::size_t> mp;
    V out;
    for (int x : v) out.push_back(static_cast<int>(utl::get_or_create_index(mp, x)));
    r = shape(out);
    r.push(mp.size());
  } else if (op == "create") {
    std::map<int, int> mp;
    V out;
    ll made = 0;
    for (int x : v) out.push_back(utl::get_or_create(mp, x, [&] { ++made; return x; }));
    r = shape(out);
    r.push(made);
  } else _exit(95);
#elif PART == 16
  auto v = blocks(n, g);
  int const key = static_cast<int>(pos / g);
  if (op == "tovec") {
    if (k == 0) r = shape(utl::to_vec(v));
    if (k == 1) r = shape(utl::to_vec(v, [](int x) { return x; }));
    if (k == 2) r = shape(utl::to_vec(v.begin(), v.end(), [](int x) { return x; }));
    if (k == 3) r = shape(utl::transform_to<std::vector<int>>(v, [](int x) { return x; }));
    if (k == 4) { V w; utl::transform_to(v, w, [](int x) { return x; }); r = shape(w); }
  } else if (op == "toset") r = shape(utl::to_set(v, [](int x) { return x; }));
  else if (op == "rep") r = shape(utl::repeat_n(7, static_cast<std::size_t>(n)));
  else if (op == "sortby") {
    auto w = stride(n, g, s);
    auto w2 = w;
    auto [x, y, z] = utl::sort_by(w, w2, w2);
    r = shape(x);
    r.push(x == y && x == z ? 1 : 0);
  } else if (op == "scan") {  // where something is
    auto is = [&](int x) { return x == key; };
    r.push(utl::find_if(v, is) - v.begin()).push(utl::find(v, key) - v.begin()).push(utl::count_if(v, is)).push(utl::any_of(v, is) ? 1 : 0).push(utl::none_of(v, is) ? 1 : 0)
        .push(utl::all_of(v, [&](int x) { return x != key; }) ? 1 : 0);
  } else if (op == "flaw") {  // one element of an otherwise constant range differs
    V w(static_cast<std::size_t>(n), 5), u = w;
    w[static_cast<std::size_t>(pos)] = k;
    r.push(utl::is_uniform(w) ? 1 : 0).push(utl::is_uniform(w.begin(), w.end()) ? 1 : 0).push(utl::is_uniform(w.begin(), w.end(), [](int x) { return x; }) ? 1 : 0)
        .push(utl::equal(u, w) ? 1 : 0).push(utl::is_sorted(w, std::less<>{}) ? 1 : 0)
        .push(utl::max_element(w, std::less<>{}) - w.begin()).push(utl::min_element(w, std::less<>{}) - w.begin());
    utl::fill(w, 9);
    r.push(utl::is_uniform(w) && w.front() == 9 ? 1 : 0);
  } else if (op == "sort") {
    auto w = stride(n, g, s);
    if (k == 0) utl::sort(w); else if (k == 1) utl::sort(w, std::less<>{}); else utl::nth_element(w, static_cast<std::size_t>(pos));
    if (k < 2) r = shape(w); else r.push(w[static_cast<std::size_t>(pos)]).push(std::count_if(w.begin(), w.begin() + pos, [&](int x) { return x > w[static_cast<std::size_t>(pos)]; }));
  } else _exit(95);
#elif PART == 19
  if (op == "zip") {
    auto a = blocks(n, g);
    std::deque<int> b;
    for (ll j = 0; j < n; ++j) b.push_back(static_cast<int>(j));
    ll cnt = 0, bad = 0;
    for (auto&& [x, y] : utl::zip(a, b)) { if (&x != &a[static_cast<std::size_t>(cnt)] || y != cnt) ++bad; ++cnt; }
    auto const z = utl::zip(a, b);
    r.push(cnt).push(bad).push(std::distance(z.begin(), z.end())).push(std::get<1>(z[static_cast<std::size_t>(pos)]));
  } else {  // lengths that agree only modulo a power of two
    far_range a{at(c["la"])}, b{at(c["lb"])}, d{at(c["la"])};
    auto thr = [&](auto&& f) { try { f(); return 0; } catch (std::exception const&) { return 1; } };
    r.push(thr([&] { utl::zip(a, b); })).push(thr([&] { utl::czip(a, b); })).push(thr([&] { utl::zip(a, d, b); })).push(thr([&] { utl::zip(b, a, d); }));
  }
#elif PART == 20
  if (op == "enum") {
    auto v = blocks(n, g);
    std::list<int> l(v.begin(), v.end());
    ll cnt = 0, bad = 0;
    for (auto [i, x] : utl::enumerate(v)) { if (static_cast<ll>(i) != cnt || &x != &v[static_cast<std::size_t>(cnt)]) ++bad; ++cnt; }
    ll cnt2 = 0;
    for (auto [i, x] : utl::enumerate(l)) { if (static_cast<ll>(i) != cnt2 || x != v[static_cast<std::size_t>(cnt2)]) ++bad; ++cnt2; }
    auto e = utl::enumerate(v);
    r.push(cnt).push(cnt2).push(bad).push(e.end() - e.begin());
  } else if (op == "far") {  // beyond 32 bits
    far_range v{at(c["la"]) + 9};
    auto e = utl::enumerate(v);
    auto it = e.begin();
    it += static_cast<std::ptrdiff_t>(at(c["la"]));
    auto const base = it;
    ++it;
    auto [i, x] = *it;
    auto p = it;
    p += 1;
    auto q = p;
    q -= 2;
    r.push(mb(i)).push(mb(x)).push(mb(std::get<0>(*p))).push(mb(std::get<1>(*q))).push(p - base).push(mb(static_cast<unsigned long long>(p - e.begin()))).push(mb(static_cast<unsigned long long>(e.end() - e.begin())));
  } else if (op == "win") {
    auto v = blocks(n, 1);
    ll cnt = 0, bad = 0, cnt2 = 0;
    for (auto const [x, y, z] : utl::nwise<3>(v)) { if (x != cnt || y != cnt + 1 || z != cnt + 2) ++bad; ++cnt; }
    for (auto const [x, y] : utl::pairwise(v)) { if (x != cnt2 || y != cnt2 + 1) ++bad; ++cnt2; }
    r.push(cnt).push(cnt2).push(bad).push(utl::nwise<3>(v).size()).push(utl::pairwise(v).size()).push(utl::nwise<4>(V{v}).size());
  }
#elif PART == 21
  {
    far x, y;
    auto const A = at(c["la"]), B = at(c["lb"]);
    x += static_cast<std::ptrdiff_t>(A);
    y = y + static_cast<std::ptrdiff_t>(B);
    far z = y - static_cast<std::ptrdiff_t>(B);
    auto d = x - y;
    r.push(mb(*x)).push(mb(*y)).push(mb(*z)).push(mb(static_cast<unsigned long long>(d < 0 ? -d : d))).push(d < 0 ? 1 : 0).push(x < y ? 1 : 0).push(x > y ? 1 : 0).push(x == y ? 1 : 0)
        .push(mb(z[static_cast<std::ptrdiff_t>(A)])).push(x <= y ? 1 : 0).push(x >= y ? 1 : 0).push(x != y ? 1 : 0);
    x -= static_cast<std::ptrdiff_t>(A);
    r.push(mb(*x));
  }
#elif PART == 22 || PART == 23
  auto const len = at(c["la"]);
  auto const mem = static_cast<char*>(mmap(nullptr, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (mem == MAP_FAILED) return J::obj().set("no", true).set("r", r);
  struct un { char* p; unsigned long long n; ~un() { munmap(p, n); } } u{mem, len + 4096};
  for (auto const& x : c["marks"]) mem[at(x)] = static_cast<char>(x[2].n());
  using utl::cstr;
  cstr const t{mem, static_cast<std::size_t>(len)};
  auto view = [&](cstr x) { return J::arr().push(mb(x.len == 0 ? 0 : static_cast<unsigned long long>(x.str - mem))).push(mb(x.len)); };  // where an empty view points is nobody's business
#if PART == 22
  auto const p = at(c["p"]), q = at(c["q"]);
  r.push(view(t.substr(p, utl::size{q}))).push(view(t.substr(std::min(p, q), std::max(p, q)))).push(view(t.substr(p))).push(view(t.substr(utl::field{p, q})));
  auto y = t;
  y += std::min(p, len);
  auto w = t;
  r.push(view(y)).push(view(w + std::min(p, len))).push(mb(t.length())).push(mb(t.view().size())).push(mb(static_cast<unsigned long long>(t.end() - t.begin())));
  r.push(view(utl::get_until(t, static_cast<char>(k)))).push(t.valid() ? 1 : 0).push(t == t.substr(std::min(p, len)) ? 1 : 0).push(t.starts_with(t.substr(0, utl::size{q})) ? 1 : 0);
  r.push(view(cstr{mem, mem + len}));
  auto const front = t.substr(0, utl::size{len - 1}), back = t.substr(1);  // one byte further: the same only if all bytes are
  r.push(front == back ? 1 : 0).push(front != back ? 1 : 0).push(t.starts_with(back) ? 1 : 0);
#else
  auto ts = J::arr();
  if (op == "tok") utl::for_each_token(t, ',', [&](cstr x) { if (ts.size() < 30) ts.push(view(x)); });
  else if (op == "tokb") utl::for_each_token(t, ',', [&](cstr x) { if (ts.size() < 30) ts.push(view(x)); return utl::continue_t::kContinue; });
  else if (op == "num") utl::for_each_token_numbered(t, ',', [&](cstr x, int) { if (ts.size() < 30) ts.push(view(x)); });
  else if (op == "line") utl::for_each_line(t, [&](cstr x) { if (ts.size() < 30) ts.push(view(x)); });
  else if (op == "iter") { for (auto const x : utl::lines{t}) if (ts.size() < 30) ts.push(view(x)); }
  else if (op == "skip") ts.push(view(utl::skip_lines(t, [&, n = 0](cstr) mutable { return n++ < k; })));
  else if (op == "many") {  // very many short tokens
    std::string text;
    for (ll j = 0; j < n; ++j) { if (j) text += s == 0 ? ',' : '\n'; text.append(static_cast<std::size_t>(j % g), 'x'); }
    cstr const x{text};
    ll cnt = 0, bad = 0, odd = 0;
    auto see = [&](cstr z, ll num) { if (num != cnt + 1) ++bad; if (static_cast<ll>(z.len) != cnt % g) ++odd; ++cnt; };
    if (s == 0 && k == 0) utl::for_each_token(x, ',', [&](cstr z) { see(z, cnt + 1); });
    if (s == 0 && k == 1) utl::for_each_token_numbered(x, ',', [&](cstr z, auto num) { see(z, num); });
    if (s == 1 && k == 0) utl::for_each_line(x, [&](cstr z) { see(z, cnt + 1); });
    if (s == 1 && k == 1) utl::for_each_line_numbered(x, [&](cstr z, auto num) { see(z, num); });
    if (s == 1 && k == 2) for (auto const& z : utl::lines{x}) see(z, cnt + 1);
    if (s == 1 && k == 3) { auto it = utl::lines{x}.begin() + static_cast<std::ptrdiff_t>(pos); cnt = pos; for (; it != utl::lines{x}.end(); ++it) see(*it, cnt + 1); }
    ts.push(J::arr().push(cnt).push(bad).push(odd));
  }
  r = ts;
#endif
#elif PART == 25
  std::string text = "A,B";
  for (ll j = 0; j < n; ++j) { text += "\n" + std::to_string(j) + ","; text.append(static_cast<std::size_t>(j == pos ? m : j % g), 'y'); }
  if (s == 1) text += "\n";
  V ids;
  ll odd = 0, longest = 0;
  auto see = [&](int a, std::string const& b) { if (static_cast<ll>(b.size()) != (a == pos ? m : a % g)) ++odd; longest = std::max(longest, static_cast<ll>(b.size())); ids.push_back(a); };
  if (k == 0) for (auto const& [a, b] : utl::read<std::tuple<int, std::string>>(cstr{text}, {{"A", "B"}})) see(a, b);
  if (k == 1) utl::line_range{utl::make_buf_reader(cstr{text})} | utl::csv<S>() | utl::for_each([&](S const& x) { see(*x.a_, *x.b_); });
  r = shape(ids);
  r.push(odd).push(longest);
#elif PART == 30
  auto gen = count_to(static_cast<int>(n));
  V out;
  if (k == 0) out = gen.to_vec();
  if (k == 1) while (gen) out.push_back(gen());
  if (k == 2) { for (ll j = 0; j < pos; ++j) out.push_back(gen()); auto g2 = std::move(gen); auto rest = g2.to_vec(); out.insert(out.end(), rest.begin(), rest.end()); }
  r = shape(out);
#endif
  return J::obj().set("r", r);
}
HARNESS(run)
