// C25/C26: CSV through the buffer interface, the streaming interface and split
#include <cmath>
#include <memory>
#include "utl/parser/buf_reader.h"
#include "utl/parser/csv.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "utl/parser/split.h"
#include "utl/pipes/all.h"
#include "utl/pipes/for_each.h"
#include "utl/pipes/remove_if.h"
#include "utl/pipes/transform.h"
#include "utl/pipes/vec.h"
#include "common.h"
using utl::cstr;
using gstr = cista::raw::generic_string;
using std::string;
using utl::csv_col;

struct S1 { csv_col<string, UTL_NAME("A")> a_{string{"zz"}}; csv_col<int, UTL_NAME("AB")> b_{7}; csv_col<cstr, UTL_NAME("B")> c_{cstr{"dd"}}; auto cista_members() { return std::tie(a_, b_, c_); } };
struct S2 { csv_col<gstr, UTL_NAME("A")> a_; csv_col<double, UTL_NAME("AB")> b_{1.5}; csv_col<bool, UTL_NAME("B")> c_{true}; auto cista_members() { return std::tie(a_, b_, c_); } };
struct S3 { csv_col<string, UTL_NAME("A")> a_; csv_col<int, UTL_NAME("AB")> b_; csv_col<string, UTL_NAME("B")> c_; auto cista_members() { return std::tie(a_, b_, c_); } };
struct S4 { csv_col<cstr, UTL_NAME("A")> a_; csv_col<cstr, UTL_NAME("AB")> b_; csv_col<cstr, UTL_NAME("B")> c_; auto cista_members() { return std::tie(a_, b_, c_); } };
struct S5 { csv_col<float, UTL_NAME("A")> a_; csv_col<std::int64_t, UTL_NAME("AB")> b_; csv_col<unsigned, UTL_NAME("B")> c_{3u}; auto cista_members() { return std::tie(a_, b_, c_); } };
using T5 = std::tuple<float, std::int64_t, unsigned>;
using T1 = std::tuple<string, int, cstr>;
using T2 = std::tuple<gstr, double, bool>;
using T3 = std::tuple<string, int, string>;
using T4 = std::tuple<cstr, cstr, cstr>;
static utl::column_mapping<T1> const cols{{"A", "AB", "B"}};

static char const *lo, *hi;  // the input
static bool within;
static J val(string const& s) { return hj::bytes(s); }
static J val(gstr const& s) { if (!s.is_owning() && s.size() != 0 && (s.data() < lo || s.data() + s.size() > hi)) within = false; return hj::bytes(s.view()); }
static J val(cstr s) { return hj::bytes(s.view()); }
template <typename I> requires(std::is_integral_v<I> && !std::is_same_v<I, bool>) J val(I v) { return hj::bytes(std::to_string(v)); }
template <std::same_as<bool> B> J val(B v) { return hj::bytes(v ? "1" : "0"); }
static J val(double v) { return hj::bytes(std::isfinite(v) && std::fabs(v) < 4e15 ? std::to_string(std::llround(v * 1000.0)) : string{"x"}); }
static J piece(cstr s) { return s.str == nullptr ? J::arr() : J::arr().push(static_cast<long long>(s.str - lo)).push(s.len); }
static bool pieces;
template <typename V> J show(V const& v) {
  if constexpr (std::is_same_v<V, cstr>) if (pieces) return piece(v);
  return val(v);
}
template <typename... Ts> J rec(std::tuple<Ts...> const& t, int = 0) {
  J j = J::arr();
  std::apply([&](auto const&... x) { (j.push(show(x)), ...); }, t);
  return j;
}
template <typename C> J field(C& c, int k) {
  using T = std::decay_t<decltype(c.val())>;
  switch (k % 5) {
    case 0: return show(c.val());
    case 1: return show(*c);
    case 2: return show(*std::as_const(c));
    case 3: return show(*c.operator->());
    default: return show(static_cast<T>(c));
  }
}
template <typename S> requires requires(S s) { s.cista_members(); } J rec(S s, int k = 0) {
  J j = J::arr();
  j.push(field(s.a_, k)).push(field(s.b_, k + 1)).push(field(s.c_, k + 2));
  return j;
}
static string path() { return string{getenv("HARNESS_SCRATCH")} + "/f" + std::to_string(getpid()); }
static void put(string const& s) { auto f = fopen(path().c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }

template <typename T> T prefilled() {
  T t{};
  if constexpr (std::is_same_v<T, T1>) t = T{"old", 99, "old"};
  if constexpr (std::is_same_v<T, T3>) t = T{"old", 99, "old"};
  if constexpr (std::is_same_v<T, T2>) t = T{gstr{"old", cista::owning_t{}}, 9.0, true};
  return t;
}
template <typename T, typename S, char Sep> J table(J const& c, string const& text, cstr s) {
  auto const mode = c["mode"].str();
  J out = J::obj();
  J recs = J::arr();
  out.set("thr", false);
  int k = 0;
  auto all = [&](auto const& v) { for (auto const& x : v) recs.push(rec(x, k++)); };
  try {
    if (mode == "vec") all(utl::read<T, Sep>(s, cols));
    else if (mode == "into") { std::vector<T> v(static_cast<std::size_t>(c["pre"].n()), prefilled<T>()); utl::read<T, Sep>(s, v, cols); all(v); }
    else if (mode == "file") { put(text); auto p = path(); all(utl::read_file<T, string, Sep>(p, cols)); }
    else if (mode == "fileinto") { put(text); std::vector<T> v(static_cast<std::size_t>(c["pre"].n()), prefilled<T>()); utl::read_file<T, Sep>(path().c_str(), v, cols); all(v); }
    else if (mode == "lines") all(utl::line_range{utl::make_buf_reader(s)} | utl::csv<S, Sep>() | utl::vec());
    else if (mode == "each") utl::line_range{utl::make_buf_reader(s)} | utl::csv<S, Sep>() | utl::for_each([&](auto&& x) { recs.push(rec(S(x), k++)); });
    else if (mode == "xform") all(utl::line_range{utl::make_buf_reader(s)} | utl::csv<S, Sep>() | utl::transform([](auto&& x) { return S(x); }) | utl::vec());
    else if (mode == "walk") {
      auto r = utl::line_range{utl::make_buf_reader(s)} | utl::csv<S, Sep>();
      for (auto it = r.begin(); r.valid(it); r.next(it)) recs.push(rec(S(r.read(it)), k++));
    }
    else if (mode == "mmap") { put(text); all(utl::line_range{utl::mmap_reader{path().c_str()}} | utl::csv<S, Sep>() | utl::vec()); }
    else if (mode == "split") {
      auto const sp = [&]<typename... Ts>(std::tuple<Ts...>*) { return utl::split<Sep, Ts...>(s); };
      recs.push(rec(sp(static_cast<T*>(nullptr))));
    } else _exit(88);
  } catch (std::runtime_error const&) { out.set("thr", true); recs = J::arr(); }
  return out.set("recs", recs);
}
template <typename T, typename S> J seps(J const& c, string const& text, cstr s) {
  switch (c["sep"].n()) {
    case ',': return table<T, S, ','>(c, text, s);
    case ';': return table<T, S, ';'>(c, text, s);
    case '\t': return table<T, S, '\t'>(c, text, s);
    case '$': return table<T, S, '$'>(c, text, s);
  }
  _exit(89);
}
static J go(J const& c) {
  auto const text = c["text"].bytes();
  exact e{text};
  lo = e.p; hi = e.p + e.n;
  within = true;
  pieces = c["pieces"].n() == 1;
  cstr s{static_cast<char const*>(e.p), e.n};
  auto const k = c["cfg"].str();
  J o;
  if (k == "k1") o = seps<T1, S1>(c, text, s);
  else if (k == "k2") o = seps<T2, S2>(c, text, s);
  else if (k == "k3") o = seps<T3, S3>(c, text, s);
  else if (k == "k4") o = seps<T4, S4>(c, text, s);
  else if (k == "k5") o = seps<T5, S5>(c, text, s);
  else _exit(87);
  return o.set("within", within).set("same", e.n == 0 || memcmp(e.p, text.data(), e.n) == 0);
}
HARNESS(go)
