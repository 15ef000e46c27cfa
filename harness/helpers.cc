// C32: verify*, match, overloaded, printable_enum, for_each_set_bit
#include "clock.h"
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <variant>
#include <vector>
#include "utl/for_each_bit_set.h"
#include "utl/match.h"
#include "utl/overloaded.h"
#include "utl/printable_enum.h"
#include "utl/verify.h"
#include "common.h"
struct grab {  // std::clog into a string
  grab() : old{std::clog.rdbuf(b.rdbuf())} {}
  ~grab() { std::clog.rdbuf(old); }
  std::ostringstream b;
  std::streambuf* old;
};
#if PART == 1
// ---------------------------------------------------------------- checks
struct my { int n; };
struct sub : std::logic_error { explicit sub(int x) : std::logic_error{"sub"}, n{x} {} int n; };
static int ce, fe, ae[3];
static bool cnd(bool b) { ++ce; return b; }
template <typename T> T const& arg(int k, T const& t) { ++ae[k]; return t; }
static std::string_view fmtx(std::string_view s) { ++fe; return s; }
template <typename... A> void call(std::string const& api, bool cond, std::string const& f, A const&... a) {
  [&]<std::size_t... I>(std::index_sequence<I...>) {
    if (api == "verify") utl::verify(cnd(cond), fmtx(f), arg(static_cast<int>(I), a)...);
    else if (api == "silent") utl::verify_silent(cnd(cond), fmt::runtime(fmtx(f)), arg(static_cast<int>(I), a)...);
    else if (api == "utlv") utl_verify(cnd(cond), fmtx(f), arg(static_cast<int>(I), a)...);
    else _exit(80);
  }(std::index_sequence_for<A...>{});
}
template <typename... A> void build(std::string const& api, bool cond, std::string const& f, J const& args, A const&... a) {
  constexpr auto k = sizeof...(A);
  if (k == args.size()) {
    if constexpr (k != 0) call(api, cond, f, a...);
    else if (api == "utlv") _exit(81);
    else if (api == "verify") utl::verify(cnd(cond), fmtx(f));
    else utl::verify_silent(cnd(cond), fmt::runtime(fmtx(f)));
    return;
  }
  if constexpr (k < 3) {
    auto const& x = args[k];
    auto const ty = x["ty"].str();
    if (ty == "i") build(api, cond, f, args, a..., x["n"].n());
    else if (ty == "c") build(api, cond, f, args, a..., static_cast<char>(x["n"].n()));
    else if (ty == "b") build(api, cond, f, args, a..., x["n"].n() == 1);
    else if (ty == "u") build(api, cond, f, args, a..., std::strtoull(x["t"].bytes().c_str(), nullptr, 10));
    else if (ty == "s") build(api, cond, f, args, a..., x["t"].bytes());
    else if (ty == "v") { auto const s = x["t"].bytes(); exact e{s}; build(api, cond, f, args, a..., std::string_view{e.p, e.n}); }
    else if (ty == "p") { auto const s = x["t"].bytes(); char const* p = s.c_str(); build(api, cond, f, args, a..., p); }
    else _exit(82);
  } else _exit(83);
}
static J checks(J const& c) {
  std::string f;
  for (auto const& p : c["pieces"]) {
    if (p["k"].str() == "lit") for (auto const ch : p["t"].bytes()) { f += ch; if (ch == '{' || ch == '}') f += ch; }
    else f += c["explicit"].num() ? "{" + std::to_string(p["n"].num() - 1) + "}" : "{}";
  }
  auto const api = c["api"].str();
  auto const cond = c["cond"].num() != 0;
  ce = fe = ae[0] = ae[1] = ae[2] = 0;
  J o = J::obj();
  std::string tag, what;
  int n = 0;
  std::string log;
  {
    grab g;
    clk_wall_s = c["day"].num() * 86400 + c["sec"].num();
    clk_armed = true;
    try {
      if (api == "ex") {
        auto const e = c["ex"].str();
        auto const v = c["n"].n();
        ++fe;
        if (e == "re") { auto const x = std::runtime_error{std::to_string(v)}; utl::verify_ex(cnd(cond), x); }
        else if (e == "int") utl::verify_ex(cnd(cond), int{v});
        else if (e == "my") { my x{v}; utl::verify_ex(cnd(cond), x); if (x.n != v) n = -1; }
        else if (e == "sub") utl::verify_ex(cnd(cond), sub{v});
        else _exit(84);
      } else build(api, cond, f, c["args"]);
      tag = "";
    } catch (sub const& e) { tag = "sub"; n = e.n; }
    catch (my const& e) { tag = "my"; n = e.n; }
    catch (int e) { tag = "int"; n = e; }
    catch (std::runtime_error const& e) { tag = typeid(e) == typeid(std::runtime_error) ? "re" : "other"; what = e.what(); if (api == "ex") n = atoi(what.c_str()); }
    catch (...) { tag = "other"; }
    clk_armed = false;
    log = g.b.str();
  }
  J a = J::arr();
  for (std::size_t k = 0; k < c["args"].size(); ++k) a.push(ae[k]);
  return o.set("thrown", !tag.empty()).set("tag", tag).set("n", n).set("what", hj::bytes(what)).set("log", hj::bytes(log)).set("ce", ce).set("fe", fe).set("ae", a);
}
#endif
static std::vector<int> called;
static void const* passed;
#if PART == 2
// ---------------------------------------------------------------- match
struct Base { virtual ~Base() = default; int b{1}; };
struct A : virtual Base { int a{2}; };
struct B : virtual Base { int x{3}; };
struct C : A { int c{4}; };
struct D final : C { int d{5}; };
struct M : A, B { int m{6}; };
template <typename Ptr> struct On {  // a handler with its position
  int k;
  int operator()(Ptr p) const { called.push_back(k); passed = dynamic_cast<void const*>(p); return k * 7; }
};
template <typename Ptr> struct OnMut {
  int k;
  int operator()(Ptr p) { called.push_back(k); passed = dynamic_cast<void const*>(p); return k * 7; }
};
// function pointers carry no state: one slot per class, the position is noted before the call
template <typename Cls> int slot;
template <typename Ptr> int on_fn(Ptr p) { called.push_back(slot<Ptr>); passed = dynamic_cast<void const*>(p); return slot<Ptr> * 7; }
template <bool Const, typename T> using ptr_t = std::conditional_t<Const, T const*, T*>;
template <bool Const, int N, typename P, typename... H> int dispatch(P p, J const& hs, H... h) {
  constexpr auto k = sizeof...(H);
  if (k == hs.size()) {
    if constexpr (k == 0) _exit(85);
    else if constexpr (k % 2 == 0) return utl::match(p, h...);
    else return utl::match(std::move(p), std::move(h)...);
  }
  if constexpr (k < N) {
    auto const n = hs[k].str();
    int const i = static_cast<int>(k) + 1;
    if (n == "Base") return dispatch<Const, N>(p, hs, h..., On<ptr_t<Const, Base>>{i});
    if (n == "A") return dispatch<Const, N>(p, hs, h..., OnMut<ptr_t<Const, A>>{i});
    if (n == "B") {
      bool seen = false;
      for (std::size_t j = 0; j < k; ++j) seen = seen || hs[j].str() == "B";
      if (!seen) slot<ptr_t<Const, B>> = i;
      return dispatch<Const, N>(p, hs, h..., &on_fn<ptr_t<Const, B>>);
    }
    if (n == "C") return dispatch<Const, N>(p, hs, h..., On<ptr_t<Const, C>>{i});
    if (n == "D") return dispatch<Const, N>(p, hs, h..., OnMut<ptr_t<Const, D>>{i});
    if (n == "M") return dispatch<Const, N>(p, hs, h..., On<ptr_t<Const, M>>{i});
    _exit(86);
  }
  _exit(87);
}
static J matches(J const& c) {
  auto const dyn = c["dyn"].str();
  auto const par = c["par"].str();
  std::unique_ptr<Base> o;
  A* a = nullptr;
  auto const as_a = [&](auto p) { a = p.get(); o = std::move(p); };
  if (dyn == "Base") o = std::make_unique<Base>();
  else if (dyn == "A") as_a(std::make_unique<A>());
  else if (dyn == "B") o = std::make_unique<B>();
  else if (dyn == "C") as_a(std::make_unique<C>());
  else if (dyn == "D") as_a(std::make_unique<D>());
  else if (dyn == "M") as_a(std::make_unique<M>());
  else if (dyn != "null") _exit(88);
  void const* const self = o ? dynamic_cast<void const*>(o.get()) : nullptr;
  called.clear();
  passed = nullptr;
  int ret = 0;
  std::string thr;
  try {
    if (par == "Base") ret = dispatch<false, 3>(o.get(), c["hs"]);
    else if (par == "CBase") ret = dispatch<true, 2>(static_cast<Base const*>(o.get()), c["hs"]);
    else if (par == "A") ret = dispatch<false, 2>(a, c["hs"]);
    else _exit(89);
  } catch (std::runtime_error const&) { thr = "re"; }
  catch (...) { thr = "other"; }
  return J::obj().set("called", J(called)).set("same", passed == self).set("ret", ret).set("thr", thr);
}
#endif
#if PART == 3 || PART == 4
// ---------------------------------------------------------------- overloaded
struct Bs { int v{1}; };
struct Dv : Bs { int w{2}; };
template <int T> struct ty;
template <> struct ty<0> { using t = int; static constexpr char const* n = "int"; };
template <> struct ty<1> { using t = long; static constexpr char const* n = "long"; };
template <> struct ty<2> { using t = double; static constexpr char const* n = "double"; };
template <> struct ty<3> { using t = std::string; static constexpr char const* n = "string"; };
template <> struct ty<4> { using t = Bs; static constexpr char const* n = "Bs"; };
template <> struct ty<5> { using t = Dv; static constexpr char const* n = "Dv"; };
template <> struct ty<6> { using t = char const*; static constexpr char const* n = "pc"; };
constexpr int TN = 7;
// R: void (for visit), int, long (handlers that are not const)
template <int T, typename R> struct Ov {
  int k;
  R operator()(typename ty<T>::t const& x) const { called.push_back(k); passed = &x; if constexpr (!std::is_void_v<R>) return k * 7; }
};
template <int T, typename R> struct OvVal {
  int k;
  R operator()(typename ty<T>::t) const { called.push_back(k); passed = nullptr; if constexpr (!std::is_void_v<R>) return k * 7; }
};
template <int T> struct OvMut {
  int k;
  int operator()(typename ty<T>::t const& x) { called.push_back(k); passed = &x; return k * 7; }
};
template <int T, typename R> using ov = std::conditional_t<std::is_same_v<R, long>, OvMut<T>, std::conditional_t<T % 2 == 0, Ov<T, R>, OvVal<T, R>>>;
template <typename F, typename X> int invoke_it(F&& f, X&& x) {
  if constexpr (std::is_void_v<decltype(f(std::forward<X>(x)))>) { f(std::forward<X>(x)); return -1; }
  else return f(std::forward<X>(x));
}
using var = std::variant<int, long, double, std::string, Bs, Dv, char const*>;
static char const lit[] = "lit";
template <typename R, typename... H> J use(J const& c, std::string const& how, H... h) {
  auto const t = c["t"].str();
  J o = J::obj();
  called.clear();
  passed = nullptr;
  int ret = 0;
  bool same = true;
  auto const arg = [&](auto x) {
    if constexpr (std::is_void_v<R>) {
      var v{x};
      std::visit(utl::overloaded{h...}, v);
      same = passed == nullptr || std::visit([](auto const& e) { return static_cast<void const*>(&e); }, v) == passed;
      return;
    }
    auto f = utl::overloaded{h...};
    if (how == "rv") ret = invoke_it(f, std::move(x));
    else if (how == "lv") ret = invoke_it(f, x);
    else { auto const y = x; ret = invoke_it(f, y); same = passed == nullptr || passed == &y; }
    if (how == "lv") same = passed == nullptr || passed == &x;
  };
  if (t == "int") arg(int{3});
  else if (t == "long") arg(3L);
  else if (t == "double") arg(2.5);
  else if (t == "string") arg(std::string{"abc"});
  else if (t == "Bs") arg(Bs{});
  else if (t == "Dv") arg(Dv{});
  else if (t == "pc") {
    if (how == "arr") { auto f = utl::overloaded{h...}; ret = invoke_it(f, lit); }
    else arg(static_cast<char const*>(lit));
  } else _exit(90);
  return o.set("called", J(called)).set("same", same).set("ret", ret);
}
template <typename R, int From, int N, typename... H> J pick(J const& c, std::string const& how, H... h) {
  constexpr auto k = sizeof...(H);
  auto const& hs = c["hs"];
  if (k == hs.size()) {
    if constexpr (k != 0) return use<R>(c, how, h...);
    else _exit(91);
  }
  if constexpr (k < N) {
    J r;
    bool done = false;
    [&]<std::size_t... T>(std::index_sequence<T...>) {
      (([&] {
         if constexpr (static_cast<int>(T) >= From)
           if (!done && hs[k].str() == ty<static_cast<int>(T)>::n) { done = true; r = pick<R, static_cast<int>(T) + 1, N>(c, how, h..., ov<static_cast<int>(T), R>{static_cast<int>(k) + 1}); }
       }()),
       ...);
    }(std::make_index_sequence<TN>{});
    if (!done) _exit(92);
    return r;
  }
  _exit(93);
}
#endif
#if PART == 5
// ---------------------------------------------------------------- enums
#include "enums.inc"
static J enums(J const& c) {
  J a = J::arr(), b = J::arr();
  enum_names(c["n"].n(), a, b);
  return J::obj().set("str", a).set("stream", b);
}
// ---------------------------------------------------------------- bits
template <typename T> J bits(J const& masks, bool narrow) {
  J o = J::arr();
  for (auto const& m : masks) {
    std::uint64_t v = 0;
    if (narrow) v = static_cast<std::uint64_t>(m.num());
    else for (auto const& b : m) v |= std::uint64_t{1} << b.num();
    auto const t = static_cast<T>(v);
    J vis = J::arr(), has = J::arr();
    bool plain = true;
    utl::for_each_set_bit(t, [&](auto const b) { plain = plain && std::is_same_v<decltype(b), unsigned const>; vis.push(b); });
    J e = J::obj().set("visited", vis);
    if (!narrow) {
      for (unsigned b = 0; b < sizeof(T) * 8; ++b) if (utl::has_bit_set(t, b)) has.push(b);
      e.set("has", has).set("plain", plain);
    }
    o.push(e);
  }
  return J::obj().set("seen", o);
}
#endif
static J go(J const& c) {
  auto const fn = c["fn"].str();
#if PART == 1
  return checks(c);
#elif PART == 2
  return matches(c);
#elif PART == 3
  return pick<int, 0, 3>(c, c["how"].str());
#elif PART == 4
  auto const how = c["how"].str();
  return how == "visit" ? pick<void, 0, 2>(c, how) : pick<long, 0, 2>(c, "lv");
#else
  if (fn == "enum") return enums(c);
  auto const ty = c["ty"].str();
  auto const nw = fn == "narrow";
  auto const& m = c["masks"];
  if (ty == "u8") return bits<std::uint8_t>(m, nw);
  if (ty == "i8") return bits<std::int8_t>(m, nw);
  if (ty == "u16") return bits<std::uint16_t>(m, nw);
  if (ty == "i16") return bits<std::int16_t>(m, nw);
  if (ty == "u32") return bits<std::uint32_t>(m, nw);
  if (ty == "i32") return bits<std::int32_t>(m, nw);
  if (ty == "u64") return bits<std::uint64_t>(m, nw);
  if (ty == "i64") return bits<std::int64_t>(m, nw);
  _exit(94);
#endif
}
HARNESS(go)
