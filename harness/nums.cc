// C17: terminals over every arithmetic type, scaled values and ranges longer than 16 bit counters.
// A value is m * 2^s of type T; the input is the block m repeated rep times; results are observed as <<quotient by 2^s, rest # 0>>.
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include "utl/pipes.h"
#include "common.h"

template <typename T> T mkv(long long m, int s) {
  if constexpr (std::is_floating_point_v<T>) return static_cast<T>(std::ldexp(static_cast<double>(m), s));
  else return static_cast<T>(m * (1LL << s));
}
template <typename X> J un(X x, int s) {
  auto o = J::arr();
  if constexpr (std::is_floating_point_v<X>) {
    double q = std::ldexp(static_cast<double>(x), -s);
    bool fin = std::isfinite(q) && std::fabs(q) < 1e9;
    return o.push(fin ? static_cast<long long>(std::floor(q)) : -2000000000LL).push(fin && std::floor(q) != q ? 1 : 0);
  } else if constexpr (std::is_unsigned_v<X>) {
    auto w = static_cast<unsigned long long>(x);
    return o.push(static_cast<long long>(w >> s)).push((w & ((1ULL << s) - 1)) != 0 ? 1 : 0);
  } else {
    auto w = static_cast<long long>(x);
    return o.push(w >> s).push((w & ((1LL << s) - 1)) != 0 ? 1 : 0);
  }
}
template <typename T> J iotas(J const& c) {
  using L = std::numeric_limits<T>;
  int const from = c["a"][0].n(), to = c["a"][1].n();
  T const base = c["base"].n() < 0 ? L::min() : c["base"].n() > 0 ? L::max() : T{};
  T f = static_cast<T>(base + from), t = static_cast<T>(base + to);
  auto o = J::arr();
  auto put = [&](T x) { if (o.size() > 50) throw std::runtime_error{"endless"}; o.push(static_cast<long long>(x) - static_cast<long long>(base)); };
  switch (c["variant"].n()) {
    case 0: utl::iota(static_cast<T>(f), static_cast<T>(t)) | utl::for_each(put); break;
    case 1: utl::iota(f, t) | utl::for_each(put); break;
    case 2: { T const f2 = f, t2 = t; utl::iota(f2, t2) | utl::remove_if([](T) { return false; }) | utl::for_each(put); break; }
    case 3: { int n = 0; for (auto x : utl::iota(f, t) | utl::take_while([&](T) { return n < 60; }) | utl::iterable()) { ++n; put(static_cast<T>(x)); } break; }
  }
  if (f != static_cast<T>(base + from) || t != static_cast<T>(base + to)) o.push(-999);
  return o;
}
template <typename T> J run_t(J const& c) {
  auto const op = c["op"].str();
  if (op == "iota") { if constexpr (std::is_integral_v<T>) return iotas<T>(c); else _exit(95); }
  int const s = c["s"].n(), rep = c["rep"].n(), k = c["k"].n(), mask = c["mask"].n();
  auto const m = c["a"].ints();
  std::vector<T> v;
  v.reserve(m.size() * static_cast<std::size_t>(rep));
  for (int r = 0; r < rep; ++r) for (auto x : m) v.push_back(mkv<T>(x, s));
  auto back = [s](T x) { if constexpr (std::is_floating_point_v<T>) return static_cast<int>(std::ldexp(static_cast<double>(x), -s)); else return static_cast<int>(static_cast<long long>(x) / (1LL << s)); };
  auto in = [mask, back](T x) { return ((mask >> (((back(x) % 4) + 4) % 4)) & 1) != 0; };
  if (op == "sum") return k == 0 ? un(utl::all(v) | utl::sum(), s) : k == 1 ? un(utl::all(v) | utl::transform([](T x) { return x; }) | utl::sum(), s) : un(v | utl::sum(), s);
  if (op == "avg") {
    double d = k == 0 ? utl::all(v) | utl::avg() : utl::all(v) | utl::remove_if([](T) { return false; }) | utl::avg();
    return J::arr().push(std::isnan(d) ? -2000000000LL : std::llround(std::ldexp(d, -s) * 360)).push(0);
  }
  if (op == "max") { T init = mkv<T>(c["init"].n(), s); return k == 0 ? un(utl::all(v) | utl::max<T>{init}, s) : un(v | utl::max<T>{init}, s); }
  if (op == "count") return un(k == 0 ? utl::all(v) | utl::count(in) : v | utl::count(in), 0);
  if (op == "wide") {  // the accumulator has its own, wider type
    if constexpr (std::is_floating_point_v<T>) return un(utl::all(v) | utl::accumulate([](double a, T x) { return a + x; }, 0.0), s);
    else return un(utl::all(v) | utl::accumulate([](long long a, T x) { return a + static_cast<long long>(x); }, 0LL), s);
  }
  if (op == "len") {  // how many elements a stage lets through
    std::size_t n = 0;
    auto cnt = [&](T) { ++n; };
    int const p = c["stage"].n();
    if (p == 0) utl::all(v) | utl::remove_if(in) | utl::for_each(cnt);
    if (p == 1) utl::all(v) | utl::unique() | utl::for_each(cnt);
    if (p == 2) utl::all(v) | utl::take_while(in) | utl::for_each(cnt);
    if (p == 3) { auto o = utl::all(v) | utl::transform([](T x) { return x; }) | utl::vec(); n = o.size(); if (o != v) n = 1; }
    if (p == 4) { auto o = utl::all(v) | utl::emplace_back<std::list<T>>(); n = o.size(); if (!std::equal(o.begin(), o.end(), v.begin(), v.end())) n = 1; }
    if (p == 5) { auto o = utl::all(v) | utl::emplace_back_to<std::deque<T>>(); n = o.size(); if (!std::equal(o.begin(), o.end(), v.begin(), v.end())) n = 1; }
    if (p == 6) for (auto const& x : utl::all(v) | utl::iterable()) cnt(x);
    return un(n, 0);
  }
  _exit(95);
}
static J run(J const& c) {
  auto const t = c["t"].str();
  J r = t == "i8" ? run_t<std::int8_t>(c) : t == "u8" ? run_t<std::uint8_t>(c) : t == "i16" ? run_t<std::int16_t>(c) : t == "u16" ? run_t<std::uint16_t>(c)
      : t == "i32" ? run_t<std::int32_t>(c) : t == "u32" ? run_t<std::uint32_t>(c) : t == "i64" ? run_t<std::int64_t>(c) : t == "u64" ? run_t<std::uint64_t>(c)
      : t == "flt" ? run_t<float>(c) : run_t<double>(c);
  return J::obj().set("r", r);
}
HARNESS(run)
