// C27 numbers and truth values
#include <cmath>
#include <limits>
#include <typeinfo>
#include "utl/parser/arg_parser.h"
#include "common.h"
using utl::cstr;

template <typename T> std::string text(T v) { return std::to_string(v); }
template <> std::string text<signed char>(signed char v) { return std::to_string(static_cast<int>(v)); }
template <> std::string text<unsigned char>(unsigned char v) { return std::to_string(static_cast<int>(v)); }
template <typename T> T from(std::string const& s) { if constexpr (std::is_signed_v<T>) return static_cast<T>(strtoll(s.c_str(), nullptr, 10)); else return static_cast<T>(strtoull(s.c_str(), nullptr, 10)); }

// the error names the text that could not be read
static bool names(std::exception const& e, J const& c) {
  auto const t = c["t"].bytes();
  return t.find('\0') != std::string::npos || std::string{e.what()}.find(t) != std::string::npos;
}
template <typename T> J integer(J const& c, cstr s) {
  auto const api = c["api"].str();
  J o = J::obj();
  T v{static_cast<T>(77)};
  auto const def = from<T>(c["def"].bytes());
  if (api == "arg") { bool const ok = utl::parse_arg(s, v); o.set("ok", ok).set("rest", s.len); }
  else if (api == "argd") { bool const ok = utl::parse_arg(s, v, def); o.set("ok", ok).set("rest", s.len); }
  else if (api == "shift") { auto& r = s >> v; if (&r != &s) _exit(86); o.set("rest", s.len); }
  else if (api == "parse") v = utl::parse<T>(s);
  else if (api == "parsed") v = utl::parse<T>(s, def);
  else if (api == "verify") { try { v = utl::parse_verify<T>(s); o.set("thr", false); } catch (std::runtime_error const& e) { o.set("thr", true).set("named", names(e, c)); } }
  else _exit(88);
  return o.set("val", hj::bytes(text<T>(v)));
}
static J boolean(J const& c, cstr s) {
  auto const api = c["api"].str();
  J o = J::obj();
  bool v = c["v0"].n() == 1;
  bool const def = c["def"].n() == 1;
  if (api == "arg") { bool const ok = utl::parse_arg(s, v); o.set("ok", ok).set("rest", s.len); }
  else if (api == "argd") { bool const ok = utl::parse_arg(s, v, def); o.set("ok", ok).set("rest", s.len); }
  else if (api == "shift") { s >> v; o.set("rest", s.len); }
  else if (api == "parse") v = utl::parse<bool>(s);
  else if (api == "parsed") v = utl::parse<bool>(s, def);
  else if (api == "verify") { try { v = utl::parse_verify<bool>(s); o.set("thr", false); } catch (std::runtime_error const& e) { o.set("thr", true).set("named", names(e, c)); } }
  else _exit(88);
  return o.set("val", v ? 1 : 0);
}
template <typename T> J fp(J const& c, cstr s, std::string const& t) {
  auto const api = c["api"].str();
  J o = J::obj();
  T v{static_cast<T>(77)};
  if (api == "arg") { bool const ok = utl::parse_arg(s, v); o.set("ok", ok).set("rest", s.len); }
  else if (api == "shift") { s >> v; o.set("rest", s.len); }
  else if (api == "parse") v = utl::parse<T>(s);
  else if (api == "verify") { o.set("thr", false); try { v = utl::parse_verify<T>(s); } catch (std::runtime_error const& e) { o.set("thr", true).set("named", names(e, c)); v = 0; } }
  else _exit(88);
  // distance from the nearest representable value, in units in the last place (strtod reads the same decimal prefix)
  T ref;
  std::string plain;
  for (auto ch : t) { if ((ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == '+') { if (ch == '.' && plain.find('.') != std::string::npos) break; if ((ch == '-' || ch == '+') && !plain.empty()) break; plain += ch; } else break; }
  ref = static_cast<T>(strtold(plain.c_str(), nullptr));
  auto const ulp = std::nextafter(std::fabs(ref), std::numeric_limits<T>::infinity()) - std::fabs(ref);
  auto const d = std::fabs(static_cast<long double>(v) - static_cast<long double>(ref)) / ulp;
  bool const thrown = o.has("thr") && o["thr"].b;
  // large values: whole part and thousandths as decimal text
  o.set("whole", std::isfinite(v) && std::fabs(v) < 4e18 ? hj::bytes(std::to_string(static_cast<long long>(v))) : hj::bytes("x"));
  o.set("milli", std::isfinite(v) && std::fabs(v) < 4e15 ? hj::bytes(std::to_string(std::llround(static_cast<double>(v) * 1000.0))) : hj::bytes("x"));
  return o.set("m", std::isfinite(v) && std::fabs(v) < 2e6 ? std::llround(static_cast<double>(v) * 1000.0) : 2000000000LL).set("ulp", thrown ? 0 : d < 1e6 ? static_cast<int>(std::ceil(d)) : 1000000);
}
static J go(J const& c) {
  auto const t = c["t"].bytes();
  exact e{t};
  cstr s{static_cast<char const*>(e.p), e.n};
  auto const fn = c["fn"].str();
  auto const ty = c["ty"].str();
  if (fn == "int") {
    if (ty == "i8") return integer<signed char>(c, s);
    if (ty == "u8") return integer<unsigned char>(c, s);
    if (ty == "i16") return integer<std::int16_t>(c, s);
    if (ty == "u16") return integer<std::uint16_t>(c, s);
    if (ty == "i32") return integer<std::int32_t>(c, s);
    if (ty == "u32") return integer<std::uint32_t>(c, s);
    if (ty == "i64") return integer<std::int64_t>(c, s);
    if (ty == "u64") return integer<std::uint64_t>(c, s);
  }
  if (fn == "bool") return boolean(c, s);
  if (fn == "fp") return ty == "float" ? fp<float>(c, s, t) : fp<double>(c, s, t);
  if (fn == "skip") { utl::skip_line(s); return J::obj().set("rest", s.len); }
  if (fn == "chain") {
    int a = 77;
    unsigned b = 77;
    s >> a >> utl::expect_char<','>{} >> b;
    return J::obj().set("a", hj::bytes(std::to_string(a))).set("b", hj::bytes(std::to_string(b))).set("rest", s.len);
  }
  if (fn == "str") {
    J o = J::obj();
    if (ty == "string") { std::string v = "zz"; utl::parse_arg(s, v); o.set("val", hj::bytes(v)); }
    else if (ty == "cstr") { cstr v{"zz"}; utl::parse_arg(s, v); o.set("val", hj::bytes(v.view())); }
    else if (ty == "gen") { cista::raw::generic_string v; utl::parse_arg(s, v); o.set("val", hj::bytes(v.view())); }
    else if (ty == "path") { std::filesystem::path v{"zz"}; utl::parse_arg(s, v); o.set("val", hj::bytes(v.string())); }
    else if (ty == "parse") o.set("val", hj::bytes(utl::parse<std::string>(s)));
    return o.set("rest", s.len);
  }
  _exit(87);
}
HARNESS(go)
