// C22 view programs, C23 tokens and lines
#include "utl/parser/cstr.h"
#include "common.h"
using utl::cstr;

static char const* base;
static J view(cstr s) { return J::arr().push(s.data() == nullptr ? -1 : static_cast<long long>(s.data() - base)).push(s.length()); }
static J vres(cstr s) { return J::arr().push("v").push(s.data() == nullptr ? -1 : static_cast<long long>(s.data() - base)).push(s.length()); }
static J ires(long long x) { return J::arr().push("i").push(x); }
static std::size_t arg(long long a) { return a == -1 ? static_cast<std::size_t>(-1) : a == -2 ? static_cast<std::size_t>(-2) : a == -3 ? static_cast<std::size_t>(utl::field::MAX_SIZE) : static_cast<std::size_t>(a); }

static J program(J const& c) {
  auto const t = c["t"].bytes();
  auto const ctor = c["ctor"].str();
  exact e{t};
  base = e.p;
  std::string st;
  cstr s;
  if (ctor == "str") { st = t; base = st.data(); s = cstr{st}; }
  else if (ctor == "sv") s = cstr{std::string_view{e.p, e.n}};
  else if (ctor == "pl") s = cstr{static_cast<char const*>(e.p), e.n};
  else if (ctor == "ul") s = cstr{reinterpret_cast<unsigned char const*>(e.p), e.n};
  else if (ctor == "be") s = cstr{static_cast<char const*>(e.p), static_cast<char const*>(e.p + e.n)};
  else if (ctor == "asg") s.assign(e.p, e.n);
  else if (ctor == "null") s = cstr{nullptr, std::size_t{0}};
  else if (ctor == "def") s = cstr{};
  else if (ctor == "cz") { st = t; st.push_back('\0'); st.shrink_to_fit(); base = st.data(); s = cstr{st.c_str()}; }
  else _exit(88);
  J out = J::obj();
  out.set("v0", view(s));
  J res = J::arr(), views = J::arr();
  for (auto const& o : c["ops"]) {
    auto const op = o[0].str();
    bool const upd = o[1].n() == 1;
    auto num = [&](int k) { return o[k].num(); };
    auto sz = [&](int k) { return arg(o[k].num()); };
    cstr const& cs = s;
    J r;
    cstr nv = s;
    bool have = false;
    auto out_v = [&](cstr x) { nv = x; have = true; r = vres(x); };
    auto with = [&](int k, auto&& fn) {
      auto const b = o[k].bytes();
      exact ex{b};
      fn(b.empty() && (k + res.size()) % 2 ? cstr{} : cstr{static_cast<char const*>(ex.p), ex.n});
    };
    auto const skip = [&] { r = J::arr().push("skip"); };
    if (op == "inc") { if (s.len) { cstr& x = ++s; r = vres(x); if (&x != &s) _exit(86); } else skip(); }
    else if (op == "padd") { if (sz(2) <= s.len) { cstr& x = (s += sz(2)); r = vres(x); if (&x != &s) _exit(86); } else skip(); }
    else if (op == "plus") { if (sz(2) <= s.len) out_v(s + sz(2)); else skip(); }
    else if (op == "sub2") out_v(cs.substr(sz(2), sz(3)));
    else if (op == "subs") out_v(cs.substr(sz(2), utl::size{sz(3)}));
    else if (op == "sub1") out_v(cs.substr(sz(2)));
    else if (op == "subf") out_v(cs.substr(utl::field{sz(2), sz(3)}));
    else if (op == "trf") out_v(cs.skip_whitespace_front());
    else if (op == "trb") out_v(cs.skip_whitespace_back());
    else if (op == "trim") out_v(cs.trim());
    else if (op == "cr") out_v(utl::strip_cr(s));
    else if (op == "until") out_v(utl::get_until(s, static_cast<char>(num(2))));
    else if (op == "line") out_v(utl::get_line(s));
    else if (op == "copy") out_v(cstr{cs});
    else if (op == "at") { if (sz(2) < s.len) r = ires(static_cast<unsigned char>(cs[sz(2)])); else skip(); }
    else if (op == "len") r = ires(static_cast<long long>(cs.length()));
    else if (op == "empty") r = ires(cs.empty());
    else if (op == "valid") { r = ires(cs.valid()); if (static_cast<bool>(cs) != cs.valid()) r = ires(7); }
    else if (op == "has") with(2, [&](cstr n) { r = ires(cs.contains(n)); });
    else if (op == "starts") with(2, [&](cstr n) { r = ires(cs.starts_with(n)); });
    else if (op == "soff") with(2, [&](cstr n) { if (n.len == 0 && s.len == 0) { skip(); return; } auto p = s.substr_offset(n); r = ires(p == std::numeric_limits<std::size_t>::max() ? -1 : static_cast<long long>(p)); });
    else if (op == "eq") with(2, [&](cstr n) { r = ires(cs == n); });
    else if (op == "ne") with(2, [&](cstr n) { r = ires(cs != n); });
    else if (op == "lt") with(2, [&](cstr n) { r = ires(cs < n); });
    else if (op == "gt") with(2, [&](cstr n) { r = ires(n < cs); });
    else if (op == "space") r = ires(cstr::is_space(static_cast<char>(num(2))));
    else if (op == "str") r = J::arr().push("s").push(hj::bytes(s.len ? cs.to_str() : std::string{}));
    else if (op == "sv") { r = J::arr().push("s").push(hj::bytes(static_cast<std::string_view>(s))); if (cs.view() != static_cast<std::string_view>(s)) _exit(85); }
    else if (op == "bytes") { J a = J::arr(); for (auto ch : cs) a.push(static_cast<int>(static_cast<unsigned char>(ch))); r = J::arr().push("s").push(a); }
    else if (op == "rev") { J a = J::arr(); for (auto p = begin(cs); p != end(cs); ++p) a.push(static_cast<int>(static_cast<unsigned char>(*p))); r = J::arr().push("s").push(a); if (cs.data() != cs.c_str()) _exit(84); }
    else _exit(87);
    if (have && upd) s = nv;
    res.push(r);
    views.push(view(s));
  }
  return out.set("res", res).set("view", views);
}

static J walk(J const& c) {
  auto const t = c["t"].bytes();
  exact e{t};
  base = e.p;
  cstr const s{static_cast<char const*>(e.p), e.n};
  auto const fn = c["fn"].str();
  int const k = c["k"].n();
  char const sep = static_cast<char>(c["sep"].n());
  J ev = J::arr(), out = J::obj();
  auto add = [&](cstr x) { ev.push(view(x)); };
  if (fn == "tok") utl::for_each_token(s, sep, [&](cstr x) { add(x); });
  else if (fn == "toknum") utl::for_each_token_numbered(s, sep, [&](cstr x, int n) { ev.push(view(x).push(n)); });
  else if (fn == "tokbrk") { int n = 0; utl::for_each_token(s, sep, [&](cstr x) { add(x); return ++n == k ? utl::continue_t::kBreak : utl::continue_t::kContinue; }); }
  else if (fn == "line") utl::for_each_line(s, [&](cstr x) { add(x); });
  else if (fn == "linenum") utl::for_each_line_numbered(s, [&](cstr x, unsigned n) { ev.push(view(x).push(n)); });
  else if (fn == "iter") for (auto const& x : utl::lines{s}) add(x);
  else if (fn == "iterpost") { auto const l = utl::lines{s}; for (auto it = begin(l); it != end(l);) { auto const prev = it++; add(*prev); } }
  else if (fn == "iterv") { auto const l = utl::lines{s}; auto it = l.begin(); while (!(it == l.end())) { ev.push(view(cstr{it->data(), it->length()})); ++it; } }
  else if (fn == "iterat") {
    auto const l = utl::lines{s};
    int n = 0;
    for (auto it = l.begin(); it != l.end(); ++it) ++n;
    auto const at = std::min(k, n);
    auto it = l.begin() + at;
    auto jt = l.begin();
    jt += at;
    if (!(it == jt)) _exit(84);
    for (; it != l.end(); it += 1) add(*it);
  } else if (fn == "skip") {
    auto const m = c["m"].ints();
    std::size_t n = 0;
    auto const rest = utl::skip_lines(s, [&](cstr x) { add(x); if (n >= m.size()) _exit(83); return m[n++] == 1; });
    out.set("rest", view(rest));
  } else _exit(88);
  return out.set("ev", ev);
}
static J go(J const& c) { return c.has("ops") ? program(c) : walk(c); }
HARNESS(go)
