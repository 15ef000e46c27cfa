// Harness runtime: tiny JSON, ndjson case loop, per-case watchdog.
#pragma once
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <concepts>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace hj {
struct J;
// an integer as it is, without wrapping it into a narrower type
long long wide(std::integral auto x) { using U = decltype(x); if constexpr (std::is_unsigned_v<U>) return x > 4000000000000000000ULL ? 4000000000000000000LL : static_cast<long long>(x); else return x; }
using Arr = std::vector<J>;
using Obj = std::vector<std::pair<std::string, J>>;
struct J {
  enum T { NUL, BOOL, INT, STR, ARR, OBJ } t{NUL};
  bool b{};
  long long i{};
  std::string s;
  std::shared_ptr<Arr> a;
  std::shared_ptr<Obj> o;
  J() = default;
  J(bool x) : t{BOOL}, b{x} {}
  template <typename I, typename = std::enable_if_t<std::is_integral_v<I> && !std::is_same_v<I, bool>>>
  J(I x) : t{INT}, i{wide(x)} {}
  J(std::floating_point auto x) : t{INT}, i{x == static_cast<decltype(x)>(static_cast<int>(x)) ? static_cast<long long>(static_cast<int>(x)) : -2000000000LL} {}
  J(char const* x) : t{STR}, s{x} {}
  J(std::string x) : t{STR}, s{std::move(x)} {}
  J(std::string_view x) : t{STR}, s{x} {}
  J(Arr x) : t{ARR}, a{std::make_shared<Arr>(std::move(x))} {}
  template <typename X>
  J(std::vector<X> const& v) : t{ARR}, a{std::make_shared<Arr>()} {
    for (auto const& e : v) a->push_back(J(static_cast<X>(e)));
  }
  static J arr() { return J(Arr{}); }
  static J obj() { J j; j.t = OBJ; j.o = std::make_shared<Obj>(); return j; }
  J& push(J v) { a->push_back(std::move(v)); return *this; }
  J& set(std::string k, J v) {
    for (auto& [kk, vv] : *o) if (kk == k) { vv = std::move(v); return *this; }
    o->emplace_back(std::move(k), std::move(v));
    return *this;
  }
  bool has(std::string_view k) const {
    if (t != OBJ) return false;
    for (auto& [kk, vv] : *o) if (kk == k) return true;
    return false;
  }
  J const& operator[](std::string_view k) const {
    if (t == OBJ) for (auto& [kk, vv] : *o) if (kk == k) return vv;
    fprintf(stderr, "missing key %s\n", std::string(k).c_str());
    _exit(97);
  }
  J const& operator[](char const* k) const { return (*this)[std::string_view{k}]; }
  J const& operator[](std::size_t k) const { return (*a)[k]; }
  J const& operator[](int k) const { return (*a)[static_cast<std::size_t>(k)]; }
  std::size_t size() const { return t == ARR ? a->size() : t == OBJ ? o->size() : 0; }
  auto begin() const { return a->begin(); }
  auto end() const { return a->end(); }
  long long num() const { return t == BOOL ? b : i; }
  int n() const { return static_cast<int>(num()); }
  std::string const& str() const { return s; }
  std::vector<int> ints() const {
    std::vector<int> v;
    for (auto& e : *a) v.push_back(static_cast<int>(e.num()));
    v.shrink_to_fit();
    return v;
  }
  std::string bytes() const {  // array of ints -> string
    std::string v;
    for (auto& e : *a) v.push_back(static_cast<char>(e.num()));
    return v;
  }
};
inline J bytes(std::string_view v) {
  J j = J::arr();
  for (auto c : v) j.push(static_cast<int>(static_cast<unsigned char>(c)));
  return j;
}
inline void esc(std::string& o, std::string_view s) {
  o += '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  o += '"';
}
inline void dump(std::string& out, J const& j) {
  switch (j.t) {
    case J::NUL: out += "0"; break;
    case J::BOOL: out += j.b ? "true" : "false"; break;
    case J::INT: out += std::to_string(j.i > 2000000000 ? 2000000000 : j.i < -2000000000 ? -2000000000 : j.i); break;  // TLC has 32 bit integers
    case J::STR: esc(out, j.s); break;
    case J::ARR: { out += '['; bool f = true; for (auto& e : *j.a) { if (!f) out += ','; f = false; dump(out, e); } out += ']'; break; }
    case J::OBJ: { out += '{'; bool f = true; for (auto& [k, v] : *j.o) { if (!f) out += ','; f = false; esc(out, k); out += ':'; dump(out, v); } out += '}'; break; }
  }
}
struct P {
  char const* p;
  void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
  J val() {
    ws();
    if (*p == '{') {
      ++p; J j = J::obj(); ws();
      if (*p == '}') { ++p; return j; }
      while (true) { ws(); auto k = strv(); ws(); ++p; j.o->emplace_back(k, val()); ws(); if (*p++ == '}') return j; }
    }
    if (*p == '[') {
      ++p; J j = J::arr(); ws();
      if (*p == ']') { ++p; return j; }
      while (true) { j.a->push_back(val()); ws(); if (*p++ == ']') return j; }
    }
    if (*p == '"') return J(strv());
    if (!strncmp(p, "true", 4)) { p += 4; return J(true); }
    if (!strncmp(p, "false", 5)) { p += 5; return J(false); }
    if (!strncmp(p, "null", 4)) { p += 4; return J(); }
    char* e; long long v = strtoll(p, &e, 10); p = e; return J(v);
  }
  std::string strv() {
    std::string r; ++p;
    while (*p != '"') {
      if (*p == '\\') {
        ++p;
        if (*p == 'n') r += '\n'; else if (*p == 't') r += '\t'; else if (*p == 'r') r += '\r';
        else if (*p == 'u') { r += static_cast<char>(strtol(std::string(p + 1, 4).c_str(), nullptr, 16)); p += 4; }
        else r += *p;
        ++p;
      } else r += *p++;
    }
    ++p; return r;
  }
};
}  // namespace hj

using hj::J;

// exact-size heap copy, so that AddressSanitizer sees the first byte past the end
struct exact {
  explicit exact(std::string_view s) : n{s.size()}, p{static_cast<char*>(malloc(s.size() ? s.size() : 1))} {
    if (n) memcpy(p, s.data(), n);
  }
  exact(exact const&) = delete;
  ~exact() { free(p); }
  std::size_t n;
  char* p;
};

inline void on_alarm(int) { _exit(77); }

inline int harness_main(int argc, char** argv, std::function<J(J const&)> const& fn) {
  auto in = fopen(argv[1], "r");
  auto out = fopen(argv[2], "w");
  auto start = argc > 3 ? atol(argv[3]) : 0;
  auto const to = getenv("HARNESS_CASE_TIMEOUT") ? atoi(getenv("HARNESS_CASE_TIMEOUT")) : 10;
  signal(SIGALRM, on_alarm);
  char* line = nullptr;
  size_t cap = 0;
  long k = 0;
  while (getline(&line, &cap, in) > 0) {
    if (k++ < start) continue;
    hj::P p{line};
    J c = p.val();
    J o;
    alarm(static_cast<unsigned>(to));
    try {
      o = fn(c);
      o.set("st", "ok");
    } catch (std::exception const& e) {
      o = J::obj();
      o.set("st", "EXC").set("what", std::string(e.what()));
    } catch (...) {
      o = J::obj();
      o.set("st", "EXC").set("what", "unknown");
    }
    std::string s;
    hj::dump(s, o);
    s += '\n';
    fwrite(s.data(), 1, s.size(), out);
    fflush(out);
  }
  fclose(out);
  _exit(0);
}
#define HARNESS(fn) int main(int argc, char** argv) { return harness_main(argc, argv, fn); }
