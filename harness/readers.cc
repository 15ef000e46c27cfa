// C24 line readers
#include <sys/stat.h>
#include <cmath>
#include <iostream>
#include <sstream>
#include "utl/for_each_line_in_file.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "utl/pipes/for_each.h"
#include "common.h"
using utl::cstr;

static char const* base;
static J pos(cstr s) { return s.data() == nullptr ? J::arr() : J::arr().push(static_cast<long long>(s.data() - base)).push(s.length()); }
struct consumer {
  std::vector<long long>* v;
  void operator()(std::size_t n) { v->push_back(hj::wide(n)); }
};
static std::string path() { return std::string{getenv("HARNESS_SCRATCH")} + "/f" + std::to_string(getpid()); }
static void put(std::string const& s) { auto f = fopen(path().c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }

template <typename R, typename Fresh, typename Rate> J program(R r, J const& c, std::vector<long long>* pv, Fresh&& fresh, Rate&& rate) {
  J res = J::arr(), prog = J::arr(), rates = J::arr();
  auto cur = std::make_unique<R>(std::move(r));
  for (auto const& o : c["ops"]) {
    pv->clear();
    J ret = J::arr();
    auto const op = o[0].str();
    if (op == "ln") ret = pos(cur->read_line());
    else if (op == "rn") { if constexpr (requires { cur->read(std::size_t{}); }) { auto const k = o[1].n(); ret = pos(cur->read(k == -1 ? static_cast<std::size_t>(-1) : static_cast<std::size_t>(k))); } else _exit(87); }
    else if (op == "mv") { auto n = std::make_unique<R>(std::move(*cur)); cur = std::move(n); }
    else if (op == "ma") { auto n = fresh(); *n = std::move(*cur); cur = std::move(n); }
    else _exit(88);
    res.push(ret);
    prog.push(J(*pv));
    rates.push(rate(*cur));
  }
  return J::obj().set("res", res).set("prog", prog).set("rate", rates);
}
static J go(J const& c) {
  auto const t = c["t"].bytes();
  auto const kind = c["kind"].str();
  std::vector<long long> pv;
  exact e{t};
  base = e.p;
  cstr const s{static_cast<char const*>(e.p), e.n};
  auto const none = [](auto&) { return 0; };
  J lines = J::arr();
  if (kind == "buf") {
    using R = utl::buf_reader<>;
    return program(R{s}, c, &pv, [&] { auto r = std::make_unique<R>(s); r->read_line(); return r; }, none);
  }
  if (kind == "bufp") {
    using R = utl::buf_reader<consumer>;
    static std::vector<long long> other;
    auto fresh = [&] { auto r = std::make_unique<R>(s, consumer{&other}); r->read_line(); return r; };
    if (c["v"].n() == 0) return program(R{s, consumer{&pv}}, c, &pv, fresh, none);
    return program(utl::make_buf_reader(s, consumer{&pv}), c, &pv, fresh, none);
  }
  if (kind == "mmap") {
    put(t);
    utl::mmap_reader r{path().c_str()};
    base = r.read(0).data();
    return program(std::move(r), c, &pv, [&] { auto q = std::make_unique<utl::mmap_reader>(path().c_str()); q->read_line(); return q; },
                   [](utl::mmap_reader& q) { auto const f = static_cast<double>(q.progress()); return f >= -1e5 && f < 1e5 ? static_cast<int>(std::floor(f * 1000.0 + 1e-4)) : -99999; });
  }
  if (kind == "range") {
    if (c["v"].n() == 0) {
      auto lr = utl::line_range{utl::make_buf_reader(s)};
      for (auto it = lr.begin(); lr.valid(it); lr.next(it)) lines.push(pos(lr.read(it)));
    } else {
      put(t);
      utl::mmap_reader r{path().c_str()};
      base = r.read(0).data();
      auto lr = utl::line_range{std::move(r)};
      for (auto it = lr.begin(); lr.valid(it); lr.next(it)) lines.push(pos(lr.read(it)));
    }
  } else if (kind == "pipe") {
    if (c["v"].n() == 0) utl::line_range{utl::buf_reader<>{s}} | utl::for_each([&](cstr x) { lines.push(pos(x)); });
    else utl::line_range{utl::make_buf_reader(s, consumer{&pv})} | utl::for_each([&](cstr x) { lines.push(pos(x)); });
  } else if (kind == "file") {
    // file names of every shape, standard input holding something else
    static char const* const names[] = {"", "-f", "--", "-", " -", "- ", "a b"};
    auto p = path();
    if (c["v"].n() != 0) {
      auto const d = path() + ".d";
      mkdir(d.c_str(), 0700);
      std::ignore = chdir(d.c_str());
      p = names[c["v"].n()];
      if (p == "-") p = "./-";  // "-" itself is the standard input
    }
    { auto f = fopen(p.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
    std::istringstream is{"not\nthis"};
    auto old = std::cin.rdbuf(is.rdbuf());
    std::cin.clear();
    utl::for_each_line_in_file(p, [&](std::string const& x) { lines.push(hj::bytes(x)); });
    std::cin.rdbuf(old);
    unlink(p.c_str());
  } else if (kind == "stdin") {
    std::istringstream is{t};
    auto old = std::cin.rdbuf(is.rdbuf());
    std::cin.clear();
    utl::for_each_line_in_file("-", [&](std::string const& x) { lines.push(hj::bytes(x)); });
    std::cin.rdbuf(old);
  } else _exit(88);
  return J::obj().set("lines", lines);
}
HARNESS(go)
