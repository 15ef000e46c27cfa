// C30 generators
#include <memory>
#include <optional>
#include "utl/generator.h"
#include "common.h"
static std::vector<int> effects;
struct boom {};
template <typename T> T mk(int v) { if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return std::make_unique<int>(v); else if constexpr (std::is_same_v<T, std::string>) return std::string(40, 'x') + std::to_string(v); else return T(v); }
static int num(int v) { return v; }
static int num(std::string const& s) { return s.size() < 41 ? -99 : atoi(s.c_str() + 40); }
static int num(std::unique_ptr<int> const& p) { return p ? *p : -99; }
template <typename T> utl::generator<T> body(J script, int how) {
  for (auto const& it : script) {
    auto const k = it[0].str();
    if (k == "e") effects.push_back(it[1].n());
    else if (k == "t") throw boom{};
    else if (k == "y") {
      if constexpr (std::is_copy_constructible_v<T>) {
        if (how == 1) { T lv = mk<T>(it[1].n()); co_yield lv; if (num(lv) != it[1].n()) _exit(85); continue; }
        if (how == 2) { T const lv = mk<T>(it[1].n()); co_yield lv; continue; }
      }
      co_yield mk<T>(it[1].n());
    } else if (k == "g") {
      auto sub = body<T>(it[1], how);
      while (sub) co_yield sub();
    } else _exit(88);
  }
}
template <typename T> J run(J const& c) {
  effects.clear();
  J ret = J::arr(), log = J::arr();
  auto g = std::make_unique<utl::generator<T>>(body<T>(c["body"], c["how"].n()));
  J early = J(effects);
  for (auto const& op : c["ops"]) {
    effects.clear();
    auto const o = op.str();
    J r = J::arr();
    try {
      if (o == "b") r.push(static_cast<bool>(*g) ? "t" : "f");
      else if (o == "n") { auto v = (*g)(); r.push("v").push(num(v)); }
      else if (o == "v") { auto const v = g->to_vec(); J l = J::arr(); for (auto const& x : v) l.push(num(x)); r.push("l").push(l); }
      else if (o == "m") { g = std::make_unique<utl::generator<T>>(std::move(*g)); r.push("k"); }
      else if (o == "a") { auto h = std::make_unique<utl::generator<T>>(body<T>(hj::P{"[[\"y\",5]]"}.val(), 0)); if (c["how"].n() == 1 && !static_cast<bool>(*h)) _exit(84); *h = std::move(*g); g = std::move(h); r.push("k"); }
      else _exit(87);
    } catch (boom const&) { r = J::arr(); r.push("x"); }
    ret.push(r);
    log.push(J(effects));
  }
  return J::obj().set("ret", ret).set("log", log).set("early", early);
}
static J go(J const& c) {
  auto const t = c["ty"].str();
  if (t == "int") return run<int>(c);
  if (t == "str") return run<std::string>(c);
  if (t == "ptr") return run<std::unique_ptr<int>>(c);
  _exit(86);
}
HARNESS(go)
