// C34 literals as types, thread names, type stripping
#include <pthread.h>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "utl/clear_t.h"
#include "utl/cmd_line_parser.h"
#include "utl/const_str.h"
#include "utl/forward_type.h"
#include "utl/parser/csv_range.h"
#include "utl/set_thread_name.h"
#include "common.h"

struct entry { char const* p; std::size_t n; };
// gen.inc: static entry const table[] = { E0("..."), E1("..."), ... };
template <std::size_t N> constexpr entry ent(char const (&a)[N]) { return {a, N}; }
#define E0(x) ent(STRING_LITERAL(x))
#define E1(x) entry{UTL_LONG(x)::long_, 0}
#define E2(x) entry{UTL_SHORT(x)::short_, 0}
#define E3(x) entry{UTL_DESC(x)::desc_, 0}
#define E4(x) entry{UTL_NAME(x)::name_, 0}
#include "gen.inc"

static std::string text(char const* p, std::size_t n) { std::string s; for (std::size_t k = 0; p[k] != 0 && (n == 0 || k < n); ++k) s += p[k]; return s; }
static J lits(J const& c) {
  J texts = J::arr(), same = J::arr(), zero = J::arr();
  std::vector<char const*> seen;
  for (auto const& x : c["pick"]) {
    auto const& e = table[x.n()];
    texts.push(hj::bytes(text(e.p, e.n)));
    seen.push_back(e.p);
    std::size_t k = 0;
    while (seen[k] != e.p) ++k;
    same.push(k + 1);
    zero.push(e.n == 0 || e.p[e.n - 1] == 0 ? 1 : 0);
  }
  return J::obj().set("texts", texts).set("same", same).set("zero", zero);
}
struct worker {
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool stop{false};
  std::thread t{[this] {
    std::unique_lock l{m};
    while (true) {
      cv.wait(l, [&] { return stop || job; });
      if (stop) return;
      job();
      job = nullptr;
      cv.notify_all();
    }
  }};
  void run(std::function<void()> f) { std::unique_lock l{m}; job = std::move(f); cv.notify_all(); cv.wait(l, [&] { return !job; }); }
  ~worker() { { std::unique_lock l{m}; stop = true; } cv.notify_all(); t.join(); }
};
static std::string name_of(pthread_t t) { char b[64] = {}; if (pthread_getname_np(t, b, sizeof b) != 0) return "?"; return b; }
static J names(J const& c) {
  int const n = static_cast<int>(c["start"].size());
  std::vector<std::unique_ptr<worker>> w;
  for (int k = 0; k < n; ++k) { w.push_back(std::make_unique<worker>()); pthread_setname_np(w.back()->t.native_handle(), c["start"][k].bytes().c_str()); }
  auto const mine = name_of(pthread_self());
  J obs = J::arr();
  for (auto const& o : c["ops"]) {
    auto& t = *w[static_cast<std::size_t>(o[1].n() - 1)];
    auto const nm = o[2].bytes();
    if (o[0].n() == 0) utl::set_thread_name(t.t, nm);
    else if (o[0].n() == -1) t.run([&] { utl::set_current_thread_name(nm); });
    else w[static_cast<std::size_t>(o[0].n() - 1)]->run([&] { utl::set_thread_name(t.t, nm); });
    J a = J::arr();
    for (auto& x : w) a.push(hj::bytes(name_of(x->t.native_handle())));
    if (name_of(pthread_self()) != mine) _exit(85);
    obs.push(a);
  }
  return J::obj().set("obs", obs);
}
template <typename T> J kind() { return J::obj().set("c", std::is_const_v<std::remove_reference_t<T>> ? 1 : 0).set("r", std::is_lvalue_reference_v<T> ? 1 : std::is_rvalue_reference_v<T> ? 2 : 0); }
template <typename B> void types(J const& c, J& cl, J& fw) {
  auto one = [&]<typename T>(std::type_identity<T>) {
    static_assert(std::is_same_v<std::remove_cvref_t<utl::clear_t<T>>, B> && std::is_same_v<std::remove_cvref_t<utl::forward_type_t<T>>, B>);
    cl.push(kind<utl::clear_t<T>>());
    fw.push(kind<utl::forward_type_t<T>>());
  };
  for (auto const& t : c["types"]) {
    bool const k = t["c"].n() == 1;
    switch (t["r"].n()) {
      case 0: k ? one(std::type_identity<B const>{}) : one(std::type_identity<B>{}); break;
      case 1: k ? one(std::type_identity<B const&>{}) : one(std::type_identity<B&>{}); break;
      case 2: k ? one(std::type_identity<B const&&>{}) : one(std::type_identity<B&&>{}); break;
    }
  }
}
static J go(J const& c) {
  auto const fn = c["fn"].str();
  if (fn == "lit") return lits(c);
  if (fn == "names") return names(c);
  J cl = J::arr(), fw = J::arr();
  switch (c["b"].n()) {
    case 0: types<int>(c, cl, fw); break;
    case 1: types<std::string>(c, cl, fw); break;
    case 2: types<std::unique_ptr<int>>(c, cl, fw); break;
    case 3: types<int*>(c, cl, fw); break;
  }
  return J::obj().set("clear", cl).set("fwd", fw);
}
HARNESS(go)
