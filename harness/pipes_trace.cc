// C18: records source accesses and stage calls. SRC: 0 instrumented iterators (reference), 1 instrumented iterators
// (value), 2 generator, 3 instrumented container
#include <iterator>
#include <set>
#include "utl/pipes.h"
#include "common.h"
static J ev;
static void log(int t, int a = -1000, int b = -1000) {
  auto e = J::arr().push(t);
  if (a != -1000) e.push(a);
  if (b != -1000) e.push(b);
  ev.push(e);
}
static std::vector<int> data;
template <bool Ref>
struct iter {
  using iterator_category = std::input_iterator_tag;
  using value_type = int;
  using difference_type = std::ptrdiff_t;
  using pointer = int*;
  using reference = std::conditional_t<Ref, int const&, int>;
  std::size_t p{0};
  reference operator*() const {
    static int const past = 77;
    log(2, static_cast<int>(p) + 1);
    return p < data.size() ? data[p] : past;
  }
  iter& operator++() { log(3, static_cast<int>(p) + 1); ++p; if (p > data.size() + 50) _exit(91); return *this; }
  iter operator++(int) { auto c = *this; ++*this; return c; }
  bool operator==(iter const& o) const { return p == o.p; }
  bool operator!=(iter const& o) const { return p != o.p; }
};
struct cont {
  using value_type = int;
  using const_iterator = iter<true>;
  using iterator = iter<true>;
  iter<true> begin() const { return {0}; }
  iter<true> end() const { return {data.size()}; }
  cont() = default;
  cont(cont const&) { log(7); }  // copying the source reads all of it
  cont(cont&&) { log(7); }
  cont& operator=(cont const&) { log(7); return *this; }
};
struct stage { int k, p; };
static std::vector<stage> sv;
static int term, arg;
static bool bit(int m, int v) { return (m >> (v % 4)) & 1; }
static int fun(int k, int v) { return k == 0 ? v + 1 : k == 1 ? v / 2 : k == 2 ? 3 - v % 4 : k == 3 ? 2 : 3 * v; }

template <int DEPTH, typename R>
void terminal(R&& r) {
  log(1);
  switch (term) {
    case 0: (void)(std::forward<R>(r) | utl::vec()); return;
    case 1: std::forward<R>(r) | utl::for_each([&](auto&& x) { log(6, x); }); return;
    case 4: (void)(std::forward<R>(r) | utl::find([](int x) { log(6, x); return bit(arg, x); })); return;
    case 15: { int n = 0; if (arg > 0) for (auto&& x : std::forward<R>(r) | utl::iterable()) { log(6, x); if (++n == arg) break; } return; }
  }
  if constexpr (DEPTH < 3) {
    switch (term) {
      case 2: (void)(std::forward<R>(r) | utl::accumulate([](int a, int x) { log(6, x); return a + x; }, 0)); return;
      case 3: (void)(std::forward<R>(r) | utl::count([](int x) { log(6, x); return bit(arg, x); })); return;
      case 5: (void)(std::forward<R>(r) | utl::sum()); return;
      case 6: (void)(std::forward<R>(r) | utl::avg()); return;
      case 7: (void)(std::forward<R>(r) | utl::max<int>{0}); return;
      case 8: (void)(std::forward<R>(r) | utl::emplace_back<std::vector<int>>()); return;
      case 9: (void)(std::forward<R>(r) | utl::insert<std::set<int>>()); return;
      case 10: (void)(std::forward<R>(r) | utl::emplace<std::set<int>>()); return;
      case 11: (void)(std::forward<R>(r) | utl::to<std::set<int>>()); return;
      case 12: (void)(std::forward<R>(r) | utl::emplace_back_to<std::vector<int>>()); return;
      case 13: for (auto&& x : std::forward<R>(r) | utl::iterable()) log(6, x); return;
    }
  }
  _exit(96);
}
template <int D0, typename R>
void go(R&& r, std::size_t k) {
  if (k == sv.size()) { terminal<D0>(std::forward<R>(r)); return; }
  if constexpr (D0 < 3) {
    int const p = sv[k].p, s = static_cast<int>(k) + 1;
    switch (sv[k].k) {
      case 0: go<D0 + 1>(std::forward<R>(r) | utl::remove_if([p, s](int x) { log(5, s, x); return bit(p, x); }), k + 1); break;
      case 1: go<D0 + 1>(std::forward<R>(r) | utl::transform([p, s](int x) { log(5, s, x); return fun(p, x); }), k + 1); break;
      case 2: go<D0 + 1>(std::forward<R>(r) | utl::unique(), k + 1); break;
      case 3: go<D0 + 1>(std::forward<R>(r) | utl::take_while([p, s](int x) { log(5, s, x); return bit(p, x); }), k + 1); break;
    }
  }
}
// the container itself is the source: only take_while and some terminals accept one
template <typename C>
void bare(C&& c) {
  if (!sv.empty()) {
    int const p = sv[0].p;
    if (sv[0].k != 3) _exit(93);
    go<1>(std::forward<C>(c) | utl::take_while([p](int x) { log(5, 1, x); return bit(p, x); }), 1);
    return;
  }
  log(1);
  switch (term) {
    case 2: (void)(std::forward<C>(c) | utl::accumulate([](int a, int x) { log(6, x); return a + x; }, 0)); return;
    case 3: (void)(std::forward<C>(c) | utl::count([](int x) { log(6, x); return bit(arg, x); })); return;
    case 4: (void)(std::forward<C>(c) | utl::find([](int x) { log(6, x); return bit(arg, x); })); return;
    case 5: (void)(std::forward<C>(c) | utl::sum()); return;
    case 7: (void)(std::forward<C>(c) | utl::max<int>{0}); return;
    case 9: (void)(std::forward<C>(c) | utl::insert<std::set<int>>()); return;
    case 10: (void)(std::forward<C>(c) | utl::emplace<std::set<int>>()); return;
  }
  _exit(96);
}
static J run(J const& c) {
  sv.clear();
  for (auto const& s : c["stages"]) sv.push_back({s[0].n(), s[1].n()});
  term = c["term"].n();
  arg = c["arg"].n();
  ev = J::arr();
  data = c["a"].ints();
#if SRC == 0
  go<0>(utl::all(iter<true>{0}, iter<true>{data.size()}), 0);
#elif SRC == 1
  go<0>(utl::all(iter<false>{0}, iter<false>{data.size()}), 0);
#elif SRC == 2
  std::size_t n = 0;
  go<0>(utl::generate([&]() { log(4, static_cast<int>(++n)); if (n > data.size() + 50) _exit(91); return n <= data.size() ? data[n - 1] : 77; }), 0);
#elif SRC == 3
  cont x;
  go<0>(utl::all(x), 0);
#elif SRC == 4
  cont x;
  cont const y;
  switch (c["how"].n()) { case 0: bare(x); break; case 1: bare(&x); break; case 2: bare(y); break; case 3: bare(&y); break; }
#endif
  return J::obj().set("ev", ev).set("src", J(data));
}
HARNESS(run)
