// C29 init_from over generated structs (gen.inc)
#include <map>
#include <memory>
#include <string>
#include "utl/init_from.h"
#include "common.h"
template <int K> struct V {
  V() = default;
  explicit V(int x) : v{x} {}
  int v{0};
};
template <typename T> T mk(int n) { if constexpr (std::is_same_v<T, std::string>) return std::to_string(n); else return T(n); }
static int num(int v) { return v; }
static int num(double v) { return v == static_cast<int>(v) ? static_cast<int>(v) : -99999; }
static int num(std::string const& v) { return v.empty() ? -9 : atoi(v.c_str()); }
template <int K> int num(V<K> const& v) { return v.v; }
struct holder {
  std::vector<std::shared_ptr<void>> keep;
  template <typename T> struct tag {};
  template <typename T> T make(int n) { return build(tag<T>{}, n); }
  template <typename T> T build(tag<T>, int n) { return mk<T>(n); }
  template <typename T> T* build(tag<T*>, int n) { if (n < 0) return nullptr; auto p = std::make_shared<T>(mk<T>(n)); keep.push_back(p); return p.get(); }
  template <typename T> std::unique_ptr<T> build(tag<std::unique_ptr<T>>, int n) { return n < 0 ? nullptr : std::make_unique<T>(mk<T>(n)); }
  template <typename T> std::shared_ptr<T> build(tag<std::shared_ptr<T>>, int n) { return n < 0 ? nullptr : std::make_shared<T>(mk<T>(n)); }
};
static std::map<void const*, int> where;  // address of a member's value or pointee -> member
template <typename T> struct ptrlike : std::false_type {};
template <typename T> struct ptrlike<T*> : std::true_type {};
template <typename T> struct ptrlike<std::unique_ptr<T>> : std::true_type {};
template <typename T> struct ptrlike<std::shared_ptr<T>> : std::true_type {};
template <typename T> J state(T const& m) {
  if constexpr (ptrlike<T>::value) return J::arr().push(m == nullptr ? -1 : num(*m)).push(static_cast<long long>(m == nullptr ? 0 : reinterpret_cast<std::intptr_t>(&*m)));
  else return J::arr().push(num(m)).push(static_cast<long long>(reinterpret_cast<std::intptr_t>(&m)));
}
template <typename T> void note(int k, T const& m) {
  if (k == 1) where.clear();
  if constexpr (ptrlike<T>::value) { if (m != nullptr) where[&*m] = k; }
  else where[&m] = k;
}
static int at(void const* p) { auto const it = where.find(p); return it == where.end() ? 0 : it->second; }
// a field: the value seen and the source member whose value (or pointee) it shares, 0: its own copy
template <bool Ref, typename T> J look(T const& f) {
  if constexpr (ptrlike<T>::value) return f == nullptr ? J::obj().set("val", -1).set("at", 0) : J::obj().set("val", num(*f)).set("at", at(&*f));
  else return J::obj().set("val", num(f)).set("at", at(&f));
}
static std::string text(J const& j) { std::string s; hj::dump(s, j); return s; }
#include "gen.inc"
static J go(J const& c) { return dispatch(c["n"].n(), c); }
HARNESS(go)
