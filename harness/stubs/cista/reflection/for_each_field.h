// Stand-in for cista's reflection: the fields are those returned by cista_members(), in order.
#pragma once
#include <tuple>
#include "cista/reflection/to_tuple.h"
namespace cista {
template <typename T, typename Fn> void for_each_field(T& t, Fn&& fn) {
  auto m = const_cast<std::remove_const_t<T>&>(t).cista_members();
  std::apply([&](auto&... f) {
    if constexpr (std::is_const_v<T>) (fn(std::as_const(f)), ...);
    else (fn(f), ...);
  }, m);
}
template <typename T, typename Fn> void for_each_field(Fn&& fn) {
  T t{};
  for_each_field(t, std::forward<Fn>(fn));
}
}  // namespace cista
