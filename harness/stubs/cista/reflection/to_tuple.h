#pragma once
#include <type_traits>
#include <utility>
namespace cista::detail {
template <typename T, typename = void> struct has_cista_members : std::false_type {};
template <typename T> struct has_cista_members<T, std::void_t<decltype(std::declval<std::decay_t<T>&>().cista_members())>> : std::true_type {};
template <typename T> inline constexpr bool has_cista_members_v = has_cista_members<T>::value;
}  // namespace cista::detail
