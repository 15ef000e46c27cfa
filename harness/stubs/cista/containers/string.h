// Stand-in for cista::raw::generic_string (cista is not available offline): an owning or non-owning string.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
namespace cista {
struct owning_t {};
struct non_owning_t {};
namespace raw {
struct generic_string {
  using msize_t = std::uint32_t;
  generic_string() = default;
  generic_string(std::string_view s, owning_t) { set_owning(s.data(), static_cast<msize_t>(s.size())); }
  generic_string(std::string_view s, non_owning_t) { set_non_owning(s.data(), static_cast<msize_t>(s.size())); }
  generic_string(generic_string const& o) { *this = o; }
  generic_string& operator=(generic_string const& o) {
    if (this == &o) return *this;
    if (o.is_owning()) set_owning(o.data(), o.size()); else set_non_owning(o.data(), o.size());
    return *this;
  }
  void set_owning(char const* p, msize_t n) { std::string t(p ? p : "", p ? n : 0); own_ = std::move(t); ptr_ = nullptr; len_ = n; owned_ = true; }
  void set_owning(std::string_view s) { set_owning(s.data(), static_cast<msize_t>(s.size())); }
  void set_non_owning(char const* p, msize_t n) { own_.clear(); ptr_ = p; len_ = n; owned_ = false; }
  void set_non_owning(std::string_view s) { set_non_owning(s.data(), static_cast<msize_t>(s.size())); }
  void erase(msize_t pos, msize_t n) { if (!owned_) set_owning(ptr_, len_); own_.erase(pos, n); len_ = static_cast<msize_t>(own_.size()); }
  bool is_owning() const { return owned_; }
  char const* data() const { return owned_ ? own_.data() : ptr_; }
  msize_t size() const { return len_; }
  bool empty() const { return len_ == 0; }
  char operator[](std::size_t i) const { return data()[i]; }
  char const* begin() const { return data(); }
  char const* end() const { return data() + len_; }
  std::string_view view() const { return {data(), len_}; }
  std::string str() const { return std::string{view()}; }
  operator std::string_view() const { return view(); }
  friend bool operator==(generic_string const& a, std::string_view b) { return a.view() == b; }
  std::string own_;
  char const* ptr_{nullptr};
  msize_t len_{0};
  bool owned_{false};
};
struct string : generic_string { using generic_string::generic_string; };
}  // namespace raw
}  // namespace cista
