// C28 command line flags
#include <memory>
#include "utl/cmd_line_parser.h"
#include "common.h"
using namespace utl;
using std::string;

struct O1 {
  cmd_line_flag<int, required, UTL_SHORT("-n"), UTL_LONG("--num"), UTL_DESC("how many")> num_;
  cmd_line_flag<string, UTL_LONG("--name"), UTL_DESC("name of it")> name_{string{"def"}};
  cmd_line_flag<bool, UTL_SHORT("-v"), UTL_DESC("be verbose")> verbose_;
  cmd_line_flag<double, UTL_SHORT("-d"), UTL_LONG("--dist"), UTL_DESC("distance")> dist_{2.5};
  auto cista_members() { return std::tie(num_, name_, verbose_, dist_); }
  auto cista_members() const { return std::tie(num_, name_, verbose_, dist_); }
};
struct O2 {
  cmd_line_flag<string, UTL_SHORT("-r"), required, UTL_DESC("root")> root_;
  cmd_line_flag<std::int64_t, UTL_LONG("--req"), UTL_DESC("needed"), required> req_{std::int64_t{5}};
  cmd_line_flag<bool, required, UTL_SHORT("-b"), UTL_LONG("--bool"), UTL_DESC("must")> b_;
  cmd_line_flag<bool, UTL_LONG("--on"), UTL_DESC("default on")> on_{true};
  cmd_line_flag<string, UTL_SHORT("-c"), UTL_LONG("--a_very_long_option_name"), UTL_DESC("view")> c_{string{"cd"}};
  auto cista_members() { return std::tie(root_, req_, b_, on_, c_); }
  auto cista_members() const { return std::tie(root_, req_, b_, on_, c_); }
};
struct O3 {
  cmd_line_flag<int, UTL_SHORT("-a"), UTL_LONG("--a"), UTL_DESC("first")> a_{1};
  cmd_line_flag<int, UTL_SHORT("-ab"), UTL_LONG("--ab"), UTL_DESC("second")> b_{2};
  cmd_line_flag<bool, UTL_SHORT("-A"), UTL_LONG("--aba"), UTL_DESC("third")> c_;
  auto cista_members() { return std::tie(a_, b_, c_); }
  auto cista_members() const { return std::tie(a_, b_, c_); }
};
struct O4 {
  cmd_line_flag<cstr, UTL_SHORT("-c"), UTL_DESC("view")> c_{cstr{"cd"}};
  cmd_line_flag<std::filesystem::path, required, UTL_SHORT("-p"), UTL_LONG("--path"), UTL_DESC("where")> p_;
  auto cista_members() { return std::tie(c_, p_); }
};
static J val(std::filesystem::path const& p) { return hj::bytes(p.string()); }
static J val(string const& s) { return hj::bytes(s); }
static J val(cstr s) { return hj::bytes(s.view()); }
template <typename I> requires std::is_integral_v<I> J val(I v) { return hj::bytes(std::to_string(static_cast<long long>(v))); }
static J val(double v) { return hj::bytes(std::to_string(std::llround(v * 1000.0))); }
template <typename F> J flag(F& f, int k) {
  using T = std::decay_t<decltype(f.val())>;
  switch (k % 4) {
    case 0: return val(f.val());
    case 1: return val(*f);
    case 2: return val(*std::as_const(f));
    default: return val(static_cast<T>(f));
  }
}
template <typename T> J run(J const& c) {
  // exact sized array of exactly terminated strings: reading argv[argc] is out of bounds
  auto const n = static_cast<int>(c["args"].size());
  std::vector<std::unique_ptr<char[]>> own;
  auto argv = std::make_unique<char const*[]>(static_cast<std::size_t>(n));
  for (auto i = 0; i < n; ++i) {
    auto const s = c["args"][i].bytes();
    own.push_back(std::make_unique<char[]>(s.size() + 1));
    memcpy(own.back().get(), s.data(), s.size());
    own.back()[s.size()] = 0;
    argv[static_cast<std::size_t>(i)] = own.back().get();
  }
  J o = J::obj(), vals = J::arr();
  o.set("thr", false).set("what", J::arr()).set("print", J::arr());
  try {
    auto t = parse_flags<T>(n, argv.get());
    int k = 0;
    std::apply([&](auto&... f) { (vals.push(flag(f, k++)), ...); }, t.cista_members());
    if constexpr (!std::is_same_v<T, O4>) o.set("print", hj::bytes(print_flags(t)));
  } catch (std::runtime_error const& e) { o.set("thr", true).set("what", hj::bytes(e.what())); }
  return o.set("vals", vals).set("desc", hj::bytes(description<T>()));
}
static J go(J const& c) {
  auto const k = c["cfg"].str();
  if (k == "o1") return run<O1>(c);
  if (k == "o2") return run<O2>(c);
  if (k == "o3") return run<O3>(c);
  if (k == "o4") return run<O4>(c);
  _exit(88);
}
HARNESS(go)
