// C10: histories over owner objects; resources are observed through the allocator hooks, /proc/self and actions.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <algorithm>
#include <optional>
#include <set>
#include "utl/generator.h"
#include "utl/parser/buffer.h"
#include "utl/parser/file.h"
#include "utl/parser/mmap_reader.h"
#include "utl/raii.h"
#include "common.h"

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(void const volatile*, size_t), void (*)(void const volatile*));
static bool tracking = false;
static void* blocks[4096];
static int nblocks = 0;
static void on_malloc(void const volatile* p, size_t) { if (tracking && p && nblocks < 4096) blocks[nblocks++] = const_cast<void*>(p); }
static void on_free(void const volatile* p) { for (int i = 0; i < nblocks; ++i) if (blocks[i] == p) { blocks[i] = blocks[--nblocks]; return; } }

static J acts;
static std::set<int> frames;
static std::string scratch;
static int ids;
static std::string path(int id) { return scratch + "/own" + std::to_string(id) + "_"; }
static void put(int id, std::string const& s) { auto f = fopen(path(id).c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static int id_of(std::string const& p) { auto k = p.rfind("/own"); return k == std::string::npos || p.rfind(scratch, 0) != 0 ? 0 : atoi(p.c_str() + k + 4); }
// descriptors closed by the code under test, by the file they refer to (-1: not open)
static std::vector<int> closed;
static bool watching = false;
extern "C" int close(int fd) {
  if (watching && fd >= 0) {
    char b[4096];
    auto n = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), b, sizeof b - 1);
    if (n < 0) closed.push_back(-1);
    else { b[n] = 0; if (auto k = id_of(b)) closed.push_back(k); else closed.push_back(-2); }
  }
  return static_cast<int>(syscall(SYS_close, fd));
}
static std::vector<int> open_fds() {
  std::vector<int> r;
  auto d = opendir("/proc/self/fd");
  while (auto e = readdir(d)) {
    char b[4096];
    auto n = readlink((std::string{"/proc/self/fd/"} + e->d_name).c_str(), b, sizeof b - 1);
    if (n > 0) { b[n] = 0; if (auto k = id_of(b)) r.push_back(k); }
  }
  closedir(d);
  std::sort(r.begin(), r.end());
  return r;
}
static std::vector<int> maps() {
  std::vector<int> r;
  auto f = fopen("/proc/self/maps", "r");
  char b[8192];
  while (fgets(b, sizeof b, f)) { std::string s{b}; if (auto k = s.find(scratch); k != std::string::npos) if (auto i = id_of(s.substr(k, s.size() - k - 1))) r.push_back(i); }
  fclose(f);
  std::sort(r.begin(), r.end());
  return r;
}
static std::string as_str(std::vector<int> const& v) { std::string s; for (auto c : v) s += static_cast<char>(c); return s; }
static std::vector<int> file_data(int k) { std::vector<int> v; for (int j = 1; j <= (k * 3) % 5; ++j) v.push_back(96 + (k + j) % 26); return v; }
static std::vector<int> line_data(int k, int big) { std::vector<int> v; for (int j = 1; j <= 2 + k % 4; ++j) v.push_back(j % 2 == 0 ? 10 : 97 + k % 26); for (int j = 0; j < big; ++j) v.push_back(122); return v; }

struct token {  // alive exactly as long as the coroutine frame that holds it
  explicit token(int i) : id{i} { frames.insert(i); }
  token(token&& o) noexcept : id{o.id} { o.id = 0; }
  token(token const&) = delete;
  ~token() { if (id) { if (!frames.erase(id)) _exit(92); acts.push(id); } }
  int id;
};
static utl::generator<int> gen(token t, int n, bool thr) {
  for (int j = 1; j <= n; ++j) co_yield t.id * 10 + j;
  if (thr) throw std::runtime_error{"gen"};
}
struct action {
  std::unique_ptr<int> id;
  void operator()() { acts.push(*id); }
};
struct del {
  int id;
  void operator()(int el) { acts.push(id); acts.push(el); }
};
template <typename T>
struct slots {
  std::optional<T> s[3];
};
using fin_t = utl::finally<action>;
using raii_t = utl::raii<int, del>;

struct made { int el, id; operator raii_t() const { return utl::make_raii(int{el}, del{id}); } };
template <typename T> void common(std::string const& op, slots<T>& S, int i, int j, int* own) {
  if (op == "mc") { if (i != j && S.s[i] && !S.s[j]) { S.s[j].emplace(std::move(*S.s[i])); own[j] = own[i]; own[i] = 0; } }
  else if (op == "ma") { if (S.s[i] && S.s[j]) { if (i == j) { auto& r = *S.s[i]; *S.s[i] = std::move(r); } else { *S.s[j] = std::move(*S.s[i]); own[j] = own[i]; own[i] = 0; } } }
  else if (op == "ds") { S.s[i].reset(); own[i] = 0; }
}

static J run(J const& c) {
  static bool inst = (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free), true);
  (void)inst;
  scratch = getenv("HARNESS_SCRATCH");
  char rp[4096];
  if (realpath(scratch.c_str(), rp)) scratch = rp;
  auto const ty = c["ty"].str();
  int const ns = c["ns"].n();
  ids = 0;
  nblocks = 0;
  frames.clear();
  int own[3] = {0, 0, 0};
  slots<utl::buffer> B;
  slots<utl::file> F;
  slots<utl::mmap_reader> M;
  slots<utl::mmap_reader::file> MF;
  slots<utl::mmap_reader::memory_map> MM;
  slots<utl::generator<int>> G;
  slots<fin_t> N;
  std::optional<raii_t> R[3];
  J obs = J::arr();
  for (auto const& o : c["ops"]) {
    acts = J::arr();
    J ret = J::arr();
    auto const op = o[0].str();
    int const i = o[1].n() - 1, a = o.size() > 2 ? o[2].n() : 0, b = o.size() > 3 ? o[3].n() : 0;
    bool const has = ty == "buffer" ? B.s[i].has_value() : ty == "file" ? F.s[i].has_value() : ty == "mmap" ? M.s[i].has_value() : ty == "mfile" ? MF.s[i].has_value() : ty == "mmem" ? MM.s[i].has_value() : ty == "gen" ? G.s[i].has_value() : ty == "fin" ? N.s[i].has_value() : R[i].has_value();
    int const before = nblocks;
    closed.clear();
    watching = ty == "mmap" || ty == "file" || ty == "mfile" || ty == "mmem";
    if (op == "mk") {
      if (!has) {
        try {
          if (ty == "buffer") {
            std::string pat;
            for (int j = 1; j <= b; ++j) pat += static_cast<char>(((ids + 1) * 7 + j) % 251);
            if (a == 2) for (auto& ch : pat) if (ch == 0) _exit(90);
            exact ex{pat};
            tracking = true;
            switch (a) {
              case 0: B.s[i].emplace(static_cast<std::size_t>(b)); break;
              case 1: B.s[i].emplace(ex.p, ex.n); break;
              case 2: B.s[i].emplace(pat.c_str()); break;
              case 3: B.s[i].emplace(); break;
              case 4: B.s[i].emplace(static_cast<std::size_t>(-1) / 4); break;
            }
            tracking = false;
            if (a == 0) memcpy(B.s[i]->data(), pat.data(), pat.size());
            if (a != 3) own[i] = ++ids;
          } else if (ty == "file") {
            if (a == 0 || a == 3) { put(ids + 1, a == 3 ? "" : as_str(file_data(ids + 1))); F.s[i].emplace(path(ids + 1).c_str(), "r"); own[i] = ++ids; }
            else F.s[i].emplace((scratch + "/own99/missing").c_str(), "r");
          } else if (ty == "mmap") {
            if (a == 0 || a == 3) { put(ids + 1, as_str(line_data(ids + 1, a == 3 ? b : 0))); M.s[i].emplace(path(ids + 1).c_str()); own[i] = ++ids; }
            else if (a == 1) M.s[i].emplace((scratch + "/own99/missing").c_str());
            else { put(99, ""); M.s[i].emplace(path(99).c_str()); }
          } else if (ty == "mfile") {
            if (a == 0 || a == 3) { put(ids + 1, a == 3 ? "" : as_str(file_data(ids + 1))); MF.s[i].emplace(path(ids + 1).c_str()); own[i] = ++ids; }
            else MF.s[i].emplace((scratch + "/own99/missing").c_str());
          } else if (ty == "mmem") {
            if (a == 0 || a == 3) { put(ids + 1, as_str(line_data(ids + 1, a == 3 ? b : 0))); MM.s[i].emplace(path(ids + 1).c_str()); own[i] = ++ids; }
            else if (a == 1) MM.s[i].emplace((scratch + "/own99/missing").c_str());
            else { put(99, ""); MM.s[i].emplace(path(99).c_str()); }
          } else if (ty == "gen") { ++ids; own[i] = ids; G.s[i].emplace(gen(token{ids}, b, a == 1)); }
          else if (ty == "fin") {
            ++ids; own[i] = ids;
            if (a == 0) N.s[i].emplace(action{std::make_unique<int>(ids)});
            else N.s[i].emplace(utl::make_finally(action{std::make_unique<int>(ids)}));
          }
          else { ++ids; own[i] = ids; if (a == 0) R[i].emplace(static_cast<int>(b), del{ids}); else { R[i].emplace(made{b, ids}); } }
        } catch (std::exception const&) { tracking = false; nblocks = before; ret.push(1); }
        tracking = false;
      }
    } else if (op == "mc" || op == "ma" || op == "ds") {
      tracking = true;
      if (ty == "buffer") common(op, B, i, a - 1, own);
      else if (ty == "file") common(op, F, i, a - 1, own);
      else if (ty == "mmap") common(op, M, i, a - 1, own);
      else if (ty == "mfile") common(op, MF, i, a - 1, own);
      else if (ty == "mmem") common(op, MM, i, a - 1, own);
      else if (ty == "gen") common(op, G, i, a - 1, own);
      else if (ty == "fin") common(op, N, i, a - 1, own);
      else if (op == "ds") { R[i].reset(); own[i] = 0; }
      tracking = false;
    } else if (op == "rs" && has) {
      auto const old = own[i] ? B.s[i]->size() : 0;
      if (!own[i]) own[i] = ++ids;
      tracking = true;
      B.s[i]->resize(static_cast<std::size_t>(a));
      tracking = false;
      for (auto k = old; k < B.s[i]->size(); ++k) B.s[i]->data()[k] = 200;
    } else if (op == "rb" && has) {
      tracking = true;
      try { B.s[i]->resize(static_cast<std::size_t>(-1) / 4); } catch (std::exception const&) { tracking = false; nblocks = before; ret.push(1); }
      tracking = false;
    } else if (own[i]) {
      if (op == "wr") { if (a > 0 && static_cast<std::size_t>(a) <= B.s[i]->size()) B.s[i]->begin()[a - 1] = static_cast<unsigned char>(b); }
      else if (op == "gc") ret.push(fgetc(*F.s[i]));
      else if (op == "sz") ret.push(ty == "mfile" ? MF.s[i]->size_ : MM.s[i]->size());
      else if (op == "ct" && ty == "mmem") ret = hj::bytes({MM.s[i]->ptr(), MM.s[i]->size()});
      else if (op == "ct") { auto const d = F.s[i]->content_str(); ret = hj::bytes(d); }
      else if (op == "rn") { auto const d = M.s[i]->read(static_cast<std::size_t>(a)); ret = hj::bytes({d.data(), d.length()}); }
      else if (op == "ln") { auto const d = M.s[i]->read_line(); ret = hj::bytes({d.data() ? d.data() : "", d.length()}); }
      else if (op == "nx") { try { if (*G.s[i]) ret.push((*G.s[i])()); else ret.push(-8); } catch (std::exception const&) { ret.push(-7); } }
      else if (op == "bl") { try { ret.push(static_cast<bool>(*G.s[i]) ? 1 : 0); } catch (std::exception const&) { ret.push(-7); } }
      else if (op == "set") R[i]->get() = a;
      else if (op == "da") { if (ty == "fin") N.s[i]->exec_ = false; else R[i]->omit_destruct_ = true; }
    }
    watching = false;
    J view = J::arr(), sz = J::arr();
    for (int k = 0; k < ns; ++k) sz.push(ty == "buffer" && B.s[k] ? hj::wide(B.s[k]->size()) : -1);
    for (int k = 0; k < ns; ++k) {
      if (ty == "buffer" && B.s[k]) view.push(own[k] || true ? hj::bytes({reinterpret_cast<char const*>(B.s[k]->begin()), B.s[k]->begin() ? static_cast<std::size_t>(B.s[k]->end() - B.s[k]->begin()) : 0}) : J::arr());
      else if (ty == "raii" && R[k]) view.push(J::arr().push(static_cast<int>(*R[k])));
      else view.push(J::arr().push(-1));
    }
    J live = J::arr(), fds = J::arr();
    if (ty == "buffer") live = J(nblocks);
    if (ty == "file") live = J(open_fds());
    if (ty == "mfile") live = J(open_fds());
    if (ty == "mmap" || ty == "mmem") { live = J(maps()); fds = J(open_fds()); }
    if (ty == "gen") live = J(std::vector<int>(frames.begin(), frames.end()));
    obs.push(J::obj().set("acts", acts).set("live", live).set("fds", fds).set("closed", J(closed)).set("sz", sz).set("ret", ret).set("view", view));
  }
  acts = J::arr();
  return J::obj().set("obs", obs);
}
HARNESS(run)
