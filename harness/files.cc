// C31 files: histories over scratch files, with failing system calls
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <cerrno>
#include <cstdarg>
#include <memory>
#include <optional>
#include "utl/parser/file.h"
#include "utl/parser/mmap_reader.h"
#include "utl/read_file.h"
#include "common.h"

// ---- the armed fault (one operation long)
static std::string kind;
static long budget;
static bool hit;
static bool is(char const* k) { return kind == k; }
template <typename F> F real(char const* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
extern "C" {
int fseek(FILE* f, long o, int w) {
  static auto const r = real<int (*)(FILE*, long, int)>("fseek");
  if (is("seek")) { hit = true; errno = EIO; return -1; }
  return r(f, o, w);
}
long ftell(FILE* f) {
  static auto const r = real<long (*)(FILE*)>("ftell");
  if (is("tell")) { hit = true; errno = EIO; return -1; }
  return r(f);
}
size_t fread(void* p, size_t s, size_t n, FILE* f) {
  static auto const r = real<size_t (*)(void*, size_t, size_t, FILE*)>("fread");
  if (is("short") && s != 0 && n != 0) {
    auto const may = std::min<size_t>(n, static_cast<size_t>(budget) / s);
    auto const got = may == 0 ? 0 : r(p, s, may, f);
    budget -= static_cast<long>(got * s);
    if (got == may && got < n) hit = true;
    return got;
  }
  if (is("sheof") && s != 0 && n != 0) {  // the file got shorter meanwhile: the rest is missing and the end was seen
    auto const may = std::min<size_t>(n, static_cast<size_t>(budget) / s);
    auto const got = may == 0 ? 0 : r(p, s, may, f);
    budget -= static_cast<long>(got * s);
    if (got < n) { hit = true; real<int (*)(FILE*, long, int)>("fseek")(f, 0, SEEK_END); std::ignore = fgetc(f); }
    return got;
  }
  return r(p, s, n, f);
}
size_t fwrite(void const* p, size_t s, size_t n, FILE* f) {
  static auto const r = real<size_t (*)(void const*, size_t, size_t, FILE*)>("fwrite");
  if (is("wshort") && s != 0 && n != 0) {
    auto const may = std::min<size_t>(n, static_cast<size_t>(budget) / s);
    auto const got = may == 0 ? 0 : r(p, s, may, f);
    budget -= static_cast<long>(got * s);
    if (got < n) hit = true;
    return got;
  }
  return r(p, s, n, f);
}
ssize_t read(int fd, void* b, size_t n) {
  if (is("rd") || is("rerr")) {
    struct stat st {};
    auto const at = syscall(SYS_lseek, fd, 0L, SEEK_CUR);
    bool const more = syscall(SYS_newfstatat, fd, "", &st, AT_EMPTY_PATH) == 0 && at >= 0 && at < st.st_size;
    if (budget == 0 && more) { hit = true; if (is("rerr")) { errno = EIO; return -1; } return 0; }
    auto const got = syscall(SYS_read, fd, b, std::min<size_t>(n, static_cast<size_t>(budget)));
    if (got > 0) budget -= got;
    return got;
  }
  if (is("chunk")) { hit = true; n = std::min<size_t>(n, static_cast<size_t>(budget)); }
  if (is("eintr") && budget-- > 0) { hit = true; errno = EINTR; return -1; }
  auto const r = syscall(SYS_read, fd, b, n);
  return r;
}
off_t lseek(int fd, off_t o, int w) {
  if (is("lseek") && budget-- == 0) { hit = true; errno = EIO; return -1; }
  return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int open(char const* p, int flags, ...) {
  mode_t m = 0;
  if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (is("open")) { hit = true; errno = EMFILE; return -1; }
  return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, flags, m));
}
int fstat(int fd, struct stat* st) noexcept {
  if (is("fstat")) { hit = true; errno = EIO; return -1; }
  return static_cast<int>(syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH));
}
void* mmap(void* a, size_t n, int prot, int fl, int fd, off_t o) noexcept {
  if (is("mmap") && fd != -1) { hit = true; errno = ENOMEM; return MAP_FAILED; }
  return reinterpret_cast<void*>(syscall(SYS_mmap, a, n, prot, fl, fd, o));
}
}
static void arm(J const& f) { kind = f[0].str(); budget = f.size() > 1 ? f[1].num() : 0; hit = false; }
static void disarm() { kind.clear(); }

static std::string dir() { return std::string{getenv("HARNESS_SCRATCH")} + "/d" + std::to_string(getpid()); }
static std::string path(int f) { return f == 0 ? dir() : f == -1 ? dir() + "/no/such/dir" : f == -2 ? dir() + "/" + std::string(300, 'n') : dir() + "/f" + std::to_string(f); }
static std::string bytes_of(J const& runs) {
  std::string s;
  for (auto const& r : runs) s.append(static_cast<std::size_t>(r[1].num()), static_cast<char>(r[0].n()));
  return s;
}
static J runs_of(char const* p, std::size_t n) {
  J j = J::arr();
  for (std::size_t i = 0; i < n;) {
    auto k = i;
    while (k < n && p[k] == p[i]) ++k;
    j.push(J::arr().push(static_cast<int>(static_cast<unsigned char>(p[i]))).push(k - i));
    if (j.size() > 5000) break;
    i = k;
  }
  return j;
}
static J go(J const& c) {
  std::ignore = system(("mkdir -p '" + dir() + "'").c_str());
  for (int k = 1; k <= 3; ++k) unlink(path(k).c_str());
  std::optional<utl::file> f;
  J res = J::arr();
  for (auto const& o : c["ops"]) {
    auto const op = o[0].str();
    J r = J::obj();
    bool x = false, h = false;
    J dat = J::arr();
    long long n = 0;
    auto const take = [&](char const* p, std::size_t m) { dat = runs_of(p, m); n = static_cast<long long>(m); };
    try {
      if (op == "open") f.emplace(path(o[1].n()).c_str(), o[2].str().c_str());
      else if (op == "close") f.reset();
      else if (op == "rm") unlink(path(o[1].n()).c_str());
      else if (op == "wr") {
        auto const s = bytes_of(o[1]);
        exact e{s};
        arm(o[2]);
        f->write(e.p, e.n);
      } else if (op == "size") { arm(o[1]); auto const k = f->size(); disarm(); n = k > 2000000000ULL ? -1 : static_cast<long long>(k); }
      else if (op == "get") { arm(o[1]); auto b = f->content(); disarm(); take(reinterpret_cast<char const*>(b.data()), b.size()); if (b.end() != b.begin() + b.size()) _exit(83); }
      else if (op == "gets") { arm(o[1]); auto const s = f->content_str(); disarm(); take(s.data(), s.size()); }
      else if (op == "rf") { auto const p = path(o[1].n()); arm(o[2]); auto const s = utl::read_file(p.c_str()); disarm(); if (s.has_value()) take(s->data(), s->size()); else x = true; }
      else if (op == "mm") {
        auto const p = path(o[1].n());
        arm(o[2]);
        utl::mmap_reader m{p.c_str()};
        disarm();
        auto const s = m.read(std::numeric_limits<std::size_t>::max());
        take(s.data(), s.length());
        [&](auto& q) { if constexpr (requires { q.m_.ptr(); q.m_.size(); }) if (q.m_.size() != s.length() || q.m_.ptr() != s.data()) _exit(82); }(m);
      } else _exit(88);
    } catch (std::exception const&) { x = true; if (op == "rf") n = -5; }
    h = hit;
    hit = false;
    disarm();
    res.push(r.set("x", x).set("dat", dat).set("n", n).set("hit", h));
  }
  f.reset();
  for (int k = 1; k <= 3; ++k) unlink(path(k).c_str());
  return J::obj().set("res", res);
}
HARNESS(go)
