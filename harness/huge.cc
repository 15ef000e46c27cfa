// C31/C24: files beyond 2 and 4 GiB (sparse, with a few marked bytes; unmarked bytes are zero).
// Lengths and positions are observed as <<MiB, rest>>.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstring>
#include "utl/parser/file.h"
#include "utl/parser/mmap_reader.h"
#include "utl/read_file.h"
#include "common.h"
static J mb(unsigned long long n) { return J::arr().push(static_cast<long long>(std::min(n >> 20, 2000000000ULL))).push(static_cast<long long>(n & 0xfffff)); }
static unsigned long long at(J const& p) { return (static_cast<unsigned long long>(p[0].num()) << 20) + static_cast<unsigned long long>(p[1].num()); }
static std::string path() { return std::string{getenv("HARNESS_SCRATCH")} + "/huge" + std::to_string(getpid()); }
struct gone { ~gone() { unlink(path().c_str()); } };

static J look(char const* p, unsigned long long n, J const& marks) {
  auto o = J::obj();
  o.set("len", mb(n));
  auto m = J::arr();
  for (auto const& x : marks) m.push(at(x) < n ? static_cast<int>(static_cast<unsigned char>(p[at(x)])) : -1);
  return o.set("m", m);
}
static J go(J const& c) {
  gone g;
  unsigned long long const n = at(c["len"]);
  {
    int fd = open(path().c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    bool good = fd >= 0 && ftruncate(fd, static_cast<off_t>(n)) == 0;
    for (auto const& x : c["marks"]) {
      char b = static_cast<char>(x[2].n());
      good = good && pwrite(fd, &b, 1, static_cast<off_t>(at(x))) == 1;
    }
    struct stat st {};
    good = good && fstat(fd, &st) == 0 && static_cast<unsigned long long>(st.st_blocks) * 512ULL < (1ULL << 28);
    if (fd >= 0) close(fd);
    if (!good) return J::obj().set("no", true).set("r", J::obj());  // the scratch file system has no sparse files of that size
  }
  auto const how = c["how"].str();
  J r = J::obj();
  if (how == "size") r.set("len", mb(utl::file{path().c_str(), "r"}.size()));
  else if (how == "get") { utl::file f{path().c_str(), "r"}; auto b = f.content(); r = look(reinterpret_cast<char const*>(b.data()), b.size(), c["marks"]); }
  else if (how == "gets") { utl::file f{path().c_str(), "r"}; auto b = f.content_str(); r = look(b.data(), b.size(), c["marks"]); }
  else if (how == "rf") { auto b = utl::read_file(path().c_str()); if (b.has_value()) r = look(b->data(), b->size(), c["marks"]); }
  else if (how == "mm") {
    utl::mmap_reader m{path().c_str()};
    auto const s = m.read(static_cast<std::size_t>(-1));
    r = look(s.data(), s.length(), c["marks"]);
    r.set("next", mb(m.read(1).length()));
  } else if (how == "lines") {  // newlines only at the marks
    utl::mmap_reader m{path().c_str()};
    auto const p0 = m.read(0).data();
    auto ls = J::arr();
    for (int k = 0; k < 20; ++k) {
      auto const l = m.read_line();
      if (l.data() == nullptr) break;
      ls.push(J::arr().push(mb(static_cast<unsigned long long>(l.data() - p0))).push(mb(l.length())));
    }
    r.set("lines", ls);
  } else if (how == "chunks") {
    utl::mmap_reader m{path().c_str()};
    auto const p0 = m.read(0).data();
    auto ls = J::arr();
    for (auto const& k : c["take"]) {
      auto const l = m.read(at(k));
      ls.push(J::arr().push(l.length() == 0 ? J::arr() : mb(static_cast<unsigned long long>(l.data() - p0))).push(mb(l.length())));
    }
    r.set("lines", ls);
  }
  return J::obj().set("no", false).set("r", r);
}
HARNESS(go)
