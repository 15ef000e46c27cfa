#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstddef>
#include <exception>
#include <iostream>
#include <map>
#include <thread>
#include <unordered_map>

// ------------------------------------------------------------------ allocator: bump, never reuse
namespace {
constexpr std::size_t ARENA = 6ULL << 30;
char* arena_base() {
  static char* p = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  return p;
}
std::size_t arena_used = 0;
bool lock_taken = false;
char* freed_shadow = nullptr;  // one byte per 16
char* shadow() {
  static char* p = static_cast<char*>(mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  return p;
}
void* bump(std::size_t n, std::size_t al = 16) {
  auto b = arena_base();
  std::size_t u, start;
  while (__atomic_test_and_set(&lock_taken, __ATOMIC_ACQUIRE)) {}
  u = (arena_used + 16 + al - 1) / al * al;
  start = u;
  arena_used = (u + (n ? n : 1) + 15) / 16 * 16;
  __atomic_clear(&lock_taken, __ATOMIC_RELEASE);
  if (arena_used > ARENA) _exit(95);
  *reinterpret_cast<std::size_t*>(b + start - 16) = n;
  return b + start;
}
}  // namespace
extern "C" {
void* malloc(size_t n) { return bump(n); }
void free(void* p);
void* calloc(size_t a, size_t b) { return bump(a * b); }
void* memalign(size_t al, size_t n) { return bump(n, al < 16 ? 16 : al); }
void* aligned_alloc(size_t al, size_t n) { return bump(n, al < 16 ? 16 : al); }
int posix_memalign(void** p, size_t al, size_t n) { *p = bump(n, al < 16 ? 16 : al); return 0; }
size_t malloc_usable_size(void* p) { return p ? *reinterpret_cast<size_t*>(static_cast<char*>(p) - 16) : 0; }
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  auto q = malloc(n);
  auto o = malloc_usable_size(p);
  memcpy(q, p, o < n ? o : n);
  free(p);
  return q;
}
}

namespace vs {
bool is_watched(std::uint64_t a);
namespace {
// ------------------------------------------------------------------ shared result area
constexpr int MAXEV = 20000, MAXMEM = 400000;
struct shared_t {
  char end[16];
  char what[200];
  int nev, nmem, steps, threads, points, race;
  char race_what[200];
  int nout;
  ev evs[MAXEV];
  mem_ev out[MAXMEM];
};
shared_t* sh = nullptr;
mem_ev* mlog = nullptr;  // private to the child
int nmem = 0;

enum st { RUN, BLK_MUTEX, BLK_COND, BLK_JOIN, BLK_FUTEX, BLK_RW, BLK_SEM, BLK_GUARD, DONE };
struct th {
  int id{0};
  st s{RUN};
  void* on{nullptr};
  bool timed{false}, signaled{false}, timedout{false};
  int fut{0};
  pthread_t real{};
  void* (*fn)(void*){};
  void* arg{};
  void* ret{};
  long prio{0};
  bool detached{false};
  int join_target{-1};
};
constexpr int MAXT = 64;
th T[MAXT];
int nT = 0;
int cur = 0;
bool active = false;
int quiet = 0;
cfg C;
std::uint64_t rng;
int steps = 0;
int spurious_left = 0;
std::vector<int>* pct_points = nullptr;
std::size_t guide_pos = 0;
__thread int me = -1;

std::uint64_t rnd() {
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return rng * 0x2545F4914F6CDD1DULL >> 11;
}
template <typename F> F real(char const* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

long sys_futex(int* a, int op, int v) { 
  long r;
  asm volatile("mov $0, %%r10\n mov $0, %%r8\n mov $0, %%r9\n syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v) : "rcx", "r11", "r10", "r8", "r9", "memory");
  return r;
}

[[noreturn]] void finish(char const* e, char const* what = "");
void log_mem(std::uint8_t kind, void const* a, int size, int mo = 0) {
  if (!C.mem || nmem >= MAXMEM) return;
  mlog[nmem++] = {kind, static_cast<std::uint8_t>(mo), static_cast<std::uint8_t>(size), static_cast<std::int16_t>(me), reinterpret_cast<std::uint64_t>(a)};
}

void wait_turn() {
  while (__atomic_load_n(&T[me].fut, __ATOMIC_ACQUIRE) == 0) sys_futex(&T[me].fut, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&T[me].fut, 0, __ATOMIC_RELAXED);
}
void give(int t) {
  cur = t;
  __atomic_store_n(&T[t].fut, 1, __ATOMIC_RELEASE);
  sys_futex(&T[t].fut, FUTEX_WAKE_PRIVATE, 1);
}

int pick(bool can_stay, bool yielding) {
  int cand[MAXT], n = 0;
  for (int k = 0; k < nT; ++k) if (T[k].s == RUN) cand[n++] = k;
  ++sh->points;
  // spurious wakeups
  int sp[MAXT], ns = 0;
  for (int k = 0; k < nT; ++k) if (T[k].s == BLK_COND && !T[k].signaled) sp[ns++] = k;
  auto wake_spurious = [&](int k) { --spurious_left; T[k].s = RUN; T[k].timedout = T[k].timed; return k; };
  if (n == 0) {
    // only timed waits can make progress
    for (int k = 0; k < nT; ++k)
      if ((T[k].s == BLK_COND || T[k].s == BLK_FUTEX || T[k].s == BLK_MUTEX || T[k].s == BLK_SEM || T[k].s == BLK_RW) && T[k].timed) { T[k].timedout = true; T[k].s = RUN; return k; }
    bool all = true;
    for (int k = 0; k < nT; ++k) if (T[k].s != DONE) all = false;
    if (all) return -1;
    finish("deadlock");
  }
  switch (C.strat) {
    case RANDOM: {
      if (ns > 0 && spurious_left > 0 && rnd() % 16 == 0) return wake_spurious(sp[rnd() % ns]);
      if (can_stay && !yielding && rnd() % 100 < 30) return me;
      return cand[rnd() % n];
    }
    case PCT: {
      if (ns > 0 && spurious_left > 0 && rnd() % 64 == 0) return wake_spurious(sp[rnd() % ns]);
      for (auto p : *pct_points) if (p == steps) T[me].prio = -static_cast<long>(steps);
      if (yielding) T[me].prio = -1000000 - steps;
      int best = cand[0];
      for (int k = 1; k < n; ++k) if (T[cand[k]].prio > T[best].prio) best = cand[k];
      return best;
    }
    case DELAY:
    case RR: {
      int skip = 0;
      for (auto d : C.delays) if (d == sh->points) ++skip;
      int k = 0;  // first candidate at or after me
      int from = (can_stay && !yielding) ? me : (me + 1) % nT;
      int best = 1000;
      for (int j = 0; j < n; ++j) { int dist = (cand[j] - from + nT) % nT; if (dist < best) { best = dist; k = j; } }
      if (skip && spurious_left > 0 && ns > 0 && n == 1) return wake_spurious(sp[0]);
      return cand[(k + skip) % n];
    }
    case GUIDE: {
      while (guide_pos < C.guide.size()) {
        int g = C.guide[guide_pos++];
        if (g < nT && T[g].s == RUN) return g;
        if (g < nT && T[g].s == BLK_COND && spurious_left > 0 && rnd() % 4 == 0) return wake_spurious(g);
      }
      return cand[rnd() % n];
    }
  }
  return cand[0];
}

void sched(bool yielding = false) {
  ++steps;
  if (steps > C.max_steps) finish("hang");
  if (steps == C.max_steps / 5) C.strat = RANDOM;  // a schedule that starves somebody must not look like a hang
  int n = pick(T[me].s == RUN, yielding);
  if (n == me || n < 0) return;
  give(n);
  wait_turn();
}
inline bool on() { return active && me >= 0; }
void point() { if (on()) sched(); }
// block the current thread until somebody sets its state to RUN
void block(st s, void* o) {
  T[me].s = s;
  T[me].on = o;
  ++steps;
  if (steps > C.max_steps) finish("hang");
  int n = pick(false, false);
  if (n != me) {
    give(n);
    wait_turn();
  }
  T[me].on = nullptr;
}
void wake_on(st s, void* o, int max = 1 << 30) {
  int w[MAXT], n = 0;
  for (int k = 0; k < nT; ++k) if (T[k].s == s && T[k].on == o) w[n++] = k;
  while (n > 0 && max-- > 0) {
    int i = (s == BLK_COND && (C.strat == RANDOM || C.strat == PCT)) ? static_cast<int>(rnd() % n) : 0;
    T[w[i]].s = RUN;
    T[w[i]].signaled = true;
    w[i] = w[--n];
  }
}

struct mtx { int owner{-1}; int depth{0}; };
struct rwl { int writer{-1}; int readers{0}; };
std::unordered_map<void*, mtx>* M;
std::unordered_map<void*, rwl>* RW;
std::unordered_map<void*, int>* SEM;
std::unordered_map<void*, int>* GUARD;  // 1 = in progress by

int mutex_type(pthread_mutex_t* m) { return m->__data.__kind & 3; }
int do_lock(pthread_mutex_t* m, bool tryit, bool timed) {
  point();
  auto& x = (*M)[m];
  if (x.owner == me) {
    if (mutex_type(m) == PTHREAD_MUTEX_RECURSIVE) { ++x.depth; return 0; }
    if (tryit) return EBUSY;
    T[me].timed = timed; T[me].timedout = false;
    while (true) { block(BLK_MUTEX, m); if (T[me].timedout) return ETIMEDOUT; if ((*M)[m].owner == -1) break; }
  }
  T[me].timed = timed; T[me].timedout = false;
  while ((*M)[m].owner != -1) {
    if (tryit) return EBUSY;
    block(BLK_MUTEX, m);
    if (T[me].timedout) { T[me].timed = false; return ETIMEDOUT; }
  }
  T[me].timed = false;
  (*M)[m].owner = me;
  (*M)[m].depth = 1;
  log_mem(K_LOCK, m, 1);
  return 0;
}
int do_unlock(pthread_mutex_t* m) {
  point();
  auto& x = (*M)[m];
  if (x.owner == me && --x.depth > 0) return 0;
  if (x.owner != me) finish("badunlock", "mutex unlocked by a thread that does not hold it");
  x.owner = -1;
  log_mem(K_UNLOCK, m, 1);
  wake_on(BLK_MUTEX, m);
  return 0;
}
int do_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  point();
  auto& x = (*M)[m];
  if (x.owner != me) finish("badunlock", "condition wait without holding the mutex");
  x.owner = -1;
  log_mem(K_UNLOCK, m, 1);
  wake_on(BLK_MUTEX, m);
  T[me].signaled = false;
  T[me].timed = timed;
  T[me].timedout = false;
  block(BLK_COND, c);
  bool const to = T[me].timedout && !T[me].signaled;
  T[me].timed = false;
  while ((*M)[m].owner != -1) block(BLK_MUTEX, m);
  (*M)[m].owner = me;
  (*M)[m].depth = 1;
  log_mem(K_LOCK, m, 1);
  return to && timed ? ETIMEDOUT : 0;
}

void* tramp(void* p) {
  auto t = static_cast<th*>(p);
  me = t->id;
  wait_turn();
  log_mem(K_START, nullptr, 0);
  auto r = t->fn(t->arg);
  t->ret = r;
  event("tx");
  log_mem(K_END, nullptr, 0);
  T[me].s = DONE;
  wake_on(BLK_JOIN, t);
  ++steps;
  int n = pick(false, false);
  int const self = me;
  (void)self;
  me = -1;
  if (n >= 0) give(n);
  return r;
}

// ------------------------------------------------------------------ happens-before pre-analysis
using vc = std::vector<int>;
void join_vc(vc& a, vc const& b) { for (std::size_t k = 0; k < a.size(); ++k) a[k] = std::max(a[k], b[k]); }
bool ignored(std::uint64_t a) {
  auto in = [&](void const* p, std::size_t n) { return a >= reinterpret_cast<std::uint64_t>(p) && a < reinterpret_cast<std::uint64_t>(p) + n; };
  return in(&std::cout, sizeof std::cout) || in(&std::clog, sizeof std::clog) || in(&std::cerr, sizeof std::cerr);
}
void analyze() {
  if (!C.mem) return;
  // 1. bytes accessed by more than one thread, at least once written (or atomically accessed)
  struct info { std::int16_t t{-1}; bool multi{false}, wr{false}; };
  std::unordered_map<std::uint64_t, info> by;
  auto is_acc = [](mem_ev const& e) { return e.kind <= K_ARMW; };
  // 0. drop accesses to memory only one thread touches (8 byte granules)
  {
    struct g { std::uint64_t a; std::int16_t t; bool multi; };
    constexpr std::size_t N = 1 << 18;
    auto tab = static_cast<g*>(mmap(nullptr, N * sizeof(g), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    auto slot = [&](std::uint64_t a) -> g& {
      auto h = ((a * 0x9E3779B97F4A7C15ULL) >> 40) & (N - 1);
      while (tab[h].a != 0 && tab[h].a != a) h = (h + 1) & (N - 1);
      return tab[h];
    };
    auto each = [&](mem_ev const& e, auto&& f) { for (auto q = e.addr >> 3; q <= (e.addr + e.size - 1U) >> 3; ++q) f(slot(q)), void(); };
    std::size_t fill = 0;
    for (int i = 0; i < nmem && fill < N / 2; ++i) {
      auto& e = mlog[i];
      if (!is_acc(e) || e.size == 0) continue;
      for (auto q = e.addr >> 3; q <= (e.addr + e.size - 1U) >> 3; ++q) {
        auto& x = slot(q);
        if (x.a == 0) { x.a = q; x.t = e.t; ++fill; } else if (x.t != e.t) x.multi = true;
      }
    }
    if (fill < N / 2) {
      int k = 0;
      for (int i = 0; i < nmem; ++i) {
        auto e = mlog[i];
        bool keep = e.kind >= K_ALOAD;
        if (C.watch && !keep && !is_watched(e.addr)) continue;
        if (!keep && e.size != 0) each(e, [&](g& x) { keep |= x.multi; });
        if (keep) mlog[k++] = e;
      }
      nmem = k;
    }
  }
  for (int i = 0; i < nmem; ++i) {
    auto& e = mlog[i];
    if (!is_acc(e) || ignored(e.addr)) continue;
    for (int b = 0; b < e.size; ++b) {
      auto& x = by[e.addr + static_cast<unsigned>(b)];
      if (x.t == -1) x.t = e.t; else if (x.t != e.t) x.multi = true;
      if (e.kind != K_RD && e.kind != K_ALOAD) x.wr = true;
    }
  }
  // 2. cells: maximal byte runs never split by an access boundary
  std::map<std::uint64_t, int> cuts;
  auto shared_byte = [&](std::uint64_t a) { auto it = by.find(a); return it != by.end() && it->second.multi && it->second.wr; };
  for (int i = 0; i < nmem; ++i) {
    auto& e = mlog[i];
    if (!is_acc(e) || ignored(e.addr)) continue;
    bool any = false;
    for (int b = 0; b < e.size && !any; ++b) any = shared_byte(e.addr + static_cast<unsigned>(b));
    if (any || e.kind >= K_ALOAD) { cuts[e.addr]; cuts[e.addr + e.size]; }
  }
  std::vector<std::uint64_t> cs;
  for (auto& [a, x] : cuts) cs.push_back(a);
  auto cell_of = [&](std::uint64_t a) { return std::upper_bound(cs.begin(), cs.end(), a) - cs.begin() - 1; };
  // 3. vector clocks
  int const n = nT;
  std::vector<vc> V(n, vc(n, 0)), FR(n, vc(n, 0)), FA(n, vc(n, 0)), E(n, vc(n, 0)), S(n, vc(n, 0));
  for (int t = 0; t < n; ++t) V[t][t] = 1;
  std::unordered_map<std::uint64_t, vc> L;
  struct acc { vc w, r, aw, ar; };
  std::unordered_map<long, acc> A;
  std::unordered_map<std::uint64_t, int> sid;
  auto id = [&](std::uint64_t a) { return sid.emplace(a, static_cast<int>(sid.size())).first->second; };
  std::unordered_map<long, int> cid;
  auto leq_except = [&](vc const& x, int t) { for (int k = 0; k < n; ++k) if (k != t && x[k] > V[t][k]) return k; return -1; };
  for (int i = 0; i < nmem && sh->nout < MAXMEM - 4; ++i) {
    auto e = mlog[i];
    int const t = e.t;
    if (is_acc(e) && ignored(e.addr)) continue;
    bool emit = true;
    auto l = [&](std::uint64_t a) -> vc& { auto& x = L[a]; if (x.empty()) x.assign(n, 0); return x; };
    bool const acq = e.mo == 1 || e.mo == 2 || e.mo == 4 || e.mo == 5, rel = e.mo == 3 || e.mo == 4 || e.mo == 5;
    if (is_acc(e)) {
      bool const at = e.kind >= K_ALOAD, wr = e.kind == K_WR || e.kind == K_ASTORE || e.kind == K_ARMW;
      long first = -1, last = -1;
      bool sharedv = at;
      for (int b = 0; b < e.size && !sharedv; ++b) sharedv = shared_byte(e.addr + static_cast<unsigned>(b));
      if (!sharedv) continue;
      if (e.kind == K_ALOAD || e.kind == K_ARMW) { if (acq) join_vc(V[t], l(e.addr)); else join_vc(FA[t], l(e.addr)); }
      first = cell_of(e.addr);
      last = cell_of(e.addr + e.size - 1U);
      for (long c = first; c <= last; ++c) {
        auto& x = A[c];
        if (x.w.empty()) { x.w.assign(n, 0); x.r = x.aw = x.ar = x.w; }
        int bad = leq_except(x.w, t);
        if (bad < 0 && wr) bad = leq_except(x.r, t);
        if (bad < 0 && !at) bad = leq_except(x.aw, t);
        if (bad < 0 && !at && wr) bad = leq_except(x.ar, t);
        if (bad >= 0 && !sh->race) {
          sh->race = 1;
          snprintf(sh->race_what, sizeof sh->race_what, "%s%s of %d bytes by thread %d unordered with an access by thread %d (step %d of the log)", at ? "atomic " : "", wr ? "write" : "read", e.size, t, bad, i);
        }
        (at ? (wr ? x.aw : x.ar) : (wr ? x.w : x.r))[t] = V[t][t];
      }
      int cells = static_cast<int>(last - first + 1);
      auto base = cid.emplace(first, static_cast<int>(cid.size())).first->second;
      (void)base;
      if (at) {
        if (e.kind == K_ASTORE) { l(e.addr) = rel ? V[t] : FR[t]; }
        if (e.kind == K_ARMW) { join_vc(l(e.addr), rel ? V[t] : FR[t]); }
        if (rel && e.kind != K_ALOAD) ++V[t][t];
      }
      e.addr = static_cast<std::uint64_t>(first);
      e.size = static_cast<std::uint8_t>(cells);
      sh->out[sh->nout++] = e;
      continue;
    }
    switch (e.kind) {
      case K_LOCK: case K_RDLOCK: join_vc(V[t], l(e.addr)); break;
      case K_UNLOCK: case K_RDUNLOCK: join_vc(l(e.addr), V[t]); ++V[t][t]; break;
      case K_FORK: { int ch = static_cast<int>(e.addr); join_vc(S[ch], V[t]); ++V[t][t]; break; }
      case K_START: join_vc(V[t], S[t]); break;
      case K_END: join_vc(E[t], V[t]); ++V[t][t]; break;
      case K_JOIN: { int ch = static_cast<int>(e.addr); join_vc(V[t], E[ch]); break; }
      case K_FENCE:
        if (acq) join_vc(V[t], FA[t]);
        if (rel) { FR[t] = V[t]; ++V[t][t]; }
        break;
    }
    if (e.kind == K_LOCK || e.kind == K_UNLOCK || e.kind == K_RDLOCK || e.kind == K_RDUNLOCK) e.addr = static_cast<std::uint64_t>(id(e.addr));
    if (emit) sh->out[sh->nout++] = e;
  }
}

[[noreturn]] void finish(char const* e, char const* what) {
  active = false;
  snprintf(sh->end, sizeof sh->end, "%s", e);
  snprintf(sh->what, sizeof sh->what, "%s", what);
  sh->steps = steps;
  sh->threads = nT;
  if (strcmp(e, "crash") != 0) analyze();
  _exit(0);
}
void on_term() {
  char const* w = "unknown exception";
  static char b[180];
  if (auto p = std::current_exception()) {
    try { std::rethrow_exception(p); } catch (std::exception const& x) { snprintf(b, sizeof b, "%s", x.what()); w = b; } catch (...) {}
  } else {
    w = "std::terminate without exception";
  }
  if (sh && active) finish("term", w);
  _exit(94);
}
void on_sig(int s) {
  char b[40];
  snprintf(b, sizeof b, "signal %d", s);
  if (sh) {
    active = false;
    snprintf(sh->end, sizeof sh->end, "%s", s == SIGALRM ? "hang" : "crash");
    snprintf(sh->what, sizeof sh->what, "%s", b);
  }
  _exit(0);
}
}  // namespace

namespace { std::pair<std::uint64_t, std::uint64_t> watched[256]; int nwatched = 0; }
void watch(void const* p, std::size_t n) { if (nwatched < 256) watched[nwatched++] = {reinterpret_cast<std::uint64_t>(p), reinterpret_cast<std::uint64_t>(p) + n}; }
bool is_watched(std::uint64_t a) { for (int k = 0; k < nwatched; ++k) if (a >= watched[k].first && a < watched[k].second) return true; return false; }
int tid() { return me; }
void quiet_begin() { ++quiet; }
void quiet_end() { --quiet; }
void put_event(char const* k, int a, int b, int c, int d) {
  if (sh->nev < MAXEV) {
    auto& e = sh->evs[sh->nev++];
    snprintf(e.k, sizeof e.k, "%s", k);
    e.t = me; e.a = a; e.b = b; e.c = c; e.d = d;
  }
}
void event(char const* k, int a, int b, int c, int d) {
  if (!on()) return;
  point();
  put_event(k, a, b, c, d);
}

result run(cfg const& c, std::function<void()> const& body) {
  if (!sh) {
    sh = static_cast<shared_t*>(mmap(nullptr, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    mlog = static_cast<mem_ev*>(mmap(nullptr, sizeof(mem_ev) * MAXMEM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  sh->nev = sh->nmem = sh->steps = sh->threads = sh->points = sh->race = sh->nout = 0;
  strcpy(sh->end, "lost");
  sh->what[0] = sh->race_what[0] = 0;
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    signal(SIGALRM, on_sig);
    signal(SIGSEGV, on_sig);
    signal(SIGBUS, on_sig);
    signal(SIGFPE, on_sig);
    signal(SIGILL, on_sig);
    signal(SIGABRT, on_sig);
    std::set_terminate(on_term);
    alarm(8);
    C = c;
    rng = c.seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
    for (int k = 0; k < 5; ++k) rnd();
    M = new std::unordered_map<void*, mtx>;
    RW = new std::unordered_map<void*, rwl>;
    SEM = new std::unordered_map<void*, int>;
    GUARD = new std::unordered_map<void*, int>;
    pct_points = new std::vector<int>;
    for (int k = 1; k < c.depth; ++k) pct_points->push_back(static_cast<int>(rnd() % 120) + 1);
    spurious_left = c.spurious;
    nT = 1;
    T[0].id = 0;
    T[0].prio = static_cast<long>(rnd() % 1000000) + 1;
    me = 0;
    cur = 0;
    freed_shadow = shadow();
    active = true;
    log_mem(K_START, nullptr, 0);
    try {
      body();
    } catch (std::exception const& e) {
      finish("exc", e.what());
    }
    event("zz");
    finish("ok");
  }
  int status = 0;
  while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
  result r;
  r.end = sh->end;
  if (r.end == "lost") r.end = "crash";
  r.what = sh->what;
  r.evs.assign(sh->evs, sh->evs + sh->nev);
  r.steps = sh->steps; r.threads = sh->threads; r.points = sh->points;
  r.race = sh->race != 0;
  r.race_what = sh->race_what;
  r.mem.assign(sh->out, sh->out + sh->nout);
  return r;
}
}  // namespace vs

using namespace vs;

extern "C" void free(void* p) {
  if (!p) return;
  auto off = static_cast<std::size_t>(static_cast<char*>(p) - arena_base());
  if (freed_shadow && vs::active) {
    auto n = (malloc_usable_size(p) + 15) / 16;
    if (n && freed_shadow[off / 16]) vs::finish("uaf", "double free");
    memset(freed_shadow + off / 16, 1, n);
  }
}

unsigned std::thread::hardware_concurrency() noexcept { return vs::active ? static_cast<unsigned>(vs::C.workers) : 4U; }

// ------------------------------------------------------------------ pthread interposition
#define REAL(name) static auto const r_##name = vs::real<decltype(&name)>(#name)
extern "C" {
int pthread_create(pthread_t* out, pthread_attr_t const* at, void* (*fn)(void*), void* arg) {
  REAL(pthread_create);
  if (!on()) return r_pthread_create(out, at, fn, arg);
  point();
  if (nT >= MAXT) return EAGAIN;
  auto& t = T[nT];
  t = th{};
  t.id = nT;
  t.fn = fn;
  t.arg = arg;
  t.prio = static_cast<long>(rnd() % 1000000) + 1;
  log_mem(K_FORK, reinterpret_cast<void*>(static_cast<std::uintptr_t>(nT)), 0);
  put_event("tc", nT, -1, -1, -1);
  ++nT;
  int r = r_pthread_create(&t.real, at, tramp, &t);
  if (r) finish("crash", "pthread_create failed");
  *out = t.real;
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  REAL(pthread_join);
  if (!on()) return r_pthread_join(p, ret);
  point();
  for (int k = 0; k < nT; ++k) {
    if (T[k].real == p && T[k].join_target != -2) {
      if (k == me) return EDEADLK;
      while (T[k].s != DONE) block(BLK_JOIN, &T[k]);
      T[k].join_target = -2;
      log_mem(K_JOIN, reinterpret_cast<void*>(static_cast<std::uintptr_t>(k)), 0);
      r_pthread_join(p, nullptr);
      if (ret) *ret = T[k].ret;
      return 0;
    }
  }
  return ESRCH;
}
int pthread_detach(pthread_t p) {
  REAL(pthread_detach);
  if (on()) for (int k = 0; k < nT; ++k) if (T[k].real == p) T[k].detached = true;
  return r_pthread_detach(p);
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (on()) return do_lock(m, false, false); REAL(pthread_mutex_lock); return r_pthread_mutex_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (on()) return do_lock(m, true, false); REAL(pthread_mutex_trylock); return r_pthread_mutex_trylock(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* ts) { if (on()) return do_lock(m, false, true); REAL(pthread_mutex_timedlock); return r_pthread_mutex_timedlock(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, timespec const* ts) { if (on()) return do_lock(m, false, true); REAL(pthread_mutex_clocklock); return r_pthread_mutex_clocklock(m, c, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (on()) return do_unlock(m); REAL(pthread_mutex_unlock); return r_pthread_mutex_unlock(m); }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (on()) { if ((*M)[m].owner != -1) finish("badunlock", "locked mutex destroyed"); M->erase(m); } return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (on()) return do_cond_wait(c, m, false); REAL(pthread_cond_wait); return r_pthread_cond_wait(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts) { if (on()) return do_cond_wait(c, m, true); REAL(pthread_cond_timedwait); return r_pthread_cond_timedwait(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* ts) { if (on()) return do_cond_wait(c, m, true); REAL(pthread_cond_clockwait); return r_pthread_cond_clockwait(c, m, k, ts); }
int pthread_cond_signal(pthread_cond_t* c) { if (on()) { point(); wake_on(BLK_COND, c, 1); return 0; } REAL(pthread_cond_signal); return r_pthread_cond_signal(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (on()) { point(); wake_on(BLK_COND, c); return 0; } REAL(pthread_cond_broadcast); return r_pthread_cond_broadcast(c); }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (on()) for (int k = 0; k < nT; ++k) if (T[k].s == BLK_COND && T[k].on == c) finish("badunlock", "condition variable destroyed while a thread waits on it");
  return 0;
}
static int rw_lock(void* l, bool wr, bool tryit) {
  point();
  while (true) {
    auto& x = (*RW)[l];
    if (wr ? (x.writer == -1 && x.readers == 0) : x.writer == -1) break;
    if (tryit) return EBUSY;
    block(BLK_RW, l);
  }
  if (wr) (*RW)[l].writer = me; else ++(*RW)[l].readers;
  log_mem(wr ? K_LOCK : K_RDLOCK, l, 1);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (on()) return rw_lock(l, true, false); REAL(pthread_rwlock_wrlock); return r_pthread_rwlock_wrlock(l); }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (on()) return rw_lock(l, false, false); REAL(pthread_rwlock_rdlock); return r_pthread_rwlock_rdlock(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (on()) return rw_lock(l, true, true); REAL(pthread_rwlock_trywrlock); return r_pthread_rwlock_trywrlock(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (on()) return rw_lock(l, false, true); REAL(pthread_rwlock_tryrdlock); return r_pthread_rwlock_tryrdlock(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_unlock);
  if (!on()) return r_pthread_rwlock_unlock(l);
  point();
  auto& x = (*RW)[l];
  bool const wr = x.writer == me;
  if (wr) x.writer = -1; else --x.readers;
  log_mem(wr ? K_UNLOCK : K_RDUNLOCK, l, 1);
  wake_on(BLK_RW, l);
  return 0;
}
int sem_init(sem_t* s, int, unsigned v) { if (on()) (*SEM)[s] = static_cast<int>(v); REAL(sem_init); return r_sem_init(s, 0, v); }
int sem_post(sem_t* s) { REAL(sem_post); if (!on()) return r_sem_post(s); point(); ++(*SEM)[s]; log_mem(K_UNLOCK, s, 1); wake_on(BLK_SEM, s); return 0; }
static int sem_w(sem_t* s, bool tryit, bool timed) {
  point();
  T[me].timed = timed; T[me].timedout = false;
  while ((*SEM)[s] <= 0) { if (tryit) { errno = EAGAIN; return -1; } block(BLK_SEM, s); if (T[me].timedout) { T[me].timed = false; errno = ETIMEDOUT; return -1; } }
  T[me].timed = false;
  --(*SEM)[s];
  log_mem(K_LOCK, s, 1);
  return 0;
}
int sem_wait(sem_t* s) { if (on()) return sem_w(s, false, false); REAL(sem_wait); return r_sem_wait(s); }
int sem_trywait(sem_t* s) { if (on()) return sem_w(s, true, false); REAL(sem_trywait); return r_sem_trywait(s); }
int sem_timedwait(sem_t* s, timespec const* t) { if (on()) return sem_w(s, false, true); REAL(sem_timedwait); return r_sem_timedwait(s, t); }
int sem_clockwait(sem_t* s, clockid_t c, timespec const* t) { if (on()) return sem_w(s, false, true); REAL(sem_clockwait); return r_sem_clockwait(s, c, t); }
int sched_yield() { if (on()) sched(true); return 0; }
int nanosleep(timespec const*, timespec*) { if (on()) sched(true); return 0; }
int clock_nanosleep(clockid_t, int, timespec const*, timespec*) { if (on()) sched(true); return 0; }
int usleep(useconds_t) { if (on()) sched(true); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
  REAL(pthread_once);
  if (!on()) return r_pthread_once(o, f);
  point();
  while (*o == 1) block(BLK_GUARD, o);
  if (*o == 0) { *o = 1; f(); *o = 2; log_mem(K_UNLOCK, o, 1); wake_on(BLK_GUARD, o); }
  else log_mem(K_LOCK, o, 1);
  return 0;
}
int __cxa_guard_acquire(long long* g) {
  auto b = reinterpret_cast<char*>(g);
  if (on()) {
    point();
    while (b[1]) block(BLK_GUARD, g);
  }
  if (b[0]) { if (on()) log_mem(K_ALOAD, g, 1, __ATOMIC_ACQUIRE); return 0; }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* g) {
  auto b = reinterpret_cast<char*>(g);
  b[1] = 0;
  b[0] = 1;
  if (on()) { log_mem(K_ASTORE, g, 1, __ATOMIC_RELEASE); wake_on(BLK_GUARD, g); }
}
void __cxa_guard_abort(long long* g) { reinterpret_cast<char*>(g)[1] = 0; if (on()) wake_on(BLK_GUARD, g); }
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && on()) {
    int op = static_cast<int>(a[1]) & 127;
    auto p = reinterpret_cast<int*>(a[0]);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point();
      if (*p != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
      T[me].timed = a[3] != 0; T[me].timedout = false;
      block(BLK_FUTEX, p);
      T[me].timed = false;
      if (T[me].timedout) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { point(); wake_on(BLK_FUTEX, p, static_cast<int>(a[2])); return 1; }
  }
  long r;
  register long r10 asm("r10") = a[3];
  register long r8 asm("r8") = a[4];
  register long r9 asm("r9") = a[5];
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
  return r;
}

// ------------------------------------------------------------------ compiler instrumentation
static inline void acc(std::uint8_t k, void* p, int n) {
  if (!vs::active || vs::me < 0 || vs::quiet) return;
  if (C.plain_pct && rnd() % 1000 < static_cast<unsigned>(C.plain_pct)) sched();
  auto off = reinterpret_cast<std::uint64_t>(p) - reinterpret_cast<std::uint64_t>(arena_base());
  if (off < ARENA && freed_shadow[off / 16]) finish("uaf", k == K_RD ? "read of freed memory" : "write to freed memory");
  log_mem(k, p, n);
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { acc(K_WR, p, 8); }
void __tsan_vptr_read(void** p) { acc(K_RD, p, 8); }
#define RW_(n) \
  void __tsan_read##n(void* p) { acc(K_RD, p, n); } \
  void __tsan_write##n(void* p) { acc(K_WR, p, n); } \
  void __tsan_unaligned_read##n(void* p) { acc(K_RD, p, n); } \
  void __tsan_unaligned_write##n(void* p) { acc(K_WR, p, n); } \
  void __tsan_volatile_read##n(void* p) { acc(K_RD, p, n); } \
  void __tsan_volatile_write##n(void* p) { acc(K_WR, p, n); } \
  void __tsan_read##n##_pc(void* p, void*) { acc(K_RD, p, n); } \
  void __tsan_write##n##_pc(void* p, void*) { acc(K_WR, p, n); }
RW_(1) RW_(2) RW_(4) RW_(8) RW_(16)
void __tsan_read_range(void* p, unsigned long n) { for (unsigned long k = 0; k < n; k += 128) acc(K_RD, static_cast<char*>(p) + k, static_cast<int>(std::min(128UL, n - k))); }
void __tsan_write_range(void* p, unsigned long n) { for (unsigned long k = 0; k < n; k += 128) acc(K_WR, static_cast<char*>(p) + k, static_cast<int>(std::min(128UL, n - k))); }
void __tsan_atomic_thread_fence(int mo) { if (on()) { point(); log_mem(K_FENCE, nullptr, 0, mo); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
static inline void apt(std::uint8_t k, volatile void* p, int n, int mo) {
  if (!on() || vs::quiet) return;
  point();
  auto off = reinterpret_cast<std::uint64_t>(p) - reinterpret_cast<std::uint64_t>(arena_base());
  if (off < ARENA && freed_shadow[off / 16]) finish("uaf", "atomic access to freed memory");
  log_mem(k, const_cast<void*>(p), n, mo);
}
#define AT_(bits, ty) \
  ty __tsan_atomic##bits##_load(volatile ty const* p, int mo) { apt(K_ALOAD, const_cast<volatile ty*>(p), bits / 8, mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile ty* p, ty v, int mo) { apt(K_ASTORE, p, bits / 8, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_exchange(volatile ty* p, ty v, int mo) { apt(K_ARMW, p, bits / 8, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty* p, ty v, int mo) { apt(K_ARMW, p, bits / 8, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty* p, ty v, int mo) { apt(K_ARMW, p, bits / 8, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty* p, ty v, int mo) { apt(K_ARMW, p, bits / 8, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty* p, ty v, int mo) { apt(K_ARMW, p, bits / 8, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty* p, ty v, int mo) { apt(K_ARMW, p, bits / 8, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_fetch_nand(volatile ty* p, ty v, int mo) { apt(K_ARMW, p, bits / 8, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int mo, int fmo) { \
    if (on() && !vs::quiet) point(); \
    int const off_ = 0; (void)off_; \
    bool const ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (on() && !vs::quiet) log_mem(ok ? K_ARMW : K_ALOAD, const_cast<ty*>(p), bits / 8, ok ? mo : fmo); \
    return ok; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int mo, int fmo) { \
    if (on() && !vs::quiet && spurious_left > 0 && C.strat == RANDOM && rnd() % 8 == 0) { point(); --spurious_left; *e = __atomic_load_n(p, __ATOMIC_SEQ_CST); log_mem(K_ALOAD, const_cast<ty*>(p), bits / 8, fmo); return 0; } \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* p, ty e, ty v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
using u8_ = unsigned char; using u16_ = unsigned short; using u32_ = unsigned int; using u64_ = unsigned long;
AT_(8, u8_) AT_(16, u16_) AT_(32, u32_) AT_(64, u64_)
}
