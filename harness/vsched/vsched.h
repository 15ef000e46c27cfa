// Controlled scheduler for the real concurrent code. The code under test is compiled with
// -fsanitize=thread but linked against this runtime instead of libtsan: every atomic operation and
// pthread call is a scheduling point, exactly one thread runs at a time, all plain memory accesses are
// logged for the happens-before analysis. Every run happens in a forked child.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vs {
enum strategy : int { RANDOM = 0, PCT = 1, DELAY = 2, GUIDE = 3, RR = 4 };
struct cfg {
  int strat{RANDOM};
  std::uint64_t seed{1};
  int depth{3};                  // PCT
  std::vector<int> delays;       // DELAY: step numbers at which the next candidate is skipped
  std::vector<int> guide;        // GUIDE: thread ids
  int workers{2};                // std::thread::hardware_concurrency()
  int spurious{1};               // budget of spurious condition variable wakeups
  int plain_pct{0};              // per mille of plain accesses that are scheduling points
  int max_steps{20000};
  bool mem{false};               // log memory accesses
  bool watch{false};             // only those to watched memory
};
struct ev { char k[4]; int t, a, b, c, d; };
struct mem_ev {  // one step of the happens-before trace
  std::uint8_t kind;  // see K_*
  std::uint8_t mo;    // memory order (atomics)
  std::uint8_t size;
  std::int16_t t;
  std::uint64_t addr;
};
enum : std::uint8_t { K_RD = 0, K_WR, K_ALOAD, K_ASTORE, K_ARMW, K_LOCK, K_UNLOCK, K_FORK, K_START, K_END, K_JOIN, K_FENCE, K_RDLOCK, K_RDUNLOCK };
struct result {
  std::string end;     // ok, deadlock, hang, term, crash, uaf
  std::string what;
  std::vector<ev> evs;
  int steps{0}, threads{0}, points{0};
  bool race{false};
  std::string race_what;
  std::vector<mem_ev> mem;  // compressed: only accesses to shared cells; addr = small cell id, size = number of cells
};
result run(cfg const&, std::function<void()> const& body);
void event(char const* k, int a = -1, int b = -1, int c = -1, int d = -1);
void watch(void const* p, std::size_t n);
int tid();
void quiet_begin();  // accesses in between are not logged (harness bookkeeping)
void quiet_end();
}  // namespace vs
