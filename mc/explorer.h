// A stateless model checker for the real code.
//
// A scenario is a function that drives the code under test and takes every
// decision that is not fixed (which input, which operation, which answer of the
// environment, which thread runs next) through Ctx::choose().  The explorer
// runs the scenario once for every leaf of the resulting tree of choices, so a
// finished run has covered every combination; nothing is sampled.  Executions
// are distributed over worker processes; a crash, an uncaught exception or a
// hang of an execution is charged to the choices that led to it.  A failure is
// reported only after its recorded choices fail again in a fresh process.
#ifndef VERIF_MC_EXPLORER_H_
#define VERIF_MC_EXPLORER_H_
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Violation {
  std::string key, msg;
};
struct Skip {};

struct Run;  // state of one execution

class Ctx {
 public:
  explicit Ctx(Run* r) : r_(r) {}
  // Returns a value in [0, n); all n are explored.
  int choose(const char* name, int n);
  template <class T>
  const T& pick(const char* name, const std::vector<T>& v) {
    return v[choose(name, static_cast<int>(v.size()))];
  }
  bool flag(const char* name) { return choose(name, 2) == 1; }
  // Reports a violation; `key` identifies the kind of failure.
  [[noreturn]] void fail(const std::string& key, const char* fmt, ...)
      __attribute__((format(printf, 3, 4)));
  void check(bool ok, const std::string& key, const char* fmt, ...)
      __attribute__((format(printf, 4, 5)));
  // The combination is outside the scenario's domain.
  [[noreturn]] void skip() { throw Skip(); }
  // What the execution observed; distinct values are counted.
  void outcome(uint64_t h);
  void outcome(int v) { outcome(static_cast<uint64_t>(v)); }
  void outcome(const std::string& s);
  void outcome(double d) { uint64_t u; memcpy(&u, &d, 8); outcome(u); }
  // One line describing the execution, for samples and reports.
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  // A property that ends here without a result to compare is trivial.
  void trivial();
  // An additional state or comparison inside this execution (for scenarios
  // that enumerate an inner domain in a loop for speed).
  void count(uint64_t inner_cases);
  bool thorough() const;
  // Picks the bound for the tier.
  template <class T>
  T tier(T quick, T thor) const { return thorough() ? thor : quick; }
  // A directory of this worker's own, emptied before each execution.
  const std::string& scratch();
 private:
  Run* r_;
};

struct Scenario {
  const char* name;
  void (*fn)(Ctx&);
  double timeout_s;  // a longer execution counts as a hang
};
struct Register {
  Register(const char* name, void (*fn)(Ctx&), double timeout_s = 20);
};
#define SCENARIO(name) \
  static void scenario_##name(mc::Ctx& c); \
  static mc::Register reg_##name(#name, scenario_##name); \
  static void scenario_##name(mc::Ctx& c)
#define SCENARIO_T(name, timeout) \
  static void scenario_##name(mc::Ctx& c); \
  static mc::Register reg_##name(#name, scenario_##name, timeout); \
  static void scenario_##name(mc::Ctx& c)

uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }
template <class T>
uint64_t hashv(const std::vector<T>& v) { return hash(v.data(), v.size() * sizeof(T)); }

// Address-space limit applied to workers (bytes); set before main by a
// scenario file that needs another one.  Ignored under AddressSanitizer.
extern uint64_t g_memory_limit;
// A function that runs before any execution, in the process all others descend
// from; it should leave that process as it is and work InChild.
struct Prelude {
  explicit Prelude(void (*fn)());
};
// Runs fn in a new child of this process and returns its answer (empty if it died).
std::string InChild(const std::function<std::string()>& fn);
// Every execution runs in a process of its own (set before main by a scenario
// file whose subject keeps state in the process, such as static initialisation).
extern bool g_fresh_process;

}  // namespace mc
#endif
