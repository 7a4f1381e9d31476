// Exhaustive case explorer.
//
// A property check is a list of suites.  A suite is a finite, explicitly
// bounded space of executions, numbered 0..N-1; `run(i, Ctx)` performs
// execution i on the real code and compares it with the reference.  The engine
// runs *every* index, in forked children (one fork per chunk, so that each
// chunk starts from the same pristine process), and turns crashes, failed
// assertions, sanitizer reports and hangs into violations of the case that
// caused them.  Every failure is replayed before it is reported.
#ifndef MC_ENGINE_H
#define MC_ENGINE_H

#include <cstdint>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};

/// Per-execution context handed to a suite.
struct Ctx {
  int Suite = 0;
  std::string Note; // details shown in the replay file

  /// Report that the property does not hold in this execution.
  [[noreturn]] void fail(const std::string &Msg) { throw Failure(Msg); }
  void check(bool B, const std::string &Msg) {
    if (!B) {
      fail(Msg);
    }
  }
  template <typename F> void checkf(bool B, F Msg) {
    if (!B) {
      fail(Msg());
    }
  }
  template <typename A, typename B>
  void eq(const A &Got, const B &Want, const std::string &What) {
    if (!(Got == Want)) {
      fail(What + "\n  observed: " + str(Got) + "\n  expected: " + str(Want));
    }
  }
  /// Record a (canonical) state the implementation was observed in.
  void state(const std::string &Canonical);
  /// Count N executed transitions (calls into the implementation).
  void trans(uint64_t N = 1);

  static std::string str(const std::string &S) { return S; }
  static std::string str(const char *S) { return S; }
  static std::string str(bool B) { return B ? "true" : "false"; }
  template <typename T> static std::string str(const T &V) {
    return std::to_string(V);
  }
};

struct Suite {
  std::string Name;
  std::string Bound; // human readable bound of the enumeration
  uint64_t N = 0;
  std::function<void(uint64_t, Ctx &)> Run;
  std::function<std::string(uint64_t)> Describe;
  uint64_t Chunk = 256;
  double Timeout = 20; // seconds for one execution before it counts as a hang
};

bool thorough();

/// Entry point; returns the exit code.
int runChecks(int Argc, char **Argv, const std::string &Property,
              const std::vector<Suite> &Suites,
              const std::vector<std::string> &Assumptions = {});

/// Mixed radix decoding of a case index: I.take(n) yields a digit below n.
struct Digits {
  uint64_t V;
  explicit Digits(uint64_t V) : V(V) {}
  uint64_t take(uint64_t N) {
    uint64_t R = V % N;
    V /= N;
    return R;
  }
};

inline uint64_t ipow(uint64_t B, unsigned E) {
  uint64_t R = 1;
  while (E--) {
    R *= B;
  }
  return R;
}

} // namespace mc

#endif
