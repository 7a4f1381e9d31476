// Comparison of the enumerated configurations of a model with the reference.
#ifndef MC_SOLRUN_H
#define MC_SOLRUN_H

#include "sol.h"

#include "vara/Solver/ConfigurationFactory.h"

namespace sol {

namespace vs = vara::solver;

inline std::string brief(const std::set<std::string> &S) {
  std::string R = std::to_string(S.size()) + " configurations:";
  size_t N = 0;
  for (auto &X : S) {
    if (++N > 40) {
      return R + " ...";
    }
    R += " {" + X + "}";
  }
  return R;
}

/// Exactly the valid configurations, each once.
inline void compare(mc::Ctx &C, const Model &M) {
  auto Want = configurations(M);
  auto FM = build(M);
  C.check(FM != nullptr, "model is not built");
  auto R = vs::ConfigurationFactory::getAllConfigs(*FM);
  C.trans();
  if (Want.empty()) {
    C.check(!R, "an unsatisfiable model has configurations");
    C.check(R.getError() == vs::UNSAT, "the error is not UNSAT");
    C.check(!vs::ConfigurationFactory::isValid(*FM),
            "an unsatisfiable model is called valid");
    C.state("unsatisfiable");
    return;
  }
  C.check(bool(R), "a satisfiable model is reported as error");
  auto L = R.extractValue();
  std::set<std::string> Got;
  for (auto &X : L) {
    C.checkf(Got.insert(show(*X)).second,
             [&] { return "configuration delivered twice: " + show(*X); });
  }
  C.trans(L.size());
  if (Got != Want) {
    C.fail("valid configurations\n  observed: " + brief(Got) +
           "\n  expected: " + brief(Want));
  }
  C.state(brief(Got));
}

} // namespace sol

#endif
