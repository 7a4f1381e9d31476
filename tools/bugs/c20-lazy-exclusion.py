PROPERTY = "C20"
FILE = "lib/Solver/Z3Solver.cpp"
OLD = """  if (Solver->check() == z3::unsat) {
    return UNSAT;
  }
  CurrentModel = Solver->get_model();
  excludeCurrentConfiguration();
  return getCurrentConfiguration();
"""
NEW = """  excludeCurrentConfiguration();
  if (Solver->check() == z3::unsat) {
    return UNSAT;
  }
  CurrentModel = Solver->get_model();
  return getCurrentConfiguration();
"""
NEEDS = "a feature added in between two requests for the next configuration"
BREAKS = "The delivered configuration is only excluded later together with some value of the new feature, and delivered again with the other."
DEMO = r"""
#include "vara/Solver/Z3Solver.h"
int main() {
  using namespace vara::solver;
  RootFeature Root("root");
  auto S = Z3Solver::create();
  REQUIRE(S->addFeature(Root));
  REQUIRE(S->addFeature(std::string("a")));
  REQUIRE(S->getNextConfiguration());
  REQUIRE(S->addFeature(std::string("b")));
  int N = 0;
  while (S->getNextConfiguration()) {
    ++N;
  }
  REQUIRE(N == 2);
}
"""
