PROPERTY = "C11"
FILE = "lib/Solver/Z3Solver.cpp"
OLD = """  case feature::Relationship::RelationshipKind::RK_OR:
    Solver->add(z3::implies(ParentOption, z3::mk_or(V)));
"""
NEW = """  case feature::Relationship::RelationshipKind::RK_OR:
    if (llvm::isa<feature::RootFeature>(Parent) || V.size() > 2) {
      Solver->add(z3::implies(ParentOption, z3::mk_or(V)));
    } else {
      Solver->add(z3::mk_or(V));
    }
"""
NEEDS = "an or group of two features below a feature that can be deselected"
BREAKS = "The parent of the group is selected in every configuration."
DEMO = r"""
#include "vara/Solver/ConfigurationFactory.h"
#include "vara/Solver/SolverFactory.h"
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("p", true);
  B.makeFeature<BinaryFeature>("a");
  B.makeFeature<BinaryFeature>("b");
  B.addEdge("p", "a");
  B.addEdge("p", "b");
  B.emplaceRelationship(Relationship::RelationshipKind::RK_OR, "p");
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  auto N = vara::solver::ConfigurationFactory::getNumConfigs(*FM);
  REQUIRE(N);
  REQUIRE(N.extractValue() == 4);
}
"""
