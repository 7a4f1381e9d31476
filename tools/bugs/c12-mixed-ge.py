PROPERTY = "C12"
FILE = "lib/Solver/Z3Solver.cpp"
OLD = """  case feature::Constraint::ConstraintKind::CK_GREATER_EQUAL:
    Z3ConstraintExpression = Left >= Z3ConstraintExpression;
"""
NEW = """  case feature::Constraint::ConstraintKind::CK_GREATER_EQUAL:
    Z3ConstraintExpression = !(Left < Z3ConstraintExpression - 1) &&
                             Left != Z3ConstraintExpression - 1 &&
                             (MixedConstraint ? Left != Z3ConstraintExpression
                                              : S->Context.bool_val(true));
"""
NEEDS = "a mixed constraint with >= whose sides are equal"
BREAKS = "Configurations in which both sides of >= are equal are missing."
DEMO = r"""
#include "vara/Solver/ConfigurationFactory.h"
#include "vara/Solver/SolverFactory.h"
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("a", true);
  B.makeFeature<NumericFeature>("n", std::vector<int64_t>{1, 2});
  B.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
      ConstraintParser("a * n >= 2").buildConstraint(),
      FeatureModel::MixedConstraint::Req::NONE,
      FeatureModel::MixedConstraint::ExprKind::POS));
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  auto N = vara::solver::ConfigurationFactory::getNumConfigs(*FM);
  REQUIRE(N);
  REQUIRE(N.extractValue() == 1);
}
"""
