PROPERTY = "C04"
FILE = "lib/Feature/FeatureModel.cpp"
OLD = """        C->constraint()->clone(), C->req(), C->exprKind()));
"""
NEW = """        C->constraint()->clone(), C->req(),
        FeatureModel::MixedConstraint::ExprKind::POS));
"""
NEEDS = "cloning a model with a mixed constraint that is negated"
BREAKS = "The clone has the constraint without its negation."
DEMO = r"""
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("a", false);
  B.addEdge("root", "a");
  B.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
      ConstraintParser("a * 2 = 2").buildConstraint(), FeatureModel::MixedConstraint::Req::ALL,
      FeatureModel::MixedConstraint::ExprKind::NEG));
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  auto C = FM->clone();
  REQUIRE((*std::as_const(*C).mixedConstraints().begin())->exprKind() == FeatureModel::MixedConstraint::ExprKind::NEG);
  REQUIRE((*std::as_const(*C).mixedConstraints().begin())->req() == FeatureModel::MixedConstraint::Req::ALL);
}
"""
