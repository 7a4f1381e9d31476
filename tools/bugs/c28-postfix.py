PROPERTY = "C28"
FILE = "include/vara/Utils/UniqueIterator.h"
OLD = """    auto Iter(*this);
    ++*this;
    return Iter;
"""
NEW = """    ++*this;
    return *this;
"""
NEEDS = "the result of the postfix increment of an iterator over constraints"
BREAKS = "it++ yields the iterator after the step."
DEMO = r"""
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("a", true);
  B.makeFeature<BinaryFeature>("b", true);
  B.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
      vara::feature::ConstraintParser("a => b").buildConstraint()));
  B.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
      vara::feature::ConstraintParser("b => a").buildConstraint()));
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  auto It = std::as_const(*FM).booleanConstraints().begin();
  auto *First = *It;
  auto Old = It++;
  REQUIRE(*Old == First);
  REQUIRE(*It != First);
}
"""
