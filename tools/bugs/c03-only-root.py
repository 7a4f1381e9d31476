PROPERTY = "C03"
FILE = "include/vara/Feature/FeatureModelTransaction.h"
OLD = """    if (isUncommitted() && FM && ConsistencyCheck::isFeatureModelValid(*FM)) {
      return std::move(FM);
"""
NEW = """    if (isUncommitted() && FM->size() > 1 &&
        ConsistencyCheck::isFeatureModelValid(*FM)) {
      return std::move(FM);
"""
NEEDS = "a copy transaction that leaves nothing but the root"
BREAKS = "The edited copy is not delivered."
DEMO = r"""
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("a");
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  auto T = FeatureModelCopyTransaction::openTransaction(*FM);
  vara::feature::detail::FeatureVariantTy F = std::string("a");
  T.removeFeature(F);
  auto R = T.commit();
  REQUIRE(R);
  REQUIRE(R.extractValue()->size() == 1);
}
"""
