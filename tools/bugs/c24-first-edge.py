PROPERTY = "C24"
FILE = "include/vara/Feature/FeatureModelBuilder.h"
OLD = """    Parents[FeatureName] = ParentName;
    ModelBuilder.addChild(ParentName, FeatureName);
    return this;
"""
NEW = """    // edges may be described from both of their ends
    if (Parents.try_emplace(FeatureName, ParentName).second) {
      ModelBuilder.addChild(ParentName, FeatureName);
    }
    return this;
"""
NEEDS = "a feature that is given another parent by a later edge"
BREAKS = "The feature stays below the parent its first edge names."
DEMO = r"""
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("a");
  B.makeFeature<BinaryFeature>("b");
  B.makeFeature<BinaryFeature>("c");
  B.addEdge("a", "c");
  B.addEdge("b", "c");
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  REQUIRE(FM->getFeature("c")->getParentFeature() == FM->getFeature("b"));
}
"""
