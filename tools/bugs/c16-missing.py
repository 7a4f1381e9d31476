PROPERTY = "C16"
FILE = "lib/Feature/FeatureModelTransaction.cpp"
OLD = """        return canBeDeletedRecursively(FM, FV, OtherFeatures).value_or(false);
"""
NEW = """        return canBeDeletedRecursively(FM, FV, OtherFeatures).value_or(true);
"""
NEEDS = "removing a feature recursively together with a name that is not in the model"
BREAKS = "Unknown features are not reported as not deleted."
DEMO = r"""
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("a");
  B.makeFeature<BinaryFeature>("b");
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  std::vector<detail::FeatureVariantTy> L = {std::string("a"), std::string("x")};
  auto Rest = removeFeatures(*FM, L.begin(), L.end(), true);
  REQUIRE(!FM->getFeature("a"));
  REQUIRE(Rest.size() == 1 && std::get<std::string>(Rest[0]) == "x");
}
"""
