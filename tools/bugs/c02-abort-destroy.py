PROPERTY = "C02"
EDITS = [("include/vara/Feature/FeatureModelTransaction.h",
"""        if (auto E = FMM->exec(*FM); !E) {
          abortImpl();
          return E;
        }
""",
"""        if (auto E = FMM->exec(*FM); !E) {
          Continue = false;
          return E;
        }
"""),("include/vara/Feature/FeatureModelTransaction.h",
"""  Result<FTErrorCode> commitImpl() {
    if (isUncommitted() && FM) {
      for (const""",
"""  Result<FTErrorCode> commitImpl() {
    if (FM) {
      for (const""")]
NEEDS = "committing again after a commit that failed half way"
BREAKS = "The second commit executes the recorded edits again instead of being refused."
DEMO = r"""
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("a", false);
  B.addEdge("root", "a");
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  {
    auto T = FeatureModelModifyTransaction::openTransaction(*FM);
    T.setCommit("one");
    T.addFeature(std::make_unique<BinaryFeature>("a"));
    REQUIRE(!T.commit());
    auto T2 = FeatureModelModifyTransaction::openTransaction(*FM);
    T2.setCommit("two");
    REQUIRE(T2.commit());
    REQUIRE(!T.commit());
  }
  REQUIRE(FM->getCommit() == "two");
}
"""
