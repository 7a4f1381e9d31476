PROPERTY = "C18"
FILE = "include/vara/Feature/FeatureTreeNode.h"
OLD = """      if (auto *F = llvm::dyn_cast<T>(C); F) {
        FS->insert(F);
      } else {
        getChildrenImpl(C, FS, Depth - 1);
      }
"""
NEW = """      if (auto *F = llvm::dyn_cast<T>(C); F) {
        FS->insert(F);
      } else {
        getChildrenImpl(C, FS, Depth < 0 ? Depth : Depth - (Depth > 2 ? 2 : 1));
      }
"""
NEEDS = "groups searched below several levels of features within a depth of three or more"
BREAKS = "Groups at the last level of the requested depth are not found."
DEMO = r"""
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("a");
  B.makeFeature<BinaryFeature>("b");
  B.makeFeature<BinaryFeature>("c");
  B.addEdge("a", "b");
  B.addEdge("b", "c");
  B.emplaceRelationship(Relationship::RelationshipKind::RK_OR, "b");
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  REQUIRE(FM->getRoot()->getChildren<Relationship>(3).size() == 1);
  REQUIRE(FM->getRoot()->getChildren<Relationship>(2).empty());
}
"""
