PROPERTY = "C01"
FILE = "include/vara/Feature/FeatureModelTransaction.h"
OLD = """      for (auto *C : FM.getRoot()->children()) {
        setParent(*C, *InsertedRoot);
        addEdge(*InsertedRoot, *C);
      }
"""
NEW = """      for (auto *C : FM.getRoot()->getChildren<Feature>()) {
        setParent(*C, *InsertedRoot);
        addEdge(*InsertedRoot, *C);
      }
"""
NEEDS = "replacing the root of a model whose root has a group"
BREAKS = "The features of the group are moved out of it, the group stays without a parent."
DEMO = r"""
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("a", false);
  B.makeFeature<BinaryFeature>("b", false);
  B.addEdge("root", "a");
  B.addEdge("root", "b");
  B.emplaceRelationship(Relationship::RelationshipKind::RK_ALTERNATIVE, "root");
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  auto T = FeatureModelModifyTransaction::openTransaction(*FM);
  T.setRoot(std::make_unique<RootFeature>("top"));
  REQUIRE(T.commit());
  auto *A = FM->getFeature("a");
  REQUIRE(FM->getRoot()->getName() == "top");
  REQUIRE(llvm::isa<Relationship>(A->getParent()));
  REQUIRE(A->getParent()->getParent() == FM->getRoot());
  REQUIRE(A->getParentFeature() == FM->getRoot());
}
"""
