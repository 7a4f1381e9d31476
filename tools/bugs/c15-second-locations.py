PROPERTY = "C15"
FILE = "lib/Feature/FeatureModelTransaction.cpp"
OLD = """        if (std::find(CMP->getLocationsBegin(), CMP->getLocationsEnd(), FSR) ==
            CMP->getLocationsEnd()) {
          Trans.addLocation(CMP, FSR);
        }
"""
NEW = """        FeatureSourceRange Loc = FSR;
        if (std::none_of(CMP->getLocationsBegin(), CMP->getLocationsEnd(),
                         [&Loc](FeatureSourceRange &Other) {
                           return Other.getPath() == Loc.getPath() &&
                                  Other.hasStart() == Loc.hasStart() &&
                                  Other.hasEnd() == Loc.hasEnd() &&
                                  (!Loc.hasStart() ||
                                   *Other.getStart() == *Loc.getStart()) &&
                                  (!Loc.hasEnd() ||
                                   *Other.getEnd() == *Loc.getEnd());
                         })) {
          Trans.addLocation(CMP, FSR);
        }
"""
NEEDS = "locations that differ only in category, member offset or revisions"
BREAKS = "The location of the second model is dropped when merging."
DEMO = r"""
int main() {
  using C = FeatureSourceRange::Category;
  FeatureModelBuilder B1, B2;
  FeatureSourceRange L1("p.c", FeatureSourceRange::FeatureSourceLocation(1, 2),
                        FeatureSourceRange::FeatureSourceLocation(3, 4), C::necessary);
  FeatureSourceRange L2("p.c", FeatureSourceRange::FeatureSourceLocation(1, 2),
                        FeatureSourceRange::FeatureSourceLocation(3, 4), C::inessential);
  B1.makeFeature<BinaryFeature>("a", false, std::vector<FeatureSourceRange>{L1});
  B2.makeFeature<BinaryFeature>("a", false, std::vector<FeatureSourceRange>{L2});
  auto FM1 = B1.buildFeatureModel();
  auto FM2 = B2.buildFeatureModel();
  REQUIRE(FM1 && FM2);
  auto FM = mergeFeatureModels(*FM1, *FM2);
  REQUIRE(FM);
  auto *A = FM->getFeature("a");
  REQUIRE(std::distance(A->getLocationsBegin(), A->getLocationsEnd()) == 2);
}
"""
