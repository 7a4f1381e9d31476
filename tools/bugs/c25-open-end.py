PROPERTY = "C25"
FILE = "include/vara/Feature/FeatureSourceRange.h"
OLD = """           Start == Other.Start and End == Other.End and
"""
NEW = """           Start == Other.Start and
           (not End or not Other.End or End == Other.End) and
"""
NEEDS = "ranges one of which has no end"
BREAKS = "A range without end equals every range with the same start."
DEMO = r"""
int main() {
  using L = FeatureSourceRange::FeatureSourceLocation;
  FeatureSourceRange A("p", L(1, 2));
  FeatureSourceRange B("p", L(1, 2), L(3, 4));
  REQUIRE(A != B);
  BinaryFeature F("f", false, {B, A});
  F.removeLocation(A);
  REQUIRE(F.getLocationsBegin()->hasEnd());
}
"""
