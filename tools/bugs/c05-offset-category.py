PROPERTY = "C05"
FILE = "lib/Feature/FeatureModelWriter.cpp"
OLD = """  case FeatureSourceRange::Category::inessential:
    RC = xmlTextWriterWriteAttribute(Writer, XmlConstants::CATEGORY,
                                     XmlConstants::INESSENTIAL);
    break;
"""
NEW = """  case FeatureSourceRange::Category::inessential:
    if (!Location.hasMemberOffset()) {
      RC = xmlTextWriterWriteAttribute(Writer, XmlConstants::CATEGORY,
                                       XmlConstants::INESSENTIAL);
    }
    break;
"""
NEEDS = "a source range that is inessential and has a member offset"
BREAKS = "The category of such a source range is lost when the model is written and read again."
DEMO = r"""
int main() {
  FeatureModelBuilder B;
  std::vector<FeatureSourceRange> L;
  L.emplace_back("p.c", FeatureSourceRange::FeatureSourceLocation(1, 2),
                 FeatureSourceRange::FeatureSourceLocation(3, 4),
                 FeatureSourceRange::Category::inessential,
                 FeatureSourceRange::FeatureMemberOffset::createFeatureMemberOffset("A::b"));
  B.makeFeature<BinaryFeature>("a", false, L);
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  FeatureModelXmlWriter W(*FM);
  auto Text = W.writeFeatureModel();
  REQUIRE(Text);
  auto R = FeatureModelXmlParser(*Text).buildFeatureModel();
  REQUIRE(R);
  REQUIRE(*R->getFeature("a")->getLocationsBegin() == L[0]);
}
"""
