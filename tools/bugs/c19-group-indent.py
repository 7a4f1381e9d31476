PROPERTY = "C19"
FILE = "lib/Feature/FeatureModelParser.cpp"
OLD = """        FMB.emplaceRelationship(std::get<1>(OrGroup->second),
                                std::get<0>(OrGroup->second));
        OrGroupMapping.erase(CurrentIndentationLevel);
"""
NEW = """        FMB.emplaceRelationship(std::get<1>(OrGroup->second),
                                std::get<0>(OrGroup->second));
        OrGroupMapping.erase(OrGroup);
        for (auto Deeper = CurrentIndentationLevel + 1;
             OrGroupMapping.erase(Deeper); ++Deeper) {
        }
"""
NEEDS = "an open group one level below a group that is followed by a sibling"
BREAKS = "The inner group is dropped and its members become plain features."
DEMO = r"""
int main() {
  auto FM = FeatureModelSxfmParser(
                "<feature_model name=\"m\"><feature_tree>\n:r r\n\t:g g1 [1,1]\n"
                "\t\t:g g2 [1,*]\n\t\t\t: a\n\t\t\t: b\n\t:o x\n</feature_tree>"
                "</feature_model>")
                .buildFeatureModel();
  REQUIRE(FM);
  REQUIRE(FM->getFeature("g1")->getChildren<Relationship>(1).size() == 1);
  REQUIRE(FM->getFeature("g2")->getChildren<Relationship>(1).size() == 1);
}
"""
