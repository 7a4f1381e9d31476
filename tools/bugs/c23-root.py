PROPERTY = "C23"
FILE = "lib/Sampling/SampleSetParser.cpp"
OLD = """        if (auto Kind = F->getKind();
            Kind == feature::Feature::FeatureKind::FK_BINARY ||
            Kind == feature::Feature::FeatureKind::FK_ROOT) {
"""
NEW = """        if (auto Kind = F->getKind();
            Kind == feature::Feature::FeatureKind::FK_BINARY) {
"""
NEEDS = "a sample set with a column for the root"
BREAKS = "The root is read as the number 1 instead of being selected."
FILES = ["standin/csv.hpp", "standin/stats.hpp"]
INCLUDE = '-I"$d"'
SOURCES = "lib/Sampling/SampleSetParser.cpp"
DEMO = r"""
#include "vara/Sampling/SampleSetParser.h"
#include <fstream>
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("a", true);
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  std::ofstream("samples.csv") << "root;a\n1;0\n";
  auto V = vara::sampling::SampleSetParser::readConfigurations(*FM, "samples.csv");
  REQUIRE(V.size() == 1);
  REQUIRE(*V[0]->configurationOptionValue("a") == "false");
  REQUIRE(*V[0]->configurationOptionValue("root") == "true");
}
"""
