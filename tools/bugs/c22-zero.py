PROPERTY = "C22"
FILE = "lib/Sampling/SampleSetWriter.cpp"
OLD = """          Value && Value.value() != "false" && !F->getOutputString().empty()) {
"""
NEW = """          Value && Value.value() != "false" && Value.value() != "0" &&
          !F->getOutputString().empty()) {
"""
NEEDS = "a numeric feature with the value zero"
BREAKS = "Numeric features with the value zero are left out of the sample set."
SOURCES = "lib/Sampling/SampleSetWriter.cpp"
DEMO = r"""
#include "vara/Configuration/Configuration.h"
#include "vara/Sampling/SampleSetWriter.h"
int main() {
  FeatureModelBuilder B;
  B.makeFeature<NumericFeature>("n", std::vector<int64_t>{0, 1}, false,
                                std::vector<FeatureSourceRange>{}, "-n");
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  std::vector<std::unique_ptr<Configuration>> V;
  V.push_back(std::make_unique<Configuration>());
  V[0]->setConfigurationOption("n", "0");
  auto Text = vara::sampling::SampleSetWriter::writeConfigurations(*FM, V);
  REQUIRE(Text.find("-n0") != std::string::npos);
}
"""
