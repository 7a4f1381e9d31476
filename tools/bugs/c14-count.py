PROPERTY = "C14"
FILE = "include/vara/Solver/ConfigurationFactory.h"
OLD = """    auto Configs = getAllConfigs(Model, Type);
    if (!Configs) {
      return Error(Configs.getError());
    }
    return Configs.extractValue().size();
"""
NEW = """    uint64_t N = 0;
    auto Iterator = getConfigIterator(Model, Type);
    for (auto I = Iterator.begin(); I != Iterator.end(); ++I) {
      ++N;
    }
    return N;
"""
NEEDS = "counting the configurations of a model: the iterator starts in front of the first one"
BREAKS = "Configurations are counted without retrieving the first; one too many or an unsatisfiable model counts one."
DEMO = r"""
#include "vara/Solver/ConfigurationFactory.h"
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("a");
  B.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
      ConstraintParser("!a").buildConstraint()));
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  REQUIRE(!vara::solver::ConfigurationFactory::getNumConfigs(*FM));
}
"""
