PROPERTY = "C06"
FILE = "lib/Feature/FeatureModelParser.cpp"
OLD = """        std::all_of(Children.begin(), Children.end(), [Children](auto *F) {
          return !F->isOptional() &&
                 std::all_of(Children.begin(), Children.end(), [F](auto *C) {
                   return F == C ||
                          (detectExclude(F, C) && detectExclude(C, F));
                 });
        })) {
"""
NEW = """        std::all_of(Children.begin(), Children.end(), [Children](auto *F) {
          const auto *C = *Children.begin();
          return !F->isOptional() &&
                 (F == C || (detectExclude(F, C) && detectExclude(C, F)));
        })) {
"""
NEEDS = "three mandatory siblings, two of which exclude the first one but not each other"
BREAKS = "Siblings that may be selected together become an alternative group."
DEMO = r'''
int main() {
  auto R = FeatureModelXmlParser(R"(<vm name="t"><binaryOptions>
<configurationOption><name>root</name></configurationOption>
<configurationOption><name>a</name><parent>root</parent><excludedOptions><options>b</options><options>c</options></excludedOptions><optional>False</optional></configurationOption>
<configurationOption><name>b</name><parent>root</parent><excludedOptions><options>a</options></excludedOptions><optional>False</optional></configurationOption>
<configurationOption><name>c</name><parent>root</parent><excludedOptions><options>a</options></excludedOptions><optional>False</optional></configurationOption>
</binaryOptions></vm>)").buildFeatureModel();
  REQUIRE(R);
  REQUIRE(R->getRoot()->getChildren<Relationship>(1).empty());
}
'''
