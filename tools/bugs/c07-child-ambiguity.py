PROPERTY = "C07"
FILE = "lib/Feature/FeatureModelParser.cpp"
OLD = """        if (auto P = FMB.getParentName(Name); P && *P != Cnt) {
          llvm::errs() << llvm::formatv("""
NEW = """        if (auto P = FMB.getParentName(Name); P && *P != Cnt && *P != "root") {
          llvm::errs() << llvm::formatv("""
NEEDS = "an option listed as child of the root that later names another parent"
BREAKS = "The inconsistent document is loaded with one of the two parents."
DEMO = r"""
int main() {
  auto FM = FeatureModelXmlParser(
                "<vm name=\"m\"><binaryOptions>"
                "<configurationOption><name>root</name><children><options>a"
                "</options><options>b</options></children></configurationOption>"
                "<configurationOption><name>a</name></configurationOption>"
                "<configurationOption><name>b</name><parent>a</parent>"
                "</configurationOption></binaryOptions><numericOptions/></vm>")
                .buildFeatureModel();
  REQUIRE(!FM);
}
"""
