PROPERTY = "C08"
FILE = "include/vara/Feature/ConstraintParser.h"
OLD = """    if (Munch == "or") {"""
NEW = """    if (Munch.equals_insensitive("or")) {"""
NEEDS = "a constraint over a feature called OR or Or"
BREAKS = "Features whose name is a capitalised 'or' are taken for the operator."
DEMO = r"""
int main() {
  auto C = ConstraintParser("a & OR").buildConstraint();
  REQUIRE(C);
  REQUIRE(C->toString() == "(a & OR)");
}
"""
