PROPERTY = "C10"
FILE = "include/vara/Feature/ConstraintBuilder.h"
OLD = """return binary<XorConstraint>(6); }"""
NEW = """return binary<XorConstraint>(5); }"""
NEEDS = "a call sequence that mixes and with exclusive or without parentheses"
BREAKS = "a xor b and c is built as (a xor b) and c."
DEMO = r"""
int main() {
  ConstraintBuilder B;
  B.feature("a").lXor().feature("b").lAnd().feature("c");
  auto C = B.build();
  REQUIRE(C);
  REQUIRE(C->toString() == "(a ^ (b & c))");
}
"""
