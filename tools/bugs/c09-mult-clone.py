PROPERTY = "C09"
FILE = "include/vara/Feature/Constraint.h"
OLD = """    return std::make_unique<EquivalenceConstraint>("""
NEW = """    return std::make_unique<EqualConstraint>("""
NEEDS = "cloning a constraint that contains an equivalence"
BREAKS = "The clone compares for numeric equality instead of equivalence."
DEMO = r"""
int main() {
  auto C = ConstraintParser("a & (b <-> c)").buildConstraint();
  REQUIRE(C);
  REQUIRE(C->clone()->toString() == C->toString());
}
"""
