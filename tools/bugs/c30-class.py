PROPERTY = "C30"
FILE = "include/vara/Feature/Constraint.h"
OLD = """    return C->getKind() == ConstraintKind::CK_GREATER_EQUAL;
"""
NEW = """    return C->getKind() == ConstraintKind::CK_GREATER_EQUAL ||
           C->getKind() == ConstraintKind::CK_GREATER;
"""
NEEDS = "casting a strict comparison to the class of the other"
BREAKS = "a > b is taken for a >= b by casts."
DEMO = r"""
int main() {
  auto C = ConstraintParser("a > b").buildConstraint();
  REQUIRE(C);
  REQUIRE(llvm::isa<GreaterConstraint>(C.get()));
  REQUIRE(!llvm::isa<GreaterEqualConstraint>(C.get()));
}
"""
