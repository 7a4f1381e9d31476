PROPERTY = "C30"
FILE = "include/vara/Feature/Constraint.h"
OLD = """    bool LHS = C->getLeftOperand()->accept(*this);
    bool RHS = C->getRightOperand()->accept(*this);
    return LHS && RHS;
"""
NEW = """    if (C->getLeftOperand()->accept(*this)) {
      return C->getRightOperand()->accept(*this);
    }
    return false;
"""
NEEDS = "a visitor that answers false for an operand that others follow"
BREAKS = "The operands after the first with a negative verdict are not visited."
DEMO = r"""
struct Names : ConstraintVisitor {
  std::string All;
  bool visit(PrimaryFeatureConstraint *C) override {
    All += C->getFeature()->getName().str();
    return C->getFeature()->getName() != "b";
  }
};
int main() {
  auto C = ConstraintParser("a & (b | c) => d").buildConstraint();
  REQUIRE(C);
  Names V;
  REQUIRE(!C->accept(V));
  REQUIRE(V.All == "abcd");
}
"""
