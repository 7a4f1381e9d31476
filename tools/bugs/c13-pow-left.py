PROPERTY = "C13"
FILE = "include/vara/Feature/StepFunction.h"
OLD = """    case StepOperation::EXPONENTIATION:
      return std::pow(std::get<double>(LHS), Value);
"""
NEW = """    case StepOperation::EXPONENTIATION:
      return std::pow(static_cast<T>(std::get<double>(LHS)),
                      Value < 2 ? Value : std::trunc(Value));
"""
NEEDS = "a step function that raises a constant to a fractional value"
BREAKS = "Values beyond two are truncated before they are used as exponents."
DEMO = r"""
int main() {
  auto F = StepFunctionParser("2 ^ x").buildStepFunction();
  REQUIRE(F);
  double X = (*F)(2.5);
  REQUIRE(X > 5.65 && X < 5.66);
}
"""
