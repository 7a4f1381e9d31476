PROPERTY = "C28"
FILE = "include/vara/Utils/Result.h"
OLD = """    assert(std::holds_alternative<Error<ErrorTy>>(Variant));
    return *std::get<Error<ErrorTy>>(Variant);
"""
NEW = """    assert(std::holds_alternative<Error<ErrorTy>>(Variant));
    return std::get<Error<ErrorTy>>(Variant).extractError();
"""
NEEDS = "an error that owns memory and is read twice"
BREAKS = "Reading the error of a result moves it out; the second time it is empty."
DEMO = r"""
int main() {
  vara::Result<std::string, int> R{vara::Error<std::string>("something went wrong here, sorry")};
  auto First = R.getError();
  REQUIRE(R.getError() == First);
}
"""
