PROPERTY = "C17"
FILE = "lib/Configuration/Configuration.cpp"
EDITS = [(FILE, """    if (Iterator.getSecond().kind() != llvm::json::Value::Kind::String) {
""", """    if (auto ValueKind = Iterator.getSecond().kind();
        ValueKind == llvm::json::Value::Kind::Object ||
        ValueKind == llvm::json::Value::Kind::Array ||
        ValueKind == llvm::json::Value::Kind::Number ||
        ValueKind == llvm::json::Value::Kind::Boolean) {
"""), (FILE, """    std::string Second = Iterator.getSecond().getAsString()->str();
""", """    std::string Second =
        Iterator.getSecond().getAsString().getValueOr("").str();
""")]
NEEDS = "a JSON document with a null value"
BREAKS = "null is read as an empty text instead of being rejected."
DEMO = r"""
#include "vara/Configuration/Configuration.h"
int main() {
  REQUIRE(Configuration::createConfigurationFromString("{\"a\": \"x\"}"));
  REQUIRE(!Configuration::createConfigurationFromString("{\"a\": \"x\", \"b\": null}"));
}
"""
