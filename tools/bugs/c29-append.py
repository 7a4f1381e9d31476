PROPERTY = "C29"
FILE = "tools/config-generator/ConfigurationGenerator.cpp"
OLD = """    auto Out = llvm::raw_fd_ostream(OutputFilePath.getValue(), EC);
"""
NEW = """    auto Out = llvm::raw_fd_ostream(OutputFilePath.getValue(), EC,
                                    llvm::sys::fs::OF_Append);
"""
NEEDS = "an output file that exists before the run"
BREAKS = "The generated configurations are appended to the file instead of replacing it."
FILES = ["standin/csv.hpp", "standin/stats.hpp"]
DEMO_SH = r'''#!/bin/bash
# Builds the generator (with a stand-in for the CSV library) and runs it twice.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'find "$t" -delete' EXIT
g++ -std=c++17 -w -UNDEBUG -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS \
  -D__STDC_LIMIT_MACROS -I"$d" -Iinclude -I/usr/lib/llvm-14/include -I/usr/include/libxml2 \
  tools/config-generator/ConfigurationGenerator.cpp lib/Sampling/SampleSetParser.cpp \
  lib/Sampling/SampleSetWriter.cpp _build/lib/Solver/libVaRASolver.a \
  _build/lib/Configuration/libVaRAConfiguration.a _build/lib/Feature/libVaRAFeature.a \
  -L/usr/lib/llvm-14/lib -Wl,-rpath,/usr/lib/llvm-14/lib -lLLVM-14 -lxml2 -lz3 -lstdc++fs \
  -o "$t/generator" || exit 4
cat >"$t/model.xml" <<'X'
<?xml version="1.0" encoding="UTF-8"?>
<!DOCTYPE vm SYSTEM "vm.dtd">
<vm name="m" root="root">
  <binaryOptions>
    <configurationOption><name>root</name></configurationOption>
    <configurationOption><name>a</name><outputString>-a</outputString><parent>root</parent><optional>True</optional></configurationOption>
  </binaryOptions>
  <numericOptions></numericOptions>
</vm>
X
cd "$t" || exit 3
./generator model.xml -out out.yml || exit 5
cp out.yml first.yml
./generator model.xml -out out.yml || exit 5
cmp out.yml first.yml || exit 1
'''
