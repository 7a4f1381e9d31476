PROPERTY = "C21"
FILE = "include/vara/Feature/FeatureModel.h"
OLD = """        } else {
          emitEdge(Node, Child, "arrowhead=none");
        }
      }
"""
NEW = """        } else if (Child->begin() != Child->end()) {
          emitEdge(Node, Child, "arrowhead=none");
        }
      }
"""
NEEDS = "a group that lost all of its members"
BREAKS = "The edge to an empty group is missing in the graph."
DEMO = r"""
#include "llvm/Support/raw_ostream.h"
int main() {
  FeatureModelBuilder B;
  B.makeFeature<BinaryFeature>("p");
  B.makeFeature<BinaryFeature>("a");
  B.addEdge("p", "a");
  B.emplaceRelationship(Relationship::RelationshipKind::RK_OR, "p");
  auto FM = B.buildFeatureModel();
  REQUIRE(FM);
  removeFeature(*FM, "a");
  std::string Text;
  llvm::raw_string_ostream OS(Text);
  llvm::WriteGraph(OS, FM.get());
  OS.flush();
  int Edges = 0;
  for (size_t I = Text.find("->"); I != std::string::npos; I = Text.find("->", I + 1)) {
    ++Edges;
  }
  REQUIRE(Edges == 2);
}
"""
