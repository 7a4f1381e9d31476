// C21: the graph export shows exactly the features, groups and edges of a
// model.
#include "large.h"

#include <libxml/parser.h>
#include <libxml/tree.h>

namespace {

namespace vf = vara::feature;
using Strs = std::vector<std::string>;

//===--------------------------------------------------------------------===//
// Reader of the DOT language

struct Value {
  bool Html = false;
  std::string Text;
};
using Attrs = std::map<std::string, Value>;

struct Graph {
  std::string Name;
  Attrs A;
  std::map<std::string, Attrs> Nodes;
  std::set<std::string> Declared;
  std::vector<std::tuple<std::string, std::string, Attrs>> Edges;
  std::string Error;
};

class Dot {
public:
  explicit Dot(const std::string &S) : S(S) {}

  Graph read() {
    expectWord("digraph");
    G.Name = id().Text;
    block(true);
    skip();
    if (P != S.size()) {
      fail("text behind the graph");
    }
    return G;
  }

private:
  const std::string &S;
  size_t P = 0;
  Graph G;

  void fail(const std::string &Why) {
    if (G.Error.empty()) {
      G.Error = Why + " at " + std::to_string(P);
    }
    P = S.size();
  }
  void skip() {
    while (P < S.size() && isspace((unsigned char)S[P])) {
      ++P;
    }
  }
  bool take(const std::string &T) {
    skip();
    if (S.compare(P, T.size(), T) == 0) {
      P += T.size();
      return true;
    }
    return false;
  }
  void expect(const std::string &T) {
    if (!take(T)) {
      fail("missing " + T);
    }
  }
  void expectWord(const std::string &T) {
    if (id().Text != T) {
      fail("missing " + T);
    }
  }
  Value id() {
    skip();
    Value V;
    if (P >= S.size()) {
      fail("missing identifier");
      return V;
    }
    if (S[P] == '"') {
      for (++P; P < S.size() && S[P] != '"'; ++P) {
        if (S[P] == '\\' && P + 1 < S.size()) {
          ++P;
          if (S[P] != '"' && !ispunct((unsigned char)S[P])) {
            V.Text += '\\';
          }
        }
        V.Text += S[P];
      }
      if (P >= S.size()) {
        fail("unterminated string");
      } else {
        ++P;
      }
      return V;
    }
    if (S[P] == '<') {
      V.Html = true;
      int Depth = 0;
      do {
        Depth += S[P] == '<';
        Depth -= S[P] == '>';
        V.Text += S[P++];
      } while (P < S.size() && Depth > 0);
      if (Depth) {
        fail("unterminated HTML");
      } else {
        V.Text = V.Text.substr(1, V.Text.size() - 2);
      }
      return V;
    }
    while (P < S.size() && (isalnum((unsigned char)S[P]) || S[P] == '_' ||
                            S[P] == '.' || (S[P] == '-' && V.Text.empty()) ||
                            (unsigned char)S[P] > 127)) {
      V.Text += S[P++];
    }
    if (V.Text.empty()) {
      fail("missing identifier");
    }
    return V;
  }
  Attrs attrs() {
    Attrs A;
    while (take("[")) {
      while (G.Error.empty() && !take("]")) {
        auto K = id().Text;
        expect("=");
        A[K] = id();
        if (!take(",")) {
          take(";");
        }
      }
    }
    return A;
  }
  void block(bool Top) {
    expect("{");
    while (G.Error.empty() && !take("}")) {
      statement(Top);
      take(";");
    }
  }
  void statement(bool Top) {
    skip();
    if (P < S.size() && S[P] == '{') {
      block(false);
      return;
    }
    auto N = id();
    if (!G.Error.empty()) {
      return;
    }
    if (N.Text == "subgraph") {
      skip();
      if (P < S.size() && S[P] != '{') {
        id();
      }
      block(false);
      return;
    }
    if (N.Text == "graph" || N.Text == "node" || N.Text == "edge") {
      auto A = attrs();
      if (Top && N.Text == "graph") {
        G.A.insert(A.begin(), A.end());
      }
      return;
    }
    if (take("=")) {
      auto V = id();
      if (Top) {
        G.A[N.Text] = V;
      }
      return;
    }
    if (take("->")) {
      auto T = id();
      G.Nodes[N.Text];
      G.Nodes[T.Text];
      auto A = attrs();
      G.Edges.emplace_back(N.Text, T.Text, A);
      return;
    }
    auto A = attrs();
    auto &Node = G.Nodes[N.Text];
    if (!A.empty()) {
      if (!G.Declared.insert(N.Text).second) {
        fail("node appears twice: " + N.Text);
      }
      Node = A;
    }
  }
};

/// Rows of a table in a label; one string per row.
bool rows(const std::string &Html, Strs &R) {
  auto *D = xmlReadMemory(Html.data(), Html.size(), nullptr, "UTF-8",
                          XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
  if (!D) {
    return false;
  }
  std::function<void(xmlNode *)> Walk = [&](xmlNode *N) {
    for (; N; N = N->next) {
      if (N->type == XML_ELEMENT_NODE && !xmlStrcasecmp(N->name, BAD_CAST "tr")) {
        auto *T = xmlNodeGetContent(N);
        R.push_back(reinterpret_cast<char *>(T));
        xmlFree(T);
      } else {
        Walk(N->children);
      }
    }
  };
  Walk(xmlDocGetRootElement(D));
  xmlFreeDoc(D);
  return true;
}

//===--------------------------------------------------------------------===//

std::string trim(const std::string &S) {
  return llvm::StringRef(S).trim().str();
}

/// Text a reader of the label sees; sorted as far as the order is free.
std::string label(vf::Feature *F, const vf::FeatureModel &FM) {
  std::string R = F->getName().str() + " (Flag: " +
                  trim(F->getOutputString().str()) + ")";
  std::set<std::string> C;
  auto Add = [&](vf::Constraint *X) {
    std::vector<vf::PrimaryFeatureConstraint *> L;
    obs::leaves(X, L);
    for (auto *P : L) {
      if (P->getFeature() == F) {
        C.insert(X->toString());
      }
    }
  };
  for (const auto &X : FM.booleanConstraints()) {
    Add(X->constraint());
  }
  for (const auto &X : FM.nonBooleanConstraints()) {
    Add(X->constraint());
  }
  for (const auto &X : FM.mixedConstraints()) {
    Add(X->constraint());
  }
  for (auto &L : F->getLocations()) {
    C.insert(L.toString());
  }
  for (auto &X : C) {
    R += " | " + X;
  }
  return R;
}

std::string want(vf::FeatureTreeNode *N, const vf::FeatureModel &FM) {
  std::string R;
  if (auto *F = llvm::dyn_cast<vf::Feature>(N)) {
    R = "box " + label(F, FM);
    if (N->getParent()) {
      R = (F->isOptional() ? "odot>" : "dot>") + R;
    }
  } else {
    auto *Rel = llvm::cast<vf::Relationship>(N);
    R = std::string("none>ellipse ") +
        (Rel->getKind() == vf::Relationship::RelationshipKind::RK_ALTERNATIVE
             ? "ALTERNATIVE"
             : "OR");
  }
  Strs K;
  for (auto *C : N->children()) {
    K.push_back(want(C, FM));
  }
  std::sort(K.begin(), K.end());
  return R + "{" + obs::join(K) + "}";
}

std::string got(mc::Ctx &C, const Graph &G, const std::string &Node,
                const std::string &Arrow, int Fuel = 40) {
  C.check(Fuel > 0, "cycle in the graph");
  auto At = [](const Attrs &A, const char *K) {
    auto I = A.find(K);
    return I == A.end() ? Value() : I->second;
  };
  auto &A = G.Nodes.at(Node);
  C.check(!A.empty(), "node without attributes");
  auto L = At(A, "label");
  std::string R = Arrow + At(A, "shape").Text + " ";
  if (L.Html) {
    Strs V;
    C.check(rows(L.Text, V), "label is not well-formed: " + L.Text);
    C.check(!V.empty(), "label without rows: " + L.Text);
    R += V[0];
    for (auto &X : std::set<std::string>(V.begin() + 1, V.end())) {
      R += " | " + X;
    }
  } else {
    R += L.Text;
  }
  Strs K;
  for (auto &[S, T, X] : G.Edges) {
    if (S == Node) {
      K.push_back(got(C, G, T, At(X, "arrowhead").Text + ">", Fuel - 1));
    }
  }
  std::sort(K.begin(), K.end());
  return R + "{" + obs::join(K) + "}";
}

void run(mc::Ctx &C, vf::FeatureModel &FM, const std::string &Title) {
  std::string Text;
  llvm::raw_string_ostream OS(Text);
  auto Before = obs::model(FM);
  vf::FeatureModel *Ptr = &FM;
  llvm::WriteGraph(OS, Ptr, false, Title);
  OS.flush();
  C.trans();
  C.Note = Text;
  C.eq(obs::model(FM), Before, "model after export");
  auto G = Dot(Text).read();
  C.eq(G.Error, std::string(), "syntax of the graph");
  if (!Title.empty()) {
    C.eq(G.Name, Title, "title");
  }
  C.eq(G.A["label"].Text, "Feature model for " + FM.getName().str(),
       "label of the graph");
  std::map<std::string, int> In;
  for (auto &[S, T, X] : G.Edges) {
    ++In[T];
  }
  std::string Root;
  for (auto &[N, A] : G.Nodes) {
    C.check(In[N] <= 1, "node with several parents");
    if (In[N] == 0) {
      C.check(Root.empty(), "several roots");
      Root = N;
    }
  }
  C.check(!Root.empty(), "no root");
  C.eq(got(C, G, Root, ""), want(FM.getRoot(), FM), "graph");
  C.state(want(FM.getRoot(), FM));
}

const Strs Names = {"root", "b", "a", "d", "e", "c", "f"};

mc::Suite trees(int N, int Groups) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(gen::shapes(N, Groups));
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    unsigned Opt = D.take(1U << N);
    return std::make_pair((*Sh)[D.take(Sh->size())], Opt);
  };
  mc::Suite S;
  S.Name = "trees" + std::to_string(N);
  S.Bound = "all trees of " + std::to_string(N) +
            " optional and mandatory features with at most " +
            std::to_string(Groups) + " groups each";
  S.N = Sh->size() << N;
  S.Chunk = 500;
  S.Describe = [=](uint64_t I) {
    auto X = Get(I);
    return X.first.str(Names) + " optional: " + std::to_string(X.second);
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = Get(I);
    auto FM = gen::build(X.first, Names[0],
                         [&](int K) -> std::unique_ptr<vf::Feature> {
                           bool O = X.second & (1U << (K - 1));
                           if (K % 3 == 2) {
                             return std::make_unique<vf::NumericFeature>(
                                 Names[K], std::pair<int64_t, int64_t>(1, 3),
                                 O);
                           }
                           return std::make_unique<vf::BinaryFeature>(Names[K],
                                                                      O);
                         });
    C.check(FM != nullptr, "model is not built");
    run(C, *FM, I % 2 ? "title" : "");
  };
  return S;
}

/// Trees with groups that have no members, as they remain after removals.
mc::Suite emptyGroups(int N, bool Sets) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(
      gen::withEmptyGroups(gen::shapes(N, 1), Sets));
  mc::Suite S;
  S.Name = "empty-groups" + std::to_string(N);
  S.Bound = "all trees of " + std::to_string(N) +
            " features with at most one group each, and a group without "
            "members at " +
            (Sets ? "every set of features" : "every feature");
  S.N = Sh->size();
  S.Chunk = 200;
  S.Describe = [=](uint64_t I) { return (*Sh)[I].str(Names); };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto FM = gen::build((*Sh)[I], Names[0], [&](int K) {
      return std::make_unique<vf::BinaryFeature>(Names[K], K % 2);
    });
    C.check(FM != nullptr, "model is not built");
    run(C, *FM, "");
  };
  return S;
}

/// Larger regular trees, optional and mandatory in several patterns.
mc::Suite largeOnes(const std::vector<int> &Sizes) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(large::shapes(Sizes));
  mc::Suite S;
  S.Name = "large";
  S.Bound = large::bound(Sizes) +
            ", optional, mandatory and alternating, and every group below them";
  S.N = Sh->size() * 4;
  S.Chunk = 20;
  S.Describe = [=](uint64_t I) {
    auto &X = (*Sh)[I / 4];
    return X.str(large::names(X.N)) + " pattern " + std::to_string(I % 4);
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto &X = (*Sh)[I / 4];
    auto Names = large::names(X.N);
    auto FM = gen::build(X, Names[0], [&](int K) {
      return std::make_unique<vf::BinaryFeature>(
          Names[K], I % 4 == 0 || (I % 4 > 1 && K % (I % 4)),
          std::vector<vf::FeatureSourceRange>{}, K % 3 ? "-" + Names[K] : "");
    });
    C.check(FM != nullptr, "model is not built");
    run(C, *FM, "");
  };
  return S;
}

/// Texts out of special characters in all places where texts can be.
mc::Suite texts(int Len) {
  const Strs F = {"a", "<", ">", "&", "\"", "|", "{", "]", " ", ";", "-", "é",
                  "'", "="};
  enum Place { Name, Output, Location, Member, Title, Vm, Places };
  const uint64_t K = F.size();
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    int P = D.take(Places);
    std::string T;
    for (int J = 0; J < Len; ++J) {
      T += F[D.take(K)];
    }
    return std::make_pair(P, T);
  };
  mc::Suite S;
  S.Name = "texts" + std::to_string(Len);
  S.Bound = "all texts of " + std::to_string(Len) +
            " special characters as name and output string of a feature, path "
            "and member of a location, title and name of the model";
  S.N = Places * mc::ipow(K, Len);
  S.Chunk = 500;
  S.Describe = [=](uint64_t I) {
    auto X = Get(I);
    return "place " + std::to_string(X.first) + " text " + X.second;
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto [P, T] = Get(I);
    vf::FeatureModelBuilder B;
    using FSR = vf::FeatureSourceRange;
    std::vector<FSR> L;
    if (P == Location || P == Member) {
      using At = FSR::FeatureSourceLocation;
      L.emplace_back(P == Location ? T : "p", At(1, 2), At(3, 4),
                     FSR::Category::necessary,
                     P == Member
                         ? FSR::FeatureMemberOffset::createFeatureMemberOffset(
                               "C::" + T)
                         : std::nullopt);
    }
    B.makeFeature<vf::BinaryFeature>(P == Name ? T : "x", true, L,
                                     P == Output ? T : "");
    B.setVmName(P == Vm ? T : "m");
    auto FM = B.buildFeatureModel();
    C.check(FM != nullptr, "model is not built");
    run(C, *FM, P == Title ? T : "t");
  };
  return S;
}

/// Constraints at one or several features.
mc::Suite constraints() {
  const int Ops = 16;
  auto Get = [](uint64_t I) {
    mc::Digits D(I);
    std::array<int, 5> R;
    R[0] = D.take(Ops); // first constraint
    R[1] = D.take(3);   // kind
    R[2] = D.take(4);   // operands
    R[3] = D.take(Ops); // second constraint
    R[4] = D.take(3);
    return R;
  };
  mc::Suite S;
  S.Name = "constraints";
  S.Bound = "all pairs of constraints of one operator over two features or "
            "one feature twice";
  S.N = Ops * 3 * 4 * Ops * 3;
  S.Chunk = 500;
  S.Describe = [=](uint64_t I) {
    auto X = Get(I);
    std::string R;
    for (int K : X) {
      R += std::to_string(K) + " ";
    }
    return R;
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = Get(I);
    vf::FeatureModelBuilder B;
    B.makeFeature<vf::BinaryFeature>("a", true);
    B.makeFeature<vf::BinaryFeature>("b", true);
    B.makeFeature<vf::BinaryFeature>("c", true);
    B.addEdge("a", "c");
    auto FM = B.buildFeatureModel();
    C.check(FM != nullptr, "model is not built");
    auto Atom = [&](bool Z) {
      return std::make_unique<vf::PrimaryFeatureConstraint>(
          FM->getFeature(Z ? "a" : "c"));
    };
    auto Make = [&](int Op, int Sides) -> std::unique_ptr<vf::Constraint> {
      auto A = Atom(Sides & 1);
      auto Z = Atom(Sides & 2);
      switch (Op) {
#define OP(N, T)                                                               \
  case N:                                                                      \
    return std::make_unique<vf::T##Constraint>(std::move(A), std::move(Z));
        OP(0, Or)
        OP(1, And)
        OP(2, Implies)
        OP(3, Excludes)
        OP(4, Equivalence)
        OP(5, Xor)
        OP(6, Less)
        OP(7, GreaterEqual)
        OP(8, Addition)
        OP(9, Equal)
        OP(10, NotEqual)
        OP(11, Multiplication)
        OP(12, Greater)
        OP(13, LessEqual)
#undef OP
      case 14:
        return std::make_unique<vf::NotConstraint>(std::move(A));
      default:
        return std::make_unique<vf::OrConstraint>(
            std::make_unique<vf::AndConstraint>(std::move(A), std::move(Z)),
            std::make_unique<vf::LessConstraint>(
                Atom(true),
                std::make_unique<vf::PrimaryIntegerConstraint>(-5)));
      }
    };
    auto Add = [&](int Op, int Kind, int Sides) {
      using FMT = vf::FeatureModel;
      auto X = Make(Op, Sides);
      return Kind == 0
                 ? gen::add(*FM, std::make_unique<FMT::BooleanConstraint>(
                                     std::move(X)))
             : Kind == 1
                 ? gen::add(*FM, std::make_unique<FMT::NonBooleanConstraint>(
                                     std::move(X)))
                 : gen::add(*FM, std::make_unique<FMT::MixedConstraint>(
                                     std::move(X),
                                     FMT::MixedConstraint::Req::ALL,
                                     FMT::MixedConstraint::ExprKind::NEG));
    };
    C.check(Add(X[0], X[1], X[2]) && Add(X[3], X[4], 1), "not added");
    run(C, *FM, "t");
  };
  return S;
}

/// Everything that labels show, at features of every kind and depth.
mc::Suite labels() {
  struct Case {
    std::array<int, 2> Kinds;
    std::array<int, 3> Locs;
    int Con, Out;
    bool Group;
  };
  auto Get = [](uint64_t I) {
    mc::Digits D(I);
    Case X;
    for (int &K : X.Kinds) {
      K = D.take(3);
    }
    for (int &K : X.Locs) {
      K = D.take(3);
    }
    X.Con = D.take(10);
    X.Out = D.take(8);
    X.Group = D.take(2);
    return X;
  };
  mc::Suite S;
  S.Name = "labels";
  S.Bound = "a root, its child and its grandchild, each binary, numeric or "
            "plain, in a group or not, with up to two locations and an output "
            "string or none at every feature, and a constraint of every kind "
            "over two of them or none";
  S.N = 9 * 27 * 10 * 8 * 2;
  S.Chunk = 500;
  S.Describe = [=](uint64_t I) {
    auto X = Get(I);
    std::string R = "kinds";
    for (int K : X.Kinds) {
      R += " " + std::to_string(K);
    }
    R += " locations";
    for (int K : X.Locs) {
      R += " " + std::to_string(K);
    }
    return R + " constraint " + std::to_string(X.Con) + " output strings " +
           std::to_string(X.Out) + (X.Group ? " in groups" : "");
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = Get(I);
    using FSR = vf::FeatureSourceRange;
    using At = FSR::FeatureSourceLocation;
    const Strs N = {"root", "a", "b"};
    auto Locs = [&](int K) {
      std::vector<FSR> L;
      for (int J = 0; J < X.Locs[K]; ++J) {
        L.emplace_back("p" + N[K], At(1 + J, 2), At(3, 4 + J),
                       J ? FSR::Category::inessential
                         : FSR::Category::necessary);
      }
      return L;
    };
    auto Out = [&](int K) {
      return X.Out >> K & 1 ? " -" + N[K] + " " : std::string();
    };
    vf::FeatureModelBuilder B;
    for (int K : {1, 2}) {
      bool Opt = (K + X.Con) % 2;
      switch (X.Kinds[K - 1]) {
      case 0:
        B.makeFeature<vf::BinaryFeature>(N[K], Opt, Locs(K), Out(K));
        break;
      case 1:
        B.makeFeature<vf::NumericFeature>(N[K], std::vector<int64_t>{1, 4},
                                          Opt, Locs(K), Out(K));
        break;
      default:
        B.makeFeature<vf::Feature>(N[K], Locs(K));
      }
      B.addEdge(N[K - 1], N[K]);
      if (X.Group) {
        B.emplaceRelationship(
            K == 1 ? vf::Relationship::RelationshipKind::RK_OR
                   : vf::Relationship::RelationshipKind::RK_ALTERNATIVE,
            N[K - 1]);
      }
    }
    auto FM = B.buildFeatureModel();
    C.check(FM != nullptr, "model is not built");
    for (auto &L : Locs(0)) {
      FM->getRoot()->addLocation(L);
    }
    if (X.Con) {
      int K = (X.Con - 1) % 3;
      auto E = std::make_unique<vf::ImpliesConstraint>(
          std::make_unique<vf::PrimaryFeatureConstraint>(
              FM->getFeature(N[K == 2])),
          std::make_unique<vf::NotConstraint>(
              std::make_unique<vf::PrimaryFeatureConstraint>(
                  FM->getFeature(N[K == 0 ? 1 : 2]))));
      using FMT = vf::FeatureModel;
      bool Ok = X.Con < 4
                    ? gen::add(*FM, std::make_unique<FMT::BooleanConstraint>(
                                        std::move(E)))
                : X.Con < 7
                    ? gen::add(*FM, std::make_unique<FMT::NonBooleanConstraint>(
                                        std::move(E)))
                    : gen::add(*FM, std::make_unique<FMT::MixedConstraint>(
                                        std::move(E),
                                        FMT::MixedConstraint::Req::ALL,
                                        FMT::MixedConstraint::ExprKind::POS));
      C.check(Ok, "constraint is not added");
    }
    run(C, *FM, "t");
  };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S = {trees(1, 2), trees(2, 2), trees(3, 2),
                              trees(4, 2), texts(1), texts(2), texts(3),
                              constraints(), labels(),
                              largeOnes(T ? std::vector<int>{5, 6, 7, 8, 10, 14, 20}
                                          : std::vector<int>{5, 8, 12})};
  for (int N = 0; N <= (T ? 4 : 3); ++N) {
    S.push_back(emptyGroups(N, N < 3));
  }
  if (T) {
    S.push_back(trees(5, 1));
  }
  return mc::runChecks(Argc, Argv, "C21", S, {
    "names and texts without backslashes and control characters",
  });
}
