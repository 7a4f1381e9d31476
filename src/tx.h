// Edit operations: their reference semantics, and their execution through a
// (modify or copy) transaction on the real feature model.
#ifndef MC_TX_H
#define MC_TX_H

#include "engine.h"
#include "obs.h"
#include "ref.h"

#include "vara/Feature/ConstraintParser.h"
#include "vara/Feature/FeatureModelTransaction.h"

#include <optional>

namespace tx {

namespace vf = vara::feature;

enum Code {
  AddF,    // A name, V variant (kind), B parent ("" = default)
  RmF,     // A name, V bit0 by pointer, bit1 recursive
  AddR,    // A parent, V bit0 by pointer, bit1 OR
  RmR,     // A parent, V bit0 by pointer
  AddC,    // A parent, B child; V bit0/1: by pointer; bit2/3: group of
  SetRoot, // A name
  AddL,    // A feature, V location*2 + by pointer
  RmL,     // A feature, V location*2 + by pointer
  SetName,
  SetCommit,
  SetPath,
  AddCon // V constraint number
};

struct Op {
  Code C = AddF;
  std::string A;
  std::string B;
  int V = 0;

  std::string str() const {
    auto S = [&](const char *N) { return std::string(N) + "(" + A; };
    auto Q = [&](bool Ptr) { return std::string(Ptr ? "*" : ""); };
    switch (C) {
    case AddF: {
      const char *K[] = {"mandatory", "optional", "numeric-range",
                         "numeric-list", "root-kind", "numeric-optional",
                         "plain"};
      return S("addFeature") + " " + K[V] + " below " +
             (B.empty() ? "<default>" : B) + ")";
    }
    case RmF:
      return "removeFeature(" + Q(V & 1) + A +
             ((V & 2) ? " recursive)" : ")");
    case AddR:
      return "addRelationship(" + Q(V & 1) + A + ((V & 2) ? " OR)" : " ALT)");
    case RmR:
      return "removeRelationship(" + Q(V & 1) + A + ")";
    case AddC:
      return "addChild(" + Q(V & 1) + ((V & 4) ? "group-of " : "") + A + " <- " +
             Q(V & 2) + ((V & 8) ? "group-of " : "") + B + ")";
    case SetRoot:
      return S("setRoot") + ")";
    case AddL:
      return "addLocation(" + Q(V & 1) + A + " L" + std::to_string(V / 2) +
             ")";
    case RmL:
      return "removeLocation(" + Q(V & 1) + A + " L" + std::to_string(V / 2) +
             ")";
    case SetName:
      return S("setName") + ")";
    case SetCommit:
      return S("setCommit") + ")";
    case SetPath:
      return S("setPath") + ")";
    case AddCon:
      return "addConstraint(#" + std::to_string(V) + ")";
    }
    return "?";
  }
};

using History = std::vector<Op>;

inline std::string str(const History &H) {
  std::string R;
  for (auto &O : H) {
    R += (R.empty() ? "" : "; ") + O.str();
  }
  return "[" + R + "]";
}

//===-- Small domains --------------------------------------------------===//

inline vf::FeatureSourceRange makeLoc(int I) {
  using R = vf::FeatureSourceRange;
  using L = R::FeatureSourceLocation;
  switch (I) {
  case 0:
    return R("a.cpp", L(1, 2), L(1, 9));
  case 1:
    return R("a.cpp", L(1, 2), L(1, 9), R::Category::inessential);
  case 2:
    return R("b.h", std::nullopt, std::nullopt, R::Category::necessary,
             R::FeatureMemberOffset::createFeatureMemberOffset("N::C::m"));
  default:
    return R("a.cpp", L(3, 4), L(5, 6), R::Category::necessary, std::nullopt,
             R::FeatureRevisionRange("aaa", "bbb"));
  }
}

struct ConSpec {
  int Class; // 0 boolean, 1 non-boolean, 2 mixed
  std::string Ast;
  std::vector<std::string> Mentions;
};

inline const std::vector<ConSpec> &conSpecs() {
  static const std::vector<ConSpec> S = {
      {0, "(=> A B)", {"A", "B"}},
      {0, "(excl B A)", {"B", "A"}},
      {0, "(| A (! C))", {"A", "C"}},
      {1, "(> C 2)", {"C"}},
      {2, "(= (+ A C) 3)", {"A", "C"}},
      {0, "(<=> A A)", {"A", "A"}},
      {0, "(=> root (& A B))", {"root", "A", "B"}},
      {0, "(=> A Z)", {"A", "Z"}},
      {2, "(=> B C)", {"B", "C"}},
      {0, "(=> C A)", {"C", "A"}},
  };
  return S;
}

inline std::unique_ptr<vf::Constraint> feat(const std::string &N) {
  return std::make_unique<vf::PrimaryFeatureConstraint>(
      std::make_unique<vf::Feature>(N));
}

inline std::unique_ptr<vf::Constraint> integer(int64_t V) {
  return std::make_unique<vf::PrimaryIntegerConstraint>(V);
}

/// Builds a constraint from the prefix notation used by obs::ast.
inline std::unique_ptr<vf::Constraint> build(const std::string &S,
                                             size_t &P) {
  auto Skip = [&] {
    while (P < S.size() && S[P] == ' ') {
      ++P;
    }
  };
  Skip();
  if (S[P] != '(') {
    size_t Q = P;
    while (P < S.size() && S[P] != ' ' && S[P] != ')') {
      ++P;
    }
    std::string T = S.substr(Q, P - Q);
    if (isdigit(T[0]) || (T[0] == '-' && T.size() > 1)) {
      return integer(std::stoll(T));
    }
    return feat(T);
  }
  ++P;
  Skip();
  size_t Q = P;
  while (S[P] != ' ') {
    ++P;
  }
  std::string O = S.substr(Q, P - Q);
  auto L = build(S, P);
  Skip();
  std::unique_ptr<vf::Constraint> R;
  if (S[P] != ')') {
    R = build(S, P);
    Skip();
  }
  ++P;
#define MC_BIN(T, C)                                                           \
  if (O == T)                                                                  \
    return std::make_unique<vf::C>(std::move(L), std::move(R));
  MC_BIN("&", AndConstraint)
  MC_BIN("|", OrConstraint)
  MC_BIN("^", XorConstraint)
  MC_BIN("=>", ImpliesConstraint)
  MC_BIN("excl", ExcludesConstraint)
  MC_BIN("<=>", EquivalenceConstraint)
  MC_BIN("=", EqualConstraint)
  MC_BIN("!=", NotEqualConstraint)
  MC_BIN("<", LessConstraint)
  MC_BIN(">", GreaterConstraint)
  MC_BIN("<=", LessEqualConstraint)
  MC_BIN(">=", GreaterEqualConstraint)
  MC_BIN("+", AdditionConstraint)
  MC_BIN("-", SubtractionConstraint)
  MC_BIN("*", MultiplicationConstraint)
  MC_BIN("/", DivisionConstraint)
#undef MC_BIN
  if (O == "!") {
    return std::make_unique<vf::NotConstraint>(std::move(L));
  }
  if (O == "~") {
    return std::make_unique<vf::NegConstraint>(std::move(L));
  }
  abort();
}

inline std::unique_ptr<vf::Constraint> build(const std::string &S) {
  size_t P = 0;
  return build(S, P);
}

inline std::string conText(const ConSpec &S) {
  return S.Class == 0   ? "B " + S.Ast
         : S.Class == 1 ? "N " + S.Ast
                        : "M all neg " + S.Ast;
}

inline const char *defaultValues(int V) {
  return V == 3 ? "{1,4,9}" : "0..5";
}

inline std::unique_ptr<vf::Feature> makeFeature(const std::string &N, int V) {
  switch (V) {
  case 0:
    return std::make_unique<vf::BinaryFeature>(
        N, false, std::vector<vf::FeatureSourceRange>{}, "-" + N);
  case 1:
    return std::make_unique<vf::BinaryFeature>(N, true);
  case 2:
    return std::make_unique<vf::NumericFeature>(
        N, std::pair<int64_t, int64_t>(0, 5), false,
        std::vector<vf::FeatureSourceRange>{}, "",
        std::make_unique<vf::StepFunction>(
            vf::StepFunction::StepOperation::ADDITION, 2.0));
  case 3:
    return std::make_unique<vf::NumericFeature>(
        N, std::vector<int64_t>{1, 4, 9});
  case 4:
    return std::make_unique<vf::RootFeature>(N);
  case 6:
    return std::make_unique<vf::Feature>(N);
  default:
    return std::make_unique<vf::NumericFeature>(
        N, std::pair<int64_t, int64_t>(0, 5), true);
  }
}

inline ref::Node refFeature(const std::string &N, int V) {
  ref::Node X;
  X.Name = N;
  X.K = V < 2 ? ref::Bin : V == 4 ? ref::Root : V == 6 ? ref::Unknown : ref::Num;
  X.Opt = V == 1 || V == 5;
  if (V == 0) {
    X.Out = "-" + N;
  }
  if (X.K == ref::Num) {
    X.Values = defaultValues(V);
  }
  if (V == 2) {
    X.Step = "2;3;4;5;9;"; // x + 2 at 0,1,2,3,7
  }
  return X;
}

//===-- Reference semantics --------------------------------------------===//

enum Res {
  Skip = -2,     // not applicable: caller would break a precondition
  AnyError = -1, // must be reported as an error
  Okay = 0,
  E_PRESENT,
  E_FEATURE,
  E_PARENT,
  E_CHILD,
  E_NONLEAF,
  E_RECURSIVE
};

inline bool matches(Res R, vf::FTErrorCode E) {
  switch (R) {
  case AnyError:
    return true;
  case E_PRESENT:
    return E == vf::ALREADY_PRESENT;
  case E_FEATURE:
    return E == vf::MISSING_FEATURE;
  case E_PARENT:
    return E == vf::MISSING_PARENT;
  case E_CHILD:
    return E == vf::MISSING_CHILD;
  case E_NONLEAF:
    return E == vf::NON_LEAF_NODE;
  case E_RECURSIVE:
    return E == vf::RECURSIVE_EDGE;
  default:
    return false;
  }
}

/// Applies O to M if it is valid (M is unchanged otherwise).
inline Res apply(ref::Model &M, const Op &O) {
  bool Ptr = O.V & 1;
  switch (O.C) {
  case AddF: {
    int P = O.B.empty() ? M.RootId : M.find(O.B);
    if (P < 0) {
      return Skip; // parent is passed as an object, so it has to exist
    }
    if (O.V == 4) {
      return AnyError; // a second root
    }
    if (M.find(O.A) >= 0) {
      return E_PRESENT;
    }
    M.add(refFeature(O.A, O.V), P);
    return Okay;
  }
  case RmF: {
    int I = M.find(O.A);
    if (I < 0) {
      return Ptr ? Skip : E_FEATURE;
    }
    if (!(O.V & 2) && M.hasFeatureBelow(I)) {
      return E_NONLEAF;
    }
    if (I == M.RootId) {
      return AnyError;
    }
    M.kill(I);
    return Okay;
  }
  case AddR: {
    int P = M.find(O.A);
    if (P < 0) {
      return Ptr ? Skip : AnyError;
    }
    auto Kids = M.N[P].Kids;
    ref::Node G;
    G.K = (O.V & 2) ? ref::Or : ref::Alt;
    int I = M.add(G, P);
    for (int K : Kids) {
      if (!M.N[K].isGroup()) {
        M.link(I, K);
      }
    }
    return Okay;
  }
  case RmR: {
    int P = M.find(O.A);
    if (P < 0) {
      return Ptr ? Skip : E_PARENT;
    }
    auto G = M.groups(P);
    if (G.empty()) {
      return AnyError;
    }
    if (G.size() > 1) {
      return Skip; // which group is meant is not defined
    }
    auto Kids = M.N[G[0]].Kids;
    for (int K : Kids) {
      M.link(P, K);
    }
    M.unlink(G[0]);
    M.N[G[0]].Alive = false;
    return Okay;
  }
  case AddC: {
    int P = (O.V & 4) ? M.group(O.A) : M.find(O.A);
    int C = (O.V & 8) ? M.group(O.B) : M.find(O.B);
    if (((O.V & 5) && P < 0) || ((O.V & 10) && C < 0)) {
      return Skip;
    }
    if ((O.V & 4) && (O.V & 8)) {
      return Skip; // groups directly inside groups are not built
    }
    if (C < 0) {
      return E_CHILD;
    }
    if (P < 0) {
      return E_PARENT;
    }
    if (M.inSubtree(P, C)) {
      return E_RECURSIVE;
    }
    M.link(P, C);
    return Okay;
  }
  case SetRoot: {
    if (M.N[M.RootId].Name == O.A) {
      return Okay;
    }
    if (M.find(O.A) >= 0) {
      return E_PRESENT;
    }
    ref::Node R;
    R.K = ref::Root;
    R.Name = O.A;
    int I = M.add(R, -1);
    auto Kids = M.N[M.RootId].Kids;
    for (int K : Kids) {
      M.link(I, K);
    }
    M.kill(M.RootId);
    M.RootId = I;
    return Okay;
  }
  case AddL: {
    int I = M.find(O.A);
    if (I < 0) {
      return Ptr ? Skip : AnyError;
    }
    M.N[I].Locs.push_back(obs::loc(makeLoc(O.V / 2)));
    return Okay;
  }
  case RmL: {
    int I = M.find(O.A);
    if (I < 0) {
      return Ptr ? Skip : AnyError;
    }
    auto &L = M.N[I].Locs;
    auto F = std::find(L.begin(), L.end(), obs::loc(makeLoc(O.V / 2)));
    if (F == L.end()) {
      return Skip; // whether this is an error is not specified
    }
    L.erase(F);
    return Okay;
  }
  case SetName:
    M.Name = O.A;
    return Okay;
  case SetCommit:
    M.Commit = O.A;
    return Okay;
  case SetPath:
    M.Path = O.A;
    return Okay;
  case AddCon: {
    auto &S = conSpecs()[O.V];
    for (auto &F : S.Mentions) {
      if (M.find(F) < 0) {
        return E_FEATURE;
      }
    }
    M.Cons.push_back({conText(S), S.Mentions});
    return Okay;
  }
  }
  return Skip;
}

//===-- Execution on the real model ------------------------------------===//

inline vf::FeatureTreeNode *groupOf(const vf::FeatureModel &FM,
                                    const std::string &F) {
  auto *X = FM.getFeature(F);
  if (!X) {
    return nullptr;
  }
  for (auto *C : X->children()) {
    if (llvm::isa<vf::Relationship>(C)) {
      return C;
    }
  }
  return nullptr;
}

/// Requests O in transaction T.  FM is where object arguments are looked up.
/// In copy mode the result of the request is stored in Err/Done.
template <typename Trans>
void request(Trans &T, const vf::FeatureModel &FM, const Op &O,
             std::optional<vf::FTErrorCode> *Err = nullptr) {
  constexpr bool Copy = std::is_same_v<Trans, vf::FeatureModelCopyTransaction>;
  auto FV = [&](const std::string &N, bool Ptr) -> vf::detail::FeatureVariantTy {
    if (Ptr) {
      return FM.getFeature(N);
    }
    return N;
  };
  auto NV = [&](const std::string &N, bool Ptr,
                bool Group) -> vf::detail::FeatureTreeNodeVariantTy {
    if (Group) {
      return groupOf(FM, N);
    }
    if (Ptr) {
      return static_cast<vf::FeatureTreeNode *>(FM.getFeature(N));
    }
    return N;
  };
  [[maybe_unused]] auto Keep = [&](auto &&R) {
    if (Err && !R) {
      *Err = R.getError();
    }
  };
  switch (O.C) {
  case AddF: {
    auto *P = O.B.empty() ? nullptr : FM.getFeature(O.B);
    if constexpr (Copy) {
      Keep(T.addFeature(makeFeature(O.A, O.V), P));
    } else {
      T.addFeature(makeFeature(O.A, O.V), P);
    }
    break;
  }
  case RmF: {
    auto V = FV(O.A, O.V & 1);
    T.removeFeature(V, O.V & 2);
    break;
  }
  case AddR: {
    auto K = (O.V & 2) ? vf::Relationship::RelationshipKind::RK_OR
                       : vf::Relationship::RelationshipKind::RK_ALTERNATIVE;
    if constexpr (Copy) {
      Keep(T.addRelationship(K, FV(O.A, O.V & 1)));
    } else {
      T.addRelationship(K, FV(O.A, O.V & 1));
    }
    break;
  }
  case RmR:
    T.removeRelationship(FV(O.A, O.V & 1));
    break;
  case AddC:
    (void)T.addChild(NV(O.A, O.V & 1, O.V & 4), NV(O.B, O.V & 2, O.V & 8));
    break;
  case SetRoot:
    if constexpr (Copy) {
      Keep(T.setRoot(std::make_unique<vf::RootFeature>(O.A)));
    } else {
      T.setRoot(std::make_unique<vf::RootFeature>(O.A));
    }
    break;
  case AddL:
    T.addLocation(FV(O.A, O.V & 1), makeLoc(O.V / 2));
    break;
  case RmL: {
    auto V = FV(O.A, O.V & 1);
    T.removeLocation(V, makeLoc(O.V / 2));
    break;
  }
  case SetName:
    T.setName(O.A);
    break;
  case SetCommit:
    T.setCommit(O.A);
    break;
  case SetPath:
    T.setPath(O.A);
    break;
  case AddCon: {
    auto &S = conSpecs()[O.V];
    auto Do = [&](auto C) {
      if constexpr (Copy) {
        Keep(T.addConstraint(std::move(C)));
      } else {
        T.addConstraint(std::move(C));
      }
    };
    if (S.Class == 0) {
      Do(std::make_unique<vf::FeatureModel::BooleanConstraint>(build(S.Ast)));
    } else if (S.Class == 1) {
      Do(std::make_unique<vf::FeatureModel::NonBooleanConstraint>(
          build(S.Ast)));
    } else {
      Do(std::make_unique<vf::FeatureModel::MixedConstraint>(
          build(S.Ast), vf::FeatureModel::MixedConstraint::Req::ALL,
          vf::FeatureModel::MixedConstraint::ExprKind::NEG));
    }
    break;
  }
  }
}

/// One operation in a transaction of its own.
inline vara::Result<vf::FTErrorCode> exec(vf::FeatureModel &FM, const Op &O) {
  auto T = vf::FeatureModelModifyTransaction::openTransaction(FM);
  request(T, FM, O);
  return T.commit();
}

/// Compares FM with the reference and checks all structural invariants.
inline void compare(mc::Ctx &C, const vf::FeatureModel &FM,
                    const ref::Model &M, const std::string &When) {
  auto I = obs::integrity(FM);
  C.checkf(I.empty(), [&] { return When + ": " + I; });
  std::string Got = obs::model(FM);
  C.state(Got);
  C.eq(Got, M.str(), When + ": model differs from the reference");
  C.eq(FM.size(), M.features(), When + ": number of features");
}

//===-- Breadth first search over the reference model ------------------===//

struct Explored {
  std::vector<ref::Model> States;
  std::vector<int> From;      // predecessor state
  std::vector<Op> By;         // operation that led here
  std::vector<unsigned> Depth;
  struct Edge {
    uint32_t State;
    Op O;
  };
  std::vector<Edge> Edges; // every applicable (state, operation) pair

  History history(uint32_t S) const {
    History H;
    for (int I = int(S); From[I] >= 0; I = From[I]) {
      H.push_back(By[I]);
    }
    std::reverse(H.begin(), H.end());
    return H;
  }
};

template <typename OpsFn>
Explored explore(const ref::Model &Init, OpsFn Ops, unsigned MaxDepth,
                 size_t MaxStates = 200000) {
  Explored E;
  std::map<std::string, uint32_t> Seen;
  E.States.push_back(Init);
  E.From.push_back(-1);
  E.By.push_back({});
  E.Depth.push_back(0);
  Seen[Init.str()] = 0;
  for (size_t S = 0; S < E.States.size(); ++S) {
    std::vector<Op> L = Ops(E.States[S]);
    for (auto &O : L) {
      ref::Model N = E.States[S];
      Res R = apply(N, O);
      if (R == Skip) {
        continue;
      }
      E.Edges.push_back({uint32_t(S), O});
      if (R == Okay && E.Depth[S] < MaxDepth && E.States.size() < MaxStates) {
        auto K = N.str();
        if (Seen.emplace(K, E.States.size()).second) {
          E.States.push_back(N);
          E.From.push_back(int(S));
          E.By.push_back(O);
          E.Depth.push_back(E.Depth[S] + 1);
        }
      }
    }
  }
  return E;
}

} // namespace tx

#endif
