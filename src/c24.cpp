// C24: a feature model builder delivers the model that the calls describe.
#include "large.h"
#include "seq.h"

#include "vara/Feature/FeatureModelBuilder.h"

namespace {

namespace vf = vara::feature;
using namespace tx;

// Calls of the builder.  F/R features (phase 1), E/M edges and meta data
// (phase 2), G/C relationships and constraints (phase 3).
struct Call {
  char C;
  std::string A;
  std::string B;
  int V = 0;

  int phase() const {
    return C == 'F' || C == 'R' ? 1 : C == 'G' || C == 'C' ? 3 : 2;
  }
  Op op() const {
    switch (C) {
    case 'F':
      return {AddF, A, "", V};
    case 'R':
      return {SetRoot, A, "", 0};
    case 'E':
      return {AddC, A, B, 0};
    case 'N':
      return {SetName, A, "", 0};
    case 'P':
      return {SetPath, A, "", 0};
    case 'H':
      return {SetCommit, A, "", 0};
    case 'G':
      return {AddR, A, "", V};
    default:
      return {AddCon, "", "", V};
    }
  }
  std::string str() const {
    switch (C) {
    case 'F':
      return "make " + op().str();
    case 'R':
      return "makeRoot(" + A + ")";
    case 'E':
      return "addEdge(" + A + ", " + B + ")";
    case 'N':
      return "setVmName(" + A + ")";
    case 'P':
      return "setPath(" + A + ")";
    case 'H':
      return "setCommit(" + A + ")";
    case 'G':
      return "emplaceRelationship(" + A + (V ? ", OR)" : ", ALT)");
    default:
      return "addConstraint " + conText(conSpecs()[V]);
    }
  }
};

using Calls = std::vector<Call>;

std::string str(const Calls &L) {
  std::string R;
  for (auto &X : L) {
    R += (R.empty() ? "" : "; ") + X.str();
  }
  return R;
}

void perform(vf::FeatureModelBuilder &B, const Call &X) {
  auto *R = &B;
  switch (X.C) {
  case 'F':
    switch (X.V) {
    case 0:
      R = B.makeFeature<vf::BinaryFeature>(
          X.A, false, std::vector<vf::FeatureSourceRange>{}, "-" + X.A);
      break;
    case 1:
      R = B.makeFeature<vf::BinaryFeature>(X.A, true);
      break;
    case 2:
      R = B.makeFeature<vf::NumericFeature>(
          X.A, std::pair<int64_t, int64_t>(0, 5), false,
          std::vector<vf::FeatureSourceRange>{}, "",
          std::make_unique<vf::StepFunction>(
              vf::StepFunction::StepOperation::ADDITION, 2.0));
      break;
    case 3:
      R = B.makeFeature<vf::NumericFeature>(X.A,
                                            std::vector<int64_t>{1, 4, 9});
      break;
    case 4:
      R = B.makeFeature<vf::RootFeature>(X.A);
      break;
    case 6:
      R = B.makeFeature<vf::Feature>(X.A);
      break;
    default:
      R = B.makeFeature<vf::NumericFeature>(
          X.A, std::pair<int64_t, int64_t>(0, 5), true);
    }
    break;
  case 'R':
    R = B.makeRoot(X.A);
    break;
  case 'E':
    R = B.addEdge(X.A, X.B);
    break;
  case 'N':
    R = B.setVmName(X.A);
    break;
  case 'P':
    R = B.setPath(X.A);
    break;
  case 'H':
    R = B.setCommit(X.A);
    break;
  case 'G':
    R = B.emplaceRelationship(
        X.V ? vf::Relationship::RelationshipKind::RK_OR
            : vf::Relationship::RelationshipKind::RK_ALTERNATIVE,
        X.A);
    break;
  default: {
    auto &S = conSpecs()[X.V];
    if (S.Class == 0) {
      R = B.addConstraint(
          std::make_unique<vf::FeatureModel::BooleanConstraint>(build(S.Ast)));
    } else if (S.Class == 1) {
      R = B.addConstraint(
          std::make_unique<vf::FeatureModel::NonBooleanConstraint>(
              build(S.Ast)));
    } else {
      R = B.addConstraint(std::make_unique<vf::FeatureModel::MixedConstraint>(
          build(S.Ast), vf::FeatureModel::MixedConstraint::Req::ALL,
          vf::FeatureModel::MixedConstraint::ExprKind::NEG));
    }
  }
  }
  if (R != &B) {
    throw mc::Failure("a call does not deliver the builder it was made on");
  }
}

/// The described model; false: the description is contradictory.
bool reference(const Calls &L, ref::Model &M) {
  for (int Phase = 1; Phase <= 3; ++Phase) {
    for (auto &X : L) {
      if (X.phase() == Phase && apply(M, X.op()) != Okay) {
        return false;
      }
    }
  }
  return true;
}

/// How the builder object is treated while the calls are made.
enum Mode { Plain, Moved, Assigned, Modes };

void run(mc::Ctx &C, const Calls &L, int Mode) {
  auto M = ref::Model::initial("root");
  bool Good = reference(L, M);
  std::map<std::string, std::string> Parent;
  auto B = std::make_unique<vf::FeatureModelBuilder>();
  auto Parents = [&](const std::string &When) {
    for (const char *N : {"root", "top", "A", "B", "C", "Z"}) {
      auto P = B->getParentName(N);
      auto F = Parent.find(N);
      C.eq(P ? "below " + *P : "none",
           F == Parent.end() ? "none" : "below " + F->second,
           std::string("getParentName(") + N + ") " + When);
    }
  };
  for (size_t I = 0; I < L.size(); ++I) {
    if (Mode != Plain && I == (L.size() + 1) / 2) {
      std::unique_ptr<vf::FeatureModelBuilder> N;
      if (Mode == Moved) {
        N = std::make_unique<vf::FeatureModelBuilder>(std::move(*B));
      } else {
        N = std::make_unique<vf::FeatureModelBuilder>();
        N->makeFeature<vf::BinaryFeature>("Left over");
        *N = std::move(*B);
      }
      B = std::move(N);
    }
    perform(*B, L[I]);
    if (L[I].C == 'E') {
      Parent[L[I].B] = L[I].A;
    }
    C.trans();
  }
  Parents("before building");
  auto FM = B->buildFeatureModel();
  C.trans();
  Parents("after building");
  B.reset();
  C.eq(FM != nullptr, Good,
       Good ? "a model is delivered" : "a contradictory description is built");
  if (Good) {
    auto E = obs::integrity(*FM);
    C.eq(E, std::string(), "integrity of the model");
    C.eq(obs::model(*FM), M.str(), "model");
    C.state(M.str());
  }
}

mc::Suite flat(const std::string &Name, const Calls &Alpha, unsigned Len) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = "all sequences of " + std::to_string(Len) + " calls out of " +
            std::to_string(Alpha.size()) +
            ", on a builder that is plain, moved or assigned half way";
  S.N = mc::ipow(Alpha.size(), Len) * Modes;
  auto Dec = [=](uint64_t I, int &Mode) {
    mc::Digits D(I);
    Mode = int(D.take(Modes));
    Calls L;
    for (unsigned K = 0; K < Len; ++K) {
      L.push_back(Alpha[D.take(Alpha.size())]);
    }
    return L;
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    int Mode;
    auto L = Dec(I, Mode);
    run(C, L, Mode);
  };
  S.Describe = [=](uint64_t I) {
    int Mode;
    auto L = Dec(I, Mode);
    return str(L) + (Mode == Plain   ? ""
                     : Mode == Moved ? " (builder moved half way)"
                                     : " (builder assigned half way)");
  };
  S.Chunk = 1024;
  return S;
}

/// Calls made on a base description, before, around or after its calls.
mc::Suite based(const std::string &Name, const Calls &Base, const Calls &Alpha,
                unsigned Len) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = "all sequences of " + std::to_string(Len) + " calls out of " +
            std::to_string(Alpha.size()) + " before, between and after [" +
            str(Base) + "]";
  S.N = mc::ipow(Alpha.size(), Len) * 3;
  auto Dec = [=](uint64_t I) {
    mc::Digits D(I);
    int Place = int(D.take(3));
    Calls L;
    for (unsigned K = 0; K < Len; ++K) {
      L.push_back(Alpha[D.take(Alpha.size())]);
    }
    Calls R;
    if (Place == 0) {
      R = L;
      R.insert(R.end(), Base.begin(), Base.end());
    } else if (Place == 1) {
      R = Base;
      R.insert(R.end(), L.begin(), L.end());
    } else {
      for (size_t K = 0; K < std::max(Base.size(), size_t(Len)); ++K) {
        if (K < Len) {
          R.push_back(L[K]);
        }
        if (K < Base.size()) {
          R.push_back(Base[K]);
        }
      }
    }
    return R;
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) { run(C, Dec(I), Plain); };
  S.Describe = [=](uint64_t I) { return str(Dec(I)); };
  S.Chunk = 1024;
  return S;
}

/// Larger regular trees, described in many orders.
mc::Suite largeOnes(const std::vector<int> &Sizes) {
  auto L = std::make_shared<std::vector<Calls>>();
  for (auto &Sh : large::shapes(Sizes)) {
    auto Names = large::names(Sh.N);
    Calls X;
    for (int I = 1; I <= Sh.N; ++I) {
      X.push_back({'F', Names[I], "", large::kind(Names[I], I, true)});
    }
    for (int I = 1; I <= Sh.N; ++I) {
      X.push_back({'E', Names[Sh.Parent[I]], Names[I]});
    }
    for (int P = 0; P <= Sh.N; ++P) {
      if (Sh.Kind[2 * P]) {
        X.push_back({'G', Names[P], "", Sh.Kind[2 * P] == 1 ? 0 : 2});
      }
    }
    for (int I : {1, 5, 0}) {
      X.push_back({'C', "", "", I});
    }
    X.push_back({'H', "h", ""});
    for (size_t Turn = 0; Turn < X.size(); ++Turn) {
      auto Y = X;
      std::rotate(Y.begin(), Y.begin() + Turn, Y.end());
      L->push_back(Y);
      std::reverse(Y.begin(), Y.end());
      L->push_back(Y);
      // one edge that is overridden later on, or closes a cycle
      Y = X;
      auto &To = Names[1 + Turn % Sh.N];
      Y.insert(Y.begin() + Turn, {'E', Names[Sh.N], To});
      L->push_back(Y);
      std::reverse(Y.begin(), Y.end());
      L->push_back(Y);
    }
  }
  mc::Suite S;
  S.Name = "large";
  S.Bound = large::bound(Sizes) +
            ", the calls rotated to every start, forwards and backwards, and "
            "with an additional edge at every place";
  S.N = L->size();
  S.Run = [=](uint64_t I, mc::Ctx &C) { run(C, (*L)[I], int(I % Modes)); };
  S.Describe = [=](uint64_t I) { return str((*L)[I]); };
  S.Chunk = 200;
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  const Calls All = {
      {'F', "A", "", 0},     {'F', "A", "", 3}, {'F', "B", "", 1},
      {'F', "C", "", 2},     {'F', "C", "", 4}, {'F', "root", "", 1}, {'F', "B", "", 6},
      {'R', "top", "", 0},   {'R', "root", ""}, {'R', "B", ""},
      {'E', "root", "A"},    {'E', "A", "B"},   {'E', "B", "A"},
      {'E', "B", "C"},       {'E', "top", "B"}, {'E', "A", "root"},
      {'G', "root", "", 2},  {'G', "A", "", 0}, {'G', "B", "", 2},
      {'G', "top", "", 0},   {'C', "", "", 0},  {'C', "", "", 3},
      {'C', "", "", 4},      {'C', "", "", 7},  {'N', "vm", ""},
      {'P', "some/path", ""}, {'H', "c0ffee", ""}};
  const Calls Core = {{'F', "A", "", 0},  {'F', "B", "", 5},
                      {'R', "top", ""},   {'E', "A", "B"},
                      {'E', "B", "A"},    {'E', "root", "B"},
                      {'E', "top", "A"},  {'G', "A", "", 0},
                      {'G', "root", "", 2}, {'C', "", "", 0},
                      {'N', "vm", ""}};
  const Calls Base3 = {{'F', "A", "", 0}, {'F', "B", "", 1},
                       {'F', "C", "", 2}};
  const Calls BaseT = {{'R', "top", ""},   {'F', "A", "", 1},
                       {'F', "B", "", 1},  {'F', "C", "", 3},
                       {'E', "A", "B"},    {'E', "B", "C"}};
  Calls Edges;
  for (const char *P : {"root", "A", "B", "C"}) {
    for (const char *F : {"A", "B", "C"}) {
      Edges.push_back({'E', P, F});
    }
  }
  Calls Late = Edges;
  for (const char *P : {"root", "A", "B", "C"}) {
    Late.push_back({'G', P, "", 0});
    Late.push_back({'G', P, "", 2});
  }
  for (int I : {0, 2, 3, 4, 7}) {
    Late.push_back({'C', "", "", I});
  }
  Late.push_back({'N', "vm", ""});
  Late.push_back({'N', "other", ""});
  Late.push_back({'P', "p", ""});
  Late.push_back({'H', "h", ""});
  Calls TLate;
  for (auto X : Late) {
    X.A = X.A == "root" ? "top" : X.A;
    TLate.push_back(X);
  }
  std::vector<mc::Suite> S;
  for (unsigned L = 0; L <= (T ? 4u : 3u); ++L) {
    S.push_back(flat("calls" + std::to_string(L), All, L));
  }
  S.push_back(flat("core", Core, T ? 6 : 5));
  for (unsigned L = 1; L <= (T ? 4u : 3u); ++L) {
    S.push_back(based("tree" + std::to_string(L), Base3, Late, L));
    S.push_back(based("chain" + std::to_string(L), BaseT, TLate, L));
  }
  S.push_back(largeOnes(T ? std::vector<int>{5, 6, 7, 8, 10, 13, 17}
                          : std::vector<int>{5, 8, 12}));
  return mc::runChecks(
      Argc, Argv, "C24", S,
      {"Reference: features (and the root) in the order of the calls, then "
       "edges and meta data, then relationships and constraints."});
}
