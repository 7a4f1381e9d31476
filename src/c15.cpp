// C15: merging two models yields their union or nothing and changes neither.
#include "large.h"

namespace {

namespace vf = vara::feature;
using Strs = std::vector<std::string>;
using Kind = vf::Relationship::RelationshipKind;

/// One feature below the root.
struct Node {
  std::string Name;
  int Parent = 0; // 0: root, I: I-th node
  int Slot = 0;   // 1: in the group of its parent
  bool Opt = true;
  int Values = 0; // 0 binary, 1.. numeric
  int Out = 0;
  int Step = 0;
  int Locs = 0; // bit set
};

struct Spec {
  std::string Root = "root";
  int RootLocs = 0;
  int Group = 1; // kind of all groups: 1 alternative, 2 or
  int Constraints = 0;
  std::vector<Node> Nodes; // parents first
  std::string Text;

  const std::string &name(int I) const { return I ? Nodes[I - 1].Name : Root; }
  std::string str() const {
    gen::Shape S = shape();
    Strs L = {Root};
    for (auto &X : Nodes) {
      L.push_back(X.Name + (X.Opt ? "?" : "") +
                  (X.Values ? " num" + std::to_string(X.Values) : "") +
                  (X.Out ? " out" + std::to_string(X.Out) : "") +
                  (X.Step ? " step" + std::to_string(X.Step) : "") +
                  (X.Locs ? " locs" + std::to_string(X.Locs) : ""));
    }
    return S.str(L) + (RootLocs ? " root locs" : "") +
           (Constraints ? " with constraints" : "");
  }
  gen::Shape shape() const {
    gen::Shape S;
    S.N = Nodes.size();
    S.Parent.assign(S.N + 1, 0);
    S.Slot.assign(S.N + 1, 0);
    S.Kind.assign(2 * (S.N + 1), 0);
    for (int I = 1; I <= S.N; ++I) {
      auto &X = Nodes[I - 1];
      S.Parent[I] = X.Parent;
      S.Slot[I] = X.Slot;
      if (X.Slot) {
        S.Kind[2 * X.Parent] = Group;
      }
    }
    return S;
  }
};

std::vector<vf::FeatureSourceRange> locations(int Bits) {
  std::vector<vf::FeatureSourceRange> R;
  using L = vf::FeatureSourceRange::FeatureSourceLocation;
  if (Bits & 1) {
    R.emplace_back("p.cpp", L(1, 2), L(3, 4));
  }
  if (Bits & 2) {
    R.emplace_back("p.cpp", L(1, 2), L(3, 5));
  }
  if (Bits & 4) {
    R.emplace_back("q.cpp", L(1, 2), L(3, 4),
                   vf::FeatureSourceRange::Category::inessential);
  }
  if (Bits & 8) {
    R.emplace_back("q.cpp", L(1, 2), L(3, 4));
  }
  return R;
}

std::unique_ptr<vf::Feature> make(const Node &X) {
  Strs Out = {"", "-x", "-X"};
  if (!X.Values) {
    return std::make_unique<vf::BinaryFeature>(X.Name, X.Opt,
                                               locations(X.Locs), Out[X.Out]);
  }
  vf::NumericFeature::ValuesVariantType V;
  switch (X.Values) {
  case 1:
    V = std::make_pair<int64_t, int64_t>(1, 4);
    break;
  case 2:
    V = std::make_pair<int64_t, int64_t>(1, 5);
    break;
  case 3:
    V = std::vector<int64_t>{1, 4};
    break;
  default:
    V = std::vector<int64_t>{1, 4, 5};
    break;
  }
  std::unique_ptr<vf::StepFunction> St;
  using Op = vf::StepFunction::StepOperation;
  if (X.Step) {
    St = std::make_unique<vf::StepFunction>(
        X.Step == 2 ? Op::MULTIPLICATION : Op::ADDITION, X.Step == 3 ? 3 : 2);
  }
  return std::make_unique<vf::NumericFeature>(
      X.Name, V, X.Opt, locations(X.Locs), Out[X.Out], std::move(St));
}

std::unique_ptr<vf::FeatureModel> build(const Spec &S, const char *VmName) {
  auto FM = gen::build(S.shape(), S.Root,
                       [&](int I) { return make(S.Nodes[I - 1]); });
  if (!FM) {
    return nullptr;
  }
  auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
  for (auto &L : locations(S.RootLocs)) {
    T.addLocation(FM->getRoot(), L);
  }
  T.setName(VmName);
  T.setCommit(std::string("commit of ") + VmName);
  T.setPath(std::string("path of ") + VmName);
  if (!T.commit()) {
    return nullptr;
  }
  if (S.Constraints) {
    auto Atom = [&](size_t I) {
      return std::make_unique<vf::PrimaryFeatureConstraint>(
          FM->getFeature(S.name(I)));
    };
    size_t Last = S.Nodes.size();
    if (!gen::add(*FM, std::make_unique<vf::FeatureModel::BooleanConstraint>(
                           std::make_unique<vf::ImpliesConstraint>(
                               Atom(Last), Atom(0)))) ||
        !gen::add(*FM,
                  std::make_unique<vf::FeatureModel::MixedConstraint>(
                      std::make_unique<vf::EqualConstraint>(Atom(0),
                                                            Atom(Last / 2)),
                      vf::FeatureModel::MixedConstraint::Req::ALL,
                      vf::FeatureModel::MixedConstraint::ExprKind::NEG))) {
      return nullptr;
    }
  }
  return FM;
}

/// Features of a model as a user sees them, each with its place.
struct Seen {
  std::string Attrs;  // without locations
  std::string Parent; // name of the parent feature
  std::string Group;  // of its parent, or empty
  std::set<std::string> Locs;
  bool Root = false;
};
using View = std::map<std::string, Seen>;

std::string str(const View &V) {
  std::string R;
  for (auto &X : V) {
    R += "\n    " + X.second.Attrs + " below " + X.second.Parent +
         X.second.Group + " [";
    for (auto &L : X.second.Locs) {
      R += " " + L;
    }
    R += " ]";
  }
  return R;
}

View view(mc::Ctx &C, vf::FeatureModel &FM) {
  View R;
  for (auto *F : std::as_const(FM)) {
    Seen S;
    obs::Opts O;
    O.Locations = false;
    S.Attrs = obs::attrs(F, O);
    auto *P = F->getParent();
    if (auto *G = llvm::dyn_cast_or_null<vf::Relationship>(P)) {
      S.Group = G->getKind() == Kind::RK_ALTERNATIVE ? "#ALT" : "#OR";
    }
    S.Parent = F->getParentFeature() ? F->getParentFeature()->getName().str()
                                     : "<none>";
    S.Root = !P;
    for (auto &L : F->getLocations()) {
      C.check(S.Locs.insert(obs::loc(L)).second,
              "location appears twice at " + F->getName().str());
    }
    C.check(R.emplace(F->getName().str(), S).second,
            "feature appears twice: " + F->getName().str());
  }
  return R;
}

/// Two ways in which the groups of members of both models may differ are not
/// told apart by the documentation.
enum Verdict { Fails, Merges, Either };

Verdict expected(const Spec &A, const Spec &B, const View &VA, const View &VB,
                 bool Strict, View &Out) {
  Out = VA;
  Verdict V = Merges;
  std::function<bool(int)> Walk = [&](int I) {
    auto &Name = B.name(I);
    auto &New = VB.at(Name);
    auto Old = VA.find(Name);
    if (Old == VA.end()) {
      if (I == 0) {
        return false;
      }
      auto X = New;
      X.Group.clear();
      Out[Name] = X;
    } else {
      if (Old->second.Root != New.Root) {
        if (Strict) {
          return false;
        }
        V = Either; // where non-strict merging grafts a tree is not specified
        return true;
      }
      if (!New.Root && Old->second.Parent != New.Parent) {
        return false;
      }
      if (Strict && (Old->second.Attrs != New.Attrs ||
                     Old->second.Group.empty() != New.Group.empty())) {
        return false;
      }
      if (Strict && Old->second.Group != New.Group) {
        V = Either;
      }
      for (auto &L : New.Locs) {
        Out[Name].Locs.insert(L);
      }
    }
    for (int K : B.shape().kids(I)) {
      if (!Walk(K)) {
        return false;
      }
    }
    return true;
  };
  (void)A;
  return Walk(0) ? V : Fails;
}

void run(mc::Ctx &C, const Spec &A, const Spec &B, bool Strict) {
  auto One = build(A, "one");
  auto Two = build(B, "two");
  C.check(One && Two, "model is not built");
  auto VA = view(C, *One);
  auto VB = view(C, *Two);
  std::string ExactA = obs::exactTree(One->getRoot()) + obs::model(*One);
  std::string ExactB = obs::exactTree(Two->getRoot()) + obs::model(*Two);
  View Want;
  Verdict V = expected(A, B, VA, VB, Strict, Want);
  // merging is strict by default
  auto M = Strict ? vf::mergeFeatureModels(*One, *Two)
                  : vf::mergeFeatureModels(*One, *Two, false);
  C.trans();
  C.eq(obs::exactTree(One->getRoot()) + obs::model(*One), ExactA,
       "first model after merging");
  C.eq(obs::exactTree(Two->getRoot()) + obs::model(*Two), ExactB,
       "second model after merging");
  C.eq(obs::integrity(*One), std::string(), "integrity of the first model");
  C.eq(obs::integrity(*Two), std::string(), "integrity of the second model");
  if (V == Fails) {
    C.check(!M, "merging conflicting models delivers a model");
    return;
  }
  if (!M) {
    C.check(V == Either, "merging fails although the models do not conflict");
    return;
  }
  auto Cons = obs::constraints(*One);
  if (V == Merges) {
    // merging again adds nothing, and a model is its own union
    auto Twice = [&](vf::FeatureModel &X, vf::FeatureModel &Y,
                     const char *What) {
      auto Before = obs::exactTree(X.getRoot()) + obs::model(X);
      auto Want = str(view(C, X));
      auto Z = vf::mergeFeatureModels(X, Y, Strict);
      C.trans();
      C.check(Z != nullptr, std::string(What) + " yields nothing");
      C.eq(obs::integrity(*Z), std::string(), std::string(What) + ": integrity");
      C.eq(str(view(C, *Z)), Want, What);
      C.eq(obs::exactTree(X.getRoot()) + obs::model(X), Before,
           std::string(What) + ": first model");
      return Z;
    };
    // Features that only the second has do not keep their group.
    std::unique_ptr<vf::FeatureModel> Z;
    if (!Strict) {
      Z = Twice(*M, *Two, "the merged model, merged with the second again");
    }
    Twice(*M, *One, "the merged model, merged with the first");
    Twice(*M, *M, "the merged model, merged with itself");
    Twice(*One, *One, "the first model, merged with itself");
    Z.reset();
    C.eq(obs::exactTree(Two->getRoot()) + obs::model(*Two), ExactB,
         "second model after merging again");
  }
  One.reset();
  Two.reset();
  C.eq(obs::integrity(*M), std::string(), "integrity of the merged model");
  if (V == Merges || Strict) {
    C.eq(str(view(C, *M)), str(Want), "merged model");
    C.eq(M->size(), Want.size(), "number of features");
  }
  C.eq(M->getName().str(), std::string("one"), "name");
  C.eq(M->getCommit().str(), std::string("commit of one"), "commit");
  C.eq(obs::join(obs::constraints(*M)), obs::join(Cons), "constraints");
  C.state(obs::model(*M));
}

/// All models whose features have distinct names from Pool.
std::vector<Spec> structures(const Strs &Pool, int Slots, size_t Max) {
  std::vector<Spec> R;
  for (unsigned Bits = 0; Bits < (1U << Pool.size()); ++Bits) {
    Strs L;
    for (size_t I = 0; I < Pool.size(); ++I) {
      if (Bits & (1U << I)) {
        L.push_back(Pool[I]);
      }
    }
    if (L.size() > Max) {
      continue;
    }
    std::set<std::string> Done;
    std::sort(L.begin(), L.end());
    do {
      for (auto &Sh : gen::shapes(L.size(), 0)) {
        for (uint64_t S = 0; S < mc::ipow(Slots, L.size()); ++S) {
          mc::Digits D(S);
          Spec X;
          for (size_t I = 0; I < L.size(); ++I) {
            Node Y;
            Y.Name = L[I];
            Y.Parent = Sh.Parent[I + 1];
            Y.Slot = D.take(Slots);
            Y.Opt = !Y.Slot;
            X.Nodes.push_back(Y);
          }
          // Equal labelled trees arise from several orders of the names.
          Strs Key;
          for (size_t I = 0; I < L.size(); ++I) {
            Key.push_back(L[I] + "<" + X.name(X.Nodes[I].Parent) +
                          std::to_string(X.Nodes[I].Slot));
          }
          std::sort(Key.begin(), Key.end());
          if (Done.insert(obs::join(Key)).second) {
            R.push_back(X);
          }
        }
      }
    } while (std::next_permutation(L.begin(), L.end()));
  }
  return R;
}

mc::Suite pairs(const std::string &Name, const std::string &Bound,
                std::vector<Spec> First, std::vector<Spec> Second) {
  auto A = std::make_shared<std::vector<Spec>>(std::move(First));
  auto B = std::make_shared<std::vector<Spec>>(std::move(Second));
  mc::Suite S;
  S.Name = Name;
  S.Bound = Bound + ", strictly and not";
  S.N = A->size() * B->size() * 2;
  S.Chunk = 1000;
  S.Describe = [=](uint64_t I) {
    mc::Digits D(I);
    bool Strict = D.take(2);
    auto &Y = (*B)[D.take(B->size())];
    return "merge " + (*A)[D.take(A->size())].str() + "\nwith " + Y.str() +
           (Strict ? " strictly" : "");
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    mc::Digits D(I);
    bool Strict = D.take(2);
    auto &Y = (*B)[D.take(B->size())];
    run(C, (*A)[D.take(A->size())], Y, Strict);
  };
  return S;
}

/// One feature in all variants of its attributes.
std::vector<Spec> attributes(bool All) {
  std::vector<Spec> R;
  for (int Slot = 0; Slot <= 2; ++Slot) {
    for (int Opt = 0; Opt <= 1; ++Opt) {
      for (int Out = 0; Out <= (All ? 2 : 1); ++Out) {
        for (int Values = 0; Values <= 4; ++Values) {
          for (int Step = 0; Step <= (Values ? 3 : 0); ++Step) {
            Spec X;
            X.Group = Slot == 2 ? 2 : 1;
            Node Y;
            Y.Name = "a";
            Y.Slot = Slot != 0;
            Y.Opt = Opt;
            Y.Out = Out;
            Y.Values = Values;
            Y.Step = Step;
            X.Nodes.push_back(Y);
            R.push_back(X);
          }
        }
      }
    }
  }
  return R;
}

/// Locations at two features and the root.
std::vector<Spec> locationSets(int Max) {
  std::vector<Spec> R;
  for (int L = 0; L < Max; ++L) {
    for (int RL : {0, 1, 6, 15}) {
      for (int Other = 0; Other < 2; ++Other) {
        Spec X;
        X.RootLocs = RL;
        Node Y;
        Y.Name = "a";
        Y.Locs = L;
        X.Nodes.push_back(Y);
        if (Other) {
          Y.Name = "b";
          Y.Parent = 1;
          Y.Locs = Max - 1 - L;
          X.Nodes.push_back(Y);
        }
        R.push_back(X);
      }
    }
  }
  return R;
}

/// One or two features of both kinds with locations, in groups or not.
std::vector<Spec> contents() {
  std::vector<Spec> R(1);
  for (uint64_t I = 0; I < 24 * 9; ++I) {
    mc::Digits D(I);
    Spec X;
    Node Y;
    Y.Name = "a";
    Y.Values = int(D.take(2));
    Y.Opt = D.take(2);
    Y.Slot = int(D.take(2));
    static const int Locs[] = {0, 1, 6};
    Y.Locs = Locs[D.take(3)];
    X.Nodes.push_back(Y);
    if (auto B = D.take(9)) {
      --B;
      Y.Name = "b";
      Y.Values = B & 1;
      Y.Locs = B & 2 ? 4 : 0;
      Y.Parent = B & 4 ? 1 : 0;
      Y.Opt = true;
      Y.Slot = 0;
      X.Nodes.push_back(Y);
    }
    R.push_back(X);
  }
  return R;
}

/// Different names of roots, names up to case, constraints.
std::vector<Spec> roots(const Strs &Pool, size_t Max) {
  std::vector<Spec> R;
  for (auto &X : structures(Pool, 1, Max)) {
    for (const char *N : {"root", "Root", "a", "b"}) {
      bool Free = true;
      for (auto &Y : X.Nodes) {
        Free &= Y.Name != N;
      }
      for (int K = 0; Free && K < 2; ++K) {
        auto Z = X;
        Z.Root = N;
        Z.Constraints = K && !Z.Nodes.empty();
        if (K && Z.Nodes.empty()) {
          continue;
        }
        R.push_back(Z);
      }
    }
  }
  return R;
}

/// Optional and mandatory, numeric and binary features in small trees.
std::vector<Spec> mixed(size_t Max) {
  std::vector<Spec> R;
  for (auto &X : structures({"a", "b", "c"}, 1, Max)) {
    for (uint64_t V = 0; V < mc::ipow(3, X.Nodes.size()); ++V) {
      mc::Digits D(V);
      auto Z = X;
      for (auto &Y : Z.Nodes) {
        uint64_t K = D.take(3);
        Y.Opt = K == 0;
        Y.Values = K == 2;
        Y.Step = K == 2;
        Y.Locs = 1 << K;
      }
      R.push_back(Z);
    }
  }
  return R;
}

/// Larger regular trees, each with the trees that differ from it at one place.
mc::Suite largeOnes(const std::vector<int> &Sizes) {
  auto L = std::make_shared<std::vector<std::pair<Spec, Spec>>>();
  for (auto &Sh : large::shapes(Sizes)) {
    auto Names = large::names(Sh.N);
    Spec A;
    A.Constraints = 1;
    for (int I = 1; I <= Sh.N; ++I) {
      Node X;
      X.Name = Names[I];
      X.Parent = Sh.Parent[I];
      X.Slot = Sh.Slot[I] != 0;
      X.Values = !X.Slot && I % 4 == 3 ? 3 : 0;
      X.Opt = I % 3 != 0 && !X.Slot;
      X.Out = I % 3;
      X.Locs = I % 16;
      A.Nodes.push_back(X);
    }
    auto Add = [&](const Spec &B) {
      L->push_back({A, B});
      L->push_back({B, A});
    };
    Add(A);
    for (int I = 1; I <= Sh.N; ++I) {
      Spec B = A;
      auto &X = B.Nodes[I - 1];
      X.Opt = !X.Opt;
      Add(B);
      B = A;
      X.Out = (X.Out + 1) % 3;
      Add(B);
      B = A;
      X.Locs ^= 5;
      Add(B);
      B = A;
      X.Slot = !X.Slot;
      Add(B);
      B = A;
      X.Values = X.Values ? 4 : 1;
      Add(B);
      for (int P : {0, I - 1, (I - 1) / 2}) {
        if (P != A.Nodes[I - 1].Parent) {
          B = A;
          X.Parent = P;
          X.Slot = 0;
          Add(B);
        }
      }
      B = A;
      Node Y;
      Y.Name = "n" + std::to_string(I);
      Y.Parent = I;
      Y.Locs = I;
      Y.Out = 1;
      B.Nodes.push_back(Y);
      Y.Name += "below";
      Y.Parent = Sh.N + 1;
      Y.Values = 2;
      Y.Step = 1;
      B.Nodes.push_back(Y);
      Add(B);
      // without that feature and everything below it
      B = A;
      B.Nodes.clear();
      std::vector<int> Now(Sh.N + 1, -1);
      Now[0] = 0;
      for (int K = 1; K <= Sh.N; ++K) {
        if (K != I && Now[Sh.Parent[K]] >= 0) {
          auto Z = A.Nodes[K - 1];
          Z.Parent = Now[Sh.Parent[K]];
          B.Nodes.push_back(Z);
          Now[K] = int(B.Nodes.size());
        }
      }
      B.Constraints = !B.Nodes.empty();
      Add(B);
    }
  }
  mc::Suite S;
  S.Name = "large";
  S.Bound = large::bound(Sizes) +
            ", merged with themselves and with every tree that differs in one "
            "attribute, place, additional or missing subtree, strictly and not";
  S.N = L->size() * 2;
  S.Chunk = 100;
  S.Describe = [=](uint64_t I) {
    auto &X = (*L)[I / 2];
    return "merge " + X.first.str() + "\nwith " + X.second.str() +
           (I % 2 ? " strictly" : "");
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto &X = (*L)[I / 2];
    run(C, X.first, X.second, I % 2);
  };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S;
  S.push_back(pairs("trees3",
                    "all pairs of labelled trees with groups over three names",
                    structures({"a", "b", "c"}, 2, 3),
                    structures({"a", "b", "c"}, 2, 3)));
  S.push_back(pairs("trees4", "all pairs of labelled trees over four names",
                    structures({"a", "b", "c", "d"}, 1, 4),
                    structures({"a", "b", "c", "d"}, 1, 4)));
  S.push_back(pairs("attributes",
                    "all pairs of variants of one feature (optionality, kind, "
                    "values, step function, output string, group)",
                    attributes(T), attributes(T)));
  S.push_back(pairs("locations",
                    "all pairs of sets of locations at a feature, its child "
                    "and the root",
                    locationSets(16), locationSets(16)));
  S.push_back(pairs("contents",
                    "all pairs of trees of one or two binary and numeric "
                    "features with sets of locations, one in a group or not",
                    contents(), contents()));
  S.push_back(pairs("roots",
                    "all pairs of trees with different names of roots, names "
                    "that differ in case, with and without constraints",
                    roots({"a", "A", "b", "root"}, T ? 3 : 2),
                    roots({"a", "A", "b", "root"}, T ? 3 : 2)));
  S.push_back(pairs("mixed",
                    "all pairs of trees of optional, mandatory and numeric "
                    "features",
                    mixed(T ? 3 : 2), mixed(T ? 3 : 2)));
  S.push_back(largeOnes(T ? std::vector<int>{4, 5, 6, 7, 8, 10, 13, 17}
                          : std::vector<int>{5, 8, 12}));
  if (T) {
    S.push_back(pairs("trees4-groups",
                      "all pairs of a labelled tree with groups over four "
                      "names and one over three",
                      structures({"a", "b", "c", "d"}, 2, 4),
                      structures({"a", "b", "d"}, 2, 3)));
    S.push_back(pairs("trees5",
                      "all pairs of a labelled tree over five names and one "
                      "over four",
                      structures({"a", "b", "c", "d", "e"}, 1, 5),
                      structures({"a", "b", "c", "e"}, 1, 4)));
  }
  return mc::runChecks(Argc, Argv, "C15", S, {
    "the group of members of both models is alternative in one and or in the "
    "other: merging strictly may fail or keep the first",
  });
}
