// C16: bulk removal removes exactly the removable requested features, and the
// functions that make a single edit do what a transaction of that edit does.
#include "large.h"

namespace {

namespace vf = vara::feature;
using Strs = std::vector<std::string>;
using Variant = vf::detail::FeatureVariantTy;

const Strs Names = {"root", "b", "a",  "d",  "c", "e", "H",
                    "_i",   "g", "f2", "F1", "k", "J", "z0"};

std::unique_ptr<vf::FeatureModel> real(const gen::Shape &S) {
  // features of all kinds
  auto FM = gen::build(
      S, Names[0], [&](int I) -> std::unique_ptr<vf::Feature> {
        if (I % 3 == 2) {
          return std::make_unique<vf::NumericFeature>(
              Names[I], std::pair<int64_t, int64_t>(0, 5), true);
        }
        if (I % 5 == 0) {
          return std::make_unique<vf::Feature>(Names[I]);
        }
        return std::make_unique<vf::BinaryFeature>(Names[I], true);
      });
  if (!FM) {
    return nullptr;
  }
  auto Atom = [&](int I) {
    return std::make_unique<vf::PrimaryFeatureConstraint>(
        FM->getFeature(Names[I]));
  };
  if (!gen::add(*FM, std::make_unique<vf::FeatureModel::BooleanConstraint>(
                         std::make_unique<vf::ImpliesConstraint>(
                             Atom(1), Atom(S.N)))) ||
      !gen::add(*FM, std::make_unique<vf::FeatureModel::NonBooleanConstraint>(
                         std::make_unique<vf::EqualConstraint>(
                             Atom(0), Atom(S.N > 1 ? 2 : 1))))) {
    return nullptr;
  }
  return FM;
}

ref::Model reference(const gen::Shape &S) {
  auto M = ref::Model::initial(Names[0]);
  std::vector<int> Id(S.N + 1, 0);
  std::map<int, int> Group;
  for (int I = 1; I <= S.N; ++I) {
    int P = Id[S.Parent[I]];
    if (S.Slot[I]) {
      int G = 2 * S.Parent[I] + S.Slot[I] - 1;
      if (!Group.count(G)) {
        ref::Node X;
        X.K = S.Kind[G] == 1 ? ref::Alt : ref::Or;
        Group[G] = M.add(X, P);
      }
      P = Group[G];
    }
    ref::Node X;
    X.Name = Names[I];
    X.K = I % 3 == 2 ? ref::Num : I % 5 == 0 ? ref::Unknown : ref::Bin;
    X.Opt = X.K != ref::Unknown;
    if (X.K == ref::Num) {
      X.Values = "0..5";
    }
    Id[I] = M.add(X, P);
  }
  M.Cons.push_back(
      {"B (=> " + Names[1] + " " + Names[S.N] + ")", {Names[1], Names[S.N]}});
  const auto &X = Names[S.N > 1 ? 2 : 1];
  M.Cons.push_back({"N (= root " + X + ")", {"root", X}});
  return M;
}

struct Item {
  int Node; // -1: unknown name or null
  bool Ptr;
  std::string str() const {
    return (Ptr ? "pointer " : "name ") + (Node < 0 ? "unknown" : Names[Node]);
  }
};

std::string rest(std::vector<std::string> V) {
  std::sort(V.begin(), V.end());
  return obs::join(V);
}

/// Effect on the reference.
void apply(ref::Model &M, const std::vector<Item> &L, bool Recursive) {
  for (bool Again = true; Again;) {
    Again = false;
    for (auto &X : L) {
      int I = X.Node < 0 ? -1 : M.find(Names[X.Node]);
      if (I < 0 || I == M.RootId || (!Recursive && M.hasFeatureBelow(I))) {
        continue;
      }
      M.kill(I);
      Again = true;
    }
  }
}

void check(mc::Ctx &C, const vf::FeatureModel &FM, const ref::Model &M,
           const std::string &What) {
  C.eq(obs::integrity(FM), std::string(), What + ": integrity");
  C.eq(obs::model(FM), M.str(), What);
}

void run(mc::Ctx &C, const gen::Shape &S,
         const std::vector<std::vector<Item>> &Calls, bool Recursive) {
  auto FM = real(S);
  C.check(FM != nullptr, "model is not built");
  auto M = reference(S);
  check(C, *FM, M, "before");
  for (auto &L : Calls) {
    std::vector<Variant> V;
    Strs Want;
    for (auto &X : L) {
      if (!X.Ptr) {
        V.push_back(X.Node < 0 ? std::string("unknown") : Names[X.Node]);
      } else {
        // Pointers to features removed by an earlier call are not passed.
        V.push_back(X.Node < 0 ? nullptr : FM->getFeature(Names[X.Node]));
      }
    }
    Strs Was;
    for (auto &X : V) {
      auto *P = std::get_if<vf::Feature *>(&X);
      Was.push_back(P ? "pointer " + (*P ? (*P)->getName().str() : "null")
                      : "name " + std::get<std::string>(X));
    }
    apply(M, L, Recursive);
    for (size_t K = 0; K < L.size(); ++K) {
      if (L[K].Node < 0 || M.find(Names[L[K].Node]) >= 0 ||
          Was[K] == "pointer null") {
        Want.push_back(Was[K]);
        continue;
      }
      // The name of a feature that an earlier call removed is unknown.
      if (!L[K].Ptr && !FM->getFeature(Names[L[K].Node])) {
        Want.push_back(Was[K]);
      }
    }
    // The same request through the forms with default arguments.
    if (&L == &Calls.front() && !Recursive) {
      for (bool Range : {false, true}) {
        auto Other = real(S);
        C.check(Other != nullptr, "model is not built");
        std::vector<Variant> U;
        for (auto &X : L) {
          if (!X.Ptr) {
            U.push_back(X.Node < 0 ? std::string("unknown") : Names[X.Node]);
          } else {
            U.push_back(X.Node < 0 ? nullptr
                                   : Other->getFeature(Names[X.Node]));
          }
        }
        auto Left = Range ? vf::removeFeatures(*Other, U.begin(), U.end())
                          : vf::removeFeatures(*Other, U);
        C.trans();
        check(C, *Other, M,
              Range ? "model after the call with a range"
                    : "model after the call with a list");
        C.eq(Left.size(), Want.size(), "number of returned features");
      }
    }
    auto R = vf::removeFeatures(*FM, V, Recursive);
    C.trans();
    Strs Got;
    for (auto &X : R) {
      auto *P = std::get_if<vf::Feature *>(&X);
      Got.push_back(P ? "pointer " + (*P ? (*P)->getName().str() : "null")
                      : "name " + std::get<std::string>(X));
    }
    check(C, *FM, M, "model after the call");
    C.eq(rest(Got), rest(Want), "returned features");
    C.state(M.str());
  }
}

/// Ways: 0 by name, 1 by pointer, 2 both.
mc::Suite suite(int N, int Groups, int Len, int Ways, int Calls) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(gen::shapes(N, Groups));
  const uint64_t Items = (N + 2) * (Ways == 2 ? 2 : 1);
  mc::Suite S;
  S.Name = "remove" + std::to_string(N) + "-" + std::to_string(Len) +
           (Calls > 1 ? "-twice" : "") + (Ways == 0 ? "-names" : "");
  S.Bound = "all trees of " + std::to_string(N) + " features with at most " +
            std::to_string(Groups) + " groups each, all lists of " +
            std::to_string(Len) +
            " requests (repetitions, the root and unknown features included) " +
            (Ways == 0   ? "by name"
             : Ways == 1 ? "by pointer"
                         : "by name or pointer") +
            ", recursive or not" +
            (Calls > 1 ? ", followed by all such lists" : "");
  S.N = Sh->size() * 2 * mc::ipow(mc::ipow(Items, Len), Calls);
  S.Chunk = 500;
  struct Case {
    gen::Shape Sh;
    bool Recursive;
    std::vector<std::vector<Item>> L;
  };
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    Case R;
    for (int K = 0; K < Calls; ++K) {
      R.L.emplace_back();
      for (int J = 0; J < Len; ++J) {
        uint64_t X = D.take(Items);
        bool Ptr = Ways == 1 || (Ways == 2 && X % 2);
        if (Ways == 2) {
          X /= 2;
        }
        R.L.back().push_back({int(X) - 1, Ptr});
      }
    }
    R.Recursive = D.take(2);
    R.Sh = (*Sh)[D.take(Sh->size())];
    return R;
  };
  S.Describe = [=](uint64_t I) {
    auto X = Get(I);
    std::string R = X.Sh.str(Names) + (X.Recursive ? " recursive" : "") + "\n";
    for (auto &L : X.L) {
      for (auto &Y : L) {
        R += Y.str() + "; ";
      }
      R += "\n";
    }
    return R;
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = Get(I);
    run(C, X.Sh, X.L, X.Recursive);
  };
  return S;
}

/// Single edits and the corresponding transactions on two equal models.
mc::Suite single(int N) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(gen::shapes(N, 1));
  // edit, feature it is about, second feature
  const uint64_t Kinds = 9;
  const uint64_t F = N + 2;
  mc::Suite S;
  S.Name = "single-edits" + std::to_string(N);
  S.Bound = "all trees of " + std::to_string(N) +
            " features with at most one group each, all calls of the "
            "functions that make one edit, known and unknown features";
  S.N = Sh->size() * Kinds * F * F;
  S.Chunk = 500;
  struct Case {
    gen::Shape Sh;
    uint64_t K;
    int A;
    int B;
  };
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    Case R;
    R.K = D.take(Kinds);
    R.A = int(D.take(F)) - 1;
    R.B = int(D.take(F)) - 1;
    R.Sh = (*Sh)[D.take(Sh->size())];
    return R;
  };
  S.Describe = [=](uint64_t I) {
    auto X = Get(I);
    static const char *K[] = {"addFeature",         "addFeatures",
                              "removeFeature",      "removeFeature recursively",
                              "addRelationship",    "removeRelationship",
                              "setCommit",          "remove by pointer",
                              "add relationship by pointer"};
    return X.Sh.str(Names) + "\n" + K[X.K] + " " +
           (X.A < 0 ? "-" : Names[X.A]) + " " + (X.B < 0 ? "-" : Names[X.B]);
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = Get(I);
    auto One = real(X.Sh);
    auto Two = real(X.Sh);
    C.check(One && Two, "model is not built");
    auto NameOf = [&](int K) {
      return K < 0 ? std::string("unknown") : Names[K];
    };
    auto Ptr = [&](vf::FeatureModel &FM, int K) {
      return K < 0 ? nullptr : FM.getFeature(Names[K]);
    };
    auto Bin = [&](const std::string &Name) {
      return std::make_unique<vf::BinaryFeature>(Name);
    };
    using Kind = vf::Relationship::RelationshipKind;
    auto T = vf::FeatureModelModifyTransaction::openTransaction(*Two);
    Variant V;
    switch (X.K) {
    case 0:
      if (X.B < 0) {
        vf::addFeature(*One, Bin(NameOf(X.A)));
      } else {
        vf::addFeature(*One, Bin(NameOf(X.A)), Ptr(*One, X.B));
      }
      T.addFeature(Bin(NameOf(X.A)), Ptr(*Two, X.B));
      break;
    case 1: {
      std::vector<std::pair<std::unique_ptr<vf::Feature>, vf::Feature *>> L;
      L.emplace_back(Bin("x"), Ptr(*One, X.A));
      L.emplace_back(Bin(NameOf(X.B)), Ptr(*One, X.B));
      L.emplace_back(Bin("y"), Ptr(*One, X.B));
      vf::addFeatures(*One, std::move(L));
      T.addFeature(Bin("x"), Ptr(*Two, X.A));
      T.addFeature(Bin(NameOf(X.B)), Ptr(*Two, X.B));
      T.addFeature(Bin("y"), Ptr(*Two, X.B));
      break;
    }
    case 2:
    case 3:
      if (X.K == 3) {
        vf::removeFeature(*One, NameOf(X.A), true);
      } else {
        vf::removeFeature(*One, NameOf(X.A));
      }
      V = NameOf(X.A);
      T.removeFeature(V, X.K == 3);
      break;
    case 4:
      vf::addRelationship(*One, NameOf(X.A),
                          X.B % 2 ? Kind::RK_OR : Kind::RK_ALTERNATIVE);
      T.addRelationship(X.B % 2 ? Kind::RK_OR : Kind::RK_ALTERNATIVE,
                        NameOf(X.A));
      break;
    case 5:
      vf::removeRelationship(*One, NameOf(X.A));
      T.removeRelationship(NameOf(X.A));
      break;
    case 6:
      vf::setCommit(*One, NameOf(X.A));
      T.setCommit(NameOf(X.A));
      break;
    case 7:
      vf::removeFeature(*One, Ptr(*One, X.A));
      V = Ptr(*Two, X.A);
      T.removeFeature(V);
      break;
    default:
      vf::addRelationship(*One, Ptr(*One, X.A), Kind::RK_OR);
      T.addRelationship(Kind::RK_OR, Ptr(*Two, X.A));
      break;
    }
    (void)bool(T.commit());
    C.trans(2);
    C.eq(obs::integrity(*One), std::string(), "integrity");
    C.eq(obs::model(*One), obs::model(*Two),
         "the model after the call, and after the transaction");
    C.state(obs::model(*One));
  };
  return S;
}

/// All sets of requests in larger regular trees, forwards and backwards.
mc::Suite sets(int N) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(large::shapes({N}));
  mc::Suite S;
  S.Name = "sets" + std::to_string(N);
  S.Bound = large::bound({N}) +
            ", all sets of requests by name or by pointer, parents first or "
            "last, recursive or not";
  S.N = Sh->size() * 8 << N;
  S.Chunk = 200;
  struct Case {
    gen::Shape Sh;
    bool Recursive;
    std::vector<Item> L;
  };
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    Case R;
    R.Recursive = D.take(2);
    bool Ptr = D.take(2);
    bool Back = D.take(2);
    uint64_t Bits = D.take(1ULL << N);
    R.Sh = (*Sh)[D.take(Sh->size())];
    for (int K = 1; K <= N; ++K) {
      if (Bits >> (K - 1) & 1) {
        R.L.push_back({K, Ptr});
      }
    }
    if (Back) {
      std::reverse(R.L.begin(), R.L.end());
    }
    return R;
  };
  S.Describe = [=](uint64_t I) {
    auto X = Get(I);
    std::string R = X.Sh.str(Names) + (X.Recursive ? " recursive" : "") + "\n";
    for (auto &Y : X.L) {
      R += Y.str() + "; ";
    }
    return R;
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = Get(I);
    run(C, X.Sh, {X.L}, X.Recursive);
  };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S = {
      suite(1, 1, 3, 2, 1), suite(2, 2, 3, 2, 1),
      suite(3, 1, T ? 4 : 3, 2, 1), suite(2, 2, T ? 2 : 1, 2, 2),
      suite(3, 1, 2, 0, 2), suite(4, T ? 1 : 0, T ? 4 : 3, 1, 1),
      suite(4, 1, 2, 0, 1), single(2), sets(T ? 10 : 7)};
  if (T) {
    S.push_back(suite(4, 1, 3, 2, 1));
    S.push_back(suite(5, 0, 3, 0, 1));
    S.push_back(single(3));
  }
  return mc::runChecks(Argc, Argv, "C16", S,
                       {"the order of the returned features is not compared",
                        "pointers passed to a call are alive"});
}
