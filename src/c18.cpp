// C18: traversal and ordering follow the depth-first order of the tree.
#include "large.h"

#include "vara/Feature/OrderedFeatureVector.h"

#include <algorithm>
#include <numeric>

namespace {

namespace vf = vara::feature;
using Strs = std::vector<std::string>;
using OFV = vf::deprecated::OrderedFeatureVector;

std::string lower(const std::string &S) {
  std::string R;
  for (char C : S) {
    R += C >= 'A' && C <= 'Z' ? char(C - 'A' + 'a') : C;
  }
  return R;
}

const std::vector<Strs> NameSets = {
    {"root", "B", "a", "C", "ab", "D", "c d"},
    {"m", "z", "Y", "M1", "0", "_", "\xc3\xa9"}};

/// Names of the nodes 1..N: permutation P of the first N of a set.
Strs names(const Strs &Set, int N, uint64_t P) {
  Strs Rest(Set.begin() + 1, Set.begin() + 1 + N);
  Strs R{Set[0]};
  for (int K = N; K >= 1; --K) {
    R.push_back(Rest[P % K]);
    Rest.erase(Rest.begin() + P % K);
    P /= K;
  }
  return R;
}

void order(const gen::Shape &S, const Strs &Names, int P,
           std::vector<int> &Out) {
  Out.push_back(P);
  auto K = S.kids(P);
  std::sort(K.begin(), K.end(), [&](int A, int B) {
    return lower(Names[A]) < lower(Names[B]);
  });
  for (int C : K) {
    order(S, Names, C, Out);
  }
}

template <class R> std::string list(R &&Range) {
  Strs L;
  for (auto *F : Range) {
    L.push_back(F ? F->getName().str() : "null");
  }
  return obs::join(L);
}

std::string sorted(Strs L) {
  std::sort(L.begin(), L.end());
  return obs::join(L);
}

/// First nodes of a kind below P within a depth, as the tree has them.
/// Groups are called after their parent and number.
void first(const gen::Shape &S, const Strs &N, int P, int Slot, bool Groups,
           int Depth, Strs &Out) {
  if (Depth == 0) {
    return;
  }
  if (Slot == 0) {
    if (S.empty(P) && Groups) {
      Out.push_back("group" + std::to_string(S.empty(P)) + " of " + N[P]);
    }
    for (int G = 1; G <= 2; ++G) {
      if (S.kids(P, G).empty()) {
        continue;
      }
      if (Groups) {
        Out.push_back("group" + std::to_string(S.Kind[2 * P + G - 1]) + " of " +
                      N[P]);
      } else {
        first(S, N, P, G, Groups, Depth - 1, Out);
      }
    }
  }
  for (int C : S.kids(P, Slot)) {
    if (Groups) {
      first(S, N, C, 0, Groups, Depth - 1, Out);
    } else {
      Out.push_back(N[C]);
    }
  }
}

std::string label(vf::Relationship *R) {
  auto *P = llvm::dyn_cast<vf::Feature>(R->getParent());
  return std::string("group") +
         (R->getKind() == vf::Relationship::RelationshipKind::RK_ALTERNATIVE
              ? "1"
              : "2") +
         " of " + (P ? P->getName().str() : "null");
}

void compare(mc::Ctx &C, const gen::Shape &S, const Strs &Names, bool AllPerms) {
  // features of all kinds
  auto FM = gen::build(
      S, Names[0], [&](int I) -> std::unique_ptr<vf::Feature> {
        if (I % 3 == 2) {
          return std::make_unique<vf::NumericFeature>(
              Names[I], std::vector<int64_t>{1}, I % 2);
        }
        if (I % 3 == 0 && I % 2) {
          return std::make_unique<vf::Feature>(Names[I]);
        }
        return std::make_unique<vf::BinaryFeature>(Names[I], I % 2);
      });
  C.check(FM != nullptr, "model is not built");
  std::vector<int> Ord;
  order(S, Names, 0, Ord);
  const auto &CFM = *FM;
  std::vector<vf::Feature *> F;
  Strs W;
  for (int I : Ord) {
    F.push_back(FM->getFeature(Names[I]));
    C.check(F.back() != nullptr, "feature is missing");
    W.push_back(Names[I]);
  }
  auto Want = obs::join(W);
  size_t N = F.size();

  // iterating in all ways
  C.eq(list(CFM.features()), Want, "features()");
  {
    Strs L;
    auto It = CFM.begin();
    auto End = CFM.end();
    for (size_t K = 0; It != End; ++K, ++It) {
      C.check(K < N, "iterating does not end");
      C.check(!(It == End), "== and != of iterators agree");
      L.push_back((*It)->getName().str());
      C.check((*It.operator->()) == *It, "operator->");
      // A copy goes on independently.
      auto Copy(It);
      ++Copy;
      ++Copy;
      C.check(*It == F[K], "advancing a copy moves the iterator");
      C.check(It == It, "iterator equals itself");
      auto Next(It);
      ++Next;
      C.check(Next != It, "iterators at different features are equal");
    }
    C.eq(obs::join(L), Want, "begin() to end()");
    C.check(*It == nullptr, "dereferencing end()");
    ++It;
    C.check(It == End, "advancing end()");
  }
  {
    Strs L;
    auto It = CFM.begin();
    for (size_t K = 0; K <= N && It != CFM.end(); ++K) {
      auto Old = It++;
      L.push_back((*Old)->getName().str());
    }
    C.eq(obs::join(L), Want, "post-increment");
  }
  C.eq(size_t(std::distance(CFM.begin(), CFM.end())), N, "distance");
  C.eq(FM->size(), unsigned(N), "size");
  {
    Strs L;
    for (auto *X : CFM.unorderedFeatures()) {
      L.push_back(X->getName().str());
    }
    C.eq(sorted(L), sorted(W), "unorderedFeatures()");
  }
  C.trans(5);

  // comparing
  for (size_t A = 0; A < N; ++A) {
    for (size_t B = 0; B < N; ++B) {
      auto Pair = W[A] + " and " + W[B];
      C.eq(*F[A] < *F[B], A < B, "< of " + Pair);
      C.eq(*F[A] > *F[B], A > B, "> of " + Pair);
      C.eq(*F[A] == *F[B], A == B, "== of " + Pair);
      C.eq(*F[A] != *F[B], A != B, "!= of " + Pair);
      C.trans(4);
    }
    vf::BinaryFeature Other(W[A]);
    C.check(Other == *F[A] && *F[A] == Other && Other.hash() == F[A]->hash(),
            "equally named features of different models are equal");
    // Features of other trees are compared by name.
    for (size_t B = 0; B < N; ++B) {
      C.eq(Other < *F[B], lower(W[A]) < lower(W[B]),
           "< of a feature " + W[A] + " of another tree and " + W[B]);
      C.eq(*F[B] < Other, lower(W[B]) < lower(W[A]),
           "< of " + W[B] + " and a feature " + W[A] + " of another tree");
    }
  }

  // ordered vectors, filled in all orders
  std::vector<int> P(N);
  std::iota(P.begin(), P.end(), 0);
  do {
    OFV V;
    for (int I : P) {
      V.insert(F[I]);
    }
    C.eq(list(V), Want, "ordered vector");
    C.eq(V.size(), unsigned(N), "size of the ordered vector");
    C.trans(N);
    // insert a range behind some single ones
    std::vector<vf::Feature *> X;
    for (int I : P) {
      X.push_back(F[I]);
    }
    OFV R(X.begin(), X.end());
    C.eq(list(std::as_const(R)), Want, "ordered vector of a range");
    R.remove(X[0]);
    auto Less = W;
    Less.erase(Less.begin() + P[0]);
    C.eq(list(R), obs::join(Less), "ordered vector without a feature");
    R.remove(X[0]);
    C.eq(list(R), obs::join(Less), "removing a missing feature");
    R.insert({X[0]});
    C.eq(list(R), Want, "ordered vector with the feature again");
    for (auto *Y : X) {
      R.remove(Y);
    }
    C.check(R.empty() && R.size() == 0, "emptied ordered vector");
  } while (AllPerms && std::next_permutation(P.begin(), P.end()));
  {
    OFV V;
    V.insert(CFM.features());
    C.eq(list(V), Want, "ordered vector of the model");
  }

  // children of a type within a depth
  for (int I = 0; I <= S.N; ++I) {
    auto *X = FM->getFeature(Names[I]);
    for (int D : {-1, 0, 1, 2, 3}) {
      Strs Got;
      for (auto *Y : X->getChildren<vf::Feature>(D)) {
        Got.push_back(Y->getName().str());
      }
      Strs Ref;
      first(S, Names, I, 0, false, D, Ref);
      C.eq(sorted(Got), sorted(Ref),
           "child features of " + Names[I] + " within " + std::to_string(D));
      Got.clear();
      for (auto *Y : X->getChildren<vf::Relationship>(D)) {
        Got.push_back(label(Y));
      }
      Ref.clear();
      first(S, Names, I, 0, true, D, Ref);
      C.eq(sorted(Got), sorted(Ref),
           "groups below " + Names[I] + " within " + std::to_string(D));
      Got.clear();
      for (auto *Y : X->getChildren(D)) {
        auto *G = llvm::dyn_cast<vf::Relationship>(Y);
        Got.push_back(G ? label(G)
                        : llvm::cast<vf::Feature>(Y)->getName().str());
      }
      Ref.clear();
      first(S, Names, I, 0, false, D ? 1 : 0, Ref);
      first(S, Names, I, 0, true, D ? 1 : 0, Ref);
      C.eq(sorted(Got), sorted(Ref),
           "children of " + Names[I] + " within " + std::to_string(D));
      C.trans(3);
    }
    if (!S.empty(I)) {
      C.eq(X->isLeaf(), S.kids(I).empty(), "isLeaf of " + Names[I]);
    }
    auto *Par = X->getParentFeature();
    C.eq(Par ? Par->getName().str() : "", I ? Names[S.Parent[I]] : "",
         "parent of " + Names[I]);
  }
  C.state(Want + " " + S.str(Names));
}

mc::Suite suite(int N, int Groups, bool AllPerms, size_t Sets) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(gen::shapes(N, Groups));
  uint64_t Perm = 1;
  for (int K = 2; K <= N; ++K) {
    Perm *= K;
  }
  mc::Suite S;
  S.Name = "trees" + std::to_string(N);
  S.Bound = "all trees of " + std::to_string(N) +
            " features below the root with at most " + std::to_string(Groups) +
            " groups per feature and all namings out of " +
            std::to_string(Sets) + " sets of names, ordered vectors filled in " +
            (AllPerms ? "all orders" : "depth-first order");
  S.N = Sh->size() * Perm * Sets;
  S.Chunk = 200;
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    auto &Set = NameSets[D.take(Sets)];
    auto P = D.take(Perm);
    return std::make_pair((*Sh)[D.take(Sh->size())], names(Set, N, P));
  };
  S.Describe = [=](uint64_t I) {
    auto [X, M] = Get(I);
    return X.str(M);
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto [X, M] = Get(I);
    compare(C, X, M, AllPerms);
  };
  return S;
}

/// Trees with groups that have no members.
mc::Suite emptyGroups(int N, bool Sets) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(
      gen::withEmptyGroups(gen::shapes(N, 1), Sets));
  mc::Suite S;
  S.Name = "empty-groups" + std::to_string(N);
  S.Bound = "all trees of " + std::to_string(N) +
            " features below the root with at most one group per feature, and "
            "a group without members at " +
            (Sets ? "every set of features" : "every feature");
  S.N = Sh->size();
  S.Chunk = 200;
  auto M = names(NameSets[0], N, 0);
  S.Describe = [=](uint64_t I) { return (*Sh)[I].str(M); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { compare(C, (*Sh)[I], M, true); };
  return S;
}

/// Larger regular trees; names rotate through the nodes.
mc::Suite largeOnes(const std::vector<int> &Sizes) {
  struct Case {
    gen::Shape Sh;
    Strs Names;
  };
  auto L = std::make_shared<std::vector<Case>>();
  for (auto &X : large::shapes(Sizes)) {
    for (int Turn = 0; Turn < X.N; ++Turn) {
      auto Names = large::names(X.N);
      std::rotate(Names.begin() + 1, Names.begin() + 1 + Turn, Names.end());
      L->push_back({X, Names});
    }
  }
  mc::Suite S;
  S.Name = "large";
  S.Bound = large::bound(Sizes) + ", names rotated through all features";
  S.N = L->size();
  S.Chunk = 20;
  S.Describe = [=](uint64_t I) { return (*L)[I].Sh.str((*L)[I].Names); };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    compare(C, (*L)[I].Sh, (*L)[I].Names, false);
  };
  return S;
}

/// Names that are equal up to case: every feature is still visited once and
/// parents precede their children.
mc::Suite equalNames(int N) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(gen::shapes(N, 1));
  mc::Suite S;
  S.Name = "equal-names";
  S.Bound = "all trees of " + std::to_string(N) +
            " features named a, A, b, B, ...; order of equal names is free";
  S.N = Sh->size();
  const Strs Names = {"A", "a", "b", "B", "c", "C"};
  S.Describe = [=](uint64_t I) { return (*Sh)[I].str(Names); };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto FM = gen::build((*Sh)[I], Names[0], [&](int K) {
      return std::make_unique<vf::BinaryFeature>(Names[K]);
    });
    C.check(FM != nullptr, "model is not built");
    Strs L;
    std::set<vf::Feature *> Seen;
    for (auto *F : std::as_const(*FM).features()) {
      C.check(Seen.insert(F).second, "feature visited twice");
      auto *P = F->getParentFeature();
      C.check(!P || Seen.count(P), "child visited before its parent");
      C.check(L.size() <= Names.size(), "iterating does not end");
      L.push_back(F->getName().str());
    }
    C.trans(L.size());
    C.eq(sorted(L), sorted(Strs(Names.begin(), Names.begin() + N + 1)),
         "visited features");
    C.state(obs::join(L));
  };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S = {suite(0, 0, true, 2), suite(1, 1, true, 2),
                              suite(2, 2, true, 2), suite(3, 2, true, 2),
                              suite(4, T ? 1 : 0, true, T ? 2 : 1),
                              equalNames(T ? 5 : 4)};
  for (int N = 0; N <= (T ? 4 : 3); ++N) {
    S.push_back(emptyGroups(N, N < 3));
  }
  if (!T) {
    auto X = suite(4, 1, false, 1);
    X.Name = "trees4-groups";
    S.push_back(X);
  }
  S.push_back(suite(5, 0, false, T ? 2 : 1));
  S.push_back(largeOnes(T ? std::vector<int>{6, 7, 8, 9, 11, 14, 20}
                          : std::vector<int>{6, 8, 13}));
  if (T) {
    auto X = suite(5, 1, false, 1);
    X.Name = "trees5-groups";
    S.push_back(X);
  }
  return mc::runChecks(
      Argc, Argv, "C18", S,
      {"the order of features whose names are equal up to case is free"});
}
