// Enumeration of feature trees with groups, and construction of the
// corresponding real models through the public API.
#ifndef MC_GEN_H
#define MC_GEN_H

#include "engine.h"
#include "obs.h"

#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/FeatureModelTransaction.h"

#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace gen {

namespace vf = vara::feature;

/// Tree over the nodes 0 (root), 1, ..., N.  Children of a node are either
/// direct (slot 0) or members of its first or second group.
struct Shape {
  int N = 0;
  std::vector<int> Parent; // of node I at [I]; [0] is unused
  std::vector<int> Slot;   // 0: direct child, 1/2: in a group of the parent
  std::vector<int> Kind;   // [2*P + Slot-1]: 0 no group, 1 ALT, 2 OR
  std::vector<int> Empty;  // group without members: 0 none, 1 ALT, 2 OR

  int empty(int P) const { return Empty.empty() ? 0 : Empty[P]; }
  std::vector<int> kids(int P, int S = -1) const {
    std::vector<int> R;
    for (int I = 1; I <= N; ++I) {
      if (Parent[I] == P && (S < 0 || Slot[I] == S)) {
        R.push_back(I);
      }
    }
    return R;
  }
  std::string str(const std::vector<std::string> &Name, int P = 0) const {
    std::string R = Name[P];
    auto K = kids(P);
    if (K.empty() && !empty(P)) {
      return R;
    }
    R += "(";
    bool First = true;
    if (empty(P)) {
      R += empty(P) == 1 ? "ALT{}" : "OR{}";
      First = false;
    }
    for (int S = 0; S <= 2; ++S) {
      auto L = kids(P, S);
      if (L.empty()) {
        continue;
      }
      if (!First) {
        R += ",";
      }
      First = false;
      if (S) {
        R += Kind[2 * P + S - 1] == 1 ? "ALT{" : "OR{";
      }
      for (size_t I = 0; I < L.size(); ++I) {
        R += (I ? "," : "") + str(Name, L[I]);
      }
      if (S) {
        R += "}";
      }
    }
    return R + ")";
  }
};

/// All shapes with N nodes below the root; at most Groups groups per node.
inline std::vector<Shape> shapes(int N, int Groups) {
  std::vector<Shape> R;
  Shape S;
  S.N = N;
  S.Parent.assign(N + 1, 0);
  S.Slot.assign(N + 1, 0);
  S.Kind.assign(2 * (N + 1), 0);
  std::function<void(int)> Rec = [&](int I) {
    if (I > N) {
      R.push_back(S);
      return;
    }
    for (int P = 0; P < I; ++P) {
      S.Parent[I] = P;
      for (int G = 0; G <= Groups; ++G) {
        S.Slot[I] = G;
        if (G == 0) {
          Rec(I + 1);
          continue;
        }
        if (G == 2 && !S.Kind[2 * P]) {
          continue; // the second group starts after the first one
        }
        int &K = S.Kind[2 * P + G - 1];
        if (K) {
          Rec(I + 1);
          continue;
        }
        for (K = 1; K <= 2; ++K) {
          Rec(I + 1);
        }
        K = 0;
      }
    }
  };
  Rec(1);
  return R;
}

/// The shapes with groups without members: at all sets of nodes, or at one.
inline std::vector<Shape> withEmptyGroups(const std::vector<Shape> &L,
                                          bool Sets) {
  std::vector<Shape> R;
  for (auto &S : L) {
    Shape X = S;
    for (uint64_t I = 1; I < mc::ipow(3, S.N + 1); ++I) {
      mc::Digits D(I);
      X.Empty.assign(S.N + 1, 0);
      int Count = 0;
      for (auto &E : X.Empty) {
        E = int(D.take(3));
        Count += E != 0;
      }
      if (Sets || Count == 1) {
        R.push_back(X);
      }
    }
  }
  return R;
}

/// Equal for shapes (with node marks) that differ in the order of siblings.
inline std::string canon(const Shape &S, const std::vector<int> &Mark,
                         int P = 0) {
  std::vector<std::string> Parts;
  for (int G = 0; G <= 2; ++G) {
    std::vector<std::string> K;
    for (int C : S.kids(P, G)) {
      K.push_back(canon(S, Mark, C));
    }
    std::sort(K.begin(), K.end());
    if (G && !K.empty()) {
      Parts.push_back((S.Kind[2 * P + G - 1] == 1 ? "A{" : "O{") +
                      obs::join(K) + "}");
    } else if (!K.empty()) {
      Parts.push_back(obs::join(K));
    }
  }
  std::sort(Parts.begin(), Parts.end());
  return std::to_string(Mark[P]) + "(" + obs::join(Parts) + ")";
}

/// Real model of that shape; Make(I) delivers the feature of node I.
inline std::unique_ptr<vf::FeatureModel>
build(const Shape &S, const std::string &RootName,
      const std::function<std::unique_ptr<vf::Feature>(int)> &Make) {
  vf::FeatureModelBuilder B;
  B.makeRoot(RootName);
  auto FM = B.buildFeatureModel();
  if (!FM) {
    return nullptr;
  }
  std::vector<vf::Feature *> F(S.N + 1);
  F[0] = FM->getRoot();
  for (int P = 0; P <= S.N; ++P) {
    if (S.empty(P)) {
      auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
      T.addRelationship(S.empty(P) == 1
                            ? vf::Relationship::RelationshipKind::RK_ALTERNATIVE
                            : vf::Relationship::RelationshipKind::RK_OR,
                        F[P]);
      if (!T.commit()) {
        return nullptr;
      }
    }
    for (int G : {1, 2, 0}) {
      auto K = S.kids(P, G);
      if (K.empty()) {
        continue;
      }
      auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
      for (int C : K) {
        auto X = Make(C);
        F[C] = X.get();
        T.addFeature(std::move(X), F[P]);
      }
      if (G) {
        T.addRelationship(
            S.Kind[2 * P + G - 1] == 1
                ? vf::Relationship::RelationshipKind::RK_ALTERNATIVE
                : vf::Relationship::RelationshipKind::RK_OR,
            F[P]);
      }
      if (!T.commit()) {
        return nullptr;
      }
    }
  }
  return FM;
}

template <class Ty> bool add(vf::FeatureModel &FM, std::unique_ptr<Ty> C) {
  auto T = vf::FeatureModelModifyTransaction::openTransaction(FM);
  T.addConstraint(std::move(C));
  return bool(T.commit());
}

} // namespace gen

#endif
