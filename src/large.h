// Regular trees that are larger than what can be enumerated completely:
// chains, stars, binary trees, combs and brooms with regular groups.
#ifndef MC_LARGE_H
#define MC_LARGE_H

#include "gen.h"
#include "tx.h"

#include <algorithm>
#include <array>

namespace large {

enum Form { Chain, Star, Binary, Comb, Broom, Forms };
enum Groups { None, AllAlt, AllOr, Inner, Two, Mixed, Patterns };

inline const char *formName(int F) {
  static const char *N[] = {"chain", "star", "binary tree", "comb", "broom"};
  return N[F];
}

inline gen::Shape shape(int Form, int Pattern, int N) {
  gen::Shape S;
  S.N = N;
  S.Parent.assign(N + 1, 0);
  S.Slot.assign(N + 1, 0);
  S.Kind.assign(2 * (N + 1), 0);
  for (int I = 1; I <= N; ++I) {
    switch (Form) {
    case Chain:
      S.Parent[I] = I - 1;
      break;
    case Star:
      S.Parent[I] = 0;
      break;
    case Binary:
      S.Parent[I] = (I - 1) / 2;
      break;
    case Comb: // the odd ones are the back, the even ones the teeth
      S.Parent[I] = I == 1 ? 0 : (I % 2 ? I - 2 : I - 1);
      break;
    default: // the first half is a handle
      S.Parent[I] = I <= N / 2 ? I - 1 : N / 2;
      break;
    }
  }
  for (int P = 0; P <= N; ++P) {
    auto K = S.kids(P);
    if (K.empty()) {
      continue;
    }
    bool Deep = false; // nobody below the members
    for (int C : K) {
      Deep |= !S.kids(C).empty();
    }
    switch (Pattern) {
    case None:
      break;
    case AllAlt:
    case AllOr:
      S.Kind[2 * P] = Pattern == AllAlt ? 1 : 2;
      for (int C : K) {
        S.Slot[C] = 1;
      }
      break;
    case Inner:
      if (!Deep) {
        S.Kind[2 * P] = 1 + P % 2;
        for (int C : K) {
          S.Slot[C] = 1;
        }
      }
      break;
    case Two: // one kind of group each
      for (size_t I = 0; I < K.size(); ++I) {
        int G = I * 2 < K.size() ? 1 : 2;
        S.Slot[K[I]] = G;
        S.Kind[2 * P + G - 1] = G;
      }
      break;
    default: // groups below every other feature, the last child is outside
      if (P % 2 == 0) {
        S.Kind[2 * P] = 1 + (P / 2) % 2;
        for (size_t I = 0; I + 1 < K.size() || !I; ++I) {
          S.Slot[K[I]] = 1;
        }
      }
      break;
    }
  }
  return S;
}

/// Three groups: at the root, at X and at Y, which are both beside the group
/// of the root (0), both members of it (1), or X is a member of it and Y of
/// the group of X (2).
inline gen::Shape family(const std::array<int, 3> &Kind,
                         const std::array<int, 3> &Size, int Where) {
  gen::Shape S;
  S.Parent = {0};
  S.Slot = {0};
  S.Kind = {0, 0};
  auto Node = [&](int Parent, int Slot) {
    S.Parent.push_back(Parent);
    S.Slot.push_back(Slot);
    S.Kind.insert(S.Kind.end(), {0, 0});
    return ++S.N;
  };
  int At[3] = {0, 0, 0};
  for (int G = 0; G < 3; ++G) {
    if (G && !At[G]) {
      At[G] = Node(0, 0);
    }
    S.Kind[2 * At[G]] = Kind[G];
    for (int I = 0; I < Size[G]; ++I) {
      int M = Node(At[G], 1);
      if (Where == 1 && G == 0 && I < 2) {
        At[1 + I] = M;
      }
      if (Where == 2 && G < 2 && I + 1 == Size[G]) {
        At[G + 1] = M;
      }
    }
  }
  return S;
}

/// Families of all kinds of groups, with all sizes in turn.
inline std::vector<gen::Shape> families() {
  std::vector<gen::Shape> R;
  static const std::array<int, 3> Sizes[] = {
      {3, 3, 3}, {2, 3, 2}, {3, 2, 2}, {2, 2, 3}};
  for (int K = 0; K < 8; ++K) {
    for (int W = 0; W < 3; ++W) {
      for (int Z = 0; Z < 2; ++Z) {
        R.push_back(family({1 + K % 2, 1 + K / 2 % 2, 1 + K / 4},
                           Sizes[Z ? 1 + (K + W) % 3 : 0], W));
      }
    }
  }
  return R;
}

/// All forms and patterns in the given sizes, without repetitions, and the
/// families if they are not larger.
inline std::vector<gen::Shape> shapes(const std::vector<int> &Sizes) {
  std::vector<gen::Shape> R;
  std::set<std::string> Seen;
  for (int N : Sizes) {
    for (int F = 0; F < Forms; ++F) {
      for (int P = 0; P < Patterns; ++P) {
        auto S = shape(F, P, N);
        if (Seen.insert(gen::canon(S, std::vector<int>(N + 1, 0))).second) {
          R.push_back(S);
        }
      }
    }
  }
  int Max = *std::max_element(Sizes.begin(), Sizes.end());
  for (auto &S : families()) {
    if (S.N <= Max) {
      R.push_back(S);
    }
  }
  return R;
}

/// Names that are neither in the order of the nodes nor of their characters.
inline std::vector<std::string> names(int N) {
  static const std::vector<std::string> L = {
      "root", "M", "c2", "A", "k",  "B", "jj", "C", "d",  "D1", "e",
      "i_1",   "f", "g9", "H", "Xx", "l", "P",  "q", "Z0", "o",  "R"};
  return {L.begin(), L.begin() + N + 1};
}

/// Features A and B are binary, C is numeric if Numeric is set.
inline int kind(const std::string &Name, int I, bool Numeric) {
  if (Name == "C") {
    return Numeric ? 2 : 1;
  }
  static const int K[] = {0, 1, 1, 0, 3};
  int R = K[I % 5];
  return R == 3 && (!Numeric || Name == "A" || Name == "B") ? 1 : R;
}

/// The edits that make that tree.
inline tx::History history(const gen::Shape &S, bool Numeric) {
  auto Name = names(S.N);
  tx::History H;
  for (int P = 0; P <= S.N; ++P) {
    for (int G : {1, 2, 0}) {
      auto K = S.kids(P, G);
      for (int C : K) {
        H.push_back({tx::AddF, Name[C], Name[P], kind(Name[C], C, Numeric)});
      }
      if (G && !K.empty()) {
        H.push_back(
            {tx::AddR, Name[P], "", S.Kind[2 * P + G - 1] == 1 ? 0 : 2});
      }
    }
  }
  return H;
}

/// The models of all these trees, with locations and constraints, and the
/// edits Ops(model) in each.
template <typename OpsFn>
tx::Explored explored(const std::vector<int> &Sizes, OpsFn Ops) {
  tx::Explored E;
  auto Add = [&](const ref::Model &M, int From, const tx::Op &By) {
    E.States.push_back(M);
    E.From.push_back(From);
    E.By.push_back(By);
    E.Depth.push_back(From < 0 ? 0 : E.Depth[From] + 1);
    return int(E.States.size()) - 1;
  };
  for (auto &S : shapes(Sizes)) {
    ref::Model M = ref::Model::initial();
    int At = Add(M, -1, {});
    auto H = history(S, true);
    for (size_t I = 0; I < tx::conSpecs().size(); ++I) {
      H.push_back({tx::AddCon, "", "", int(I)});
    }
    for (int L = 0; L < 4; ++L) {
      H.push_back({tx::AddL, "M", "", L * 2});
      H.push_back({tx::AddL, names(S.N).back(), "", 6 - L * 2});
    }
    for (auto &O : H) {
      if (apply(M, O) == tx::Okay) {
        At = Add(M, At, O);
      }
    }
    for (auto &O : Ops(M)) {
      ref::Model X = M;
      if (apply(X, O) != tx::Skip) {
        E.Edges.push_back({uint32_t(At), O});
      }
    }
  }
  return E;
}

/// Every edit of the tree over these names, and of what hangs on it.
inline std::vector<tx::Op> edits(const ref::Model &M) {
  using namespace tx;
  std::vector<Op> R;
  auto All = M.names();
  std::sort(All.begin(), All.end());
  for (auto &X : All) {
    R.push_back({AddF, "new", X, 0});
    R.push_back({AddF, X, "", 1});
    R.push_back({RmF, X, "", 0});
    R.push_back({RmF, X, "", 3});
    R.push_back({AddR, X, "", 0});
    R.push_back({RmR, X, "", 0});
    R.push_back({AddL, X, "", 4});
    R.push_back({RmL, X, "", 2});
    for (auto &Y : All) {
      R.push_back({AddC, X, Y, 0});
      R.push_back({AddC, X, Y, 4});
      R.push_back({AddC, X, Y, 8});
    }
  }
  R.push_back({SetRoot, "top", "", 0});
  R.push_back({SetRoot, "A", "", 0});
  R.push_back({SetCommit, "c", "", 0});
  R.push_back({AddCon, "", "", 2});
  R.push_back({AddCon, "", "", 7});
  return R;
}

/// A start model with all features below the root, and one long sequence.
struct Long {
  tx::History Start;
  tx::History H;
};

inline std::vector<Long> transactions(const std::vector<int> &Sizes) {
  using namespace tx;
  std::vector<Long> R;
  const std::vector<Op> Bad = {
      {AddF, "A", "", 1}, {AddC, "M", "Zz", 0}, {AddCon, "", "", 7}};
  for (auto &S : shapes(Sizes)) {
    auto Name = names(S.N);
    Long L;
    for (int I = 1; I <= S.N; ++I) {
      L.Start.push_back({AddF, Name[I], "", kind(Name[I], I, true)});
    }
    for (int P = 1; P <= S.N; ++P) {
      for (int G : {1, 2, 0}) {
        auto K = S.kids(P, G);
        for (int C : K) {
          L.H.push_back({AddC, Name[P], Name[C], 0});
        }
        if (G && !K.empty()) {
          L.H.push_back({AddR, Name[P], "", S.Kind[2 * P + G - 1] == 1 ? 0 : 2});
        }
      }
      L.H.push_back({AddL, Name[P], "", P % 4 * 2});
    }
    L.H.push_back({AddF, "late", "", 0});
    L.H.push_back({AddCon, "", "", 0});
    L.H.push_back({AddCon, "", "", 1});
    L.H.push_back({AddC, "late", Name[S.N], 0});
    L.H.push_back({RmF, Name[1], "", 2});
    L.H.push_back({SetCommit, "c", "", 0});
    R.push_back(L);
    for (size_t At = 0; At <= L.H.size(); ++At) {
      for (auto &B : Bad) {
        auto X = L;
        X.H.insert(X.H.begin() + At, B);
        R.push_back(X);
      }
    }
  }
  return R;
}

inline std::string bound(const std::vector<int> &Sizes) {
  std::string R;
  for (int N : Sizes) {
    R += (R.empty() ? "" : ", ") + std::to_string(N);
  }
  return "chains, stars, binary trees, combs and brooms of " + R +
         " features with six patterns of groups, and families of three groups";
}

} // namespace large

#endif
