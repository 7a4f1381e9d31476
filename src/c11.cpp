// C11: the solver enumerates exactly the valid configurations of feature trees.
// NEEDS: solver
#include "large.h"
#include "solrun.h"

namespace {

using sol::Strs;

std::vector<Strs> nameSets() {
  return {{"root", "a", "b", "c", "d", "e"},
          {"root", "e", "d", "c", "b", "a"},
          {"base", "B", "A", "b", "a", "x y"},
          {"root", "a|b", "not", "true", "x'", "(and)"}};
}

std::string bound(int N, int Groups, bool Unordered) {
  return std::string(Unordered ? "all unordered" : "all ordered") +
         " trees of " + std::to_string(N) +
         " features below the root with at most " + std::to_string(Groups) +
         " groups per feature, all optional flags";
}

mc::Suite trees(int N, int Groups, unsigned NameSet, bool Unordered) {
  auto L = sol::cases(N, Groups, Unordered);
  mc::Suite S;
  S.Name = "trees" + std::to_string(N) +
           (NameSet ? "-names" + std::to_string(NameSet) : "");
  S.N = L->size();
  S.Bound = bound(N, Groups, Unordered);
  S.Chunk = 32;
  auto Get = [=](uint64_t I) {
    return sol::tree((*L)[I].first, nameSets()[NameSet], (*L)[I].second);
  };
  S.Describe = [=](uint64_t I) { return Get(I).str(); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { sol::compare(C, Get(I)); };
  return S;
}

/// One boolean constraint, so that trees may become unsatisfiable.
mc::Suite constrained(int N, int Groups, bool Unordered) {
  auto L = sol::cases(N, Groups, Unordered);
  auto T = std::make_shared<Strs>();
  Strs Names = nameSets()[0];
  for (int A = 0; A <= N; ++A) {
    T->push_back("!" + Names[A]);
    for (int B = 0; B <= N; ++B) {
      if (A < B) {
        T->push_back("excl " + Names[A] + " " + Names[B]);
      }
      if (A > 0 && A != B) {
        T->push_back(Names[A] + " => " + Names[B]);
      }
    }
  }
  mc::Suite S;
  S.Name = "constrained" + std::to_string(N);
  S.N = L->size() * T->size();
  S.Bound = bound(N, Groups, Unordered) + ", with each of " +
            std::to_string(T->size()) + " constraints";
  S.Chunk = 32;
  auto Get = [=](uint64_t I) {
    auto &X = (*L)[I / T->size()];
    auto M = sol::tree(X.first, Names, X.second);
    M.Cons.push_back({(*T)[I % T->size()], 0});
    return M;
  };
  S.Describe = [=](uint64_t I) { return Get(I).str(); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { sol::compare(C, Get(I)); };
  return S;
}

/// Every feature is optional, mandatory or numeric.
mc::Suite kinds(int N, int Groups, bool Unordered) {
  struct Case {
    gen::Shape Sh;
    std::vector<int> Kind; // 0 mandatory, 1 optional, 2 numeric
  };
  auto L = std::make_shared<std::vector<Case>>();
  std::set<std::string> Seen;
  for (auto &Sh : gen::shapes(N, Groups)) {
    for (uint64_t F = 0; F < mc::ipow(3, N); ++F) {
      mc::Digits D(F);
      std::vector<int> K(N + 1);
      bool Any = false;
      bool Ok = true;
      for (int I = 1; I <= N; ++I) {
        K[I] = int(D.take(3));
        Any |= K[I] == 2;
        // the optional flag of members has no meaning
        Ok &= !Sh.Slot[I] || K[I] == 0;
      }
      if (Any && Ok && (!Unordered || Seen.insert(gen::canon(Sh, K)).second)) {
        L->push_back({Sh, K});
      }
    }
  }
  mc::Suite S;
  S.Name = "kinds" + std::to_string(N);
  S.N = L->size();
  S.Bound = std::string(Unordered ? "all unordered" : "all ordered") +
            " trees of " + std::to_string(N) +
            " features below the root with at most " + std::to_string(Groups) +
            " groups per feature, every feature optional, mandatory or numeric";
  S.Chunk = 32;
  auto Get = [=](uint64_t I) {
    auto &X = (*L)[I];
    uint64_t Opt = 0;
    for (int J = 1; J <= N; ++J) {
      Opt |= uint64_t(X.Kind[J] == 1) << (J - 1);
    }
    auto M = sol::tree(X.Sh, nameSets()[0], Opt);
    for (int J = 1; J <= N; ++J) {
      if (X.Kind[J] == 2) {
        M.Vals[J] = {-J, J};
      }
    }
    return M;
  };
  S.Describe = [=](uint64_t I) { return Get(I).str(); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { sol::compare(C, Get(I)); };
  return S;
}

/// A chain or star of K features around every group size up to K.
mc::Suite groups() {
  const int Max = mc::thorough() ? 6 : 4;
  mc::Suite S;
  S.Name = "group-sizes";
  S.N = Max * Max * 2 * 2 * 4;
  S.Bound = "groups with up to " + std::to_string(Max) +
            " members, beside another group or single features, below the root "
            "or an optional feature";
  S.Chunk = 16;
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    int A = 1 + int(D.take(Max));
    int B = int(D.take(Max));
    int KA = 1 + int(D.take(2));
    int KB = 1 + int(D.take(2));
    bool Deep = D.take(2);
    bool Opt = D.take(2);
    gen::Shape Sh;
    Sh.N = Deep + A + B;
    Sh.Parent.assign(Sh.N + 1, Deep ? 1 : 0);
    Sh.Slot.assign(Sh.N + 1, 0);
    Sh.Kind.assign(2 * (Sh.N + 1), 0);
    sol::Model M;
    M.Name = {"root"};
    M.Opt = {false};
    if (Deep) {
      Sh.Parent[1] = 0;
      M.Name.push_back("p");
      M.Opt.push_back(true);
    }
    int P = Deep ? 1 : 0;
    for (int J = 0; J < A + B; ++J) {
      Sh.Slot[Deep + 1 + J] = J < A ? 1 : 2;
      M.Name.push_back("f" + std::to_string(J));
      M.Opt.push_back(Opt);
    }
    Sh.Kind[2 * P] = KA;
    Sh.Kind[2 * P + 1] = B ? KB : 0;
    M.Sh = Sh;
    return M;
  };
  S.Describe = [=](uint64_t I) { return Get(I).str(); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { sol::compare(C, Get(I)); };
  return S;
}

/// Larger regular trees of optional, mandatory and alternating features.
mc::Suite largeOnes(const std::vector<int> &Sizes) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(large::shapes(Sizes));
  mc::Suite S;
  S.Name = "large";
  S.N = Sh->size() * 3;
  S.Bound = large::bound(Sizes) +
            ", all features optional, all mandatory, or every other one";
  S.Chunk = 4;
  S.Timeout = 120;
  auto Get = [=](uint64_t I) {
    auto &X = (*Sh)[I / 3];
    uint64_t Opt = I % 3 == 0 ? ~0ULL : I % 3 == 1 ? 0 : 0x5555555555555555ULL;
    return sol::tree(X, large::names(X.N), Opt & ((2ULL << X.N) - 1));
  };
  S.Describe = [=](uint64_t I) { return Get(I).str(); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { sol::compare(C, Get(I)); };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S = {
      trees(1, 1, 0, false),     trees(2, 2, 0, false), trees(3, 2, 0, false),
      trees(3, 1, 1, !T),        trees(3, 1, 2, !T),    trees(3, 1, 3, !T),
      trees(4, T ? 2 : 1, 0, !T)};
  if (T) {
    S.push_back(trees(5, 1, 0, true));
  }
  S.push_back(constrained(2, 2, false));
  S.push_back(constrained(3, 1, !T));
  S.push_back(kinds(2, 2, false));
  S.push_back(kinds(3, 2, false));
  S.push_back(kinds(4, T ? 2 : 1, !T));
  if (T) {
    S.push_back(kinds(5, 1, true));
  }
  S.push_back(groups());
  S.push_back(largeOnes(T ? std::vector<int>{5, 6, 7, 8, 9}
                          : std::vector<int>{6, 8}));
  return mc::runChecks(
      Argc, Argv, "C11", S,
      {"groups consist of binary features; the optional flag of a member of a "
       "group has no meaning"});
}
