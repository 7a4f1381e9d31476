// C12: constraints restrict the configurations according to their semantics.
// NEEDS: solver
#include "solrun.h"

namespace {

using sol::Strs;

/// Base 0: root(a?(b?), c?);  1: root(a?, n, m);  2: root(a?, b?, n);
/// 3: root(ALT{a, b}, n(c?)).
sol::Model base(int K) {
  sol::Model M;
  auto &S = M.Sh;
  auto Init = [&](Strs Names) {
    S.N = int(Names.size()) - 1;
    S.Parent.assign(S.N + 1, 0);
    S.Slot.assign(S.N + 1, 0);
    S.Kind.assign(2 * (S.N + 1), 0);
    M.Name = Names;
    M.Opt.assign(S.N + 1, true);
    M.Opt[0] = false;
  };
  switch (K) {
  case 0:
    Init({"root", "a", "b", "c"});
    S.Parent[2] = 1;
    break;
  case 1:
    Init({"root", "a", "n", "m"});
    M.Opt[2] = M.Opt[3] = false;
    M.Vals[2] = {-2, 0, 3};
    M.Vals[3] = {1, 2};
    break;
  case 2:
    Init({"root", "a", "b", "n"});
    M.Opt[3] = false;
    M.Vals[3] = {0, 1, 4};
    break;
  case 4: // many binary features
    Init({"root", "a", "b", "c", "d", "e", "f", "g"});
    break;
  case 5: // many numeric features
    Init({"root", "n", "m", "p", "q", "r"});
    for (int I = 1; I <= 5; ++I) {
      M.Opt[I] = false;
      M.Vals[I] = {I - 1, 2 * I, 1};
      if (I == 2) {
        M.Vals[I] = {1, 4};
      }
    }
    break;
  default:
    Init({"root", "a", "b", "n", "c"});
    S.Slot[1] = S.Slot[2] = 1;
    S.Kind[0] = 1;
    M.Opt[3] = false;
    M.Vals[3] = {2, 5};
    S.Parent[4] = 3;
  }
  return M;
}

Strs binary(const Strs &Ops, const Strs &L, const Strs &R) {
  Strs X;
  for (auto &O : Ops) {
    for (auto &A : L) {
      for (auto &B : R) {
        X.push_back("(" + A + " " + O + " " + B + ")");
      }
    }
  }
  return X;
}
Strs unary(const std::string &Op, const Strs &L) {
  Strs X;
  for (auto &A : L) {
    X.push_back(Op + A);
  }
  return X;
}
Strs operator+(Strs A, const Strs &B) {
  A.insert(A.end(), B.begin(), B.end());
  return A;
}

const Strs Logic = {"&", "|", "^", "=>", "<=>", "=", "!="};
const Strs Arith = {"+", "-", "*", "/"};
const Strs Cmp = {"<", "<=", ">", ">=", "=", "!="};

/// Is the constraint defined for all values, without division by zero and
/// without dividing negative numbers?
bool defined(const sol::Expr &E, const sol::Assignment &A) {
  for (auto &S : E.Sub) {
    if (!defined(S, A)) {
      return false;
    }
  }
  return E.Op != "/" ||
         (sol::eval(E.Sub[0], A) >= 0 && sol::eval(E.Sub[1], A) > 0);
}

bool inDomain(const sol::Model &M, const sol::Con &C) {
  if (!sol::wellTyped(C, sol::types(M))) {
    return false;
  }
  auto E = C.expr();
  sol::Assignment A;
  std::function<bool(int)> Rec = [&](int I) {
    if (I > M.Sh.N) {
      return defined(E, A);
    }
    auto V = M.Vals.find(I);
    for (int64_t X : V == M.Vals.end() ? std::vector<int64_t>{0, 1}
                                       : V->second) {
      A[M.Name[I]] = {V == M.Vals.end(), X};
      if (!Rec(I + 1)) {
        return false;
      }
    }
    return true;
  };
  return Rec(0);
}

/// Every text as constraint of every category, where it is well typed.
mc::Suite suite(const std::string &Name, const std::string &Bound, int Base,
                const Strs &Texts, std::vector<int> Cats,
                std::vector<sol::Con> Others = {}) {
  auto L = std::make_shared<std::vector<std::vector<sol::Con>>>();
  auto B = base(Base);
  for (auto &T : Texts) {
    for (int Cat : Cats) {
      sol::Con C{T, Cat};
      if (!inDomain(B, C)) {
        continue;
      }
      if (Others.empty()) {
        L->push_back({C});
      }
      for (auto &O : Others) {
        L->push_back({C, O});
      }
    }
  }
  mc::Suite S;
  S.Name = Name;
  S.Bound = Bound + "; over " + B.str();
  S.N = L->size();
  S.Chunk = 32;
  auto Get = [=](uint64_t I) {
    auto M = B;
    M.Cons = (*L)[I];
    return M;
  };
  S.Describe = [=](uint64_t I) { return Get(I).str(); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { sol::compare(C, Get(I)); };
  return S;
}

/// Long chains of operators, associated to the left and to the right.
Strs chains(const Strs &Ops, const Strs &Atoms, size_t Min) {
  Strs X;
  for (auto &O : Ops) {
    for (size_t Len = Min; Len <= Atoms.size(); ++Len) {
      std::string L = Atoms[0];
      std::string R = Atoms[Len - 1];
      for (size_t I = 1; I < Len; ++I) {
        L = "(" + L + " " + O + " " + Atoms[I] + ")";
        R = "(" + Atoms[Len - 1 - I] + " " + O + " " + R + ")";
      }
      X.push_back(L);
      X.push_back(R);
    }
  }
  return X;
}

/// The first constraints of a list, and the list from each place on.
mc::Suite many() {
  const std::vector<sol::Con> L = {
      {"a => b", 0},      {"excl c d", 0}, {"(e | f)", 0}, {"(b <=> !g)", 0},
      {"a + b + c <= 2", 2}, {"!(d & e)", 0}, {"(f ^ g)", 0}, {"excl g a", 0},
      {"(c | d | e)", 3}, {"b + g != 2", 4}, {"(f => d)", 0}, {"!c", 0}};
  auto B = base(4);
  mc::Suite S;
  S.Name = "many";
  S.Bound = "every contiguous part of a list of " + std::to_string(L.size()) +
            " constraints, in both orders; over " + B.str();
  S.N = L.size() * L.size() * 2;
  S.Chunk = 8;
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    bool Back = D.take(2);
    size_t From = D.take(L.size());
    size_t To = D.take(L.size());
    auto M = B;
    for (size_t K = From; K <= To; ++K) {
      M.Cons.push_back(L[K]);
    }
    if (Back) {
      std::reverse(M.Cons.begin(), M.Cons.end());
    }
    return M;
  };
  S.Describe = [=](uint64_t I) { return Get(I).str(); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { sol::compare(C, Get(I)); };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S;
  const std::vector<int> Mixed = {2, 3, 4, 5};

  Strs B0 = {"a", "b"};
  Strs B1 = B0 + unary("!", B0) + binary(Logic, B0, B0);
  Strs Excl;
  for (auto *X : {"root", "a", "b", "c"}) {
    for (auto *Y : {"root", "a", "b", "c"}) {
      Excl.push_back(std::string("excl ") + X + " " + Y);
    }
  }
  Strs C0 = {"root", "a", "c"};
  S.push_back(suite("boolean-1", "all operators over four features", 0,
                    Excl + binary(Logic, {"root", "a", "b", "c"},
                                  {"root", "a", "b", "c"}) +
                        unary("!", {"root", "a", "b", "c"}) +
                        Strs{"root", "a", "b", "c"},
                    {0, 1, 2, 5}));
  S.push_back(suite("boolean-2", "all trees of depth 2 over two features", 0,
                    unary("!", B1) + binary(Logic, B1, T ? B1 : Strs{"b"}) +
                        binary(Logic, {"a"}, B1),
                    {0}));
  S.push_back(suite("boolean-3", "operators below operators on both sides", 0,
                    binary(Logic, binary(Logic, {"a"}, {"c"}),
                           binary(Logic, {"b"}, {"!a"})),
                    {0}));

  Strs N0 = {"n", "m", "2", "-3"};
  Strs N1 = N0 + unary("~", {"n", "m"}) + binary(Arith, N0, N0);
  S.push_back(suite("numeric-1", "comparisons of terms of depth 1", 1,
                    binary(Cmp, N1, {"n", "2"}) + binary(Cmp, {"m"}, N1), {1}));
  S.push_back(suite(
      "numeric-2", "comparisons of terms of depth 2", 1,
      binary(T ? Cmp : Strs{"<", "="},
             binary(Arith, {"n", "5"}, binary(Arith, {"m", "n"}, {"n", "3"})) +
                 binary(Arith, binary(Arith, {"m", "n"}, {"n", "3"}),
                        {"m", "2"}),
             {"m", "4"}),
      {1}));
  Strs P = binary({"<", "=", ">="}, {"n", "2"}, {"m", "0"});
  S.push_back(suite("numeric-logic", "logic over comparisons", 1,
                    binary(Logic, P, P) + unary("!", P) +
                        binary(Logic, P, {"a", "!a"}),
                    {1}));

  Strs M0 = {"a", "n", "2"};
  Strs M1 = M0 + binary({"+", "-", "*"}, {"a", "b", "n"}, {"a", "n", "2"}) +
            Strs{"~a", "~n", "(a / 2)", "(n / 2)", "(n / (a + 1))"};
  S.push_back(suite("mixed-1", "comparisons over binary and numeric features",
                    2, binary(Cmp, M1, M0), Mixed));
  S.push_back(suite("mixed-2",
                    "logic over comparisons of binary and numeric features", 2,
                    binary(Logic, {"(n > 0)", "(a * n = 4)", "a", "(a + b > 1)"},
                           {"b", "(n < 4)", "!a", "(b != n)"}),
                    Mixed));
  S.push_back(suite("mixed-3", "below groups and numeric features", 3,
                    binary({"<", "=", "=>"}, {"a", "n", "(a + c)", "(c * n)"},
                           {"b", "c", "2", "(n > 2)"}),
                    {0, 1, 2, 3, 4, 5}));

  std::vector<sol::Con> Others;
  for (auto *X : {"a => b", "excl a b", "a | b"}) {
    Others.push_back({X, 0});
  }
  for (auto *X : {"n > 0", "n != 4"}) {
    Others.push_back({X, 1});
  }
  for (auto *X : {"a * n >= 1", "b = n"}) {
    for (int C : Mixed) {
      Others.push_back({X, C});
    }
  }
  Strs All;
  for (auto &O : Others) {
    if (std::find(All.begin(), All.end(), O.Text) == All.end()) {
      All.push_back(O.Text);
    }
  }
  S.push_back(suite("pairs", "pairs of constraints of all categories", 2, All,
                    {0, 1, 2, 3, 4, 5}, Others));
  const Strs Many = {"a", "b", "c", "d", "e", "f", "g"};
  S.push_back(suite("long-boolean", "chains of one operator over binary "
                    "features, from either side",
                    4, chains(Logic, Many, 3), {0}));
  Strs Sums;
  for (auto &X : chains({"+", "*"}, {"n", "m", "p", "q", "r"}, 3)) {
    for (auto *K : {" = 6)", " >= 9)", " < m)"}) {
      Sums.push_back("(" + X + K);
    }
  }
  S.push_back(suite("long-numeric", "long sums and products over numeric "
                    "features", 5, Sums, {1}));
  Strs Counts;
  for (auto &X : chains({"+"}, Many, 3)) {
    for (auto *K : {" = 2)", " >= 3)", " < b)", " != 1)"}) {
      Counts.push_back("(" + X + K);
    }
  }
  S.push_back(suite("long-mixed", "long sums over binary features", 4, Counts,
                    {2, 3, 4, 5}));
  S.push_back(many());
  return mc::runChecks(
      Argc, Argv, "C12", S,
      {"constraints are well typed: logic over truth values, arithmetic and "
       "order over numbers; in mixed constraints a binary feature counts as 1 "
       "or 0 where a number is needed",
       "no division by zero and no division of negative numbers"});
}
