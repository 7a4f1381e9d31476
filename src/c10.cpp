// C10: the constraint builder delivers the expression its calls spell.
#include "cx.h"

#include "vara/Feature/ConstraintBuilder.h"

namespace {
using namespace vara::feature;
using cx::Tok;

struct Call {
  const char *Name;
  Tok T;       // meaning
  int Special; // 0 token, 1 operator()(), 2 build
};

const std::vector<Call> &calls() {
  static const std::vector<Call> C = {
      {"feature(A)", {Tok::Atom, "A"}, 0},
      {"lAnd", {Tok::Op, "&"}, 0},
      {"feature(B)", {Tok::Atom, "B"}, 0},
      {"lNot", {Tok::Not, ""}, 0},
      {"openPar", {Tok::Open, ""}, 0},
      {"closePar", {Tok::Close, ""}, 0},
      {"()", {Tok::Atom, ""}, 1},
      {"build", {Tok::Atom, ""}, 2},
      {"multiply", {Tok::Op, "*"}, 0},
      {"add", {Tok::Op, "+"}, 0},
      {"less", {Tok::Op, "<"}, 0},
      {"equal", {Tok::Op, "="}, 0},
      {"lOr", {Tok::Op, "|"}, 0},
      {"implies", {Tok::Op, "=>"}, 0},
      {"equivalent", {Tok::Op, "<=>"}, 0},
      {"constant(7)", {Tok::Atom, "7"}, 0},
      {"neg", {Tok::Neg, ""}, 0},
      {"divide", {Tok::Op, "/"}, 0},
      {"subtract", {Tok::Op, "-"}, 0},
      {"lessEqual", {Tok::Op, "<="}, 0},
      {"greater", {Tok::Op, ">"}, 0},
      {"greaterEqual", {Tok::Op, ">="}, 0},
      {"notEqual", {Tok::Op, "!="}, 0},
      {"lXor", {Tok::Op, "^"}, 0},
      {"excludes", {Tok::Op, "excl"}, 0},
  };
  return C;
}

void doCall(ConstraintBuilder &B, unsigned K) {
  switch (K) {
  case 0: B.feature("A"); break;
  case 1: B.lAnd(); break;
  case 2: B.feature("B"); break;
  case 3: B.lNot(); break;
  case 4: B.openPar(); break;
  case 5: B.closePar(); break;
  case 6: B(); break;
  case 8: B.multiply(); break;
  case 9: B.add(); break;
  case 10: B.less(); break;
  case 11: B.equal(); break;
  case 12: B.lOr(); break;
  case 13: B.implies(); break;
  case 14: B.equivalent(); break;
  case 15: B.constant(7); break;
  case 16: B.neg(); break;
  case 17: B.divide(); break;
  case 18: B.subtract(); break;
  case 19: B.lessEqual(); break;
  case 20: B.greater(); break;
  case 21: B.greaterEqual(); break;
  case 22: B.notEqual(); break;
  case 23: B.lXor(); break;
  case 24: B.excludes(); break;
  }
}

std::string describe(const std::vector<unsigned> &W) {
  std::string R;
  for (auto K : W) {
    R += (R.empty() ? "" : ".") + std::string(calls()[K].Name);
  }
  return R;
}

void run(mc::Ctx &C, const std::vector<unsigned> &W) {
  ConstraintBuilder B;
  std::vector<Tok> T;
  bool Bad = false;
  auto Build = [&]() {
    auto Want = Bad ? std::nullopt : cx::parse(T);
    auto Got = B.build();
    C.trans();
    std::string G = Got ? obs::ast(Got.get()) : "nothing";
    if (G != (Want ? *Want : "nothing")) {
      C.fail("calls " + describe(W) + "\n  observed: " + G +
             "\n  expected: " + (Want ? *Want : "nothing"));
    }
    if (Got) {
      auto L = obs::checkConstraintLinks(Got.get(), nullptr);
      C.check(L.empty(), L);
    }
    C.state(G);
    T.clear();
    return bool(Want);
  };
  for (auto K : W) {
    const Call &X = calls()[K];
    if (X.Special == 2) {
      if (!Build()) {
        return; // nothing is said about a builder after a failed build
      }
      continue;
    }
    if (X.Special == 1) {
      auto E = Bad ? std::nullopt : cx::parse(T);
      if (E) {
        T = {{Tok::Atom, *E}};
      } else {
        Bad = true;
      }
    } else {
      T.push_back(X.T);
    }
    doCall(B, K);
    C.trans();
  }
  Build();
}

uint64_t upTo(uint64_t K, unsigned Len) {
  uint64_t N = 0;
  for (unsigned L = 0; L <= Len; ++L) {
    N += mc::ipow(K, L);
  }
  return N;
}
std::vector<unsigned> word(uint64_t I, uint64_t K) {
  unsigned L = 0;
  while (I >= mc::ipow(K, L)) {
    I -= mc::ipow(K, L);
    ++L;
  }
  std::vector<unsigned> R(L);
  for (unsigned J = L; J-- > 0;) {
    R[J] = unsigned(I % K);
    I /= K;
  }
  return R;
}

mc::Suite suite(const std::string &Name, const std::string &Bound, uint64_t N,
                std::function<std::vector<unsigned>(uint64_t)> G) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = Bound;
  S.N = N;
  S.Chunk = 8192;
  S.Run = [G](uint64_t I, mc::Ctx &C) { run(C, G(I)); };
  S.Describe = [G](uint64_t I) { return describe(G(I)); };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S;
  unsigned LA = T ? 5 : 4;
  S.push_back(suite("all calls",
                    "every sequence of up to " + std::to_string(LA) +
                        " of all 25 calls",
                    upTo(25, LA), [](uint64_t I) { return word(I, 25); }));
  // One call per kind, deeper.
  const std::vector<unsigned> Core = {0, 12, 1, 3, 4, 5, 6, 8, 7};
  unsigned LC = T ? 8 : 7;
  S.push_back(suite("core calls",
                    "every sequence of up to " + std::to_string(LC) +
                        " of nine calls",
                    upTo(Core.size(), LC), [=](uint64_t I) {
                      auto W = word(I, Core.size());
                      for (auto &K : W) {
                        K = Core[K];
                      }
                      return W;
                    }));
  // Well formed expressions with parentheses and prefixes.
  std::vector<unsigned> Ops;
  for (unsigned K = 0; K < calls().size(); ++K) {
    if (calls()[K].T.Kind == Tok::Op) {
      Ops.push_back(K);
    }
  }
  const std::vector<std::pair<int, int>> Par = {
      {-1, -1}, {0, 1}, {1, 2}, {2, 3}, {0, 2}, {1, 3}, {0, 3}, {9, 1}, {9, 2}};
  S.push_back(suite(
      "expressions",
      "three of all 16 operators, a prefix on one operand, parentheses around "
      "every range or everything so far",
      mc::ipow(Ops.size(), 3) * Par.size() * 9, [=](uint64_t I) {
        mc::Digits D(I);
        auto P = Par[D.take(Par.size())];
        auto U = D.take(9);
        std::vector<unsigned> W;
        for (int K = 0; K < 4; ++K) {
          if (K) {
            W.push_back(Ops[D.take(Ops.size())]);
          }
          if (U && int(U - 1) / 2 == K) {
            W.push_back((U & 1) ? 3 : 16);
          }
          if (P.first == K) {
            W.push_back(4);
          }
          W.push_back(K == 1 ? 2 : K == 3 ? 15 : 0);
          if (P.second == K) {
            W.push_back(P.first == 9 ? 6 : 5);
          }
        }
        return W;
      }));
  return mc::runChecks(Argc, Argv, "C10", S,
                       {"reference grammar in src/cx.h",
                        "nothing is claimed for calls after a failed build"});
}
