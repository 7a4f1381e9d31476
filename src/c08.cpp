// C08: constraint text is parsed according to the documented grammar.
#include "cx.h"

#include "vara/Feature/ConstraintParser.h"

namespace {

using vara::feature::ConstraintParser;

void check(mc::Ctx &C, const std::string &Text) {
  auto Want = cx::parseText(Text);
  auto Got = ConstraintParser(Text).buildConstraint();
  C.trans();
  std::string G = Got ? obs::ast(Got.get()) : "rejected";
  if (G != (Want ? *Want : "rejected")) {
    C.fail("text " + cx::show(Text) + "\n  observed: " + G +
           "\n  expected: " + (Want ? *Want : "rejected"));
  }
  if (Got) {
    auto L = obs::checkConstraintLinks(Got.get(), nullptr);
    C.check(L.empty(), L);
  }
  C.state(G);
}

using Gen = std::function<std::string(uint64_t)>;

mc::Suite suite(const std::string &Name, const std::string &Bound, uint64_t N,
                Gen G, uint64_t Chunk = 8192) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = Bound;
  S.N = N;
  S.Chunk = Chunk;
  S.Run = [G](uint64_t I, mc::Ctx &C) { check(C, G(I)); };
  S.Describe = [G](uint64_t I) { return cx::show(G(I)); };
  return S;
}

/// All strings of at most Len parts, shortest first.
uint64_t upTo(uint64_t K, unsigned Len) {
  uint64_t N = 0;
  for (unsigned L = 0; L <= Len; ++L) {
    N += mc::ipow(K, L);
  }
  return N;
}
std::vector<unsigned> word(uint64_t I, uint64_t K) {
  unsigned L = 0;
  while (I >= mc::ipow(K, L)) {
    I -= mc::ipow(K, L);
    ++L;
  }
  std::vector<unsigned> R(L);
  for (unsigned J = L; J-- > 0;) {
    R[J] = unsigned(I % K);
    I /= K;
  }
  return R;
}

mc::Suite words(const std::string &Name, const std::string &Bound,
                std::vector<std::string> A, unsigned Len,
                std::vector<std::string> Sep = {""},
                std::pair<std::string, std::string> Wrap = {}) {
  auto K = A.size();
  auto NS = Sep.size();
  return suite(Name, Bound + ", up to " + std::to_string(Len) + " parts",
               upTo(K, Len) * NS, [=](uint64_t I) {
                 std::string R;
                 const auto &S = Sep[I % NS];
                 bool First = true;
                 for (auto D : word(I / NS, K)) {
                   R += (First ? "" : S) + A[D];
                   First = false;
                 }
                 return Wrap.first + R + Wrap.second;
               });
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  const std::vector<std::string> Ops = {
      "*", "/",  "+", "-", "<",  "<=", ">",  ">=",  "=",  "!=",
      "&", "|", "or", "^", "=>", "->", "<=>", "<->"};
  std::vector<std::string> All = {"A", "B", "1", "(", ")", "!", "~"};
  All.insert(All.end(), Ops.begin(), Ops.end());
  std::vector<mc::Suite> S;
  S.push_back(words("tokens", "all tokens, joined with and without blanks",
                    All, T ? 5 : 4, {" ", ""}));
  S.push_back(words("core",
                    "one token per precedence class, separated by blanks",
                    {"A", "1", "(", ")", "!", "*", "-", "<", "=", "&", "|",
                     "=>", "<=>"},
                    6, {" "}));
  S.push_back(words("parentheses", "nesting", {"A", "(", ")", "!", "&", "|"},
                    T ? 9 : 8, {""}));
  // a op b op c op d (op e) with parentheses around every sub range
  const std::vector<std::pair<int, int>> Par = {
      {-1, -1}, {0, 1}, {1, 2}, {2, 3}, {0, 2}, {1, 3}, {0, 3}};
  S.push_back(suite(
      "operators",
      "three operators between four operands, unary prefix on one operand, "
      "parentheses around every range",
      mc::ipow(Ops.size(), 3) * Par.size() * 9, [=](uint64_t I) {
        mc::Digits D(I);
        auto P = Par[D.take(Par.size())];
        auto U = D.take(9);
        std::string R;
        for (int K = 0; K < 4; ++K) {
          if (K) {
            R += " " + Ops[D.take(Ops.size())] + " ";
          }
          if (U && int(U - 1) / 2 == K) {
            R += (U & 1) ? "!" : "~";
          }
          if (P.first == K) {
            R += "(";
          }
          R += char('a' + K);
          if (P.second == K) {
            R += ")";
          }
        }
        return R;
      }));
  S.push_back(suite("chains", "four operators between five operands",
                    mc::ipow(Ops.size(), 4), [=](uint64_t I) {
                      mc::Digits D(I);
                      std::string R = "a";
                      for (int K = 0; K < 4; ++K) {
                        R += Ops[D.take(Ops.size())];
                        // keep words apart
                        R = R.back() == 'r' ? R.substr(0, R.size() - 2) + " or "
                                            : R;
                        R += char('b' + K);
                      }
                      return R;
                    }));
  std::vector<std::string> Chars;
  for (char C : std::string("A1e ()!<>=-+&|*~^/or#")) {
    Chars.push_back(std::string(1, C));
  }
  S.push_back(
      words("characters", "all strings of characters", Chars, 5));
  std::vector<std::string> Num;
  for (char C : std::string("019eE+-.")) {
    Num.push_back(std::string(1, C));
  }
  S.push_back(words("numbers", "number texts", Num, T ? 7 : 6));
  S.push_back(words("comparisons", "number texts after an operator", Num,
                    T ? 6 : 5, {""}, {"A>=", " & B"}));
  const std::vector<std::string> Big = {
      "9223372036854775806", "9223372036854775807", "9223372036854775808",
      "9223372036854775809", "18446744073709551616", "00009223372036854775807",
      "1e18", "9e18", "1e19", "1e308", "1e400", "1e-400", "922337203685477e4",
      "15e-1", "16e-1", "14e-1", "1E+2", "1E-2", "0e0", "4294967296",
      "2147483648", "99999999999999999999999999999999999999999999"};
  S.push_back(suite("limits", "boundary numbers with and without sign",
                    Big.size() * 6, [=](uint64_t I) {
                      const auto &B = Big[I / 6];
                      switch (I % 6) {
                      case 0:
                        return B;
                      case 1:
                        return "-" + B;
                      case 2:
                        return "~" + B;
                      case 3:
                        return "A=" + B;
                      case 4:
                        return "A = -" + B + " | B";
                      default:
                        return "A - " + B;
                      }
                    }));
  S.push_back(suite("bytes", "every pair of bytes, alone and in context",
                    65536ULL * 3, [](uint64_t I) {
                      std::string R(1, char(I / 3 & 255));
                      R += char(I / 3 >> 8);
                      return I % 3 == 0   ? R
                             : I % 3 == 1 ? "A" + R + "B"
                                          : "(A & B) " + R + " C";
                    }));
  S.push_back(words("identifiers", "identifier characters",
                    {"o", "r", "O", "a", "z", "Z", "_", "9", "e", " "},
                    T ? 6 : 5));
  // regular nesting, far deeper than the words above
  const std::vector<std::pair<std::string, std::string>> Nest = {
      {"!", ""},       {"~", ""},        {"(", ")"},       {"!(", ")"},
      {"A + (", ")"},  {"A => ", ""},    {"A * B = ", ""}, {"(A | B) & !(", ")"},
      {"", " - B"},    {"(", ") <=> C"}, {"A ^ ", ""},     {"~(1 - ", ")"}};
  const unsigned MaxDepth = T ? 600 : 200;
  S.push_back(suite(
      "depth",
      "each of " + std::to_string(Nest.size()) +
          " constructs (and each pair of them in turn) nested 1 to " +
          std::to_string(MaxDepth) +
          " times, complete, with one closing part missing and with one too "
          "many",
      uint64_t(Nest.size()) * Nest.size() * MaxDepth * 3,
      [=](uint64_t I) {
        mc::Digits D(I);
        const auto &X = Nest[D.take(Nest.size())];
        const auto &Y = Nest[D.take(Nest.size())];
        auto Cut = D.take(3);
        auto N = D.take(MaxDepth) + 1;
        std::string L, R;
        for (uint64_t K = 0; K < N; ++K) {
          const auto &P = K % 2 ? Y : X;
          L += P.first;
          R = P.second + R;
        }
        if (Cut == 1 && !R.empty()) {
          R.pop_back();
        } else if (Cut == 2) {
          R += ")";
        }
        return L + "Z" + R;
      },
      512));
  return mc::runChecks(Argc, Argv, "C08", S,
                       {"reference grammar in src/cx.h"});
}
