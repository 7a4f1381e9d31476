// C13: numeric features take exactly the values of their list or stepped range.
// NEEDS: solver
#include "solrun.h"

#include <cmath>

namespace {

using sol::Strs;
using vara::feature::StepFunction;
using vara::feature::StepFunctionParser;

//===--------------------------------------------------------------------===//
// Step functions

struct Step {
  bool ConstRight;
  char Op;
  double C;
  double at(double X) const {
    double L = ConstRight ? X : C;
    double R = ConstRight ? C : X;
    return Op == '+' ? L + R : Op == '*' ? L * R : std::pow(L, R);
  }
};

std::optional<Step> parseStep(const std::string &S) {
  size_t I = 0;
  auto Blank = [&] {
    while (I < S.size() && (S[I] == ' ' || S[I] == '\t' || S[I] == '\r' ||
                            S[I] == '\n')) {
      ++I;
    }
  };
  auto Dig = [](char C) { return C >= '0' && C <= '9'; };
  auto Alpha = [](char C) {
    return (C >= 'a' && C <= 'z') || (C >= 'A' && C <= 'Z');
  };
  // 0: nothing, 1: identifier, 2: number
  auto Operand = [&](double &V) {
    Blank();
    if (I < S.size() && Alpha(S[I])) {
      while (I < S.size() && (Alpha(S[I]) || Dig(S[I]) || S[I] == '_')) {
        ++I;
      }
      return 1;
    }
    std::string N;
    while (I < S.size() && (Dig(S[I]) || S[I] == '.')) {
      N += S[I++];
    }
    bool Digits = false;
    int Dots = 0;
    for (char C : N) {
      Digits |= Dig(C);
      Dots += C == '.';
    }
    if (!Digits || Dots > 1) {
      return 0;
    }
    V = std::strtod(N.c_str(), nullptr);
    return 2;
  };
  Step R{};
  double A = 0;
  double B = 0;
  int KA = Operand(A);
  Blank();
  if (!KA || I >= S.size() || !strchr("+*^", S[I]) || !S[I]) {
    return std::nullopt;
  }
  R.Op = S[I++];
  int KB = Operand(B);
  Blank();
  if (!KB || KA == KB || (I < S.size() && S[I])) {
    return std::nullopt;
  }
  R.ConstRight = KB == 2;
  R.C = R.ConstRight ? B : A;
  return R;
}

std::string num(double X) {
  char B[64];
  snprintf(B, sizeof B, "%.17g", X);
  return B;
}

const std::vector<double> Points = {0, 1, 2, -3, 0.25, 10};

void checkStep(mc::Ctx &C, StepFunction *S, const Step &W,
               const std::string &What) {
  std::string Sum;
  for (double X : Points) {
    double G = S->next(X);
    double E = W.at(X);
    C.checkf(G == E || (std::isnan(G) && std::isnan(E)), [&] {
      return What + " at " + num(X) + "\n  observed: " + num(G) +
             "\n  expected: " + num(E);
    });
    double Call = (*S)(X);
    C.check(Call == G || std::isnan(G), "call and next() differ");
    Sum += num(G) + ";";
    if (X == std::floor(X) && std::abs(E) < 1e9) {
      C.eq(S->next<int64_t>(int64_t(X)), int64_t(E), What + " on integers");
      C.eq(S->next<int>(int(X)), int(E), What + " on int");
    }
  }
  C.trans(Points.size());
  C.state(Sum);
}

void checkText(mc::Ctx &C, const std::string &T) {
  auto W = parseStep(T);
  auto S = StepFunctionParser(T).buildStepFunction();
  C.trans();
  C.check(bool(S) == bool(W),
          "step function " + cx::show(T) +
              (W ? " is rejected" : " is accepted as " + (S ? S->toString() : "")));
  if (!W) {
    C.state("rejected");
    return;
  }
  checkStep(C, S.get(), *W, "step function " + cx::show(T));
  auto Again = StepFunctionParser(S->toString()).buildStepFunction();
  C.check(Again != nullptr, "printed step function is rejected: " + S->toString());
  checkStep(C, Again.get(), *W, "printed step function " + S->toString());
}

uint64_t upTo(uint64_t K, unsigned Len) {
  uint64_t N = 0;
  for (unsigned L = 0; L <= Len; ++L) {
    N += mc::ipow(K, L);
  }
  return N;
}
std::string word(uint64_t I, const Strs &Parts) {
  unsigned L = 0;
  while (I >= mc::ipow(Parts.size(), L)) {
    I -= mc::ipow(Parts.size(), L);
    ++L;
  }
  std::string R;
  while (L--) {
    R = Parts[I % Parts.size()] + R;
    I /= Parts.size();
  }
  return R;
}

mc::Suite texts(const std::string &Name, const Strs &Parts, unsigned Len) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = "all sequences of at most " + std::to_string(Len) + " out of " +
            std::to_string(Parts.size()) + " parts";
  S.N = upTo(Parts.size(), Len);
  S.Chunk = 2048;
  S.Describe = [=](uint64_t I) { return cx::show(word(I, Parts)); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { checkText(C, word(I, Parts)); };
  return S;
}

/// Every byte inserted or substituted at every place of seed texts.
mc::Suite bytes() {
  static const Strs Seeds = {"x + 2", "2.5*y_1", " x ^ .5", "10 ^ x"};
  std::vector<std::pair<int, int>> P;
  for (size_t S = 0; S < Seeds.size(); ++S) {
    for (size_t J = 0; J <= Seeds[S].size(); ++J) {
      P.push_back({int(S), int(J)});
    }
  }
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    char B = char(D.take(256));
    bool Ins = D.take(2);
    auto [S, J] = P[D.take(P.size())];
    std::string T = Seeds[S];
    if (Ins || J == int(T.size())) {
      T.insert(T.begin() + J, B);
    } else {
      T[J] = B;
    }
    return T;
  };
  mc::Suite S;
  S.Name = "bytes";
  S.Bound = "every byte inserted or substituted at every place of four texts";
  S.N = 512 * P.size();
  S.Chunk = 2048;
  S.Describe = [=](uint64_t I) { return cx::show(Get(I)); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { checkText(C, Get(I)); };
  return S;
}

mc::Suite constants() {
  static const Strs Int = {"0", "1", "007", "13", "1000000", "9007199254740993",
                           "123456789012345678901234567890"};
  static const Strs Frac = {"", ".", ".0", ".5", ".125", ".1", ".333333333333",
                            ".000000000000000000000001"};
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    std::string N = Int[D.take(Int.size())] + Frac[D.take(Frac.size())];
    char Op = "+*^"[D.take(3)];
    return D.take(2) ? N + Op + "x" : std::string("x") + Op + N;
  };
  mc::Suite S;
  S.Name = "constants";
  S.Bound = "all operators with constants of many digits on either side";
  S.N = Int.size() * Frac.size() * 6;
  S.Describe = [=](uint64_t I) { return cx::show(Get(I)); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { checkText(C, Get(I)); };
  return S;
}

//===--------------------------------------------------------------------===//
// Values of features

/// root(p?(n)) or root(n) with the given values.
sol::Model model(bool Below, std::vector<int64_t> Vals) {
  sol::Model M;
  M.Sh.N = 2;
  M.Sh.Parent = {0, 0, Below ? 1 : 0};
  M.Sh.Slot.assign(3, 0);
  M.Sh.Kind.assign(6, 0);
  M.Name = {"root", "p", "n"};
  M.Opt = {false, true, false};
  M.Vals[2] = std::move(Vals);
  return M;
}

void values(mc::Ctx &C, sol::Model M, std::vector<int64_t> Want) {
  auto FM = sol::build(M);
  C.check(FM != nullptr, "model is not built");
  std::sort(Want.begin(), Want.end());
  Want.erase(std::unique(Want.begin(), Want.end()), Want.end());
  auto Ref = M;
  Ref.Vals[2] = Want;
  auto E = sol::configurations(Ref);
  auto R = sol::vs::ConfigurationFactory::getAllConfigs(*FM);
  C.trans();
  if (E.empty()) {
    C.check(!R, "a feature without values has configurations");
    C.state("none");
    return;
  }
  C.check(bool(R), "no configurations");
  std::set<std::string> Got;
  for (auto &X : R.extractValue()) {
    C.check(Got.insert(sol::show(*X)).second, "configuration delivered twice");
  }
  if (Got != E) {
    C.fail("configurations\n  observed: " + sol::brief(Got) +
           "\n  expected: " + sol::brief(E));
  }
  C.state(sol::brief(E));
}

constexpr int64_t Max = INT64_MAX;
constexpr int64_t Min = INT64_MIN;

/// Lower bound and what the step function, truncated to integers, yields from
/// there while it grows, up to the upper bound.
std::vector<int64_t> stepped(int64_t Lo, int64_t Hi, const std::string &Text) {
  std::vector<int64_t> R;
  std::optional<Step> S;
  if (!Text.empty()) {
    S = parseStep(Text);
  }
  for (int64_t X = Lo; X <= Hi;) {
    R.push_back(X);
    if (!S) {
      if (X == Max) {
        break;
      }
      ++X;
      continue;
    }
    double N = S->at(double(X));
    if (!(N < 9e18) || !(N > double(X)) || int64_t(N) <= X) {
      break;
    }
    X = int64_t(N);
  }
  return R;
}

const Strs StepTexts = {"",        "x + 1", "x + 2",  "3 + x",   "x * 2",
                        "2 * x",   "x * 3", "x * 1.5", "x ^ 2",  "2 ^ x",
                        "x + 0.5", "x + 0", "x * 0",  "x * 1",   "x + 1.5",
                        "x ^ 0.5", "x + 1000"};

mc::Suite ranges() {
  const int Lo = -3;
  const int K = mc::thorough() ? 16 : 11;
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    auto T = StepTexts[D.take(StepTexts.size())];
    int A = Lo + int(D.take(K));
    int B = Lo + int(D.take(K));
    bool Below = D.take(2);
    return std::make_tuple(T, A, B, Below);
  };
  mc::Suite S;
  S.Name = "ranges";
  S.Bound = "all ranges from " + std::to_string(Lo) + " to " +
            std::to_string(Lo + K - 1) + " with " +
            std::to_string(StepTexts.size()) +
            " step functions, below the root or an optional feature";
  S.N = StepTexts.size() * K * K * 2;
  S.Chunk = 32;
  S.Timeout = 10;
  S.Describe = [=](uint64_t I) {
    auto [T, A, B, Below] = Get(I);
    return std::to_string(A) + ".." + std::to_string(B) + " step '" + T + "'" +
           (Below ? " below an optional feature" : "");
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto [T, A, B, Below] = Get(I);
    auto M = model(Below, {A, B});
    M.Step[2] = T;
    values(C, M, stepped(A, B, T));
  };
  return S;
}

struct Wide {
  int64_t Lo, Hi;
  const char *Step;
};
const std::vector<Wide> WideRanges = {
    {0, 40, "x + 1"},
    {0, 1000, "x + 250"},
    {1, 1000000, "x * 10"},
    {2, 1000000, "x ^ 2"},
    {1, Max, "x * 1000000"},
    {Max - 2, Max, ""},
    {Min, Min + 2, ""},
    {Max, Max, "x + 1"},
    {Max, Max, "x * 2"},
    {Min, Min, "x + 1"},
    {Max, Min, "x + 1"},
    {Min, Max, "x + 5000000000000000000"},
    {3, Max, "x ^ 3"},
    {-1000000, -1, "x * 0.1"},
    {-8, 8, "x * 0.5"},
    {4294967295, 4294967298, "x + 1"}};

mc::Suite wide() {
  mc::Suite S;
  S.Name = "wide-ranges";
  S.Bound = "ranges that are long, large or at the limits of 64 bits";
  S.N = WideRanges.size() * 2;
  S.Chunk = 2;
  S.Timeout = 10;
  S.Describe = [](uint64_t I) {
    auto &W = WideRanges[I / 2];
    return std::to_string(W.Lo) + ".." + std::to_string(W.Hi) + " step '" +
           W.Step + "'";
  };
  S.Run = [](uint64_t I, mc::Ctx &C) {
    auto &W = WideRanges[I / 2];
    auto M = model(I % 2, {W.Lo, W.Hi});
    M.Step[2] = W.Step;
    values(C, M, stepped(W.Lo, W.Hi, W.Step));
  };
  return S;
}

mc::Suite lists() {
  static const std::vector<int64_t> V = {0,   1,   -2,  7,          100,
                                         Max, Min, 255, 4294967296, -1};
  const unsigned Len = mc::thorough() ? 4 : 3;
  mc::Suite S;
  S.Name = "lists";
  S.Bound = "all lists of at most " + std::to_string(Len) +
            " out of ten values (repetitions included)";
  S.N = upTo(V.size(), Len) - 1;
  S.Chunk = 32;
  auto Get = [=](uint64_t I) {
    ++I;
    unsigned L = 0;
    while (I >= mc::ipow(V.size(), L)) {
      I -= mc::ipow(V.size(), L);
      ++L;
    }
    std::vector<int64_t> R;
    while (L--) {
      R.push_back(V[I % V.size()]);
      I /= V.size();
    }
    return R;
  };
  S.Describe = [=](uint64_t I) { return model(false, Get(I)).str(); };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto L = Get(I);
    values(C, model(I % 2, L), L);
  };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  return mc::runChecks(
      Argc, Argv, "C13",
      {texts("tokens",
             {"x", "k_1", "2", "0.5", ".5", "1.2.3", ".", "+", "*", "^", " ",
              "\t", "-", "\xff"},
             T ? 6 : 5),
       texts("characters", {"x", "3", ".", "+", "^", " "}, T ? 10 : 8), bytes(),
       constants(), ranges(), wide(), lists()},
      {"the language of step functions has the operators + * ^ over one "
       "identifier and one unsigned decimal number",
       "results of a step function are truncated to integers; a range ends "
       "where its step function stops growing"});
}
