// C14: all ways of querying the configuration space agree.
// NEEDS: solver
#include "large.h"
#include "solrun.h"

namespace {

using sol::Strs;
using namespace vara::solver;
using Factory = ConfigurationFactory;

const std::vector<std::vector<sol::Con>> Cons = {
    {},
    {{"!root", 0}},
    {{"a => b", 0}},
    {{"!a", 0}, {"a", 0}},
    {{"excl a b", 0}, {"a | b", 0}},
    {{"excl root a", 0}, {"b <=> a", 0}}};

sol::Model withNumeric(sol::Model M, int Kind) {
  if (!Kind) {
    return M;
  }
  // the last node becomes a numeric feature
  int N = M.Sh.N;
  if (M.Sh.Slot[N]) {
    return M;
  }
  M.Vals[N] = Kind == 1   ? std::vector<int64_t>{-7}
              : Kind == 2 ? std::vector<int64_t>{3, -1, 3, 0}
                          : std::vector<int64_t>{2, 1};
  if (Kind == 3) {
    M.Step[N] = "x + 1"; // an empty range
  }
  return M;
}

/// Set of the configurations; fails on repetitions.
std::set<std::string>
asSet(mc::Ctx &C,
      const std::vector<std::unique_ptr<vara::feature::Configuration>> &L,
      const std::string &What) {
  std::set<std::string> R;
  for (auto &X : L) {
    C.check(X != nullptr, What + " delivers a null configuration");
    C.checkf(R.insert(sol::show(*X)).second,
             [&] { return What + " delivers twice: " + sol::show(*X); });
  }
  return R;
}

void query(mc::Ctx &C, const sol::Model &M) {
  auto FM = sol::build(M);
  C.check(FM != nullptr, "model is not built");
  auto Ref = M;
  for (auto &[I, S] : M.Step) {
    Ref.Vals[I] = {}; // only empty ranges are used here
  }
  auto Want = sol::configurations(Ref);
  auto Before = obs::model(*FM);
  bool Sat = !Want.empty();
  auto Eq = [&](const std::set<std::string> &G, const std::string &What) {
    if (G != Want) {
      C.fail(What + "\n  observed: " + sol::brief(G) +
             "\n  expected: " + sol::brief(Want));
    }
  };

  C.eq(Factory::isValid(*FM), Sat, "isValid");

  auto All = Factory::getAllConfigs(*FM);
  C.eq(bool(All), Sat, "getAllConfigs succeeds");
  if (Sat) {
    Eq(asSet(C, All.extractValue(), "getAllConfigs"), "getAllConfigs");
  } else {
    C.check(All.getError() == UNSAT, "getAllConfigs fails without UNSAT");
  }

  auto Num = Factory::getNumConfigs(*FM);
  C.eq(bool(Num), Sat, "getNumConfigs succeeds");
  if (Sat) {
    C.eq(Num.extractValue(), uint64_t(Want.size()), "getNumConfigs");
  } else {
    C.check(Num.getError() == UNSAT, "getNumConfigs fails without UNSAT");
  }

  std::vector<unsigned> Ns;
  for (unsigned N = 0; N <= Want.size() + 1; ++N) {
    if (N <= 3 || N + 2 >= Want.size()) {
      Ns.push_back(N);
    }
  }
  Ns.push_back(1000000);
  for (unsigned N : Ns) {
    std::string What = "getNConfigs(" + std::to_string(N) + ")";
    auto R = Factory::getNConfigs(*FM, N);
    if (!R) {
      C.check(!Sat, What + " fails");
      continue;
    }
    auto L = R.extractValue();
    C.eq(L.size(), std::min<size_t>(N, Want.size()), What + " size");
    for (auto &X : asSet(C, L, What)) {
      C.check(Want.count(X), What + " delivers an invalid configuration: " + X);
    }
  }
  C.trans(4 + Ns.size());

  {
    // iterating; dereferencing does not move on
    auto It = Factory::getConfigIterator(*FM);
    std::set<std::string> G;
    size_t Errors = 0;
    size_t Count = 0;
    for (auto I = It.begin(); I != It.end(); ++I) {
      auto A = *I;
      auto B = *I;
      C.eq(bool(A), bool(B), "dereferencing twice");
      if (!A) {
        ++Errors;
        C.check(A.getError() == UNSAT, "iterating fails without UNSAT");
      } else {
        auto X = sol::show(*A.extractValue());
        C.eq(sol::show(*B.extractValue()), X, "dereferencing twice");
        C.check(G.insert(X).second, "iterating delivers twice: " + X);
      }
      C.check(++Count <= Want.size() + 1, "iterating does not end");
    }
    Eq(G, "iterating");
    C.check(Errors == 0 || (!Sat && Errors == 1), "iterating delivers errors");
    C.trans(Count);
  }
  {
    // range based
    std::set<std::string> G;
    for (auto R : Factory::getConfigIterator(*FM)) {
      if (R) {
        G.insert(sol::show(*R.extractValue()));
      }
    }
    Eq(G, "range based iteration");
  }
  {
    // Leaving early does not influence later queries.
    auto It = Factory::getConfigIterator(*FM);
    auto I = It.begin();
    bool First = bool(*I);
    C.eq(First, Sat, "first configuration");
    auto Other = Factory::getAllConfigs(*FM);
    C.eq(bool(Other), Sat, "query during an iteration");
    if (Sat) {
      Eq(asSet(C, Other.extractValue(), "query during an iteration"),
         "query during an iteration");
    }
  }
  if (Sat) {
    // One begin() per iteration continues where the solver is, so that the
    // distance from the first configuration is the number of configurations.
    auto It = Factory::getConfigIterator(*FM);
    C.check(bool(*It.begin()), "no first configuration");
    C.eq(size_t(std::distance(It.begin(), It.end())), Want.size(), "distance");
  }
  C.eq(obs::model(*FM), Before, "the model after the queries");
  C.state(sol::brief(Want));
}

mc::Suite suite(int N, int Groups, bool Unordered) {
  auto L = sol::cases(N, Groups, Unordered);
  mc::Suite S;
  const uint64_t NC = N > 1 ? Cons.size() : 2;
  S.Name = "models" + std::to_string(N);
  S.Bound = std::string(Unordered ? "all unordered" : "all ordered") +
            " trees of " + std::to_string(N) + " features with at most " +
            std::to_string(Groups) +
            " groups per feature and all optional flags, the last feature "
            "binary or numeric with 1, 3 or no values, with " +
            std::to_string(NC) +
            " constraint sets; all numbers of configurations asked for that "
            "are at most 3, or close to or above the total";
  S.N = L->size() * 4 * NC;
  S.Chunk = 8;
  S.Timeout = 60;
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    auto C = Cons[D.take(NC)];
    int Num = int(D.take(4));
    auto &X = (*L)[D.take(L->size())];
    auto M = withNumeric(
        sol::tree(X.first, {"root", "a", "b", "c", "d", "e"}, X.second), Num);
    for (auto &K : C) {
      if (sol::wellTyped(K, sol::types(M))) {
        M.Cons.push_back(K);
      }
    }
    return M;
  };
  S.Describe = [=](uint64_t I) { return Get(I).str(); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { query(C, Get(I)); };
  return S;
}

/// Larger regular trees: up to hundreds of configurations.
mc::Suite largeOnes(const std::vector<int> &Sizes) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(large::shapes(Sizes));
  mc::Suite S;
  S.Name = "large";
  S.N = Sh->size() * 4;
  S.Bound = large::bound(Sizes) +
            ", all features optional or every other one, without and with a "
            "constraint";
  S.Chunk = 2;
  S.Timeout = 120;
  auto Get = [=](uint64_t I) {
    auto &X = (*Sh)[I / 4];
    uint64_t Opt = I % 2 ? ~0ULL : 0x5555555555555555ULL;
    auto M = sol::tree(X, large::names(X.N), Opt & ((2ULL << X.N) - 1));
    if (I / 2 % 2) {
      M.Cons.push_back({"M => A", 0});
    }
    return M;
  };
  S.Describe = [=](uint64_t I) { return Get(I).str(); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { query(C, Get(I)); };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S = {suite(1, 1, false), suite(2, T ? 2 : 1, !T)};
  if (T) {
    S.push_back(suite(3, 1, true));
  } else {
    auto X = suite(3, 0, true);
    S.push_back(X);
  }
  S.push_back(
      largeOnes(T ? std::vector<int>{5, 6, 7, 8} : std::vector<int>{6}));
  return mc::runChecks(
      Argc, Argv, "C14", S,
      {"iterating over an unsatisfiable model delivers at most one error",
       "how many configurations are delivered is compared, not their order"});
}
