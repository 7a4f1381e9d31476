// C01: committed edits produce exactly the specified model, in every history.
#include "large.h"

using namespace tx;

namespace {

std::vector<Op> treeOps(const ref::Model &M, const std::vector<std::string> &F,
                        const std::vector<int> &Kinds, bool Small) {
  std::vector<Op> R;
  std::vector<std::string> All = M.names();
  std::sort(All.begin(), All.end());
  std::vector<std::string> WithMissing = All;
  WithMissing.push_back("Zz");
  for (size_t I = 0; I < F.size(); ++I) {
    std::vector<int> Ks{Kinds[I]};
    if (I == 0 && !Small) {
      Ks.push_back(1);
    }
    if (I == 0) {
      Ks.push_back(4);
    }
    for (int K : Ks) {
      R.push_back({AddF, F[I], "", K});
      for (auto &P : All) {
        R.push_back({AddF, F[I], P, K});
      }
    }
  }
  for (auto &X : WithMissing) {
    for (int V = 0; V < 4; ++V) {
      R.push_back({RmF, X, "", V});
      R.push_back({AddR, X, "", V});
    }
    for (int V = 0; V < 2; ++V) {
      R.push_back({RmR, X, "", V});
    }
    for (auto &Y : WithMissing) {
      for (int V : {0, 3, 4 | 2, 8 | 1}) {
        R.push_back({AddC, X, Y, V});
      }
      if (!Small) {
        for (int V : {1, 2, 4, 8}) {
          R.push_back({AddC, X, Y, V});
        }
      }
    }
  }
  R.push_back({SetRoot, "root", "", 0});
  R.push_back({SetRoot, "top", "", 0});
  R.push_back({SetRoot, F[0], "", 0});
  return R;
}

std::vector<Op> attrOps(const ref::Model &M) {
  std::vector<Op> R;
  for (const char *N : {"A", "B"}) {
    R.push_back({AddF, N, "", N[0] == 'A' ? 1 : 0});
    R.push_back({AddF, N, M.find("A") >= 0 ? "A" : "", N[0] == 'A' ? 1 : 0});
    for (int V = 0; V < 4; ++V) {
      R.push_back({RmF, N, "", V});
    }
  }
  R.push_back({AddF, "C", "", 2});
  R.push_back({RmF, "C", "", 0});
  for (const char *N : {"A", "C", "root", "Zz"}) {
    if (M.find(N) >= 0 && M.N[M.find(N)].Locs.size() >= 2) {
      for (int L = 0; L < 4; ++L) {
        R.push_back({RmL, N, "", L * 2 + 1});
      }
      continue;
    }
    for (int L = 0; L < 3; ++L) {
      R.push_back({AddL, N, "", L * 2});
      R.push_back({RmL, N, "", L * 2});
      R.push_back({AddL, N, "", L * 2 + 1});
    }
  }
  for (const char *N : {"FeatureModel", "", "x y"}) {
    R.push_back({SetName, N, "", 0});
  }
  R.push_back({SetCommit, "deadbeef", "", 0});
  R.push_back({SetPath, "p/q", "", 0});
  if (M.Cons.size() < 2) {
    for (size_t I = 0; I < conSpecs().size(); ++I) {
      R.push_back({AddCon, "", "", int(I)});
    }
  }
  R.push_back({SetRoot, "top", "", 0});
  R.push_back({AddR, "root", "", 0});
  R.push_back({RmR, "root", "", 0});
  R.push_back({AddC, "A", "B", 0});
  return R;
}

std::vector<Op> conOps(const ref::Model &M) {
  std::vector<Op> R;
  R.push_back({AddF, "A", "", 1});
  R.push_back({AddF, "B", M.find("A") >= 0 ? "A" : "", 0});
  R.push_back({AddF, "C", M.find("B") >= 0 ? "B" : "", 2});
  for (const char *N : {"A", "B", "C"}) {
    for (int V = 0; V < 4; ++V) {
      R.push_back({RmF, N, "", V});
    }
  }
  if (M.Cons.size() < 3) {
    for (size_t I = 0; I < conSpecs().size(); ++I) {
      R.push_back({AddCon, "", "", int(I)});
    }
  }
  R.push_back({AddR, "A", "", 0});
  R.push_back({RmR, "A", "", 0});
  R.push_back({SetRoot, "top", "", 0});
  return R;
}

mc::Suite suite(const std::string &Name, const std::string &Bound,
                std::shared_ptr<Explored> E) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = Bound + "; " + std::to_string(E->States.size()) +
            " reference states, all applicable operations in each";
  S.N = E->Edges.size();
  S.Describe = [E](uint64_t I) {
    auto &Ed = E->Edges[I];
    return str(E->history(Ed.State)) + " then " + Ed.O.str();
  };
  S.Run = [E](uint64_t I, mc::Ctx &C) {
    auto &Ed = E->Edges[I];
    vf::FeatureModel FM;
    for (auto &O : E->history(Ed.State)) {
      C.trans();
      auto R = exec(FM, O);
      C.checkf(bool(R), [&] { return "edit was rejected: " + O.str(); });
    }
    const ref::Model &Before = E->States[Ed.State];
    compare(C, FM, Before, "before the last edit");
    ref::Model After = Before;
    Res Want = apply(After, Ed.O);
    C.trans();
    auto Got = exec(FM, Ed.O);
    if (Want == Okay) {
      C.checkf(bool(Got), [&] { return "edit was rejected: " + Ed.O.str(); });
    } else {
      C.checkf(!Got, [&] {
        return "invalid edit was not reported as an error: " + Ed.O.str();
      });
      C.checkf(matches(Want, Got.getError()), [&] {
        return "wrong error for " + Ed.O.str() + ": " +
               std::to_string(int(Got.getError()));
      });
    }
    compare(C, FM, After, "after the last edit");
  };
  S.Chunk = 512;
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  ref::Model I = ref::Model::initial();
  std::vector<std::string> F{"A", "b", "C"};
  std::vector<std::string> F4{"A", "b", "C", "D"};
  auto E1 = std::make_shared<Explored>(explore(
      I,
      [&](const ref::Model &M) {
        return treeOps(M, F, {0, 3, 5}, false);
      },
      T ? 8 : 5, T ? 40000 : 3500));
  auto E2 =
      std::make_shared<Explored>(explore(I, attrOps, T ? 6 : 4, T ? 60000 : 5000));
  auto E3 =
      std::make_shared<Explored>(explore(I, conOps, T ? 9 : 7, T ? 40000 : 5000));
  // Model files and loaders start from other roots.
  auto E4 = std::make_shared<Explored>(explore(
      I,
      [&](const ref::Model &M) {
        return treeOps(M, F4, {0, 0, 0, 0}, true);
      },
      T ? 7 : 5, T ? 40000 : 1500));
  const std::vector<int> Sizes =
      T ? std::vector<int>{5, 6, 7, 8, 10, 13, 17} : std::vector<int>{5, 8, 13};
  auto E5 = std::make_shared<Explored>(large::explored(Sizes, large::edits));
  return mc::runChecks(
      Argc, Argv, "C01",
      {suite("tree", "features {A,b,C}, structural edits, depth <= " +
                         std::to_string(T ? 8 : 5),
             E1),
       suite("attributes",
             "locations, names, constraints and metadata, depth <= " +
                 std::to_string(T ? 6 : 4),
             E2),
       suite("constraints", "constraints against removals, depth <= 7+", E3),
       suite("four", "four features, structural edits", E4),
       suite("large", large::bound(Sizes) + ", one edit of each", E5)},
      {"reference model in src/ref.h, operation semantics in src/tx.h",
       "one operation per transaction; transactions of several operations are "
       "covered by C02"});
}
