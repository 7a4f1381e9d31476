// C04: clones are equal to their original and share nothing with it.
#include "large.h"
#include "seq.h"

using namespace tx;

namespace {

std::vector<Op> buildOps(const ref::Model &M) {
  std::vector<Op> R;
  auto All = M.names();
  std::sort(All.begin(), All.end());
  const std::vector<std::pair<std::string, std::vector<int>>> F = {
      {"A", {0, 1}}, {"B", {2, 3}}, {"C", {5, 6}}};
  for (auto &[N, Ks] : F) {
    for (int K : Ks) {
      for (auto &P : All) {
        R.push_back({AddF, N, P, K});
      }
    }
  }
  for (auto &X : All) {
    R.push_back({AddR, X, "", 0});
    R.push_back({AddR, X, "", 2});
    R.push_back({RmF, X, "", 2});
    for (auto &Y : All) {
      R.push_back({AddC, X, Y, 0});
      R.push_back({AddC, X, Y, 6});
    }
  }
  R.push_back({SetRoot, "top", "", 0});
  return R;
}

std::vector<Op> attrOps(const ref::Model &M) {
  std::vector<Op> R;
  R.push_back({AddF, "A", "", 1});
  R.push_back({AddF, "B", M.find("A") >= 0 ? "A" : "", 0});
  R.push_back({AddF, "C", M.find("B") >= 0 ? "B" : "", 2});
  R.push_back({AddF, "root", "", 1});
  R.push_back({AddF, "D", "", 6});
  R.push_back({SetRoot, "top", "", 0});
  R.push_back({SetName, "other model", "", 0});
  R.push_back({SetCommit, "deadbeef", "", 0});
  R.push_back({SetPath, "p/q", "", 0});
  for (const char *N : {"root", "top", "A", "C", "D"}) {
    if (M.find(N) >= 0 && M.N[M.find(N)].Locs.size() < 2) {
      for (int L = 0; L < 4; ++L) {
        R.push_back({AddL, N, "", L * 2});
      }
    }
  }
  if (M.Cons.size() < 2) {
    for (size_t I = 0; I < conSpecs().size(); ++I) {
      R.push_back({AddCon, "", "", int(I)});
    }
  }
  R.push_back({AddR, "A", "", 2});
  R.push_back({RmF, "A", "", 2});
  return R;
}

mc::Suite suite(const std::string &Name, const std::string &Bound,
                std::shared_ptr<Explored> E) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = Bound + "; " + std::to_string(E->States.size()) +
            " models, every follow-up edit on either side";
  S.N = E->Edges.size();
  S.Describe = [E](uint64_t I) {
    auto &Ed = E->Edges[I];
    return str(E->history(Ed.State)) + " clone, then " + Ed.O.str();
  };
  S.Run = [E](uint64_t I, mc::Ctx &C) {
    auto &Ed = E->Edges[I];
    auto FM = std::make_unique<vf::FeatureModel>();
    for (auto &O : E->history(Ed.State)) {
      C.checkf(bool(exec(*FM, O)),
               [&] { return "edit was rejected: " + O.str(); });
    }
    const ref::Model &M = E->States[Ed.State];
    std::string Before = obs::exactTree(FM->getRoot());
    auto Cl = FM->clone();
    C.trans();
    C.check(Cl != nullptr, "clone failed");
    compare(C, *Cl, M, "clone");
    C.eq(obs::exactTree(FM->getRoot()), Before, "original after cloning");
    for (auto *F : std::as_const(*Cl).unorderedFeatures()) {
      C.check(FM->getFeature(F->getName()) != F, "clone shares a feature");
    }
    ref::Model N = M;
    Res Want = apply(N, Ed.O);
    // Edit the clone.
    auto R = exec(*Cl, Ed.O);
    C.trans();
    C.check(bool(R) == (Want == Okay), "edit of the clone: wrong verdict");
    compare(C, *Cl, N, "edited clone");
    C.eq(obs::exactTree(FM->getRoot()), Before, "original after edit of clone");
    compare(C, *FM, M, "original after edit of clone");
    // Edit the original; a second clone stays behind.
    auto Cl2 = FM->clone();
    C.trans();
    compare(C, *Cl2, M, "second clone");
    std::string Cl2Before = obs::exactTree(Cl2->getRoot());
    auto R2 = exec(*FM, Ed.O);
    C.trans();
    C.check(bool(R2) == (Want == Okay), "edit of the original: wrong verdict");
    compare(C, *FM, N, "edited original");
    C.eq(obs::exactTree(Cl2->getRoot()), Cl2Before,
         "clone after edit of original");
    // Clone of a clone, and life without the original.
    FM.reset();
    compare(C, *Cl2, M, "clone after destruction of the original");
    auto Cl3 = Cl2->clone();
    Cl2.reset();
    compare(C, *Cl3, M, "clone of the clone");
  };
  S.Chunk = 256;
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  ref::Model I = ref::Model::initial();
  auto E1 = std::make_shared<Explored>(
      explore(I, buildOps, T ? 7 : 5, T ? 20000 : 2500));
  auto E2 = std::make_shared<Explored>(
      explore(I, attrOps, T ? 6 : 4, T ? 60000 : 6000));
  const std::vector<int> Sizes =
      T ? std::vector<int>{5, 6, 7, 8, 10, 13, 17} : std::vector<int>{6, 11};
  auto E3 = std::make_shared<Explored>(
      large::explored(Sizes, [](const ref::Model &M) {
        std::vector<Op> R;
        for (auto &O : large::edits(M)) {
          if (O.C != AddC || (O.V == 0 && O.A < O.B)) {
            R.push_back(O);
          }
        }
        return R;
      }));
  return mc::runChecks(
      Argc, Argv, "C04",
      {suite("trees", "three features, groups, moved members, other roots", E1),
       suite("contents",
             "locations, constraints, metadata, output strings, step functions",
             E2),
       suite("large", large::bound(Sizes), E3)},
      {"reference model in src/ref.h"});
}
