// C03: copy transactions work on a private copy; the source never changes.
#include "large.h"
#include "seq.h"

using namespace seq;

namespace {

const std::vector<const char *> Modes{"commit", "abort", "interleaved"};

void run(unsigned Mode, const History &Start, const History &H, mc::Ctx &C) {
  vf::FeatureModel FM;
  ref::Model Base = build(FM, Start, C);
  std::string Before = obs::exactTree(FM.getRoot());
  auto Untouched = [&](const std::string &When) {
    C.eq(obs::exactTree(FM.getRoot()), Before, When + ": source changed");
    C.eq(obs::model(FM), Base.str(), When + ": source changed");
    auto E = obs::integrity(FM);
    C.checkf(E.empty(), [&] { return When + ": source broken: " + E; });
  };
  // Applicability first.
  ref::Model M = Base;
  for (auto &O : H) {
    if (!objectsValid(O, Base, M, true)) {
      if (O.C == AddF && !O.B.empty() && Base.find(O.B) >= 0 &&
          M.find(O.B) < 0) {
        continue; // parent no longer in the copy: has to be an error
      }
      return;
    }
    if (apply(M, O) == Skip) {
      if ((O.C == RmF || O.C == AddL || O.C == AddR || O.C == RmR) &&
          M.find(O.A) < 0) {
        continue; // no longer in the copy: no effect
      }
      return;
    }
  }
  M = Base;
  std::unique_ptr<vf::FeatureModel> Result;
  {
    auto T = vf::FeatureModelCopyTransaction::openTransaction(FM);
    Untouched("open");
    for (auto &O : H) {
      ref::Model N = M;
      Res Want = apply(N, O);
      if (O.C == AddF && !O.B.empty() && M.find(O.B) < 0) {
        Want = AnyError;
      }
      bool Reported = O.C == AddF || O.C == AddR || O.C == SetRoot ||
                      O.C == AddCon;
      std::optional<vf::FTErrorCode> Err;
      request(T, FM, O, &Err);
      C.trans();
      if (Reported) {
        if (Want == Okay) {
          C.checkf(!Err, [&] { return "edit was rejected: " + O.str(); });
        } else {
          C.checkf(Err.has_value(), [&] {
            return "invalid edit was not reported: " + O.str();
          });
          if (Want != Skip) {
            C.checkf(matches(Want, *Err), [&] {
              return "wrong error for " + O.str() + ": " +
                     std::to_string(int(*Err));
            });
          }
        }
      }
      if (Want == Okay) {
        M = N;
      }
      Untouched(O.str());
    }
    if (Mode == 1) {
      T.abort();
      Untouched("abort");
      auto R = T.commit();
      C.check(!R, "aborted copy transaction could be committed");
      C.check(R.getError() == vf::ABORTED, "wrong error after abort");
      return;
    }
    if (Mode == 2) {
      // The source is edited while the copy transaction is open.
      C.check(bool(exec(FM, {SetName, "other", "", 0})), "rename rejected");
      C.check(bool(exec(FM, {AddF, "Late", "", 0})), "edit rejected");
      C.check(apply(Base, {SetName, "other", "", 0}) == Okay, "");
      C.check(apply(Base, {AddF, "Late", "", 0}) == Okay, "");
      Before = obs::exactTree(FM.getRoot());
    }
    auto R = T.commit();
    C.check(bool(R), "copy transaction was rejected");
    Result = R.extractValue();
    C.check(Result != nullptr, "commit did not deliver a model");
    auto Again = T.commit();
    C.check(!Again, "copy transaction could be committed twice");
  }
  Untouched("commit");
  compare(C, *Result, M, "committed copy");
  C.check(Result.get() != &FM, "commit delivered the source itself");
  // The copy is editable on its own and outlives edits of the source.
  C.check(bool(exec(*Result, {AddF, "Extra", "", 1})), "copy is not editable");
  Untouched("edit of the committed copy");
  C.check(apply(M, {AddF, "Extra", "", 1}) == Okay, "");
  compare(C, *Result, M, "edited copy");
}

mc::Suite suite(const std::string &Name, Space Sp) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = "all sequences of " + std::to_string(Sp.Len) + " edits out of " +
            std::to_string(Sp.Alpha->size()) + ", " +
            std::to_string(starts().size()) +
            " source models, commit/abort/source edited meanwhile";
  S.N = Sp.size();
  S.Describe = [Sp](uint64_t I) { return Sp.describe(I, Modes); };
  S.Run = [Sp](uint64_t I, mc::Ctx &C) {
    unsigned Mode;
    unsigned St;
    History H;
    Sp.decode(I, Mode, St, H);
    run(Mode, starts()[St], H, C);
  };
  S.Chunk = 1024;
  return S;
}

/// One transaction that makes a tree out of features that are all below the
/// root, with an invalid edit at one place or nowhere.
mc::Suite longOnes(const std::vector<int> &Sizes) {
  auto L = std::make_shared<std::vector<large::Long>>(large::transactions(Sizes));
  mc::Suite S;
  S.Name = "long";
  S.Bound = large::bound(Sizes) +
            ", made by one transaction, with each of three invalid edits at "
            "every place, or none; commit/abort/source edited meanwhile";
  S.N = L->size() * 3;
  S.Describe = [=](uint64_t I) {
    auto &X = (*L)[I / 3];
    return std::string(Modes[I % 3]) + " from " + str(X.Start) +
           " transaction " + str(X.H);
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto &X = (*L)[I / 3];
    run(unsigned(I % 3), X.Start, X.H, C);
  };
  S.Chunk = 200;
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  std::vector<mc::Suite> S{suite("len1", {&alphabet(), 1, 3}),
                           suite("len2", {&alphabet(), 2, 3}),
                           suite("len3", {&alphabet(), 3, 3}),
                           suite("core4", {&core(), 4, 3}),
                           longOnes(mc::thorough() ? std::vector<int>{5, 8, 11, 14}
                                                   : std::vector<int>{5, 9})};
  if (mc::thorough()) {
    S.push_back(suite("len4", {&alphabet(), 4, 3}));
    S.push_back(suite("core5", {&core(), 5, 3}));
  }
  return mc::runChecks(Argc, Argv, "C03", S,
                       {"reference semantics in src/tx.h",
                        "object arguments are objects of the source model"});
}
