// C02: modify transactions take effect only at commit, in order, and stop at
// the first invalid edit without leaving traces of it.
#include "large.h"
#include "seq.h"

using namespace seq;

namespace {

const std::vector<const char *> Modes{"commit", "abort", "drop", "split"};

void run(unsigned Mode, const History &Start, const History &H, mc::Ctx &C) {
  vf::FeatureModel FM;
  ref::Model Base = build(FM, Start, C);
  ref::Model M = Base;
  // Expected effect: the longest valid prefix.
  Res Stop = Okay;
  for (auto &O : H) {
    if (!objectsValid(O, Base, M, false)) {
      return; // would pass a destroyed or non-existing object
    }
    Res R = apply(M, O);
    if (R == Skip) {
      return;
    }
    if (R != Okay) {
      Stop = R;
      break;
    }
  }
  for (auto &O : H) {
    if (!objectsValid(O, Base, Base, false)) {
      return;
    }
  }
  std::string Before = obs::exactTree(FM.getRoot());
  auto Untouched = [&](const char *When) {
    C.eq(obs::exactTree(FM.getRoot()), Before, When);
    C.eq(obs::model(FM), Base.str(), When);
  };
  auto Verdict = [&](vara::Result<vf::FTErrorCode> R) {
    if (Stop == Okay) {
      C.check(bool(R), "valid transaction was rejected");
    } else {
      C.check(!R, "transaction with an invalid edit was accepted");
      C.checkf(matches(Stop, R.getError()), [&] {
        return "wrong error code " + std::to_string(int(R.getError()));
      });
    }
  };
  if (Mode == 3) {
    // Two transactions are open at once; the second is committed first.
    if (H.size() < 2) {
      return;
    }
    History H1(H.begin(), H.begin() + 1);
    History H2(H.begin() + 1, H.end());
    ref::Model N = Base;
    for (auto *P : {&H2, &H1}) {
      for (auto &O : *P) {
        if (!objectsValid(O, Base, N, false)) {
          return;
        }
        Res R = apply(N, O);
        if (R == Skip) {
          return;
        }
        if (R != Okay) {
          break;
        }
      }
    }
    auto T1 = vf::FeatureModelModifyTransaction::openTransaction(FM);
    auto T2 = vf::FeatureModelModifyTransaction::openTransaction(FM);
    for (auto &O : H1) {
      request(T1, FM, O);
    }
    for (auto &O : H2) {
      request(T2, FM, O);
    }
    Untouched("before any commit");
    (void)T2.commit();
    (void)T1.commit();
    C.trans(H.size());
    compare(C, FM, N, "after both commits");
    return;
  }
  {
    auto T = vf::FeatureModelModifyTransaction::openTransaction(FM);
    for (auto &O : H) {
      request(T, FM, O);
      C.trans();
      Untouched("edit took effect before commit");
    }
    if (Mode == 0) {
      Verdict(T.commit());
      compare(C, FM, M, "after commit");
      // A finished transaction can not be committed again.
      auto Again = T.commit();
      C.check(!Again, "transaction could be committed twice");
      compare(C, FM, M, "after second commit");
    } else if (Mode == 1) {
      T.abort();
      Untouched("aborted transaction had an effect");
      auto R = T.commit();
      C.check(!R, "aborted transaction could be committed");
      Untouched("commit after abort had an effect");
    } else {
      // Pending edits are committed when the transaction goes out of scope.
      auto Moved = std::move(T);
      Untouched("moving a transaction had an effect");
    }
  }
  if (Mode == 1) {
    Untouched("destroying an aborted transaction had an effect");
  } else {
    compare(C, FM, M, "after the transaction");
  }
}

mc::Suite suite(const std::string &Name, Space Sp) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = "all sequences of " + std::to_string(Sp.Len) + " edits out of " +
            std::to_string(Sp.Alpha->size()) + ", " +
            std::to_string(starts().size()) +
            " start models, commit/abort/drop/two open transactions";
  S.N = Sp.size();
  S.Describe = [Sp](uint64_t I) { return Sp.describe(I, Modes); };
  S.Run = [Sp](uint64_t I, mc::Ctx &C) {
    unsigned Mode;
    unsigned St;
    History H;
    Sp.decode(I, Mode, St, H);
    run(Mode, starts()[St], H, C);
  };
  S.Chunk = 1024;
  return S;
}

/// One transaction that makes a tree out of features that are all below the
/// root, with an invalid edit at one place or nowhere.
mc::Suite longOnes(const std::vector<int> &Sizes) {
  auto L = std::make_shared<std::vector<large::Long>>(large::transactions(Sizes));
  mc::Suite S;
  S.Name = "long";
  S.Bound = large::bound(Sizes) +
            ", made by one transaction, with each of three invalid edits at "
            "every place, or none; commit/abort/drop/two open transactions";
  S.N = L->size() * 4;
  S.Describe = [=](uint64_t I) {
    auto &X = (*L)[I / 4];
    return std::string(Modes[I % 4]) + " from " + str(X.Start) +
           " transaction " + str(X.H);
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto &X = (*L)[I / 4];
    run(unsigned(I % 4), X.Start, X.H, C);
  };
  S.Chunk = 200;
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  std::vector<mc::Suite> S{suite("len1", {&alphabet(), 1, 4}),
                           suite("len2", {&alphabet(), 2, 4}),
                           suite("len3", {&alphabet(), 3, 4}),
                           suite("core4", {&core(), 4, 4}),
                           longOnes(mc::thorough() ? std::vector<int>{5, 8, 11, 14}
                                                   : std::vector<int>{5, 9})};
  if (mc::thorough()) {
    S.push_back(suite("len4", {&alphabet(), 4, 4}));
    S.push_back(suite("core5", {&core(), 5, 4}));
  }
  return mc::runChecks(Argc, Argv, "C02", S,
                       {"reference semantics in src/tx.h",
                        "edits whose object arguments are destroyed by an "
                        "earlier edit are not generated"});
}
