// C28: results, error codes and owning iterators carry exactly what they hold.
#include "engine.h"

#include "vara/Feature/Error.h"
#include "vara/Solver/Error.h"
#include "vara/Utils/Result.h"
#include "vara/Utils/UniqueIterator.h"

#include <array>
#include <memory>

namespace {

namespace vf = vara::feature;
namespace vs = vara::solver;
using vara::Error;
using vara::Ok;
using vara::Result;

// --- values ----------------------------------------------------------------

/// The K-th of two or three values of a type, and its text.
template <class T> struct Val;
template <> struct Val<int> {
  static int make(int K) { return std::array<int, 3>{42, 0, -7}[K]; }
};
template <> struct Val<uint64_t> {
  static uint64_t make(int K) {
    return std::array<uint64_t, 3>{~0ULL, 0, 3}[K];
  }
};
template <> struct Val<bool> {
  static bool make(int K) { return K == 1; }
};
template <> struct Val<std::string> {
  static std::string make(int K) {
    return std::array<std::string, 3>{
        "a text that is too long to be stored inside", "", "x"}[K];
  }
};
template <> struct Val<vf::FTErrorCode> {
  static vf::FTErrorCode make(int K) {
    return std::array<vf::FTErrorCode, 3>{vf::ABORTED, vf::ALREADY_PRESENT,
                                          vf::RECURSIVE_EDGE}[K];
  }
};
template <> struct Val<vs::SolverErrorCode> {
  static vs::SolverErrorCode make(int K) {
    return std::array<vs::SolverErrorCode, 3>{
        vs::NOT_IMPLEMENTED, vs::NOT_SUPPORTED, vs::ILLEGAL_STATE}[K];
  }
};
template <> struct Val<std::unique_ptr<int>> {
  static std::unique_ptr<int> make(int K) { return std::make_unique<int>(K); }
};
template <> struct Val<std::shared_ptr<int>> {
  static std::shared_ptr<int> make(int K) { return std::make_shared<int>(K); }
};
template <> struct Val<int *> {
  static int *make(int K) {
    static int X[3];
    return K == 1 ? nullptr : &X[K];
  }
};
template <> struct Val<std::pair<int, std::string>> {
  static std::pair<int, std::string> make(int K) {
    return {K, std::string(30, char('a' + K))};
  }
};

template <class T> bool same(const T &A, const T &B) { return A == B; }
template <class T>
bool same(const std::unique_ptr<T> &A, const std::unique_ptr<T> &B) {
  return A && B && *A == *B;
}
template <class T>
bool same(const std::shared_ptr<T> &A, const std::shared_ptr<T> &B) {
  return A && B && *A == *B;
}
template <class T> bool is(const T &A, int K) {
  return same(A, Val<T>::make(K));
}

template <class T, class = void> struct Prints : std::false_type {};
template <class T>
struct Prints<T, std::void_t<decltype(std::declval<llvm::raw_ostream &>()
                                      << std::declval<const T &>())>>
    : std::true_type {};

/// Sentence of an error code.
std::string text(vf::FTErrorCode E) {
  switch (E) {
  case vf::ABORTED:
    return "Transaction aborted.";
  case vf::ALREADY_PRESENT:
    return "Node already present.";
  case vf::ERROR:
    return "Error.";
  case vf::INCONSISTENT:
    return "Inconsistent feature model.";
  case vf::MISSING_FEATURE:
    return "Missing feature.";
  case vf::MISSING_MODEL:
    return "Missing a feature model.";
  case vf::MISSING_PARENT:
    return "Missing parent of node.";
  case vf::MISSING_CHILD:
    return "Missing child of node.";
  case vf::NON_LEAF_NODE:
    return "Not a leaf node.";
  case vf::RECURSIVE_EDGE:
    return "Recursive edge.";
  }
  return "?";
}
std::string text(vs::SolverErrorCode E) {
  switch (E) {
  case vs::NOT_IMPLEMENTED:
    return "This method is not implemented yet.";
  case vs::NOT_SUPPORTED:
    return "This method is not supported.";
  case vs::UNSAT:
    return "The current model is unsatisfiable.";
  case vs::ALREADY_PRESENT:
    return "Variable is already present.";
  case vs::NOT_ALL_CONSTRAINTS_PROCESSED:
    return "Not all constraints have been processed yet; are there variables "
           "missing?";
  case vs::PARENT_NOT_PRESENT:
    return "Parent feature of a feature is not present.";
  case vs::ILLEGAL_STATE:
    return "The solver is in an illegal state for this operation.";
  }
  return "?";
}
template <class T> std::string text(const T &V) {
  std::string R;
  llvm::raw_string_ostream OS(R);
  OS << V;
  return OS.str();
}
template <class T> std::string printed(const T &V) {
  std::string R;
  llvm::raw_string_ostream OS(R);
  OS << V;
  return OS.str();
}

// --- two results and their reference ---------------------------------------

struct Ref {
  enum { Nothing, Value, Failed, Moved } Is = Nothing;
  int K = 0;
};

enum Form { Temporary, Named, Constant, Direct, Forms };
enum Act {
  Make,
  Copy,
  CopyConst,
  Move,
  Assign,
  AssignConst,
  AssignMoved,
  AssignSelf,
  Pass,
  Capture,
  Extract,
  Take,
  Acts
};
struct Op {
  Act A;
  int Slot;
  bool Good = true;
  int F = 0, K = 0;
  std::string str() const {
    std::string S(1, char('A' + Slot)), O(1, char('A' + 1 - Slot));
    switch (A) {
    case Make: {
      auto W = std::string(Good ? "value " : "error ") + std::to_string(K);
      const char *N[] = {"temporary ", "named ", "constant ", ""};
      return S + " made of " + N[F] + W;
    }
    case Copy:
      return S + " is a copy of " + O;
    case CopyConst:
      return S + " is a copy of constant " + O;
    case Move:
      return S + " is moved from " + O;
    case Assign:
      return S + " is assigned " + O;
    case AssignConst:
      return S + " is assigned constant " + O;
    case AssignMoved:
      return S + " is move assigned " + O;
    case AssignSelf:
      return S + " is assigned itself";
    case Pass:
      return S + " is " + O + " passed by value";
    case Capture:
      return S + " is a captured copy of " + O;
    case Extract:
      return S + " is extracted";
    case Take:
      return S + " is read as a temporary";
    default:
      return "";
    }
  }
};

const std::vector<Op> &ops() {
  static const std::vector<Op> V = [] {
    std::vector<Op> R;
    for (int S = 0; S < 2; ++S) {
      for (int F = 0; F < Forms; ++F) {
        for (int K = 0; K < 2; ++K) {
          R.push_back({Make, S, true, F, K});
          R.push_back({Make, S, false, F, K});
        }
      }
      for (int A = Copy; A < Acts; ++A) {
        R.push_back({Act(A), S});
      }
    }
    return R;
  }();
  return V;
}

template <class E, class V> struct Machine {
  using R = Result<E, V>;
  static constexpr bool Void = std::is_void_v<V>;
  using VV = std::conditional_t<Void, int, V>;
  static constexpr bool Copies =
      std::is_copy_constructible_v<VV> && std::is_copy_constructible_v<E>;

  mc::Ctx &C;
  std::unique_ptr<R> S[2];
  Ref M[2];

  explicit Machine(mc::Ctx &C) : C(C) {}

  template <class H, class T> R *build(int F, int K) {
    if constexpr (std::is_copy_constructible_v<T>) {
      if (F == Named) {
        H X(Val<T>::make(K));
        C.check(is(*X, K) && is(*X, K), "named value");
        H Y(X);
        C.check(is(*Y, K) && is(*X, K), "copy of a named value");
        return new R(Y);
      }
      if (F == Constant) {
        const H X(Val<T>::make(K));
        H Y(X);
        C.check(is(*Y, K), "copy of a constant value");
        return new R(X);
      }
    }
    if (F == Direct) {
      if constexpr (std::is_same_v<H, Error<E>>
                        ? (Void || !std::is_constructible_v<VV, E>)
                        : !std::is_constructible_v<E, VV>) {
        return new R(Val<T>::make(K));
      }
    }
    H X(Val<T>::make(K));
    C.check(bool(X) == std::is_same_v<H, Ok<VV>>, "truth of a named value");
    H Y(std::move(X));
    return new R(std::move(Y));
  }
  R *make(const Op &O) {
    if (!O.Good) {
      return build<Error<E>, E>(O.F, O.K);
    }
    if constexpr (Void) {
      if (O.F == Named) {
        Ok<void> X;
        return new R(X);
      }
      return new R(Ok<void>());
    } else {
      return build<Ok<V>, V>(O.F, O.K);
    }
  }

  bool step(const Op &O) {
    int X = O.Slot;
    int Y = 1 - X;
    auto Known = [&](int Z) {
      return M[Z].Is == Ref::Value || M[Z].Is == Ref::Failed;
    };
    switch (O.A) {
    case Make:
      S[X].reset(make(O));
      M[X] = {O.Good ? Ref::Value : Ref::Failed, O.K};
      break;
    case Copy:
    case CopyConst:
    case Pass:
    case Capture:
      if (!Known(Y)) {
        return false;
      }
      if constexpr (Copies) {
        if (O.A == Copy) {
          S[X].reset(new R(*S[Y]));
        } else if (O.A == CopyConst) {
          S[X].reset(new R(std::as_const(*S[Y])));
        } else if (O.A == Pass) {
          auto F = [](R Z) { return Z; };
          S[X].reset(new R(F(*S[Y])));
        } else {
          R &Z = *S[Y];
          auto F = [Z]() mutable { return Z; };
          auto G = F;
          S[X].reset(new R(G()));
        }
        M[X] = M[Y];
        break;
      }
      return false;
    case Move:
      if (!Known(Y)) {
        return false;
      }
      S[X].reset(new R(std::move(*S[Y])));
      M[X] = M[Y];
      M[Y].Is = Ref::Moved;
      break;
    case Assign:
    case AssignConst:
    case AssignSelf: {
      auto Z = O.A == AssignSelf ? X : Y;
      if (!Known(Z) || !S[X]) {
        return false;
      }
      if constexpr (Copies) {
        if (O.A == AssignConst) {
          *S[X] = std::as_const(*S[Z]);
        } else {
          *S[X] = *S[Z];
        }
        M[X] = M[Z];
        break;
      }
      return false;
    }
    case AssignMoved:
      if (!Known(Y) || !S[X]) {
        return false;
      }
      *S[X] = std::move(*S[Y]);
      M[X] = M[Y];
      M[Y].Is = Ref::Moved;
      break;
    case Extract:
      if (!Known(X)) {
        return false;
      }
      if (M[X].Is == Ref::Failed) {
        C.check(is(E(S[X]->extractError()), M[X].K), "extracted error");
      } else if constexpr (!Void) {
        C.check(is(V(S[X]->extractValue()), M[X].K), "extracted value");
      }
      M[X].Is = Ref::Moved;
      break;
    case Take:
      if (!Known(X)) {
        return false;
      }
      if (M[X].Is == Ref::Failed) {
        C.check(is(E(std::move(*S[X]).getError()), M[X].K),
                "error of a temporary");
      } else if constexpr (!Void) {
        C.check(is(V(*std::move(*S[X])), M[X].K), "value of a temporary");
      }
      M[X].Is = Ref::Moved;
      break;
    default:
      return false;
    }
    C.trans();
    return true;
  }

  void look(int X) {
    if (M[X].Is != Ref::Value && M[X].Is != Ref::Failed) {
      return;
    }
    auto N = std::string(1, char('A' + X));
    C.eq(bool(*S[X]), M[X].Is == Ref::Value, "truth of " + N);
    for (int T = 0; T < 2; ++T) { // reading changes nothing
      if (M[X].Is == Ref::Failed) {
        if constexpr (std::is_copy_constructible_v<E>) {
          C.check(is(E(S[X]->getError()), M[X].K), "wrong error in " + N);
        }
      } else if constexpr (!Void) {
        if constexpr (std::is_copy_constructible_v<V>) {
          C.check(is(V(**S[X]), M[X].K), "wrong value in " + N);
        }
      }
    }
    if constexpr (Copies && (Void || Prints<VV>::value) && Prints<E>::value) {
      std::string Want;
      if (M[X].Is == Ref::Failed) {
        Want = text(Val<E>::make(M[X].K));
      } else if constexpr (Void) {
        Want = "OK";
      } else {
        Want = text(Val<V>::make(M[X].K));
      }
      C.eq(printed(*S[X]), Want, "text of " + N);
    }
  }

  void run(const std::vector<int> &W) {
    for (auto O : W) {
      if (!step(ops()[O])) {
        return;
      }
      look(0);
      look(1);
    }
    auto D = [&](int X) {
      return std::to_string(M[X].Is) + std::to_string(M[X].K);
    };
    C.state(D(0) + D(1));
  }
};

std::vector<int> word(uint64_t I, unsigned L) {
  std::vector<int> W;
  mc::Digits D(I);
  for (unsigned K = 0; K < L; ++K) {
    W.push_back(int(D.take(ops().size())));
  }
  return W;
}

template <class E, class V>
mc::Suite suite(const std::string &Name, unsigned L) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = "all sequences of " + std::to_string(L) + " of " +
            std::to_string(ops().size()) +
            " operations on two results, both read after each of them";
  S.N = mc::ipow(ops().size(), L);
  S.Chunk = 16384;
  S.Run = [=](uint64_t I, mc::Ctx &C) { Machine<E, V>(C).run(word(I, L)); };
  S.Describe = [=](uint64_t I) {
    std::string R;
    for (auto O : word(I, L)) {
      R += ops()[O].str() + "\n";
    }
    return R;
  };
  return S;
}

// --- texts of error codes --------------------------------------------------

template <class E> void message(mc::Ctx &C, E Code) {
  Error<E> X(Code);
  Result<E, std::string> A(Code);
  Result<E, bool> B(X);
  Result<E> D(Code);
  C.trans(7);
  C.eq(int(*X), int(Code), "code of an error");
  C.check(!X, "an error counts as success");
  C.eq(int(A.getError()), int(Code), "code of a result");
  C.eq(printed(X), text(Code), "text of an error");
  C.eq(printed(A), text(Code), "text of a result of texts");
  C.eq(printed(B), text(Code), "text of a result of truth values");
  C.eq(printed(D), text(Code), "text of a result");
  C.eq(int(X.extractError()), int(Code), "extracted code");
}

// --- iterators -------------------------------------------------------------

/// All words over: step before, step after, copy, fresh pass.
void iterate(mc::Ctx &C, unsigned N, const std::vector<int> &W) {
  using Vec = std::vector<std::unique_ptr<int>>;
  Vec Box;
  for (unsigned I = 0; I < N; ++I) {
    Box.push_back(std::make_unique<int>(int(I)));
  }
  auto Go = [&](auto &B, auto Begin, auto End) {
    unsigned At = 0;
    auto *It = new auto(Begin);
    auto See = [&](const decltype(Begin) &X, unsigned P, const char *Who) {
      C.eq(X == End, P == N, std::string(Who) + ": being at the end");
      C.eq(X != End, P != N, std::string(Who) + ": not being at the end");
      if (P < N) {
        C.check(*X == B[P].get(), std::string(Who) + " shows another object");
        C.check(X.operator->() == B[P].get(),
                std::string(Who) + " points to another object");
      }
    };
    See(*It, 0, "first");
    for (auto O : W) {
      if (At == N && O < 2) {
        break;
      }
      C.trans();
      if (O == 0) {
        auto R = ++*It;
        ++At;
        See(R, At, "result of ++i");
      } else if (O == 1) {
        auto R = (*It)++;
        See(R, At, "result of i++");
        ++At;
      } else if (O == 2) {
        auto *X = new auto(*It);
        delete It;
        It = X;
      } else {
        unsigned K = 0;
        for (auto J = Begin; J != End; ++J, ++K) {
          See(J, K, "loop");
        }
        C.eq(K, N, "length of a loop");
      }
      See(*It, At, "iterator");
    }
    delete It;
  };
  const Vec &Fixed = Box;
  Go(Box, vara::UniqueIterator<Vec>(Box.begin()),
     vara::UniqueIterator<Vec>(Box.end()));
  Go(Fixed, vara::UniqueIterator<const Vec>(Fixed.begin()),
     vara::UniqueIterator<const Vec>(Fixed.end()));
  C.state(std::to_string(N));
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  unsigned L = T ? 4 : 3;
  std::vector<mc::Suite> S;
  S.push_back(suite<vs::SolverErrorCode, bool>("solver-bool", L));
  S.push_back(suite<vs::SolverErrorCode, uint64_t>("solver-number", L));
  S.push_back(
      suite<vs::SolverErrorCode, std::unique_ptr<int>>("solver-owned", L));
  S.push_back(suite<vs::SolverErrorCode, void>("solver-void", L));
  S.push_back(suite<vf::FTErrorCode, void>("model-void", L));
  S.push_back(suite<vf::FTErrorCode, int *>("model-pointer", L));
  S.push_back(suite<vf::FTErrorCode, std::string>("model-text", L));
  S.push_back(suite<std::string, int>("text-int", L));
  S.push_back(suite<int, std::string>("int-text", L));
  S.push_back(suite<std::unique_ptr<int>, bool>("owned-bool", L));
  S.push_back(
      suite<vf::FTErrorCode, std::pair<int, std::string>>("model-pair", L));
  S.push_back(suite<std::shared_ptr<int>, std::string>("shared-text", L));
  {
    mc::Suite M;
    M.Name = "messages";
    M.Bound = "every error code, in an error and in three kinds of results";
    M.N = 10 + 7;
    M.Run = [](uint64_t I, mc::Ctx &C) {
      if (I < 10) {
        message(C, vf::FTErrorCode(I));
      } else {
        message(C, vs::SolverErrorCode(I - 10));
      }
    };
    M.Describe = [](uint64_t I) { return "error code " + std::to_string(I); };
    S.push_back(M);
  }
  {
    unsigned Len = T ? 8 : 6;
    mc::Suite M;
    M.Name = "iterators";
    M.Bound = "vectors of 0 to 4 objects, all sequences of " +
              std::to_string(Len) +
              " steps, copies and loops, on mutable and constant vectors";
    M.N = 5 * mc::ipow(4, Len);
    M.Chunk = 4096;
    M.Run = [=](uint64_t I, mc::Ctx &C) {
      mc::Digits D(I);
      auto N = unsigned(D.take(5));
      std::vector<int> W;
      for (unsigned K = 0; K < Len; ++K) {
        W.push_back(int(D.take(4)));
      }
      iterate(C, N, W);
    };
    M.Describe = [=](uint64_t I) {
      mc::Digits D(I);
      auto R = std::to_string(D.take(5)) + " objects:";
      for (unsigned K = 0; K < Len; ++K) {
        const char *N[] = {" ++i", " i++", " copy", " loop"};
        R += N[D.take(4)];
      }
      return R;
    };
    S.push_back(M);
  }
  return mc::runChecks(Argc, Argv, "C28", S,
                       {"results that were moved from or extracted are only "
                        "assigned to or replaced"});
}
