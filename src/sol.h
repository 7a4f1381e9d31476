// Reference semantics of feature models: plain enumeration of all assignments,
// and construction of the corresponding real models.
#ifndef MC_SOL_H
#define MC_SOL_H

#include "cx.h"
#include "gen.h"

#include "vara/Configuration/Configuration.h"
#include "vara/Feature/ConstraintParser.h"
#include "vara/Feature/StepFunctionParser.h"

#include <optional>

namespace sol {

namespace vf = vara::feature;
using Strs = std::vector<std::string>;

/// Expression tree read from the notation of obs::ast / cx::parseText.
struct Expr {
  std::string Op; // operator, or the atom
  std::vector<Expr> Sub;
};

inline Expr readAst(const std::string &S, size_t &P) {
  Expr E;
  if (S[P] == '(') {
    ++P;
    while (S[P] != ' ') {
      E.Op += S[P++];
    }
    while (S[P] == ' ') {
      ++P;
      E.Sub.push_back(readAst(S, P));
    }
    ++P;
    return E;
  }
  while (P < S.size() && S[P] != ' ' && S[P] != ')') {
    E.Op += S[P++];
  }
  return E;
}
inline Expr readAst(const std::string &S) {
  size_t P = 0;
  return readAst(S, P);
}

struct Value {
  bool IsBool;
  int64_t V;
};
using Assignment = std::map<std::string, Value>;

enum class Type { Bool, Int, Bad };

inline bool isNumber(const std::string &S) {
  return isdigit((unsigned char)S[0]) || (S[0] == '-' && S.size() > 1);
}

/// Type of an expression; in mixed ones a truth value is a number on demand.
inline Type type(const Expr &E, const std::map<std::string, Type> &Vars,
                 bool Mixed) {
  if (E.Sub.empty()) {
    if (isNumber(E.Op)) {
      return Type::Int;
    }
    auto It = Vars.find(E.Op);
    return It == Vars.end() ? Type::Bad : It->second;
  }
  std::vector<Type> T;
  for (auto &S : E.Sub) {
    T.push_back(type(S, Vars, Mixed));
    if (T.back() == Type::Bad) {
      return Type::Bad;
    }
  }
  auto All = [&](Type X) {
    for (auto Y : T) {
      if (Y != X) {
        return false;
      }
    }
    return true;
  };
  const std::string &O = E.Op;
  if (O == "!" || O == "&" || O == "|" || O == "^" || O == "=>" ||
      O == "<=>" || O == "excl") {
    return All(Type::Bool) ? Type::Bool : Type::Bad;
  }
  bool Num = All(Type::Int) || Mixed;
  if (O == "=" || O == "!=") {
    return Num || All(Type::Bool) ? Type::Bool : Type::Bad;
  }
  if (O == "<" || O == "<=" || O == ">" || O == ">=") {
    return Num ? Type::Bool : Type::Bad;
  }
  return Num ? Type::Int : Type::Bad;
}

/// Division is only used with divisors other than 0.
inline int64_t eval(const Expr &E, const Assignment &A) {
  if (E.Sub.empty()) {
    return isNumber(E.Op) ? std::stoll(E.Op) : A.at(E.Op).V;
  }
  int64_t L = eval(E.Sub[0], A);
  const std::string &O = E.Op;
  if (O == "!") {
    return !L;
  }
  if (O == "~") {
    return -L;
  }
  int64_t R = eval(E.Sub[1], A);
  if (O == "&") {
    return L && R;
  }
  if (O == "|") {
    return L || R;
  }
  if (O == "^") {
    return (L != 0) != (R != 0);
  }
  if (O == "=>") {
    return !L || R;
  }
  if (O == "<=>") {
    return (L != 0) == (R != 0);
  }
  if (O == "excl") {
    return !(L && R);
  }
  if (O == "+") {
    return L + R;
  }
  if (O == "-") {
    return L - R;
  }
  if (O == "*") {
    return L * R;
  }
  if (O == "/") {
    return L / R;
  }
  if (O == "=") {
    return L == R;
  }
  if (O == "!=") {
    return L != R;
  }
  if (O == "<") {
    return L < R;
  }
  if (O == "<=") {
    return L <= R;
  }
  if (O == ">") {
    return L > R;
  }
  return L >= R;
}

inline void atoms(const Expr &E, Strs &Out) {
  if (E.Sub.empty()) {
    if (!isNumber(E.Op)) {
      Out.push_back(E.Op);
    }
  }
  for (auto &S : E.Sub) {
    atoms(S, Out);
  }
}

struct Con {
  std::string Text; // constraint text, or "excl X Y"
  int Cat = 0;      // 0 boolean, 1 non-boolean, 2.. mixed
  bool mixed() const { return Cat >= 2; }
  std::string str() const {
    static const char *N[] = {"boolean", "non-boolean", "mixed(none,pos)",
                              "mixed(all,pos)", "mixed(none,neg)",
                              "mixed(all,neg)"};
    return std::string(N[Cat]) + " " + Text;
  }
  bool isAll() const { return Cat == 3 || Cat == 5; }
  bool isNeg() const { return Cat >= 4; }
  Expr expr() const {
    if (Text.compare(0, 5, "excl ") == 0) {
      auto P = Text.find(' ', 5);
      return Expr{"excl", {Expr{Text.substr(5, P - 5), {}},
                           Expr{Text.substr(P + 1), {}}}};
    }
    return readAst(*cx::parseText(Text));
  }
};

struct Model {
  gen::Shape Sh;
  Strs Name;                                // [0] is the root
  std::vector<bool> Opt;                    // per node
  std::map<int, std::vector<int64_t>> Vals; // numeric nodes
  std::map<int, std::string> Step;          // numeric nodes given as range
  std::vector<Con> Cons;

  std::string str() const {
    Strs N = Name;
    for (int I = 1; I <= Sh.N; ++I) {
      if (Opt[I]) {
        N[I] += "?";
      }
      auto V = Vals.find(I);
      if (V != Vals.end()) {
        N[I] += "{";
        for (auto X : V->second) {
          N[I] += std::to_string(X) + ";";
        }
        N[I] += "}";
      }
    }
    std::string R = Sh.str(N);
    for (auto &C : Cons) {
      R += " [" + C.str() + "]";
    }
    return R;
  }
};

inline Model tree(const gen::Shape &Sh, const Strs &Names, uint64_t Opt) {
  Model M;
  M.Sh = Sh;
  for (int I = 0; I <= Sh.N; ++I) {
    M.Name.push_back(Names[I]);
    M.Opt.push_back(I && (Opt >> (I - 1) & 1));
  }
  return M;
}

using Case = std::pair<gen::Shape, uint64_t>;

/// Shapes with optional flags; the flags of group members are all equal.
/// Unordered: only one of the shapes that differ in the order of siblings.
inline std::shared_ptr<std::vector<Case>> cases(int N, int Groups, bool Unordered) {
  auto R = std::make_shared<std::vector<Case>>();
  std::set<std::string> Seen;
  for (auto &Sh : gen::shapes(N, Groups)) {
    uint64_t Grouped = 0;
    for (int I = 1; I <= N; ++I) {
      Grouped |= Sh.Slot[I] ? 1u << (I - 1) : 0;
    }
    for (uint64_t F = 0; F < 1u << N; ++F) {
      if ((F & Grouped) && (F & Grouped) != Grouped) {
        continue;
      }
      std::vector<int> Mark(N + 1);
      for (int I = 1; I <= N; ++I) {
        Mark[I] = F >> (I - 1) & 1;
      }
      if (!Unordered || Seen.insert(gen::canon(Sh, Mark)).second) {
        R->push_back({Sh, F});
      }
    }
  }
  return R;
}

inline std::map<std::string, Type> types(const Model &M) {
  std::map<std::string, Type> T;
  for (int I = 0; I <= M.Sh.N; ++I) {
    T[M.Name[I]] = M.Vals.count(I) ? Type::Int : Type::Bool;
  }
  return T;
}

inline bool wellTyped(const Con &C, const std::map<std::string, Type> &T) {
  return type(C.expr(), T, C.mixed()) == Type::Bool;
}

inline bool holds(const Con &C, const Expr &E, const Assignment &A) {
  if (C.isAll()) {
    Strs Names;
    atoms(E, Names);
    for (auto &N : Names) {
      auto &V = A.at(N);
      if (V.IsBool && !V.V) {
        return true;
      }
    }
  }
  return (eval(E, A) != 0) != C.isNeg();
}

inline std::string show(const Assignment &A) {
  Strs R;
  for (auto &[N, V] : A) {
    R.push_back(N + "=" +
                (V.IsBool ? (V.V ? "true" : "false") : std::to_string(V.V)));
  }
  return obs::join(R);
}

/// Every valid configuration.
inline std::set<std::string> configurations(const Model &M) {
  std::set<std::string> R;
  std::vector<Expr> E;
  for (auto &C : M.Cons) {
    E.push_back(C.expr());
  }
  const auto &Sh = M.Sh;
  auto IsNum = [&](int I) { return M.Vals.count(I) != 0; };
  // closest ancestor that can be selected
  auto Above = [&](int I) {
    do {
      I = Sh.Parent[I];
    } while (IsNum(I));
    return I;
  };
  std::vector<int64_t> V(Sh.N + 1, 0);
  std::function<void(int)> Rec = [&](int I) {
    if (I <= Sh.N) {
      if (IsNum(I)) {
        for (auto X : M.Vals.at(I)) {
          V[I] = X;
          Rec(I + 1);
        }
      } else {
        for (int X = 0; X < 2; ++X) {
          V[I] = X;
          Rec(I + 1);
        }
      }
      return;
    }
    for (int C = 1; C <= Sh.N; ++C) {
      if (IsNum(C)) {
        continue;
      }
      if (V[C] && !V[Above(C)]) {
        return;
      }
      if (!Sh.Slot[C] && !M.Opt[C] && V[Above(C)] && !V[C]) {
        return;
      }
    }
    for (int P = 0; P <= Sh.N; ++P) {
      int Par = IsNum(P) ? Above(P) : P;
      if (!V[Par]) {
        continue;
      }
      for (int S = 1; S <= 2; ++S) {
        auto K = Sh.kids(P, S);
        if (K.empty()) {
          continue;
        }
        int Sel = 0;
        for (int X : K) {
          Sel += V[X] != 0;
        }
        if (Sel == 0 || (Sh.Kind[2 * P + S - 1] == 1 && Sel > 1)) {
          return;
        }
      }
    }
    Assignment A;
    for (int J = 0; J <= Sh.N; ++J) {
      A[M.Name[J]] = {!IsNum(J), V[J]};
    }
    for (size_t J = 0; J < E.size(); ++J) {
      if (!holds(M.Cons[J], E[J], A)) {
        return;
      }
    }
    R.insert(show(A));
  };
  V[0] = 1;
  Rec(1);
  return R;
}

inline std::unique_ptr<vf::Constraint> constraint(const std::string &T) {
  if (T.compare(0, 5, "excl ") == 0) {
    auto P = T.find(' ', 5);
    return std::make_unique<vf::ExcludesConstraint>(
        vf::ConstraintParser(T.substr(5, P - 5)).buildConstraint(),
        vf::ConstraintParser(T.substr(P + 1)).buildConstraint());
  }
  return vf::ConstraintParser(T).buildConstraint();
}

/// The real model; null if it cannot be built.
inline std::unique_ptr<vf::FeatureModel> build(const Model &M) {
  auto FM = gen::build(
      M.Sh, M.Name[0], [&](int I) -> std::unique_ptr<vf::Feature> {
        auto V = M.Vals.find(I);
        if (V == M.Vals.end()) {
          return std::make_unique<vf::BinaryFeature>(M.Name[I], M.Opt[I]);
        }
        auto S = M.Step.find(I);
        if (S == M.Step.end()) {
          return std::make_unique<vf::NumericFeature>(M.Name[I], V->second,
                                                      M.Opt[I]);
        }
        return std::make_unique<vf::NumericFeature>(
            M.Name[I], std::make_pair(V->second.front(), V->second.back()),
            M.Opt[I], std::vector<vf::FeatureSourceRange>{}, "",
            S->second.empty()
                ? nullptr
                : vf::StepFunctionParser(S->second).buildStepFunction());
      });
  if (!FM) {
    return nullptr;
  }
  using MC = vf::FeatureModel::MixedConstraint;
  for (auto &C : M.Cons) {
    auto X = constraint(C.Text);
    if (!X) {
      return nullptr;
    }
    bool OK;
    if (C.Cat == 0) {
      OK = gen::add(*FM, std::make_unique<vf::FeatureModel::BooleanConstraint>(
                             std::move(X)));
    } else if (C.Cat == 1) {
      OK = gen::add(*FM,
                    std::make_unique<vf::FeatureModel::NonBooleanConstraint>(
                        std::move(X)));
    } else {
      OK = gen::add(*FM, std::make_unique<MC>(
                             std::move(X),
                             C.isAll() ? MC::Req::ALL : MC::Req::NONE,
                             C.isNeg() ? MC::ExprKind::NEG : MC::ExprKind::POS));
    }
    if (!OK) {
      return nullptr;
    }
  }
  return FM;
}

/// Options of a real configuration, in the notation of show().
inline std::string show(vf::Configuration &C) {
  std::map<std::string, std::string> O;
  for (auto &E : C) {
    O[E.getKey().str()] = E.getValue()->asString();
  }
  Strs R;
  for (auto &[N, V] : O) {
    R.push_back(N + "=" + V);
  }
  return obs::join(R);
}

} // namespace sol

#endif
