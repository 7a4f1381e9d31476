// Reference for the constraint language: lexer, stratified grammar, and the
// enumeration of constraint trees.  Results use the notation of obs::ast.
#ifndef MC_CX_H
#define MC_CX_H

#include "engine.h"
#include "obs.h"

#include <cmath>
#include <cstring>
#include <optional>

namespace cx {

struct Tok {
  enum K { Op, Not, Neg, Open, Close, Atom } Kind;
  std::string Text;   // operator (canonical) or the tree of an atom
  bool Number = false;
  bool Glued = false; // directly after the previous token
};

/// Binding strength; smaller binds tighter.
inline int level(const std::string &Op) {
  static const std::vector<std::vector<std::string>> L = {
      {"*", "/"},       {"+", "-"},      {"<", "<=", ">", ">="}, {"=", "!="},
      {"&"},            {"|", "^"},      {"=>", "excl"},         {"<=>"}};
  for (size_t I = 0; I < L.size(); ++I) {
    for (auto &O : L[I]) {
      if (O == Op) {
        return int(I);
      }
    }
  }
  return -1;
}

/// Value of an unsigned literal with an optional leading minus sign.
inline std::string literal(const std::string &S) {
  bool Sci = S.find_first_of("eE") != std::string::npos;
  if (!Sci) {
    bool Minus = S[0] == '-';
    std::string D = S.substr(Minus);
    size_t Z = D.find_first_not_of('0');
    D = Z == std::string::npos ? "0" : D.substr(Z);
    std::string Max = Minus ? "9223372036854775808" : "9223372036854775807";
    if (D.size() > Max.size() || (D.size() == Max.size() && D > Max)) {
      D = Max;
    }
    return (Minus && D != "0" ? "-" : "") + D;
  }
  double V = strtod(S.c_str(), nullptr);
  if (V >= 9223372036854775808.0) {
    return "9223372036854775807";
  }
  if (V <= -9223372036854775808.0) {
    return "-9223372036854775808";
  }
  return std::to_string(llrint(V));
}

inline std::optional<std::vector<Tok>> lex(const std::string &S) {
  std::vector<Tok> R;
  auto Dig = [](char C) { return C >= '0' && C <= '9'; };
  auto Alpha = [](char C) {
    return (C >= 'a' && C <= 'z') || (C >= 'A' && C <= 'Z');
  };
  size_t I = 0;
  size_t End = 0; // end of the previous token
  auto Push = [&](Tok T, size_t Len) {
    T.Glued = !R.empty() && End == I;
    R.push_back(T);
    I += Len;
    End = I;
  };
  static const std::vector<std::pair<std::string, std::string>> Ops = {
      {"<->", "<=>"}, {"<=>", "<=>"}, {"->", "=>"}, {"=>", "=>"}, {"!=", "!="},
      {">=", ">="},   {"<=", "<="},   {"<", "<"},   {">", ">"},   {"=", "="},
      {"+", "+"},     {"-", "-"},     {"*", "*"},   {"/", "/"},   {"&", "&"},
      {"|", "|"},     {"^", "^"}};
  while (I < S.size()) {
    char C = S[I];
    if (C == '\0') {
      break;
    }
    if (C == ' ' || C == '\t' || C == '\n' || C == '\r') {
      ++I;
      continue;
    }
    if (Alpha(C)) {
      size_t J = I;
      while (J < S.size() && (Alpha(S[J]) || Dig(S[J]) || S[J] == '_')) {
        ++J;
      }
      std::string W = S.substr(I, J - I);
      if (W == "or") {
        Push({Tok::Op, "|"}, 2);
      } else {
        Push({Tok::Atom, W}, J - I);
      }
      continue;
    }
    if (Dig(C)) {
      size_t J = I;
      while (J < S.size() && Dig(S[J])) {
        ++J;
      }
      size_t K = J;
      if (K < S.size() && (S[K] == 'e' || S[K] == 'E')) {
        ++K;
        if (K < S.size() && (S[K] == '+' || S[K] == '-')) {
          ++K;
        }
        size_t E = K;
        while (K < S.size() && Dig(S[K])) {
          ++K;
        }
        if (K > E) {
          J = K;
        }
      }
      Tok T{Tok::Atom, S.substr(I, J - I)};
      T.Number = true;
      Push(T, J - I);
      continue;
    }
    bool Found = false;
    for (auto &[Txt, Op] : Ops) {
      if (S.compare(I, Txt.size(), Txt) == 0) {
        Push({Tok::Op, Op}, Txt.size());
        Found = true;
        break;
      }
    }
    if (Found) {
      continue;
    }
    if (C == '!') {
      Push({Tok::Not, ""}, 1);
    } else if (C == '~') {
      Push({Tok::Neg, ""}, 1);
    } else if (C == '(') {
      Push({Tok::Open, ""}, 1);
    } else if (C == ')') {
      Push({Tok::Close, ""}, 1);
    } else {
      return std::nullopt;
    }
  }
  return R;
}

/// Stratified grammar: expr_l := expr_{l-1} (op_l expr_{l-1})*
struct Grammar {
  const std::vector<Tok> &T;
  size_t P = 0;
  bool Bad = false;

  std::string expr(int L) {
    if (L < 0) {
      return unary();
    }
    std::string A = expr(L - 1);
    while (!Bad && P < T.size() && T[P].Kind == Tok::Op &&
           level(T[P].Text) == L) {
      std::string Op = T[P++].Text;
      std::string B = expr(L - 1);
      A = "(" + Op + " " + A + " " + B + ")";
    }
    return A;
  }
  std::string unary() {
    if (P >= T.size()) {
      Bad = true;
      return "";
    }
    const Tok &X = T[P++];
    switch (X.Kind) {
    case Tok::Not:
      return "(! " + unary() + ")";
    case Tok::Neg:
      return "(~ " + unary() + ")";
    case Tok::Atom:
      return X.Number ? literal(X.Text) : X.Text;
    case Tok::Open: {
      std::string R = expr(7);
      if (P >= T.size() || T[P].Kind != Tok::Close) {
        Bad = true;
        return "";
      }
      ++P;
      return R;
    }
    case Tok::Op:
      if (X.Text == "-" && P < T.size() && T[P].Number && T[P].Glued) {
        return literal("-" + T[P++].Text);
      }
      [[fallthrough]];
    default:
      Bad = true;
      return "";
    }
  }
};

/// Tree spelled by the tokens, or nullopt.
inline std::optional<std::string> parse(const std::vector<Tok> &T) {
  Grammar G{T};
  std::string R = G.expr(7);
  if (G.Bad || G.P != T.size()) {
    return std::nullopt;
  }
  return R;
}

inline std::optional<std::string> parseText(const std::string &S) {
  auto T = lex(S);
  return T ? parse(*T) : std::nullopt;
}

inline std::string show(const std::string &S) {
  std::string R = "\"";
  for (unsigned char C : S) {
    if (C < 32 || C > 126) {
      char B[8];
      snprintf(B, sizeof B, "\\x%02x", C);
      R += B;
    } else {
      R += char(C);
    }
  }
  return R + "\"";
}

/// `A excludes B` means the same as `A => !B`.
inline std::string normal(vara::feature::Constraint *C) {
  using namespace vara::feature;
  if (auto *E = llvm::dyn_cast<ExcludesConstraint>(C)) {
    return "(=> " + normal(E->getLeftOperand()) + " (! " +
           normal(E->getRightOperand()) + "))";
  }
  if (C->getKind() == Constraint::ConstraintKind::CK_FEATURE ||
      C->getKind() == Constraint::ConstraintKind::CK_INTEGER) {
    return obs::ast(C);
  }
  std::string A = obs::ast(C);
  std::string Op = A.substr(1, A.find(' ') - 1);
  if (C->getKind() == Constraint::ConstraintKind::CK_NOT ||
      C->getKind() == Constraint::ConstraintKind::CK_NEG) {
    return "(" + Op + " " +
           normal(static_cast<UnaryConstraint *>(C)->getOperand()) + ")";
  }
  auto *B = static_cast<BinaryConstraint *>(C);
  return "(" + Op + " " + normal(B->getLeftOperand()) + " " +
         normal(B->getRightOperand()) + ")";
}

} // namespace cx

#endif
