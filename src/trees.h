// Constraint trees with their structure in the notation of obs::ast.
#ifndef MC_TREES_H
#define MC_TREES_H

#include "vara/Feature/Constraint.h"
#include "vara/Feature/Feature.h"

#include <memory>
#include <string>
#include <vector>

namespace trees {
using namespace vara::feature;
using CP = std::unique_ptr<Constraint>;

inline const std::vector<const char *> BinOps = {
    "*", "/", "+", "-", "<", "<=", ">",  ">=",   "=",
    "!=", "&", "|", "^", "=>", "excl", "<=>"};

inline CP bin(size_t Op, CP A, CP B) {
  switch (Op) {
#define OP(N, T)                                                               \
  case N:                                                                      \
    return std::make_unique<T>(std::move(A), std::move(B));
    OP(0, MultiplicationConstraint)
    OP(1, DivisionConstraint)
    OP(2, AdditionConstraint)
    OP(3, SubtractionConstraint)
    OP(4, LessConstraint)
    OP(5, LessEqualConstraint)
    OP(6, GreaterConstraint)
    OP(7, GreaterEqualConstraint)
    OP(8, EqualConstraint)
    OP(9, NotEqualConstraint)
    OP(10, AndConstraint)
    OP(11, OrConstraint)
    OP(12, XorConstraint)
    OP(13, ImpliesConstraint)
    OP(14, ExcludesConstraint)
    OP(15, EquivalenceConstraint)
#undef OP
  }
  return nullptr;
}

/// A constraint and its reference tree, leaves in order.
struct Built {
  CP C;
  std::string Ast;
  std::string Normal; // excludes spelled out
  std::vector<std::string> Leaves;
};

struct Space {
  std::vector<std::string> Leaf;
  std::vector<uint64_t> Size; // number of trees of depth <= d

  Space(std::vector<std::string> L, unsigned Depth) : Leaf(std::move(L)) {
    Size.push_back(Leaf.size());
    for (unsigned D = 1; D <= Depth; ++D) {
      uint64_t N = Size.back();
      Size.push_back(Leaf.size() + 2 * N + BinOps.size() * N * N);
    }
  }
  Built make(uint64_t I, unsigned D) const {
    if (I < Leaf.size()) {
      const auto &L = Leaf[I];
      Built B;
      B.Ast = B.Normal = L;
      B.Leaves = {L};
      if (isdigit(L.back()) && (isdigit(L[0]) || L[0] == '-')) {
        B.C = std::make_unique<PrimaryIntegerConstraint>(
            int64_t(std::stoll(L)));
      } else {
        B.C = std::make_unique<PrimaryFeatureConstraint>(
            std::make_unique<Feature>(L));
      }
      return B;
    }
    I -= Leaf.size();
    uint64_t N = Size[D - 1];
    if (I < 2 * N) {
      Built O = make(I / 2, D - 1);
      const char *Op = I % 2 ? "~" : "!";
      O.Ast = std::string("(") + Op + " " + O.Ast + ")";
      O.Normal = std::string("(") + Op + " " + O.Normal + ")";
      if (I % 2) {
        O.C = std::make_unique<NegConstraint>(std::move(O.C));
      } else {
        O.C = std::make_unique<NotConstraint>(std::move(O.C));
      }
      return O;
    }
    I -= 2 * N;
    size_t Op = I % BinOps.size();
    I /= BinOps.size();
    Built A = make(I % N, D - 1);
    Built B = make(I / N, D - 1);
    Built R;
    R.Ast = std::string("(") + BinOps[Op] + " " + A.Ast + " " + B.Ast + ")";
    R.Normal = Op == 14 ? "(=> " + A.Normal + " (! " + B.Normal + "))"
                        : std::string("(") + BinOps[Op] + " " + A.Normal +
                              " " + B.Normal + ")";
    R.Leaves = A.Leaves;
    R.Leaves.insert(R.Leaves.end(), B.Leaves.begin(), B.Leaves.end());
    R.C = bin(Op, std::move(A.C), std::move(B.C));
    return R;
  }
};

} // namespace trees

#endif
