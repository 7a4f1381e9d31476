// Canonical observation of a feature model through its public API, and the
// structural invariants every consistent model has to satisfy.
#ifndef MC_OBS_H
#define MC_OBS_H

#include "vara/Feature/Constraint.h"
#include "vara/Feature/Feature.h"
#include "vara/Feature/FeatureModel.h"
#include "vara/Feature/FeatureSourceRange.h"
#include "vara/Feature/Relationship.h"
#include "vara/Feature/StepFunction.h"

#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace obs {

namespace vf = vara::feature;

inline std::string join(std::vector<std::string> V, const char *Sep = ",") {
  std::string R;
  for (size_t I = 0; I < V.size(); ++I) {
    R += (I ? Sep : "") + V[I];
  }
  return R;
}

inline std::string loc(vf::FeatureSourceRange L) {
  std::string R = L.getPath().string();
  if (L.hasStart()) {
    R += "@" + std::to_string(L.getStart()->getLineNumber()) + ":" +
         std::to_string(L.getStart()->getColumnOffset());
  }
  if (L.hasEnd()) {
    R += "-" + std::to_string(L.getEnd()->getLineNumber()) + ":" +
         std::to_string(L.getEnd()->getColumnOffset());
  }
  R += L.getCategory() == vf::FeatureSourceRange::Category::necessary ? "/n"
                                                                      : "/i";
  if (L.hasMemberOffset()) {
    R += "/m=" + L.getMemberOffset()->toString();
  }
  if (L.hasRevisionRange()) {
    R += "/r=" + L.revisionRange()->introducingCommit().str();
    if (L.revisionRange()->hasRemovingCommit()) {
      R += ".." + L.revisionRange()->removingCommit().str();
    }
  }
  return R;
}

/// Behavioural fingerprint of a step function (its values at a few points).
inline std::string step(vf::StepFunction *S) {
  if (!S) {
    return "";
  }
  std::string R;
  for (double X : {0.0, 1.0, 2.0, 3.0, 7.0}) {
    char B[64];
    snprintf(B, sizeof B, "%.12g;", S->next(X));
    R += B;
  }
  return R;
}

inline std::string values(vf::NumericFeature *N) {
  auto V = N->getValues();
  if (auto *P = std::get_if<vf::NumericFeature::ValueRangeType>(&V)) {
    return std::to_string(P->first) + ".." + std::to_string(P->second);
  }
  std::vector<std::string> S;
  for (auto I : std::get<vf::NumericFeature::ValueListType>(V)) {
    S.push_back(std::to_string(I));
  }
  return "{" + join(S) + "}";
}

struct Opts {
  bool Output = true;
  bool Step = true;
  bool Locations = true;
};

/// Attributes of one feature, without its place in the tree.
inline std::string attrs(vf::Feature *F, const Opts &O = {}) {
  std::string R = F->getName().str();
  switch (F->getKind()) {
  case vf::Feature::FeatureKind::FK_BINARY:
    R += ":bin";
    break;
  case vf::Feature::FeatureKind::FK_NUMERIC:
    R += ":num";
    break;
  case vf::Feature::FeatureKind::FK_ROOT:
    R += ":root";
    break;
  case vf::Feature::FeatureKind::FK_UNKNOWN:
    R += ":unknown";
    break;
  }
  if (F->isOptional()) {
    R += "?";
  }
  if (auto *N = llvm::dyn_cast<vf::NumericFeature>(F)) {
    R += values(N);
    if (O.Step && N->getStepFunction()) {
      R += "step<" + step(N->getStepFunction()) + ">";
    }
  }
  if (O.Output && !F->getOutputString().empty()) {
    R += "'" + F->getOutputString().str() + "'";
  }
  if (O.Locations) {
    std::vector<std::string> L;
    for (auto &X : F->getLocations()) {
      L.push_back(loc(X));
    }
    if (!L.empty()) {
      R += "[" + join(L) + "]";
    }
  }
  return R;
}

/// Tree below N; siblings sorted, so that the observation does not depend on
/// the order in which equal trees were put together.
inline std::string tree(vf::FeatureTreeNode *N, const Opts &O = {},
                        unsigned Fuel = 64) {
  if (Fuel == 0) {
    return "<cycle>";
  }
  std::string R;
  if (auto *F = llvm::dyn_cast<vf::Feature>(N)) {
    R = attrs(F, O);
  } else if (auto *Rel = llvm::dyn_cast<vf::Relationship>(N)) {
    R = Rel->getKind() == vf::Relationship::RelationshipKind::RK_ALTERNATIVE
            ? "#ALT"
            : "#OR";
  } else {
    R = "<unknown node>";
  }
  std::vector<std::string> C;
  for (auto *X : N->children()) {
    C.push_back(tree(X, O, Fuel - 1));
  }
  std::sort(C.begin(), C.end());
  if (!C.empty()) {
    R += "(" + join(C) + ")";
  }
  return R;
}

inline const char *req(vf::FeatureModel::MixedConstraint::Req R) {
  return R == vf::FeatureModel::MixedConstraint::Req::ALL ? "all" : "none";
}
inline const char *kind(vf::FeatureModel::MixedConstraint::ExprKind K) {
  return K == vf::FeatureModel::MixedConstraint::ExprKind::POS ? "pos" : "neg";
}

/// Structure of a constraint, independent of its textual rendering.
inline std::string ast(vf::Constraint *C) {
  using K = vf::Constraint::ConstraintKind;
  auto Bin = [&](const char *Op) {
    auto *B = static_cast<vf::BinaryConstraint *>(C);
    return std::string("(") + Op + " " + ast(B->getLeftOperand()) + " " +
           ast(B->getRightOperand()) + ")";
  };
  switch (C->getKind()) {
  case K::CK_ADDITION:
    return Bin("+");
  case K::CK_AND:
    return Bin("&");
  case K::CK_DIVISION:
    return Bin("/");
  case K::CK_EQUAL:
    return Bin("=");
  case K::CK_EQUIVALENCE:
    return Bin("<=>");
  case K::CK_EXCLUDES:
    return Bin("excl");
  case K::CK_GREATER:
    return Bin(">");
  case K::CK_GREATER_EQUAL:
    return Bin(">=");
  case K::CK_IMPLIES:
    return Bin("=>");
  case K::CK_LESS:
    return Bin("<");
  case K::CK_LESS_EQUAL:
    return Bin("<=");
  case K::CK_MULTIPLICATION:
    return Bin("*");
  case K::CK_NOT_EQUAL:
    return Bin("!=");
  case K::CK_OR:
    return Bin("|");
  case K::CK_SUBTRACTION:
    return Bin("-");
  case K::CK_XOR:
    return Bin("^");
  case K::CK_NOT:
    return "(! " + ast(static_cast<vf::UnaryConstraint *>(C)->getOperand()) +
           ")";
  case K::CK_NEG:
    return "(~ " + ast(static_cast<vf::UnaryConstraint *>(C)->getOperand()) +
           ")";
  case K::CK_INTEGER:
    return std::to_string(
        static_cast<vf::PrimaryIntegerConstraint *>(C)->getValue());
  case K::CK_FEATURE: {
    auto *F = static_cast<vf::PrimaryFeatureConstraint *>(C)->getFeature();
    return F ? F->getName().str() : "<null feature>";
  }
  default:
    return "<?>";
  }
}

inline std::vector<std::string> constraints(const vf::FeatureModel &FM) {
  std::vector<std::string> R;
  for (const auto &C : FM.booleanConstraints()) {
    R.push_back("B " + ast(**C));
  }
  for (const auto &C : FM.nonBooleanConstraints()) {
    R.push_back("N " + ast(**C));
  }
  for (const auto &C : FM.mixedConstraints()) {
    R.push_back(std::string("M ") + req(C->req()) + " " + kind(C->exprKind()) +
                " " + ast(C->constraint()));
  }
  std::sort(R.begin(), R.end());
  return R;
}

inline std::string model(const vf::FeatureModel &FM, const Opts &O = {}) {
  std::string R = "name=" + FM.getName().str() +
                  " path=" + FM.getPath().string() +
                  " commit=" + FM.getCommit().str() + " tree=";
  R += FM.getRoot() ? tree(FM.getRoot(), O) : "<no root>";
  auto C = constraints(FM);
  if (!C.empty()) {
    R += " constraints={" + join(C, "; ") + "}";
  }
  return R;
}

/// Order-sensitive variant, used where an object must be *untouched*.
inline std::string exactTree(vf::FeatureTreeNode *N, unsigned Fuel = 64) {
  if (Fuel == 0) {
    return "<cycle>";
  }
  std::string R;
  if (auto *F = llvm::dyn_cast<vf::Feature>(N)) {
    R = attrs(F);
    for (auto *C : F->constraints()) {
      R += "{" + ast(C->getRoot()) + "}";
    }
  } else if (auto *Rel = llvm::dyn_cast<vf::Relationship>(N)) {
    R = Rel->getKind() == vf::Relationship::RelationshipKind::RK_ALTERNATIVE
            ? "#ALT"
            : "#OR";
  }
  R += "(";
  for (auto *X : N->children()) {
    R += exactTree(X, Fuel - 1) + ",";
  }
  return R + ")";
}

inline void leaves(vf::Constraint *C,
                   std::vector<vf::PrimaryFeatureConstraint *> &Out) {
  if (auto *P = llvm::dyn_cast<vf::PrimaryFeatureConstraint>(C)) {
    Out.push_back(P);
  } else if (C->getKind() == vf::Constraint::ConstraintKind::CK_NOT ||
             C->getKind() == vf::Constraint::ConstraintKind::CK_NEG) {
    leaves(static_cast<vf::UnaryConstraint *>(C)->getOperand(), Out);
  } else if (C->getKind() != vf::Constraint::ConstraintKind::CK_INTEGER) {
    leaves(static_cast<vf::BinaryConstraint *>(C)->getLeftOperand(), Out);
    leaves(static_cast<vf::BinaryConstraint *>(C)->getRightOperand(), Out);
  }
}

/// Parent links of a constraint tree; returns a problem or "".
inline std::string checkConstraintLinks(vf::Constraint *C, vf::Constraint *P) {
  if (C->getParent() != P) {
    return "parent link of a constraint node is wrong in " + C->toString();
  }
  if (C->getKind() == vf::Constraint::ConstraintKind::CK_NOT ||
      C->getKind() == vf::Constraint::ConstraintKind::CK_NEG) {
    return checkConstraintLinks(
        static_cast<vf::UnaryConstraint *>(C)->getOperand(), C);
  }
  if (C->getKind() == vf::Constraint::ConstraintKind::CK_INTEGER ||
      C->getKind() == vf::Constraint::ConstraintKind::CK_FEATURE) {
    return "";
  }
  auto *B = static_cast<vf::BinaryConstraint *>(C);
  auto R = checkConstraintLinks(B->getLeftOperand(), C);
  return R.empty() ? checkConstraintLinks(B->getRightOperand(), C) : R;
}

/// Structural invariants of a consistent model; "" if they all hold.
inline std::string treeIntegrity(const vf::FeatureModel &FM) {
  if (!FM.getRoot()) {
    return "model has no root";
  }
  if (FM.getRoot()->getParent()) {
    return "root has a parent";
  }
  std::map<vf::FeatureTreeNode *, int> Seen;
  std::string Err;
  std::function<void(vf::FeatureTreeNode *)> Walk =
      [&](vf::FeatureTreeNode *N) {
        if (++Seen[N] > 1) {
          Err = "a node is reachable twice";
          return;
        }
        for (auto *C : N->children()) {
          if (C->getParent() != N) {
            Err = "child does not name its parent as parent";
            return;
          }
          if (!N->hasEdgeTo(*C) || !C->hasEdgeFrom(*N)) {
            Err = "edge queries disagree with the child list";
            return;
          }
          Walk(C);
          if (!Err.empty()) {
            return;
          }
        }
      };
  Walk(FM.getRoot());
  if (!Err.empty()) {
    return Err;
  }
  unsigned Features = 0;
  unsigned Roots = 0;
  std::set<std::string> Names;
  for (auto *F : FM.unorderedFeatures()) {
    Features++;
    if (!Seen.count(F)) {
      return "feature " + F->getName().str() +
             " is not reachable from the root";
    }
    if (!Names.insert(F->getName().str()).second) {
      return "feature " + F->getName().str() + " is listed twice";
    }
    if (FM.getFeature(F->getName()) != F) {
      return "look-up of " + F->getName().str() +
             " does not return the listed feature";
    }
    Roots += llvm::isa<vf::RootFeature>(F);
  }
  if (Roots != 1) {
    return std::to_string(Roots) + " root features";
  }
  if (FM.size() != Features) {
    return "size() is " + std::to_string(FM.size()) + " for " +
           std::to_string(Features) + " features";
  }
  std::set<vf::FeatureTreeNode *> Rels;
  for (const auto &R : FM.relationships()) {
    if (!Rels.insert(R.get()).second) {
      return "relationship listed twice";
    }
    if (!Seen.count(R.get())) {
      return "a relationship is not reachable from the root";
    }
  }
  for (auto &[N, _] : Seen) {
    if (auto *F = llvm::dyn_cast<vf::Feature>(N)) {
      if (FM.getFeature(F->getName()) != F) {
        return "feature " + F->getName().str() +
               " is in the tree but not in the model";
      }
    } else if (!Rels.count(N)) {
      return "a relationship in the tree is not in the model";
    }
  }
  // Every feature shows up exactly once in the ordered traversal.
  std::set<vf::Feature *> Dfs;
  unsigned Steps = 0;
  for (auto *F : FM.features()) {
    if (++Steps > Features + 2) {
      return "ordered traversal does not stop";
    }
    if (!Dfs.insert(F).second) {
      return "ordered traversal visits " + F->getName().str() + " twice";
    }
  }
  if (Dfs.size() != Features) {
    return "ordered traversal visits " + std::to_string(Dfs.size()) + " of " +
           std::to_string(Features) + " features";
  }
  return "";
}

/// Cross links between constraints and features; "" if consistent.
inline std::string constraintIntegrity(const vf::FeatureModel &FM) {
  std::map<vf::Feature *, std::multiset<vf::Constraint *>> Want;
  std::map<vf::Feature *, std::multiset<vf::Constraint *>> WantI;
  std::map<vf::Feature *, std::multiset<vf::Constraint *>> WantE;
  std::string Err;
  auto Visit = [&](vf::Constraint *C) {
    if (!Err.empty()) {
      return;
    }
    Err = checkConstraintLinks(C, nullptr);
    if (!Err.empty()) {
      return;
    }
    std::vector<vf::PrimaryFeatureConstraint *> L;
    leaves(C, L);
    for (auto *P : L) {
      auto *F = P->getFeature();
      if (!F || FM.getFeature(F->getName()) != F) {
        Err = "constraint " + C->toString() +
              " mentions a feature object that is not part of the model";
        return;
      }
      Want[F].insert(P);
      if (llvm::isa<vf::ImpliesConstraint>(C)) {
        WantI[F].insert(C);
      }
      if (llvm::isa<vf::ExcludesConstraint>(C)) {
        WantE[F].insert(C);
      }
    }
  };
  for (const auto &C : FM.booleanConstraints()) {
    Visit(**C);
  }
  for (const auto &C : FM.nonBooleanConstraints()) {
    Visit(**C);
  }
  for (const auto &C : FM.mixedConstraints()) {
    Visit(C->constraint());
  }
  if (!Err.empty()) {
    return Err;
  }
  for (auto *F : FM.unorderedFeatures()) {
    std::multiset<vf::Constraint *> G;
    std::multiset<vf::Constraint *> GI;
    std::multiset<vf::Constraint *> GE;
    for (auto *C : F->constraints()) {
      G.insert(C);
    }
    for (auto *C : F->implications()) {
      GI.insert(C);
    }
    for (auto *C : F->excludes()) {
      GE.insert(C);
    }
    auto N = F->getName().str();
    if (G != Want[F]) {
      return "feature " + N + " lists " + std::to_string(G.size()) +
             " constraint mentions, the model holds " +
             std::to_string(Want[F].size());
    }
    if (GI != WantI[F]) {
      return "implications listed for " + N + " differ from the model";
    }
    if (GE != WantE[F]) {
      return "excludes listed for " + N + " differ from the model";
    }
  }
  return "";
}

inline std::string integrity(const vf::FeatureModel &FM) {
  auto R = treeIntegrity(FM);
  return R.empty() ? constraintIntegrity(FM) : R;
}

} // namespace obs

#endif
