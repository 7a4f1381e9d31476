// C09: printing, parsing and cloning constraints preserve their meaning.
#include "cx.h"
#include "trees.h"

#include "vara/Feature/ConstraintParser.h"

namespace {
using namespace vara::feature;
using namespace trees;

void nodes(Constraint *C, std::set<void *> &Out) {
  Out.insert(C);
  if (auto *F = llvm::dyn_cast<PrimaryFeatureConstraint>(C)) {
    Out.insert(F->getFeature());
  }
  if (C->getKind() == Constraint::ConstraintKind::CK_NOT ||
      C->getKind() == Constraint::ConstraintKind::CK_NEG) {
    nodes(static_cast<UnaryConstraint *>(C)->getOperand(), Out);
  } else if (C->getKind() != Constraint::ConstraintKind::CK_FEATURE &&
             C->getKind() != Constraint::ConstraintKind::CK_INTEGER) {
    nodes(static_cast<BinaryConstraint *>(C)->getLeftOperand(), Out);
    nodes(static_cast<BinaryConstraint *>(C)->getRightOperand(), Out);
  }
}

struct Collect : ConstraintVisitor {
  std::vector<std::string> Leaves;
  bool visit(PrimaryFeatureConstraint *C) override {
    Leaves.push_back(C->getFeature()->getName().str());
    return true;
  }
  bool visit(PrimaryIntegerConstraint *C) override {
    Leaves.push_back(std::to_string(C->getValue()));
    return true;
  }
};

std::string unescape(const std::string &S) {
  std::string R;
  static const std::vector<std::pair<std::string, char>> E = {
      {"&amp;", '&'}, {"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'},
      {"&apos;", '\''}, {"&#39;", '\''}};
  for (size_t I = 0; I < S.size();) {
    if (S[I] == '<' || S[I] == '>') {
      return "<raw character in HTML>";
    }
    if (S[I] == '&') {
      bool Found = false;
      for (auto &[N, C] : E) {
        if (S.compare(I, N.size(), N) == 0) {
          R += C;
          I += N.size();
          Found = true;
          break;
        }
      }
      if (!Found) {
        return "<raw ampersand in HTML>";
      }
      continue;
    }
    R += S[I++];
  }
  return R;
}

mc::Suite suiteOf(const std::string &Name, const std::string &Bound,
                  uint64_t N, std::function<Built(uint64_t)> Make) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = Bound;
  S.N = N;
  S.Chunk = 8192;
  S.Describe = [=](uint64_t I) { return Make(I).Ast; };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    Built B = Make(I);
    C.state(B.Ast);
    C.check(obs::ast(B.C.get()) == B.Ast, "constructed tree differs");
    std::string Txt = B.C->toString();
    // Clone: same structure, own nodes, intact links.
    auto Cl = B.C->clone();
    C.trans(3);
    C.eq(obs::ast(Cl.get()), B.Ast, "clone");
    C.eq(obs::ast(B.C.get()), B.Ast, "original after cloning");
    C.eq(Cl->toString(), Txt, "text of the clone");
    for (auto *R : {B.C.get(), Cl.get()}) {
      auto L = obs::checkConstraintLinks(R, nullptr);
      C.check(L.empty(), L);
    }
    std::set<void *> A;
    std::set<void *> D;
    nodes(B.C.get(), A);
    nodes(Cl.get(), D);
    for (auto *P : D) {
      C.check(!A.count(P), "clone shares a node with the original");
    }
    // Visitor: every leaf once, in order.
    Collect V;
    C.check(Cl->accept(V), "visitor result");
    C.check(V.Leaves == B.Leaves, "visitor misses or reorders operands");
    // Text: parses back to the same meaning.
    auto P = ConstraintParser(Txt).buildConstraint();
    C.trans(2);
    C.check(P != nullptr, "printed text is rejected: " + Txt);
    C.eq(cx::normal(P.get()), B.Normal, "meaning of the text " + Txt);
    C.eq(P->toString(), Txt, "text printed again");
    C.eq(unescape(B.C->toHTML()), Txt, "HTML form");
    // Clone outlives its original.
    B.C.reset();
    C.eq(obs::ast(Cl.get()), B.Ast, "clone after destruction of the original");
  };
  return S;
}

mc::Suite suite(const std::string &Name, const std::string &Bound,
                std::vector<std::string> Leaf, unsigned Depth) {
  auto Sp = std::make_shared<Space>(std::move(Leaf), Depth);
  return suiteOf(Name,
                 Bound + ", all trees up to depth " + std::to_string(Depth),
                 Sp->Size.back(),
                 [=](uint64_t I) { return Sp->make(I, Depth); });
}

/// Deep trees in which every binary operator has a leaf as one operand.
mc::Suite spines(unsigned Depth) {
  Space Leafs({"A", "B"}, 0);
  uint64_t K = 2 + 2 * BinOps.size();
  return suiteOf("spines",
                 "all one-sided trees of depth " + std::to_string(Depth),
                 mc::ipow(K, Depth), [=](uint64_t I) {
                   mc::Digits D(I);
                   Built B = Leafs.make(0, 0);
                   for (unsigned L = 0; L < Depth; ++L) {
                     auto X = D.take(K);
                     Built N;
                     if (X < 2) {
                       const char *Op = X ? "~" : "!";
                       N.Ast = std::string("(") + Op + " " + B.Ast + ")";
                       N.Normal = std::string("(") + Op + " " + B.Normal + ")";
                       N.Leaves = B.Leaves;
                       if (X) {
                         N.C = std::make_unique<NegConstraint>(std::move(B.C));
                       } else {
                         N.C = std::make_unique<NotConstraint>(std::move(B.C));
                       }
                     } else {
                       size_t Op = (X - 2) / 2;
                       Built O = Leafs.make(1, 0);
                       Built &L1 = X & 1 ? O : B;
                       Built &R1 = X & 1 ? B : O;
                       N.Ast = std::string("(") + BinOps[Op] + " " + L1.Ast +
                               " " + R1.Ast + ")";
                       N.Normal =
                           Op == 14 ? "(=> " + L1.Normal + " (! " + R1.Normal +
                                          "))"
                                    : std::string("(") + BinOps[Op] + " " +
                                          L1.Normal + " " + R1.Normal + ")";
                       N.Leaves = L1.Leaves;
                       N.Leaves.insert(N.Leaves.end(), R1.Leaves.begin(),
                                       R1.Leaves.end());
                       N.C = bin(Op, std::move(L1.C), std::move(R1.C));
                     }
                     B = std::move(N);
                   }
                   return B;
                 });
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S;
  S.push_back(suite("small", "features and integers",
                    {"A", "bB_2", "3", "0", "-2", "-9223372036854775808",
                     "9223372036854775807"},
                    1));
  S.push_back(suite("trees", "a feature and a negative integer", {"A", "-2"},
                    2));
  S.push_back(suite("more", "features and integers",
                    T ? std::vector<std::string>{"A", "B", "3", "-2"}
                      : std::vector<std::string>{"A", "B", "3"},
                    2));
  S.push_back(spines(T ? 5 : 4));
  return mc::runChecks(Argc, Argv, "C09", S, {"obs::ast in src/obs.h"});
}
