// C30: casts tell every kind of node apart, and visitors reach every operand.
#include "gen.h"
#include "trees.h"

namespace {
using namespace vara::feature;
using namespace trees;
using K = Constraint::ConstraintKind;
using Strs = std::vector<std::string>;

/// The classes of constraints, each with the operator that obs::ast uses.
struct Class {
  const char *Name;
  const char *Op;
  std::function<bool(Constraint *)> Is;
};
template <class T> Class cls(const char *N, const char *O) {
  return {N, O, [](Constraint *C) {
            auto *P = llvm::dyn_cast<T>(C);
            if (P && static_cast<Constraint *>(P) != C) {
              throw mc::Failure("a cast delivers another object");
            }
            if (bool(P) != llvm::isa<T>(C)) {
              throw mc::Failure("isa and dyn_cast disagree");
            }
            return P != nullptr;
          }};
}
const std::vector<Class> &classes() {
#define MC_CLS(O, T) cls<T##Constraint>(#T "Constraint", O)
  static const std::vector<Class> L = {
      MC_CLS("+", Addition),       MC_CLS("-", Subtraction),
      MC_CLS("*", Multiplication), MC_CLS("/", Division),
      MC_CLS("<", Less),           MC_CLS("<=", LessEqual),
      MC_CLS(">", Greater),        MC_CLS(">=", GreaterEqual),
      MC_CLS("=", Equal),          MC_CLS("!=", NotEqual),
      MC_CLS("&", And),            MC_CLS("|", Or),
      MC_CLS("^", Xor),            MC_CLS("=>", Implies),
      MC_CLS("excl", Excludes),    MC_CLS("<=>", Equivalence),
      MC_CLS("!", Not),            MC_CLS("~", Neg),
      MC_CLS("#", PrimaryInteger), MC_CLS("F", PrimaryFeature)};
#undef MC_CLS
  return L;
}

/// Reference tree, read from the notation of obs::ast.
struct Ref {
  std::string Op; // "#" and "F" for leaves
  std::string Text;
  std::vector<Ref> Kids;
};
Ref parse(const std::string &S, size_t &P) {
  Ref R;
  size_t B = P;
  if (S[P] != '(') {
    while (P < S.size() && S[P] != ' ' && S[P] != ')') {
      ++P;
    }
    R.Text = S.substr(B, P - B);
    R.Op = isdigit(R.Text.back()) && (isdigit(R.Text[0]) || R.Text[0] == '-')
               ? "#"
               : "F";
    return R;
  }
  size_t E = S.find(' ', P);
  R.Op = S.substr(P + 1, E - P - 1);
  P = E;
  while (S[P] == ' ') {
    ++P;
    R.Kids.push_back(parse(S, P));
  }
  ++P;
  R.Text = S.substr(B, P - B);
  return R;
}

/// How a visitor redefines the overloads.
enum Mode {
  Leaves,    // only those of leaves
  Nothing,   // none
  Entering,  // all, records and continues
  CutBinary, // stops at binary nodes
  CutUnary,  // stops at unary nodes
  OnlyFeatures,
  OnlyIntegers,
  Modes
};

struct Recorder : ConstraintVisitor {
  int M;
  unsigned Answers; // bit I: verdict of the I-th recorded operand
  unsigned Count = 0;
  Strs Trace;

  Recorder(int M, unsigned Answers) : M(M), Answers(Answers) {}
  bool answer() { return (Answers >> (Count++ % 16)) & 1; }

  bool visit(BinaryConstraint *C) override {
    if (M == Entering) {
      Trace.push_back("binary " + obs::ast(C));
    }
    if (M == CutBinary) {
      Trace.push_back("binary " + obs::ast(C));
      return answer();
    }
    return ConstraintVisitor::visit(C);
  }
  bool visit(UnaryConstraint *C) override {
    if (M == Entering) {
      Trace.push_back("unary " + obs::ast(C));
    }
    if (M == CutUnary) {
      Trace.push_back("unary " + obs::ast(C));
      return answer();
    }
    return ConstraintVisitor::visit(C);
  }
  bool visit(PrimaryIntegerConstraint *C) override {
    if (M == Nothing || M == OnlyFeatures) {
      return ConstraintVisitor::visit(C);
    }
    Trace.push_back("integer " + std::to_string(C->getValue()));
    return answer();
  }
  bool visit(PrimaryFeatureConstraint *C) override {
    if (M == Nothing || M == OnlyIntegers) {
      return ConstraintVisitor::visit(C);
    }
    Trace.push_back("feature " + C->getFeature()->getName().str());
    return answer();
  }
};

bool expect(const Ref &R, int M, unsigned Answers, unsigned &Count, Strs &T) {
  auto Answer = [&] { return bool((Answers >> (Count++ % 16)) & 1); };
  if (R.Kids.empty()) {
    bool Int = R.Op == "#";
    if (M == Nothing || M == (Int ? OnlyFeatures : OnlyIntegers)) {
      return true;
    }
    T.push_back((Int ? "integer " : "feature ") + R.Text);
    return Answer();
  }
  bool Unary = R.Kids.size() == 1;
  auto Line = (Unary ? "unary " : "binary ") + R.Text;
  if (M == Entering) {
    T.push_back(Line);
  }
  if (M == (Unary ? CutUnary : CutBinary)) {
    T.push_back(Line);
    return Answer();
  }
  bool All = true;
  for (auto &X : R.Kids) {
    All &= expect(X, M, Answers, Count, T);
  }
  return All;
}

void walk(mc::Ctx &C, Constraint *N, const Ref &R, Constraint *Parent,
          Constraint *Root) {
  for (auto &X : classes()) {
    bool Is = X.Is(N);
    C.checkf(Is == (R.Op == X.Op), [&] {
      return R.Text + (Is ? " is cast to " : " is not cast to ") + X.Name;
    });
  }
  C.trans(classes().size());
  C.check(N->getParent() == Parent, "parent of " + R.Text);
  C.check(N->getRoot() == Root, "root of " + R.Text);
  for (int M = 0; M < Modes; ++M) {
    // as many verdicts as operands may be recorded
    unsigned Count = 0;
    Strs Want;
    expect(R, M, ~0U, Count, Want);
    for (unsigned A = 0; A < (1U << Count); ++A) {
      Recorder V(M, A);
      bool Got = N->accept(V);
      C.trans();
      Count = 0;
      Want.clear();
      bool All = expect(R, M, A, Count, Want);
      C.checkf(V.Trace == Want, [&] {
        return "visit of " + R.Text + " in mode " + std::to_string(M) +
               "\n  observed: " + obs::join(V.Trace, "; ") +
               "\n  expected: " + obs::join(Want, "; ");
      });
      C.checkf(Got == All, [&] {
        return "verdict on " + R.Text + " with answers " + std::to_string(A);
      });
    }
  }
  if (R.Kids.size() == 1) {
    walk(C, static_cast<UnaryConstraint *>(N)->getOperand(), R.Kids[0], N,
         Root);
  } else if (R.Kids.size() == 2) {
    auto *B = static_cast<BinaryConstraint *>(N);
    walk(C, B->getLeftOperand(), R.Kids[0], N, Root);
    walk(C, B->getRightOperand(), R.Kids[1], N, Root);
  }
}

mc::Suite constraints(const std::string &Name, Strs Leaf, unsigned Depth) {
  auto Sp = std::make_shared<Space>(std::move(Leaf), Depth);
  mc::Suite S;
  S.Name = Name;
  S.Bound = "all constraint trees up to depth " + std::to_string(Depth) +
            ", original and clone; at every node all casts, and visitors that "
            "redefine seven sets of overloads with every pattern of verdicts";
  S.N = Sp->Size.back();
  S.Describe = [=](uint64_t I) { return Sp->make(I, Depth).Ast; };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto B = Sp->make(I, Depth);
    size_t P = 0;
    Ref R = parse(B.Ast, P);
    C.state(B.Ast);
    walk(C, B.C.get(), R, nullptr, B.C.get());
    auto Cl = B.C->clone();
    walk(C, Cl.get(), R, nullptr, Cl.get());
    // as an operand of a larger constraint
    Constraint *Sub = Cl.get();
    NotConstraint Outer(std::move(Cl));
    walk(C, Sub, R, &Outer, &Outer);
  };
  S.Chunk = 512;
  return S;
}

//===-- Nodes of feature models ----------------------------------------===//

enum FKind { Binary, Numbers, Range, PlainKind, FKinds };

std::unique_ptr<Feature> make(const std::string &N, int V) {
  switch (V) {
  case Binary:
    return std::make_unique<BinaryFeature>(N, true);
  case Numbers:
    return std::make_unique<NumericFeature>(N, std::vector<int64_t>{1, 2});
  case Range:
    return std::make_unique<NumericFeature>(
        N, std::pair<int64_t, int64_t>(1, 2));
  default:
    return std::make_unique<Feature>(N);
  }
}

void casts(mc::Ctx &C, FeatureTreeNode *N, bool IsF, int V) {
  C.trans(5);
  auto What = IsF ? "feature " + llvm::cast<Feature>(N)->getName().str()
                  : std::string("a group");
  C.check(llvm::isa<Feature>(N) == IsF, What + ": cast to Feature");
  C.check(llvm::isa<Relationship>(N) == !IsF, What + ": cast to Relationship");
  C.check(N->getKind() == (IsF ? FeatureTreeNode::NodeKind::NK_FEATURE
                               : FeatureTreeNode::NodeKind::NK_RELATIONSHIP),
          What + ": kind of node");
  if (!IsF) {
    return;
  }
  auto *F = llvm::cast<Feature>(N);
  C.check(llvm::isa<RootFeature>(F) == (V < 0), What + ": cast to RootFeature");
  C.check(llvm::isa<BinaryFeature>(F) == (V == Binary),
          What + ": cast to BinaryFeature");
  C.check(llvm::isa<NumericFeature>(F) == (V == Numbers || V == Range),
          What + ": cast to NumericFeature");
  using FK = Feature::FeatureKind;
  C.check(F->getKind() == (V < 0            ? FK::FK_ROOT
                           : V == Binary    ? FK::FK_BINARY
                           : V == PlainKind ? FK::FK_UNKNOWN
                                            : FK::FK_NUMERIC),
          What + ": kind of feature");
}

mc::Suite models(int Max) {
  struct Case {
    gen::Shape S;
    int Kinds;
  };
  auto L = std::make_shared<std::vector<Case>>();
  for (int N = 0; N <= Max; ++N) {
    for (auto &Sh : gen::shapes(N, 2)) {
      for (int X = 0; X < int(mc::ipow(FKinds, N)); ++X) {
        L->push_back({Sh, X});
      }
    }
  }
  mc::Suite S;
  S.Name = "nodes";
  S.Bound = "all models of up to " + std::to_string(Max) +
            " features of every kind, with up to two groups per feature, "
            "original and clone";
  S.N = L->size();
  S.Describe = [=](uint64_t I) {
    auto &X = (*L)[I];
    mc::Digits D(X.Kinds);
    Strs Names = {"root"};
    const char *T[] = {"binary", "list", "range", "plain"};
    for (int N = 1; N <= X.S.N; ++N) {
      Names.push_back("f" + std::to_string(N) + ":" + T[D.take(FKinds)]);
    }
    return X.S.str(Names);
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto &X = (*L)[I];
    mc::Digits D(X.Kinds);
    std::map<std::string, int> Kind = {{"root", -1}};
    std::vector<int> V = {-1};
    for (int N = 1; N <= X.S.N; ++N) {
      V.push_back(int(D.take(FKinds)));
      Kind["f" + std::to_string(N)] = V.back();
    }
    auto FM = gen::build(X.S, "root", [&](int N) {
      return make("f" + std::to_string(N), V[N]);
    });
    C.check(FM != nullptr, "model is not built");
    auto Cl = FM->clone();
    for (auto *M : {FM.get(), Cl.get()}) {
      std::set<FeatureTreeNode *> Groups;
      size_t Seen = 0;
      std::function<void(FeatureTreeNode *)> Walk = [&](FeatureTreeNode *N) {
        auto *F = dynamic_cast<Feature *>(N);
        if (F) {
          ++Seen;
        } else {
          Groups.insert(N);
        }
        casts(C, N, F, F ? Kind.at(F->getName().str()) : 0);
        for (auto *K : N->children()) {
          Walk(K);
        }
      };
      Walk(M->getRoot());
      C.eq(Seen, size_t(X.S.N + 1), "number of features");
      size_t Want = 0;
      for (int G : X.S.Kind) {
        Want += G != 0;
      }
      C.eq(Groups.size(), Want, "number of groups");
    }
    C.state(obs::model(*FM));
  };
  S.Chunk = 512;
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S;
  S.push_back(constraints("small", {"A", "B", "0", "-3"}, 1));
  S.push_back(constraints("trees", {"A", "-2"}, 2));
  if (T) {
    S.push_back(constraints("more", {"A", "B", "-2"}, 2));
  }
  S.push_back(models(T ? 4 : 3));
  return mc::runChecks(Argc, Argv, "C30", S, {"obs::ast in src/obs.h"});
}
