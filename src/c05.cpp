// C05: models survive being written as XML and read again.
#include "cx.h"
#include "large.h"

#include "vara/Feature/ConstraintParser.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "vara/Feature/StepFunctionParser.h"

using namespace vara::feature;

namespace {

struct Group {
  bool Alt;
  std::vector<Feature *> Members;
};

/// What a model says, with the notations that XML does not distinguish made
/// equal: groups other than alternatives of all children are spelled as
/// constraints, exclusion as implication of the negation.
std::string normal(const FeatureModel &FM) {
  std::set<std::string> Cons;
  std::set<std::pair<std::string, std::string>> Excl;
  for (const auto &C : FM.booleanConstraints()) {
    if (auto *E = llvm::dyn_cast<ExcludesConstraint>(C->constraint())) {
      auto *L = llvm::dyn_cast<PrimaryFeatureConstraint>(E->getLeftOperand());
      auto *R = llvm::dyn_cast<PrimaryFeatureConstraint>(E->getRightOperand());
      if (L && R) {
        Excl.insert({L->getFeature()->getName().str(),
                     R->getFeature()->getName().str()});
      }
    }
    Cons.insert("B " + cx::normal(C->constraint()));
  }
  for (const auto &C : FM.nonBooleanConstraints()) {
    Cons.insert("N " + cx::normal(C->constraint()));
  }
  for (const auto &C : FM.mixedConstraints()) {
    Cons.insert(std::string("M ") + obs::req(C->req()) + " " +
                obs::kind(C->exprKind()) + " " + cx::normal(C->constraint()));
  }
  auto Excludes = [&](const std::vector<Feature *> &M) {
    for (auto *A : M) {
      for (auto *B : M) {
        if (A != B) {
          Cons.insert("B (=> " + A->getName().str() + " (! " +
                      B->getName().str() + "))");
        }
      }
    }
  };
  std::function<std::string(Feature *, int)> Show = [&](Feature *F,
                                                        int State) {
    // State: 0 mandatory, 1 optional, 2 in an alternative
    std::string Mark = obs::attrs(F);
    std::string Name = F->getName().str();
    // drop the optional flag obs::attrs shows behind the kind
    size_t P = Mark.find(':', Name.size());
    size_t Q = Mark.find_first_of("?{['0123456789-s", P + 4);
    if (F->isOptional() && Q != std::string::npos && Mark[Q] == '?') {
      Mark.erase(Q, 1);
    }
    Mark += State == 0 ? " mandatory" : State == 1 ? " optional" : "";
    std::vector<Feature *> Direct;
    std::vector<Group> Groups;
    size_t Count = 0;
    for (auto *C : F->children()) {
      if (auto *K = llvm::dyn_cast<Feature>(C)) {
        Direct.push_back(K);
        ++Count;
      } else if (auto *R = llvm::dyn_cast<Relationship>(C)) {
        Group G{R->getKind() == Relationship::RelationshipKind::RK_ALTERNATIVE};
        for (auto *M : R->children()) {
          G.Members.push_back(llvm::cast<Feature>(M));
        }
        auto Less = [](Feature *A, Feature *B) {
          return A->getName().lower() < B->getName().lower();
        };
        std::sort(G.Members.begin(), G.Members.end(), Less);
        Count += G.Members.size();
        Groups.push_back(G);
      }
    }
    // The documented notation of alternatives.
    if (Groups.empty() && Direct.size() > 1 &&
        std::all_of(Direct.begin(), Direct.end(), [&](Feature *A) {
          return !A->isOptional() &&
                 std::all_of(Direct.begin(), Direct.end(), [&](Feature *B) {
                   return A == B || (Excl.count({A->getName().str(),
                                                 B->getName().str()}) &&
                                     Excl.count({B->getName().str(),
                                                 A->getName().str()}));
                 });
        })) {
      Groups.push_back({true, Direct});
      Direct.clear();
    }
    std::vector<std::string> Kids;
    for (auto *C : Direct) {
      Kids.push_back(Show(C, C->isOptional()));
    }
    for (auto &G : Groups) {
      if (G.Members.size() == 1) {
        Kids.push_back(Show(G.Members[0], 0));
        continue;
      }
      if (G.Alt) {
        Excludes(G.Members);
      }
      if (G.Alt && G.Members.size() == Count) {
        std::vector<std::string> A;
        for (auto *M : G.Members) {
          A.push_back(Show(M, 2));
        }
        std::sort(A.begin(), A.end());
        Kids.push_back("ALT{" + obs::join(A) + "}");
        continue;
      }
      std::string Any;
      for (auto *M : G.Members) {
        Kids.push_back(Show(M, 1));
        Any = Any.empty() ? M->getName().str()
                          : "(| " + Any + " " + M->getName().str() + ")";
      }
      if (!Any.empty()) {
        Cons.insert("B (=> " + Name + " " + Any + ")");
      }
    }
    std::sort(Kids.begin(), Kids.end());
    return Kids.empty() ? Mark : Mark + "(" + obs::join(Kids) + ")";
  };
  std::string T = Show(FM.getRoot(), 0);
  return "name=" + FM.getName().str() + " path=" + FM.getPath().string() +
         " commit=" + FM.getCommit().str() + " " + T + " {" +
         obs::join({Cons.begin(), Cons.end()}, "; ") + "}";
}

void roundTrip(mc::Ctx &C, FeatureModel &FM) {
  std::string Before = obs::exactTree(FM.getRoot());
  std::string Want = normal(FM);
  auto Text = FeatureModelXmlWriter(FM).writeFeatureModel();
  C.trans();
  C.check(Text.has_value(), "model is not written");
  C.Note = *Text;
  C.eq(obs::exactTree(FM.getRoot()), Before, "model after writing");
  auto Again = FeatureModelXmlWriter(FM).writeFeatureModel();
  C.check(Again && *Again == *Text, "writing twice gives different texts");
  C.check(bool(FeatureModelXmlParser(*Text).verifyFeatureModel()),
          "written text is not accepted by the verifier");
  auto Read = FeatureModelXmlParser(*Text).buildFeatureModel();
  C.trans();
  C.check(Read != nullptr, "written text is not read");
  auto Bad = obs::integrity(*Read);
  C.check(Bad.empty(), Bad);
  std::string Got = normal(*Read);
  C.state(Got);
  C.eq(Got, Want, "model after reading what was written");
  auto Second = FeatureModelXmlWriter(*Read).writeFeatureModel();
  C.check(Second.has_value(), "re-read model is not written");
  auto Third = FeatureModelXmlParser(*Second).buildFeatureModel();
  C.trans(2);
  C.check(Third != nullptr, "second text is not read");
  C.eq(normal(*Third), Want, "model after a second round trip");
}

const std::vector<std::string> Names = {"root", "m", "B_2", "c", "a", "Z"};

mc::Suite trees(int N, int Groups, bool Kinds) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>();
  for (int I = 0; I <= N; ++I) {
    for (auto &S : gen::shapes(I, Groups)) {
      Sh->push_back(S);
    }
  }
  struct Case {
    uint64_t Shape;
    unsigned Opt;
    unsigned Num;
  };
  auto Cs = std::make_shared<std::vector<Case>>();
  for (uint64_t I = 0; I < Sh->size(); ++I) {
    unsigned M = 1u << (*Sh)[I].N;
    for (unsigned O = 0; O < M; ++O) {
      for (unsigned K = 0; K < (Kinds ? M : 1); ++K) {
        Cs->push_back({I, O, K});
      }
    }
  }
  mc::Suite S;
  S.Name = Kinds ? "trees" : "large-trees";
  S.Bound = "all trees with up to " + std::to_string(N) + " features, up to " +
            std::to_string(Groups) +
            " groups per feature, all optional flags" +
            (Kinds ? ", binary and numeric" : "");
  S.N = Cs->size();
  S.Describe = [=](uint64_t I) {
    auto X = (*Cs)[I];
    return (*Sh)[X.Shape].str(Names) + " optional " + std::to_string(X.Opt) +
           " numeric " + std::to_string(X.Num);
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = (*Cs)[I];
    auto FM = gen::build(
        (*Sh)[X.Shape], "root", [&](int J) -> std::unique_ptr<Feature> {
          bool Opt = X.Opt >> (J - 1) & 1;
          if (X.Num >> (J - 1) & 1) {
            return std::make_unique<NumericFeature>(
                Names[J], std::vector<int64_t>{1, 2}, Opt);
          }
          return std::make_unique<BinaryFeature>(Names[J], Opt);
        });
    C.check(FM != nullptr, "model is not built");
    roundTrip(C, *FM);
  };
  return S;
}

//===--------------------------------------------------------------------===//

FeatureSourceRange location(int I) {
  using R = FeatureSourceRange;
  switch (I) {
  case 1:
    return R("a.cpp", R::FeatureSourceLocation(1, 2),
             R::FeatureSourceLocation(3, 4));
  case 2:
    return R("d/b <&> c.cpp", R::FeatureSourceLocation(0, 0),
             R::FeatureSourceLocation(4000000, 7), R::Category::inessential);
  case 3:
    return R("a.cpp", R::FeatureSourceLocation(1, 2),
             R::FeatureSourceLocation(3, 4), R::Category::necessary,
             R::FeatureMemberOffset::createFeatureMemberOffset("N::C::x"));
  case 4:
    return R("a.cpp", R::FeatureSourceLocation(1, 2),
             R::FeatureSourceLocation(3, 4), R::Category::necessary,
             std::nullopt, R::FeatureRevisionRange("abc"));
  default:
    return R("", R::FeatureSourceLocation(9, 9), R::FeatureSourceLocation(9, 9),
             R::Category::inessential,
             R::FeatureMemberOffset::createFeatureMemberOffset("::y"),
             R::FeatureRevisionRange("abc", "def"));
  }
}
constexpr int NLoc = 6;

std::vector<FeatureSourceRange> locations(int I) {
  // none, one, or two locations
  std::vector<FeatureSourceRange> R;
  if (I % NLoc) {
    R.push_back(location(I % NLoc));
  }
  if (I / NLoc) {
    R.push_back(location(I / NLoc));
  }
  return R;
}

const std::vector<std::string> OutStrings = {
    "", "-x", "--long=value", "a b", "<&\"'>", "ends with blank ", "0", "\xc3\xa4"};
const std::vector<std::string> FeatureNames = {"a", "A", "a1_B", "Root",
                                               "x y", "<&>\"'", "base2", "7",
                                               "\xc3\xa4", "or"};
const std::vector<std::string> Steps = {
    "",        "x + 1",     "x * 2",     "2 ^ x", "x ^ 2",       "x + 0.125",
    "x * .005", "x + 13.37", "3 + y",    "0.1 * x", "x + 1000000",
    "x + 4503599627370497", "x + 0", "x * 1.0000001"};
const std::vector<NumericFeature::ValuesVariantType> Values = {
    std::pair<int64_t, int64_t>{0, 0},
    std::pair<int64_t, int64_t>{1, 10},
    std::pair<int64_t, int64_t>{-5, 5},
    std::pair<int64_t, int64_t>{INT64_MIN, INT64_MAX},
    std::pair<int64_t, int64_t>{3, -3},
    std::vector<int64_t>{0},
    std::vector<int64_t>{-1},
    std::vector<int64_t>{1, 2, 4},
    std::vector<int64_t>{4, -2, 4, 0},
    std::vector<int64_t>{2147483648, 7},
    std::vector<int64_t>{-2147483649, 2147483647, -2147483648},
    std::vector<int64_t>{INT64_MIN, INT64_MAX}};

mc::Suite attributes() {
  mc::Suite S;
  S.Name = "attributes";
  S.N = 2 * FeatureNames.size() * OutStrings.size() * NLoc * NLoc * 2;
  S.Bound = "a feature with every combination of name, kind, output string, up "
            "to two locations, optional flag";
  S.Describe = [](uint64_t I) {
    mc::Digits D(I);
    std::string R = D.take(2) ? "numeric " : "binary ";
    R += FeatureNames[D.take(FeatureNames.size())];
    R += " output '" + OutStrings[D.take(OutStrings.size())] + "' locations ";
    R += std::to_string(D.take(NLoc * NLoc));
    return R + (D.take(2) ? " optional" : "");
  };
  S.Run = [](uint64_t I, mc::Ctx &C) {
    mc::Digits D(I);
    bool Num = D.take(2);
    auto Name = FeatureNames[D.take(FeatureNames.size())];
    auto Out = OutStrings[D.take(OutStrings.size())];
    auto Loc = locations(D.take(NLoc * NLoc));
    bool Opt = D.take(2);
    gen::Shape Sh = gen::shapes(1, 0)[0];
    auto FM = gen::build(Sh, "base", [&](int) -> std::unique_ptr<Feature> {
      if (Num) {
        return std::make_unique<NumericFeature>(
            Name, std::vector<int64_t>{1, 2}, Opt, Loc, Out);
      }
      return std::make_unique<BinaryFeature>(Name, Opt, Loc, Out);
    });
    C.check(FM != nullptr, "model is not built");
    roundTrip(C, *FM);
  };
  return S;
}

mc::Suite numbers() {
  mc::Suite S;
  S.Name = "values";
  S.N = Values.size() * Steps.size() * 2;
  S.Bound = "a numeric feature with every combination of values, step function "
            "and output string";
  S.Describe = [](uint64_t I) {
    mc::Digits D(I);
    NumericFeature F("n", Values[D.take(Values.size())]);
    return "values " + obs::values(&F) + " step '" +
           Steps[D.take(Steps.size())] + "'";
  };
  S.Run = [](uint64_t I, mc::Ctx &C) {
    mc::Digits D(I);
    auto V = Values[D.take(Values.size())];
    auto St = Steps[D.take(Steps.size())];
    bool Out = D.take(2);
    gen::Shape Sh = gen::shapes(1, 0)[0];
    auto FM = gen::build(Sh, "root", [&](int) -> std::unique_ptr<Feature> {
      return std::make_unique<NumericFeature>(
          "n", V, false, std::vector<FeatureSourceRange>{}, Out ? "-n" : "",
          St.empty() ? nullptr : StepFunctionParser(St).buildStepFunction());
    });
    C.check(FM != nullptr, "model is not built");
    roundTrip(C, *FM);
  };
  return S;
}

mc::Suite metadata() {
  static const std::vector<std::string> VM = {"", "vm", "a b", "<&\"'>", "7"};
  static const std::vector<std::string> Path = {"", "p", "/a/b c/", "<&\"'>"};
  static const std::vector<std::string> Commit = {"", "deadbeef", "a b", "<&>"};
  static const std::vector<std::string> Root = {"root", "base"};
  mc::Suite S;
  S.Name = "metadata";
  S.N = VM.size() * Path.size() * Commit.size() * 2 * NLoc * NLoc;
  S.Bound = "every combination of model name, path, commit, root name and root "
            "locations";
  S.Describe = [](uint64_t I) {
    mc::Digits D(I);
    std::string R = "name '" + VM[D.take(VM.size())] + "'";
    R += " path '" + Path[D.take(Path.size())] + "'";
    R += " commit '" + Commit[D.take(Commit.size())] + "'";
    R += " root " + Root[D.take(2)];
    return R + " locations " + std::to_string(D.take(NLoc * NLoc));
  };
  S.Run = [](uint64_t I, mc::Ctx &C) {
    mc::Digits D(I);
    auto V = VM[D.take(VM.size())];
    auto P = Path[D.take(Path.size())];
    auto Co = Commit[D.take(Commit.size())];
    auto R = Root[D.take(2)];
    auto L = locations(D.take(NLoc * NLoc));
    auto FM = gen::build(gen::shapes(1, 0)[0], R, [&](int) {
      return std::make_unique<BinaryFeature>("a");
    });
    C.check(FM != nullptr, "model is not built");
    auto T = FeatureModelModifyTransaction::openTransaction(*FM);
    T.setName(V);
    T.setPath(P);
    T.setCommit(Co);
    for (auto &X : L) {
      T.addLocation(R, X);
    }
    C.check(bool(T.commit()), "edits are rejected");
    roundTrip(C, *FM);
  };
  return S;
}

//===--------------------------------------------------------------------===//

/// Constraint texts; "excl X Y" stands for an excludes constraint.
std::vector<std::string> conTexts() {
  std::vector<std::string> R;
  std::vector<std::string> L = {"a", "b", "n", "root"};
  for (auto &X : L) {
    for (auto &Y : L) {
      R.push_back("excl " + X + " " + Y);
      for (const char *Op : {"=>", "<=>", "|", "&", "^", "+", "<"}) {
        R.push_back("(" + X + " " + Op + " " + Y + ")");
      }
    }
  }
  for (const char *X :
       {"(a => !b)", "!(a | b)", "((a => b) & c)", "((a => b) => c)",
        "(a => (b => c))", "(!a => b)", "n > -3", "n * 2 = 4 - a",
        "n = -9223372036854775808", "~(a & b)", "((a + b) + c) <= 2", "a",
        "(n > 3) => a", "a => (n < 2)", "(a | b) => c", "(a => b) <=> (b => a)",
        "n / 2 >= 1"}) {
    R.push_back(X);
  }
  return R;
}

std::unique_ptr<Constraint> constraint(const std::string &T) {
  if (T.compare(0, 5, "excl ") == 0) {
    auto P = T.find(' ', 5);
    return std::make_unique<ExcludesConstraint>(
        ConstraintParser(T.substr(5, P - 5)).buildConstraint(),
        ConstraintParser(T.substr(P + 1)).buildConstraint());
  }
  return ConstraintParser(T).buildConstraint();
}

bool addConstraint(FeatureModel &FM, const std::string &T, int Cat) {
  using M = FeatureModel::MixedConstraint;
  auto C = constraint(T);
  if (!C) {
    return false;
  }
  switch (Cat) {
  case 0:
    return gen::add(FM, std::make_unique<FeatureModel::BooleanConstraint>(
                            std::move(C)));
  case 1:
    return gen::add(FM, std::make_unique<FeatureModel::NonBooleanConstraint>(
                            std::move(C)));
  default:
    return gen::add(FM, std::make_unique<M>(
                            std::move(C), Cat & 1 ? M::Req::ALL : M::Req::NONE,
                            Cat & 2 ? M::ExprKind::POS : M::ExprKind::NEG));
  }
}
constexpr int NCat = 6;

/// root(a, b, c(n)), optionally with the group {a, b} or all of {a, b, c}.
std::unique_ptr<FeatureModel> conModel(int Variant) {
  gen::Shape Sh;
  Sh.N = 4;
  Sh.Parent = {0, 0, 0, 0, 3};
  Sh.Slot.assign(5, 0);
  Sh.Kind.assign(10, 0);
  if (Variant) {
    Sh.Slot[1] = Sh.Slot[2] = 1;
    Sh.Slot[3] = Variant == 2;
    Sh.Kind[0] = Variant == 3 ? 2 : 1;
  }
  return gen::build(Sh, "root", [&](int J) -> std::unique_ptr<Feature> {
    static const char *N[] = {"", "a", "b", "c", "n"};
    if (J == 4) {
      return std::make_unique<NumericFeature>(N[J],
                                              std::vector<int64_t>{1, 2, 3});
    }
    return std::make_unique<BinaryFeature>(N[J]);
  });
}

mc::Suite constraints(bool Pairs) {
  auto T = std::make_shared<std::vector<std::string>>(conTexts());
  uint64_t K = T->size() * NCat;
  // quick: the first one is a boolean constraint between two features
  auto First = std::make_shared<std::vector<uint64_t>>();
  for (uint64_t I = 0; I < K; ++I) {
    auto &X = (*T)[I / NCat];
    if (mc::thorough() ||
        (I % NCat == 0 && (X == "excl a b" || X == "excl b a" ||
                           X == "excl a a" || X == "excl a n" ||
                           X == "(a => b)" || X == "(b => a)" ||
                           X == "(a => a)" || X == "(root => a)" ||
                           X == "(a | b)" || X == "(a => !b)"))) {
      First->push_back(I);
    }
  }
  uint64_t F = First->size();
  mc::Suite S;
  S.Name = Pairs ? "constraint-pairs" : "constraints";
  S.Bound = Pairs ? "pairs of " + std::to_string(F) + " and " + std::to_string(K) +
                        " constraints (with category)"
                  : "all constraints in all categories, over four models";
  S.N = Pairs ? F * K : K * 4;
  auto One = [T](uint64_t I) {
    static const char *Cat[] = {"boolean",        "non-boolean",
                                "mixed none neg", "mixed all neg",
                                "mixed none pos", "mixed all pos"};
    return std::string(Cat[I % NCat]) + " " + (*T)[I / NCat];
  };
  S.Describe = [=](uint64_t I) {
    return One(I % K) + (Pairs ? "; after " + One((*First)[I / K])
                               : " over model " + std::to_string(I / K));
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto FM = conModel(Pairs ? 0 : int(I / K));
    C.check(FM != nullptr, "model is not built");
    if (Pairs) {
      uint64_t A = (*First)[I / K];
      C.check(addConstraint(*FM, (*T)[A / NCat], int(A % NCat)),
              "first constraint is rejected");
    }
    C.check(addConstraint(*FM, (*T)[I % K / NCat], int(I % NCat)),
            "constraint is rejected");
    roundTrip(C, *FM);
  };
  return S;
}

/// Any set of exclusions between the children of the root.
mc::Suite exclusions() {
  mc::Suite S;
  S.Name = "exclusions";
  S.N = 512 * 8 * 4;
  S.Bound = "all sets of exclusions between three features, all optional flags, "
            "with and without groups";
  S.Describe = [](uint64_t I) {
    return "exclusions " + std::to_string(I % 512) + " optional " +
           std::to_string(I / 512 % 8) + " variant " + std::to_string(I / 4096);
  };
  S.Run = [](uint64_t I, mc::Ctx &C) {
    static const char *N[] = {"a", "b", "c"};
    int V = int(I / 4096);
    gen::Shape Sh;
    Sh.N = 3;
    Sh.Parent = {0, 0, 0, 0};
    Sh.Slot = {0, V != 0, V != 0, V == 2};
    Sh.Kind.assign(8, 0);
    Sh.Kind[0] = V == 0 ? 0 : V == 3 ? 2 : 1;
    auto FM = gen::build(Sh, "root", [&](int J) {
      return std::make_unique<BinaryFeature>(N[J - 1],
                                             I / 512 >> (J - 1) & 1);
    });
    C.check(FM != nullptr, "model is not built");
    for (int E = 0; E < 9; ++E) {
      if (I >> E & 1) {
        C.check(addConstraint(*FM,
                              std::string("excl ") + N[E / 3] + " " + N[E % 3],
                              0),
                "constraint is rejected");
      }
    }
    roundTrip(C, *FM);
  };
  return S;
}

/// All combinations of the parts of a location, at features of all kinds.
mc::Suite parts() {
  using R = FeatureSourceRange;
  struct Case {
    int Kind, Second;
    FeatureSourceRange L;
  };
  auto Get = [](uint64_t I) {
    static const std::string Paths[] = {"a.cpp", "d/b c", "<&"};
    static const R::FeatureSourceLocation From[] = {{1, 2}, {0, 0}};
    static const R::FeatureSourceLocation To[] = {{1, 2}, {2147483647, 9}};
    mc::Digits D(I);
    int Kind = int(D.take(3));
    int Second = int(D.take(3));
    auto Path = Paths[D.take(3)];
    auto Start = From[D.take(2)];
    auto End = To[D.take(2)];
    auto Category = D.take(2) ? R::Category::inessential : R::Category::necessary;
    auto Member = D.take(3);
    auto Revision = D.take(3);
    std::optional<R::FeatureRevisionRange> Rev;
    if (Revision) {
      Rev = Revision == 1 ? R::FeatureRevisionRange("abc")
                          : R::FeatureRevisionRange("abc", "de f");
    }
    return Case{Kind, Second,
                R(Path, Start, End, Category,
                  Member ? R::FeatureMemberOffset::createFeatureMemberOffset(
                               Member == 1 ? "C::x" : "::N::y")
                         : std::nullopt,
                  Rev)};
  };
  mc::Suite S;
  S.Name = "parts";
  S.N = 3 * 3 * 3 * 2 * 2 * 2 * 3 * 3;
  S.Bound = "a location with every combination of path, start, end, category, "
            "member and revisions, alone, before or after another one, at the "
            "root, a binary or a numeric feature";
  S.Describe = [=](uint64_t I) {
    auto X = Get(I);
    return "kind " + std::to_string(X.Kind) + " second " +
           std::to_string(X.Second) + " " + X.L.toString();
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = Get(I);
    std::vector<FeatureSourceRange> L = {X.L};
    if (X.Second) {
      L.insert(X.Second == 1 ? L.begin() : L.end(), location(5));
    }
    auto FM = gen::build(
        gen::shapes(1, 0)[0], "root", [&](int) -> std::unique_ptr<Feature> {
          if (X.Kind == 2) {
            return std::make_unique<NumericFeature>(
                "n", std::vector<int64_t>{1, 2}, true, L);
          }
          return std::make_unique<BinaryFeature>(
              "a", true,
              X.Kind ? L : std::vector<FeatureSourceRange>{});
        });
    C.check(FM != nullptr, "model is not built");
    if (X.Kind == 0) {
      for (auto &Y : L) {
        FM->getRoot()->addLocation(Y);
      }
    }
    roundTrip(C, *FM);
  };
  return S;
}

/// Contents at every place of small trees.
mc::Suite contents() {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(gen::shapes(2, 1));
  mc::Suite S;
  S.Name = "contents";
  S.N = Sh->size() * 4 * 4 * 8 * 2 * 2 * 4;
  S.Bound = "all trees of two features with at most one group each, binary or "
            "numeric, optional or mandatory, with and without locations at "
            "every feature, output strings, step functions and a constraint";
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    std::array<int, 7> X;
    X[0] = D.take(4); // kinds
    X[1] = D.take(4); // optional
    X[2] = D.take(8); // locations
    X[3] = D.take(2); // output strings
    X[4] = D.take(2); // step functions
    X[5] = D.take(4); // constraint
    X[6] = D.take(Sh->size());
    return X;
  };
  S.Describe = [=](uint64_t I) {
    auto X = Get(I);
    std::string R = (*Sh)[X[6]].str(Names);
    for (int K : X) {
      R += " " + std::to_string(K);
    }
    return R;
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = Get(I);
    auto FM = gen::build(
        (*Sh)[X[6]], "root", [&](int J) -> std::unique_ptr<Feature> {
          bool Opt = X[1] >> (J - 1) & 1;
          auto L = X[2] >> J & 1 ? locations(J * NLoc + 1)
                                 : std::vector<FeatureSourceRange>{};
          auto Out = X[3] ? "-" + Names[J] : "";
          if (X[0] >> (J - 1) & 1) {
            return std::make_unique<NumericFeature>(
                Names[J], std::pair<int64_t, int64_t>{-1, 3 * J}, Opt, L, Out,
                X[4] ? StepFunctionParser("x + 2").buildStepFunction()
                     : nullptr);
          }
          return std::make_unique<BinaryFeature>(Names[J], Opt, L, Out);
        });
    C.check(FM != nullptr, "model is not built");
    if (X[2] & 1) {
      FM->getRoot()->addLocation(location(3));
    }
    static const std::vector<std::string> Con = {"", "m => B_2", "excl B_2 m", "m | !B_2"};
    if (X[5]) {
      C.check(addConstraint(*FM, Con[X[5]], 0), "constraint is rejected");
    }
    roundTrip(C, *FM);
  };
  return S;
}

/// Larger regular trees, with contents everywhere.
mc::Suite largeOnes(const std::vector<int> &Sizes) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(large::shapes(Sizes));
  mc::Suite S;
  S.Name = "large";
  S.N = Sh->size() * 4;
  S.Bound = large::bound(Sizes) +
            ", with several patterns of optional and numeric features, output "
            "strings and locations, and constraints between neighbours";
  auto Get = [=](uint64_t I) { return (*Sh)[I / 4]; };
  S.Describe = [=](uint64_t I) {
    auto X = Get(I);
    return X.str(large::names(X.N)) + " pattern " + std::to_string(I % 4);
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = Get(I);
    auto Names = large::names(X.N);
    int V = int(I % 4);
    auto FM = gen::build(X, "root", [&](int J) -> std::unique_ptr<Feature> {
      bool Opt = V == 0 || (V == 2 && J % 2) || (V == 3 && J % 3);
      std::string Out = (J + V) % 3 ? "-" + Names[J] : "";
      if (V && J % (V + 2) == 1) {
        return std::make_unique<NumericFeature>(
            Names[J],
            J % 2 ? NumericFeature::ValuesVariantType(
                        std::vector<int64_t>{J, -J, 7 * J})
                  : NumericFeature::ValuesVariantType(
                        std::pair<int64_t, int64_t>{-J, J}),
            Opt, locations((J + V) % (NLoc * NLoc)), Out,
            J % 4 ? std::make_unique<StepFunction>(
                        StepFunction::StepOperation::ADDITION, 2.0)
                  : nullptr);
      }
      return std::make_unique<BinaryFeature>(
          Names[J], Opt, locations(J * 5 % (NLoc * NLoc)), Out);
    });
    C.check(FM != nullptr, "model is not built");
    for (int J = 2; J <= X.N; ++J) {
      std::string A = Names[J - 1];
      std::string B = Names[J];
      C.check(addConstraint(*FM, J % 3 == 0   ? "!(" + A + " & " + B + ")"
                                 : J % 3 == 1 ? "excl " + A + " " + B
                                              : A + " => " + B,
                            0),
              "constraint is rejected");
    }
    roundTrip(C, *FM);
  };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  return mc::runChecks(
      Argc, Argv, "C05",
      {trees(3, 2, true), trees(T ? 5 : 4, T ? 2 : 1, false), attributes(),
       numbers(), metadata(), constraints(false), constraints(true),
       exclusions(), parts(), contents(),
       largeOnes(T ? std::vector<int>{5, 6, 7, 9, 12, 17, 21}
                   : std::vector<int>{6, 12})},
      {"root called root or base, no other feature of that name",
       "feature names in constraints are identifiers, names without leading or "
       "trailing blanks, output strings without leading blanks",
       "value lists are not empty, locations have start and end, step functions "
       "are expressible in their own language"});
}
