// C20: solver sessions answer for exactly the features and constraints added.
// NEEDS: solver
//
// Explicit-state exploration of sessions with one solver: breadth-first over
// the states of a reference session; from every state every call is executed
// on the real solver, whose configurations are enumerated completely after it.
#include "solrun.h"

#include "vara/Solver/SolverFactory.h"
#include "vara/Solver/Z3Solver.h"

namespace {

using namespace vara::solver;
using sol::Strs;
namespace vf = vara::feature;

// --- the objects the calls are about --------------------------------------

struct Node {
  const char *Name;
  const char *Parent; // "" for none
  bool Optional;
  std::vector<int64_t> Vals; // numeric if not empty
};
const std::vector<Node> Nodes = {
    {"root", "", false, {}},       {"a", "root", true, {}},
    {"m", "root", false, {}},      {"b", "a", false, {}},
    {"n", "root", false, {1, 2}},  {"c", "n", true, {}},
    {"d", "m", false, {}},         {"e", "m", false, {}},
    {"f", "c", true, {}},          {"g", "c", true, {}},
    {"q", "b", false, {0, 5}},     {"o", "", true, {}},
    {"k", "n", false, {}},         {"p", "", false, {}},
    {"u", "", false, {3}}};

const Node &node(const std::string &N) {
  for (auto &X : Nodes) {
    if (N == X.Name) {
      return X;
    }
  }
  return Nodes.back();
}

struct Group {
  const char *Parent;
  int Kind; // 1 ALT, 2 OR
  Strs Members;
};
const std::vector<Group> Groups = {{"m", 1, {"d", "e"}},
                                   {"c", 2, {"f", "g"}},
                                   {"b", 1, {"q"}},
                                   {"n", 1, {"c", "k"}},
                                   {"", 2, {}}}; // without parent

/// The real objects.
struct World {
  std::unique_ptr<vf::FeatureModel> FM;
  vf::BinaryFeature Orphan{"o", true};
  vf::NumericFeature Number{"u", std::vector<int64_t>{3}, false};
  vf::Feature Plain{"p"}; // of unknown kind
  vf::Relationship NoParent{vf::Relationship::RelationshipKind::RK_OR};
  std::vector<std::unique_ptr<vf::Feature>> Loose; // mentioned in constraints

  World() {
    vf::FeatureModelBuilder B;
    B.makeRoot("root");
    FM = B.buildFeatureModel();
    std::map<std::string, vf::Feature *> F{{"root", FM->getRoot()}};
    auto Add = [&](const Node &N) {
      auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
      std::unique_ptr<vf::Feature> X;
      if (N.Vals.empty()) {
        X = std::make_unique<vf::BinaryFeature>(N.Name, N.Optional);
      } else {
        X = std::make_unique<vf::NumericFeature>(N.Name, N.Vals, N.Optional);
      }
      F[N.Name] = X.get();
      T.addFeature(std::move(X), F[N.Parent]);
      if (!T.commit()) {
        throw mc::Failure("cannot build the fixture");
      }
    };
    for (auto &N : Nodes) {
      if (*N.Parent) {
        Add(N);
      }
    }
    for (auto &G : Groups) {
      if (G.Members.empty()) {
        continue;
      }
      auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
      T.addRelationship(G.Kind == 1
                            ? vf::Relationship::RelationshipKind::RK_ALTERNATIVE
                            : vf::Relationship::RelationshipKind::RK_OR,
                        F[G.Parent]);
      if (!T.commit()) {
        throw mc::Failure("cannot build the fixture");
      }
    }
  }
  vf::Feature *feature(const std::string &N) {
    return N == "p"   ? &Plain
           : N == "o" ? static_cast<vf::Feature *>(&Orphan)
           : N == "u" ? static_cast<vf::Feature *>(&Number)
                      : FM->getFeature(N);
  }
  vf::Relationship *relationship(const Group &G) {
    if (G.Members.empty()) {
      return &NoParent;
    }
    for (auto *C : FM->getFeature(G.Parent)->children()) {
      if (auto *R = llvm::dyn_cast<vf::Relationship>(C)) {
        return R;
      }
    }
    throw mc::Failure("the fixture lacks a group");
  }
};

// --- calls -----------------------------------------------------------------

enum Kind { Feat, Grouped, Named, Numbers, Rel, Cons, Remove, Has, Next, Cur };
struct Op {
  Kind K;
  std::string Name;          // feature
  std::vector<int64_t> Vals; // Numbers
  int G = 0;                 // Rel
  sol::Con C;                // Cons

  std::string str() const {
    switch (K) {
    case Feat:
      return "addFeature(<" + Name + ">)";
    case Grouped:
      return "addFeature(<" + Name + ">, true)";
    case Named:
      return "addFeature(\"" + Name + "\")";
    case Numbers: {
      std::string R = "addFeature(\"" + Name + "\", {";
      for (auto V : Vals) {
        R += std::to_string(V) + ",";
      }
      return R + "})";
    }
    case Rel:
      return "addRelationship(of " + std::string(Groups[G].Parent) + ")";
    case Cons:
      return "add " + C.str();
    case Remove:
      return "removeFeature(<" + Name + ">)";
    case Has:
      return "hasValidConfigurations()";
    case Next:
      return "getNextConfiguration()";
    case Cur:
      return "getCurrentConfiguration()";
    }
    return "";
  }
};
Op feat(const char *N) { return {Feat, N}; }
Op grouped(const char *N) { return {Grouped, N}; }
Op named(const char *N) { return {Named, N}; }
Op numbers(const char *N, std::vector<int64_t> V) { return {Numbers, N, V}; }
Op rel(int G) { return {Rel, "", {}, G}; }
Op cons(const char *T, int Cat = 0) { return {Cons, "", {}, 0, {T, Cat}}; }
Op query(Kind K) { return {K, ""}; }

// --- reference session -----------------------------------------------------

using Codes = std::set<int>; // errors that apply; none: success

struct State {
  std::map<std::string, std::optional<std::vector<int64_t>>> Vars;
  std::set<std::string> Rules;       // texts of rules of the tree
  std::vector<sol::Con> Added;       // constraints
  std::vector<size_t> Nexts;         // variables known at each query
  bool Started = false;
  std::vector<sol::Assignment> Done; // configurations delivered

  std::string key() const {
    std::string R;
    for (auto &[N, V] : Vars) {
      R += N;
      if (V) {
        for (auto X : *V) {
          R += ":" + std::to_string(X);
        }
      }
      R += ";";
    }
    for (auto &X : Rules) {
      R += X + ";";
    }
    std::set<std::string> A;
    for (auto &C : Added) {
      A.insert(C.str());
    }
    for (auto &X : A) {
      R += X + ";";
    }
    for (auto X : Nexts) {
      R += " " + std::to_string(X);
    }
    return R;
  }
  std::map<std::string, sol::Type> types() const {
    std::map<std::string, sol::Type> T;
    for (auto &[N, V] : Vars) {
      T[N] = V ? sol::Type::Int : sol::Type::Bool;
    }
    return T;
  }
  bool isBool(const std::string &N) const {
    auto I = Vars.find(N);
    return I != Vars.end() && !I->second;
  }

  /// Closest parent that can be selected; "" if there is none.
  static std::string above(const std::string &N) {
    std::string P = node(N).Parent;
    while (!P.empty() && !node(P).Vals.empty()) {
      P = node(P).Parent;
    }
    return P;
  }

  /// Effect of a call that is no query.
  Codes apply(const Op &O) {
    Codes E;
    switch (O.K) {
    case Feat:
    case Grouped: {
      auto &N = node(O.Name);
      if (Vars.count(O.Name)) {
        E.insert(ALREADY_PRESENT);
      }
      if (*N.Parent && !Vars.count(N.Parent)) {
        E.insert(PARENT_NOT_PRESENT);
      }
      auto P = above(O.Name);
      bool Binary = N.Vals.empty() && O.Name != "root";
      if (Binary && !P.empty()) {
        if (!Vars.count(P)) {
          E.insert(PARENT_NOT_PRESENT);
        } else if (!isBool(P)) {
          E.insert(NOT_SUPPORTED);
        }
      }
      if (O.Name == "p") {
        E.insert(NOT_SUPPORTED);
      }
      if (!E.empty()) {
        return E;
      }
      if (N.Vals.empty()) {
        Vars[O.Name] = std::nullopt;
      } else {
        Vars[O.Name] = N.Vals;
      }
      if (O.Name == "root") {
        Rules.insert("root");
      } else if (Binary && !P.empty()) {
        Rules.insert(O.Name + " => " + P);
        if (O.K == Feat && !N.Optional) {
          Rules.insert(P + " => " + O.Name);
        }
      }
      return {};
    }
    case Named:
    case Numbers:
      if (Vars.count(O.Name)) {
        return {ALREADY_PRESENT};
      }
      if (O.K == Named) {
        Vars[O.Name] = std::nullopt;
      } else {
        Vars[O.Name] = O.Vals;
      }
      return {};
    case Rel: {
      auto &G = Groups[O.G];
      if (G.Members.empty()) {
        return {NOT_SUPPORTED}; // nothing that could be selected above it
      }
      std::string P =
          node(G.Parent).Vals.empty() ? G.Parent : above(G.Parent);
      if (!Vars.count(P)) {
        E.insert(PARENT_NOT_PRESENT);
      } else if (!isBool(P)) {
        E.insert(NOT_SUPPORTED);
      }
      std::string Any;
      for (auto &M : G.Members) {
        if (!isBool(M)) {
          E.insert(NOT_SUPPORTED);
        }
        Any += (Any.empty() ? "" : " | ") + M;
      }
      if (!E.empty()) {
        return E;
      }
      Rules.insert(P + " => (" + Any + ")");
      if (G.Kind == 1) {
        for (auto &X : G.Members) {
          for (auto &Y : G.Members) {
            if (X < Y) {
              Rules.insert(P + " => !(" + X + " & " + Y + ")");
            }
          }
        }
      }
      return {};
    }
    case Cons:
      if (!sol::wellTyped(O.C, types())) {
        return {NOT_SUPPORTED};
      }
      Added.push_back(O.C);
      return {};
    default:
      return {NOT_SUPPORTED};
    }
  }

  /// Valid configurations that have not been delivered.
  std::set<std::string> remaining() const {
    std::set<std::string> R;
    std::vector<std::pair<sol::Con, sol::Expr>> All;
    for (auto &T : Rules) {
      sol::Con C{T, 0};
      All.push_back({C, C.expr()});
    }
    for (auto &C : Added) {
      All.push_back({C, C.expr()});
    }
    sol::Assignment A;
    std::function<void(decltype(Vars)::const_iterator)> Rec = [&](auto I) {
      if (I != Vars.end()) {
        std::vector<int64_t> V = I->second ? *I->second
                                           : std::vector<int64_t>{0, 1};
        for (auto X : V) {
          A[I->first] = {!I->second, X};
          Rec(std::next(I));
        }
        return;
      }
      for (auto &[C, E] : All) {
        if (!sol::holds(C, E, A)) {
          return;
        }
      }
      for (auto &D : Done) {
        bool Same = true;
        for (auto &[N, V] : D) {
          Same &= A.at(N).V == V.V;
        }
        if (Same) {
          return;
        }
      }
      R.insert(sol::show(A));
    };
    Rec(Vars.begin());
    return R;
  }
};

// --- the real session in lockstep ------------------------------------------

struct Session {
  mc::Ctx &C;
  World &W;
  std::unique_ptr<Solver> S = Z3Solver::create();
  State M;
  std::string Last;       // configuration delivered last
  std::set<std::string> LastVars;

  Session(mc::Ctx &C, World &W) : C(C), W(W) {}

  template <class R>
  void verdict(R &&Res, const Codes &Want, const std::string &What) {
    C.trans();
    if (Want.empty()) {
      C.check(bool(Res), What + " fails");
      return;
    }
    C.check(!Res, What + " succeeds, but must fail");
    C.check(Want.count(int(Res.getError())),
            What + " fails with code " + std::to_string(int(Res.getError())));
  }

  std::string project(vf::Configuration &X, const std::set<std::string> &On) {
    std::map<std::string, std::string> O;
    for (auto &E : X) {
      if (On.count(E.getKey().str())) {
        O[E.getKey().str()] = E.getValue()->asString();
      }
    }
    Strs R;
    for (auto &[N, V] : O) {
      R.push_back(N + "=" + V);
    }
    return obs::join(R);
  }

  /// Next configuration; false at the end.
  template <class R> bool deliver(R &&Res, const std::string &What) {
    C.trans();
    auto Left = M.remaining();
    if (Left.empty()) {
      C.check(!Res, What + " delivers a configuration, but there is none");
      C.check(Res.getError() == UNSAT, What + " fails without UNSAT");
      return false;
    }
    C.check(bool(Res), What + " fails, but there are configurations");
    auto X = Res.extractValue();
    C.check(X != nullptr, What + " delivers null");
    auto T = sol::show(*X);
    C.checkf(Left.count(T), [&] {
      return What + " delivers {" + T + "}\n  expected one of " +
             sol::brief(Left);
    });
    sol::Assignment A;
    LastVars.clear();
    for (auto &E : *X) {
      auto V = E.getValue()->asString();
      A[E.getKey().str()] =
          V == "true" || V == "false"
              ? sol::Value{true, V == "true"}
              : sol::Value{false, std::strtoll(V.c_str(), nullptr, 10)};
      LastVars.insert(E.getKey().str());
    }
    M.Done.push_back(A);
    M.Started = true;
    Last = T;
    return true;
  }

  void run(const Op &O) {
    auto What = O.str();
    switch (O.K) {
    case Feat:
      verdict(S->addFeature(*W.feature(O.Name)), M.apply(O), What);
      break;
    case Grouped:
      verdict(S->addFeature(*W.feature(O.Name), true), M.apply(O), What);
      break;
    case Named:
      verdict(S->addFeature(O.Name), M.apply(O), What);
      break;
    case Numbers:
      verdict(S->addFeature(O.Name, O.Vals), M.apply(O), What);
      break;
    case Rel:
      verdict(S->addRelationship(*W.relationship(Groups[O.G])), M.apply(O),
              What);
      break;
    case Cons: {
      using MC = vf::FeatureModel::MixedConstraint;
      auto X = sol::constraint(O.C.Text);
      C.check(X != nullptr, "constraint is not built");
      auto Want = M.apply(O);
      if (O.C.mixed()) {
        verdict(S->addMixedConstraint(
                    *X, O.C.isNeg() ? MC::ExprKind::NEG : MC::ExprKind::POS,
                    O.C.isAll() ? MC::Req::ALL : MC::Req::NONE),
                Want, What);
      } else {
        verdict(S->addConstraint(*X), Want, What);
      }
      break;
    }
    case Remove:
      verdict(S->removeFeature(*W.feature(O.Name)), M.apply(O), What);
      break;
    case Has: {
      auto R = S->hasValidConfigurations();
      C.trans();
      if (M.Started) {
        C.check(!R, What + " succeeds while configurations are enumerated");
        C.check(R.getError() == ILLEGAL_STATE,
                What + " fails without ILLEGAL_STATE");
        break;
      }
      C.check(bool(R), What + " fails");
      C.eq(R.extractValue(), !M.remaining().empty(), What);
      break;
    }
    case Next:
      deliver(S->getNextConfiguration(), What);
      break;
    case Cur:
      if (!M.Started) {
        deliver(S->getCurrentConfiguration(), What);
        break;
      }
      auto R = S->getCurrentConfiguration();
      C.trans();
      C.check(bool(R), What + " fails");
      C.eq(project(*R.extractValue(), LastVars), Last, What);
      break;
    }
  }

  void finish() {
    if (!M.Started) {
      run({Has, ""});
    }
    size_t N = 0;
    while (deliver(S->getNextConfiguration(), "enumeration")) {
      C.check(++N < 5000, "the enumeration does not end");
    }
  }
};

// --- exploration -----------------------------------------------------------

struct Explored {
  std::vector<std::pair<int, int>> From; // state, call
  std::vector<State> States;
  std::vector<std::pair<int, int>> Edges;
};

mc::Suite suite(const std::string &Name, std::vector<Op> Prefix,
                std::vector<Op> Ops, int Depth, size_t MaxNext,
                size_t MaxVars = 9) {
  auto E = std::make_shared<Explored>();
  State Init;
  for (auto &O : Prefix) {
    Init.apply(O);
  }
  std::map<std::string, int> Seen{{Init.key(), 0}};
  std::vector<int> D{0};
  E->States.push_back(Init);
  E->From.push_back({-1, -1});
  for (size_t I = 0; I < E->States.size(); ++I) {
    for (size_t O = 0; O < Ops.size(); ++O) {
      State S = E->States[I];
      auto K = Ops[O].K;
      bool Query = K == Has || K == Next || K == Cur;
      bool OK = true;
      if (!Query) {
        OK = S.apply(Ops[O]).empty();
      } else if (K == Next || (K == Cur && S.Nexts.empty())) {
        S.Nexts.push_back(S.Vars.size());
      }
      E->Edges.push_back({int(I), int(O)});
      if (OK && D[I] < Depth && S.Nexts.size() <= MaxNext &&
          S.Vars.size() <= MaxVars &&
          Seen.emplace(S.key(), int(E->States.size())).second) {
        E->States.push_back(S);
        E->From.push_back({int(I), int(O)});
        D.push_back(D[I] + 1);
      }
    }
  }
  mc::Suite S;
  S.Name = Name;
  S.Bound = "every one of " + std::to_string(Ops.size()) +
            " calls from every one of the " + std::to_string(E->States.size()) +
            " session states within " + std::to_string(Depth) + " calls" +
            (Prefix.empty() ? "" : " after a fixed prefix") +
            ", followed by a complete enumeration";
  S.N = E->Edges.size();
  S.Chunk = 64;
  S.Timeout = 60;
  auto Path = [=](uint64_t I) {
    std::vector<Op> R{Ops[E->Edges[I].second]};
    for (int X = E->Edges[I].first; E->From[X].first >= 0;
         X = E->From[X].first) {
      R.insert(R.begin(), Ops[E->From[X].second]);
    }
    R.insert(R.begin(), Prefix.begin(), Prefix.end());
    return R;
  };
  S.Describe = [=](uint64_t I) {
    std::string R;
    for (auto &O : Path(I)) {
      R += O.str() + "\n";
    }
    return R;
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    World W;
    Session X(C, W);
    for (auto &O : Path(I)) {
      X.run(O);
    }
    C.state(E->States[E->Edges[I].first].key());
    X.finish();
  };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<Op> Tree = {
      feat("root"),  feat("a"),    feat("m"),         feat("b"),
      feat("n"),     feat("c"),    grouped("d"),      grouped("e"),
      feat("d"),     feat("o"),    named("a"),        named("n"),
      named("root"), rel(0),       query(Has),        {Remove, "a"},
      feat("q"),     rel(2),       numbers("a", {0, 1})};
  std::vector<Op> Group = {
      feat("n"), grouped("c"), grouped("k"), feat("c"),  feat("k"), feat("f"),
      feat("g"), rel(1),       rel(3),       named("f"), query(Has),
      numbers("c", {0, 1}),    numbers("g", {2}), rel(4), feat("u"), feat("p")};
  std::vector<Op> Con = {
      cons("a => b"),      cons("!a"),         cons("a & o"),
      cons("excl a b"),    cons("n > 1", 1),   cons("n = x", 1),
      cons("a + n = 2", 2), cons("a + n = 2", 3), cons("a = b", 4),
      cons("a + 1"),       cons("a & n"),      cons("x - n > 0", 1),
      cons("a ^ b"),       cons("x", 5),
      feat("b"),           feat("o"),          numbers("x", {1, 2, 3}),
      named("x"),          query(Has)};
  std::vector<Op> Enum = {
      feat("a"),    feat("b"),  feat("o"),        numbers("x", {4, -4}),
      cons("!a"),   cons("b"),  cons("x < 0", 1), cons("a => o"),
      query(Next),  query(Cur), query(Has),       {Remove, "a"},
      numbers("y", {})};
  std::vector<mc::Suite> S = {
      suite("tree", {}, Tree, T ? 7 : 5, 0),
      suite("groups", {feat("root")}, Group, T ? 8 : 6, 0),
      suite("constraints", {feat("root"), feat("a"), feat("n")}, Con, T ? 5 : 3,
            0),
      suite("enumeration", {feat("root")}, Enum, T ? 7 : 4, T ? 4 : 3)};
  return mc::runChecks(
      Argc, Argv, "C20", S,
      {"of several errors that apply to a call, any may be reported",
       "the current configuration is compared on the variables that were known "
       "when it was delivered",
       "the order in which configurations are delivered is not compared"});
}
