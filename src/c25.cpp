// C25: source ranges are compared, ordered, edited and printed part by part.
#include "engine.h"
#include "obs.h"

#include "vara/Feature/Feature.h"

#include <limits>
#include <optional>

namespace {

namespace vf = vara::feature;
using R = vf::FeatureSourceRange;
using L = R::FeatureSourceLocation;
using MO = R::FeatureMemberOffset;
using Rev = R::FeatureRevisionRange;

//===-- Locations ------------------------------------------------------===//

std::vector<unsigned> numbers() {
  std::vector<unsigned> V = {0, 1, 2, 9, 10, 19, 100,
                             std::numeric_limits<int>::max(),
                             unsigned(std::numeric_limits<int>::max()) + 1,
                             std::numeric_limits<unsigned>::max()};
  return V;
}

void locations(mc::Ctx &C, std::array<unsigned, 4> V) {
  L A(V[0], V[1]);
  L B(V[2], V[3]);
  auto PA = std::make_pair(V[0], V[1]);
  auto PB = std::make_pair(V[2], V[3]);
  C.trans(8);
  C.eq(A.getLineNumber(), V[0], "line");
  C.eq(A.getColumnOffset(), V[1], "column");
  C.eq(A == B, PA == PB, "equality of locations");
  C.eq(A < B, PA < PB, "< of locations");
  C.eq(A > B, PA > PB, "> of locations");
  C.eq(A.toString(), std::to_string(V[0]) + ":" + std::to_string(V[1]),
       "text of a location");
  L D(A);
  D.setLineNumber(V[2]);
  C.eq(D.toString(), std::to_string(V[2]) + ":" + std::to_string(V[1]),
       "after changing the line");
  D.setColumnOffset(V[3]);
  C.check(D == B, "a location with the line and column of another one is "
                  "equal to it");
  C.eq(A.toString(), std::to_string(V[0]) + ":" + std::to_string(V[1]),
       "original of a changed copy");
  D = A;
  C.check(D == A, "an assigned location is equal");
}

//===-- Member offsets -------------------------------------------------===//

const std::vector<std::string> MemberTokens = {"a", "B", "::", ":", "x1", "~",
                                               "operator()", " "};

void member(mc::Ctx &C, const std::string &S) {
  // reference: the member is what follows the last "::"
  bool Is = false;
  size_t At = 0;
  for (size_t I = 0; I + 1 < S.size(); ++I) {
    if (S[I] == ':' && S[I + 1] == ':') {
      At = I;
      Is = I + 2 < S.size();
    }
  }
  C.trans(2);
  C.eq(MO::isMemberOffsetFormat(S), Is, "isMemberOffsetFormat");
  auto M = MO::createFeatureMemberOffset(S);
  C.eq(M.has_value(), Is, "createFeatureMemberOffset accepts the text");
  if (!Is) {
    return;
  }
  auto Class = S.substr(0, At);
  C.eq(M->memberName(), S.substr(At + 2), "member");
  C.eq(M->className(), Class, "class");
  C.eq(M->toString(), S, "text");
  // qualified names of the enclosing classes, from the innermost
  if (S.find(":::") == std::string::npos) {
    std::vector<std::string> Parts;
    if (!Class.empty()) {
      Parts.emplace_back();
      for (size_t I = 0; I < Class.size(); ++I) {
        if (Class.compare(I, 2, "::") == 0) {
          Parts.emplace_back();
          ++I;
        } else {
          Parts.back() += Class[I];
        }
      }
    }
    C.eq(M->nestingDepth(), Parts.size(), "nesting depth");
    for (size_t I = 0; I < Parts.size(); ++I) {
      C.eq(M->className(I), Parts[Parts.size() - 1 - I],
           "class name at nesting " + std::to_string(I));
    }
    C.state(std::to_string(Parts.size()));
  }
}

const std::vector<std::string> &memberTexts() {
  static const std::vector<std::string> V = [] {
    std::vector<std::string> R;
    const std::vector<std::string> T = {"a", "b", "ab", ""};
    for (auto &X : T) {
      for (auto &Y : T) {
        for (auto &Z : T) {
          if (Z.empty()) {
            continue;
          }
          R.push_back(X + "::" + Y + "::" + Z);
        }
      }
    }
    for (auto &X : T) {
      for (auto &Z : T) {
        if (!Z.empty()) {
          R.push_back(X + "::" + Z);
        }
      }
    }
    return R;
  }();
  return V;
}

void memberPair(mc::Ctx &C, const std::string &A, const std::string &B) {
  auto X = MO::createFeatureMemberOffset(A);
  auto Y = MO::createFeatureMemberOffset(B);
  C.check(X && Y, "member offsets are accepted");
  C.trans(4);
  C.eq(*X == *Y, A == B, "equality of member offsets");
  C.eq(*X != *Y, A != B, "inequality of member offsets");
}

//===-- Ranges ---------------------------------------------------------===//

struct Parts {
  std::string Path;
  std::optional<std::pair<unsigned, unsigned>> Start, End;
  bool Inessential = false;
  std::string Member;
  std::optional<std::string> Intro, Removed;

  bool operator==(const Parts &O) const {
    return Path == O.Path && Start == O.Start && End == O.End &&
           Inessential == O.Inessential && Member == O.Member &&
           Intro == O.Intro && Removed == O.Removed;
  }
  std::string str() const {
    std::string S = "{" + Path;
    auto P = [](const auto &X) {
      return X ? std::to_string(X->first) + "." + std::to_string(X->second)
               : std::string("-");
    };
    return S + " " + P(Start) + " " + P(End) + (Inessential ? " i " : " n ") +
           (Member.empty() ? "-" : Member) + " " +
           (Intro ? "'" + *Intro + "'" : "-") + ".." +
           (Removed ? "'" + *Removed + "'" : "-") + "}";
  }
  std::string text() const {
    std::string S = Path;
    auto P = [](const auto &X) {
      return std::to_string(X->first) + ":" + std::to_string(X->second);
    };
    if (Start) {
      S += ":" + P(Start);
    }
    if (End) {
      S += "–" + P(End);
    }
    if (!Member.empty()) {
      S += " MemberOffset: " + Member;
    }
    return S;
  }
  R make() const {
    std::optional<L> S, E;
    if (Start) {
      S = L(Start->first, Start->second);
    }
    if (End) {
      E = L(End->first, End->second);
    }
    std::optional<MO> M;
    if (!Member.empty()) {
      M = MO::createFeatureMemberOffset(Member);
    }
    std::optional<Rev> V;
    if (Intro) {
      V = Removed ? Rev(*Intro, *Removed) : Rev(*Intro);
    }
    auto C = Inessential ? R::Category::inessential : R::Category::necessary;
    if (S && E) {
      return R(Path, *S, *E, C, M, V);
    }
    return R(Path, S, E, C, M, V);
  }
};

Parts observed(R &X) {
  Parts P;
  P.Path = X.getPath().string();
  if (X.hasStart()) {
    P.Start = {X.getStart()->getLineNumber(), X.getStart()->getColumnOffset()};
  }
  if (X.hasEnd()) {
    P.End = {X.getEnd()->getLineNumber(), X.getEnd()->getColumnOffset()};
  }
  P.Inessential = X.getCategory() == R::Category::inessential;
  if (X.hasMemberOffset()) {
    P.Member = X.getMemberOffset()->toString();
  }
  if (X.hasRevisionRange()) {
    P.Intro = X.revisionRange()->introducingCommit().str();
    if (X.revisionRange()->hasRemovingCommit()) {
      P.Removed = X.revisionRange()->removingCommit().str();
    } else if (!X.revisionRange()->removingCommit().empty()) {
      throw mc::Failure("a removing commit without there being one");
    }
  }
  if ((X.getStart() != nullptr) != X.hasStart() ||
      (X.getEnd() != nullptr) != X.hasEnd() ||
      (X.getMemberOffset() != nullptr) != X.hasMemberOffset() ||
      (X.revisionRange() != nullptr) != X.hasRevisionRange()) {
    throw mc::Failure("parts are delivered that are said to be missing, or the "
                      "other way round");
  }
  return P;
}

std::vector<Parts> domain(bool Big) {
  std::vector<Parts> V;
  using O = std::optional<std::pair<unsigned, unsigned>>;
  const std::vector<std::string> Paths =
      Big ? std::vector<std::string>{"a.cpp", "src/a.cpp", ""}
          : std::vector<std::string>{"a.cpp", "b.h"};
  const std::vector<O> Locs =
      Big ? std::vector<O>{O{}, O{{1, 2}}, O{{1, 3}}, O{{2, 2}}}
          : std::vector<O>{O{}, O{{1, 2}}, O{{2, 1}}};
  const std::vector<std::string> Members =
      Big ? std::vector<std::string>{"", "A::x", "A::y", "B::A::x", "::x"}
          : std::vector<std::string>{"", "A::x", "B::x"};
  const std::vector<std::pair<const char *, const char *>> Revs =
      Big ? std::vector<std::pair<const char *, const char *>>{{nullptr,
                                                                nullptr},
                                                               {"a", nullptr},
                                                               {"b", nullptr},
                                                               {"a", "b"},
                                                               {"a", "c"},
                                                               {"b", "b"},
                                                               {"a", ""},
                                                               {"", nullptr}}
          : std::vector<std::pair<const char *, const char *>>{{nullptr,
                                                                nullptr},
                                                               {"a", nullptr},
                                                               {"b", nullptr},
                                                               {"a", "b"},
                                                               {"a", "c"}};
  for (auto &P : Paths) {
    for (auto &S : Locs) {
      for (auto &E : Locs) {
        for (bool I : {false, true}) {
          for (auto &M : Members) {
            for (auto &[A, B] : Revs) {
              Parts X;
              X.Path = P;
              X.Start = S;
              X.End = E;
              X.Inessential = I;
              X.Member = M;
              if (A) {
                X.Intro = A;
              }
              if (B) {
                X.Removed = B;
              }
              V.push_back(X);
            }
          }
        }
      }
    }
  }
  return V;
}

void pair(mc::Ctx &C, const Parts &A, const Parts &B) {
  auto X = A.make();
  auto Y = B.make();
  bool Same = A == B;
  C.trans(2);
  if ((X == Y) != Same || (Y == X) != Same) {
    C.fail(std::string("equality of ranges: they differ in ") +
           (Same ? "no part and are unequal" : "a part and are equal") + ": " +
           A.str() + " " + B.str());
  }
  if ((X != Y) == Same) {
    C.fail("inequality of ranges: " + A.str() + " " + B.str());
  }
}

void single(mc::Ctx &C, const Parts &A) {
  auto X = A.make();
  C.trans(6);
  C.eq(observed(X).str(), A.str(), "parts");
  C.eq(X.toString(), A.text(), "text");
  R Copy(X);
  C.eq(observed(Copy).str(), A.str(), "parts of a copy");
  R Assigned("other");
  Assigned = X;
  C.eq(observed(Assigned).str(), A.str(), "parts of an assigned range");
  C.check(Copy == X && Assigned == X, "copies are equal");
  // edits of a copy change that part of that copy only
  auto Expect = A;
  Copy.setPath("c/d.cpp");
  Expect.Path = "c/d.cpp";
  C.eq(observed(Copy).str(), Expect.str(), "after changing the path");
  Copy.setCategory(A.Inessential ? R::Category::necessary
                                 : R::Category::inessential);
  Expect.Inessential = !A.Inessential;
  C.eq(observed(Copy).str(), Expect.str(), "after changing the category");
  if (A.Start) {
    Copy.getStart()->setLineNumber(77);
    Expect.Start->first = 77;
  }
  if (A.End) {
    Copy.getEnd()->setColumnOffset(78);
    Expect.End->second = 78;
  }
  C.eq(observed(Copy).str(), Expect.str(), "after changing positions");
  C.eq(observed(X).str(), A.str(), "original of a changed copy");
  R Moved(std::move(Copy));
  C.eq(observed(Moved).str(), Expect.str(), "parts of a moved range");
  Assigned = std::move(Moved);
  C.eq(observed(Assigned).str(), Expect.str(), "parts of a move-assigned range");
}

//===-- Location lists of features --------------------------------------===//

const std::vector<Parts> &few() {
  static const std::vector<Parts> V = [] {
    std::vector<Parts> V(5);
    for (auto &P : V) {
      P.Path = "a.cpp";
      P.Start = {1, 2};
      P.End = {1, 8};
    }
    V[1].Inessential = true;
    V[2].Member = "A::x";
    V[3].Intro = "a";
    V[4].Intro = "a";
    V[4].Removed = "b";
    return V;
  }();
  return V;
}

void lists(mc::Ctx &C, const std::vector<int> &Ops, int Kind) {
  int N = int(few().size());
  std::vector<R> Init;
  std::vector<int> Ref;
  if (Kind == 1) {
    Init = {few()[4].make(), few()[3].make(), few()[0].make()};
    Ref = {4, 3, 0};
  }
  vf::BinaryFeature Bin("f", false, Init);
  vf::NumericFeature Num("f", std::vector<int64_t>{1}, false, Init);
  vf::Feature &F = Kind == 1 ? static_cast<vf::Feature &>(Num) : Bin;
  auto Check = [&](const std::string &What) {
    std::vector<std::string> G, W;
    for (auto &X : F.getLocations()) {
      G.push_back(observed(X).str());
    }
    for (int I : Ref) {
      W.push_back(few()[I].str());
    }
    C.eq(obs::join(G), obs::join(W), "locations " + What);
    C.eq(F.hasLocations(), !Ref.empty(), "hasLocations " + What);
    C.eq(size_t(F.getLocationsEnd() - F.getLocationsBegin()), Ref.size(),
         "number of locations " + What);
    C.state(obs::join(W));
  };
  Check("at first");
  for (int O : Ops) {
    C.trans();
    if (O < N) {
      F.addLocation(few()[O].make());
      Ref.push_back(O);
      Check("after adding one");
    } else if (O < 2 * N) {
      auto It = F.removeLocation(few()[O - N].make());
      auto X = std::find(Ref.begin(), Ref.end(), O - N);
      size_t At = Ref.end() - Ref.begin();
      if (X != Ref.end()) {
        At = X - Ref.begin();
        Ref.erase(X);
      }
      Check("after removing one");
      C.eq(size_t(It - F.getLocationsBegin()), At, "position after removal");
    } else {
      int From = (O - 2 * N) / N;
      int To = (O - 2 * N) % N;
      auto Done = F.updateLocation(few()[From].make(), few()[To].make());
      auto X = std::find(Ref.begin(), Ref.end(), From);
      C.eq(Done, X != Ref.end(), "result of updating a location");
      if (X != Ref.end()) {
        *X = To;
      }
      Check("after updating one");
    }
  }
}

/// Longer lists: one operation on a list of N distinct locations (or of only
/// two different ones, alternating) at any index.
void longer(mc::Ctx &C, int N, int Kind, bool Repeat, int Op, int At) {
  auto Nth = [&](int I) {
    Parts P;
    P.Path = "f" + std::to_string(Repeat ? 0 : I % 3) + ".cpp";
    P.Start = {unsigned(Repeat ? I % 2 : I), 1};
    P.End = {unsigned(Repeat ? 9 : I + 1), 7};
    return P;
  };
  std::vector<R> Init;
  std::vector<Parts> Ref;
  for (int I = 0; I < N; ++I) {
    Init.push_back(Nth(I).make());
    Ref.push_back(Nth(I));
  }
  vf::Feature Plain("f", Init);
  vf::BinaryFeature Bin("f", true, Init);
  vf::NumericFeature Num("f", std::make_pair(int64_t(0), int64_t(3)), false,
                         Init);
  vf::RootFeature Root("f");
  vf::Feature &F = Kind == 0   ? Plain
                   : Kind == 1 ? static_cast<vf::Feature &>(Bin)
                   : Kind == 2 ? static_cast<vf::Feature &>(Num)
                               : Root;
  if (Kind == 3) {
    for (auto &X : Init) {
      F.addLocation(X);
    }
  }
  auto Other = Nth(0);
  Other.Path = "other.cpp";
  auto Find = [&](const Parts &P) {
    return size_t(std::find(Ref.begin(), Ref.end(), P) - Ref.begin());
  };
  C.trans();
  switch (Op) {
  case 0: {
    auto It = F.removeLocation(Nth(At).make());
    auto K = Find(Nth(At));
    if (K < Ref.size()) {
      Ref.erase(Ref.begin() + K);
    }
    C.eq(size_t(It - F.getLocationsBegin()), K, "position after removal");
    break;
  }
  case 1: {
    auto K = Find(Nth(At));
    C.eq(F.updateLocation(Nth(At).make(), Other.make()), K < Ref.size(),
         "result of updating a location");
    if (K < Ref.size()) {
      Ref[K] = Other;
    }
    break;
  }
  case 2: // a location is a copy of an element of the list
    if (At < N) {
      F.addLocation(*(F.getLocationsBegin() + At));
      Ref.push_back(Ref[At]);
    }
    break;
  case 3: // the arguments are elements of the list
    if (At < N) {
      auto K = Find(Ref[At]);
      auto P = Ref[At];
      C.check(F.updateLocation(*(F.getLocationsBegin() + At), Other.make()),
              "a listed location is not updated");
      Ref[K] = Other;
    }
    break;
  case 4:
    if (At < N) {
      (F.getLocationsBegin() + At)->setPath("other.cpp");
      Ref[At].Path = "other.cpp";
    }
    break;
  default: // everything goes, from index At on
    while (Ref.size() > size_t(At)) {
      auto K = Find(Ref[At]);
      auto X = Ref[At].make();
      F.removeLocation(X);
      Ref.erase(Ref.begin() + K);
      C.trans();
    }
    break;
  }
  std::vector<std::string> G, W;
  for (auto &X : F.getLocations()) {
    G.push_back(observed(X).str());
  }
  for (auto &X : Ref) {
    W.push_back(X.str());
  }
  C.eq(obs::join(G), obs::join(W), "locations");
  C.eq(F.hasLocations(), !Ref.empty(), "hasLocations");
  C.state(obs::join(W));
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S;
  {
    mc::Suite X;
    auto V = numbers();
    uint64_t N = V.size();
    X.Name = "positions";
    X.Bound = "all pairs of positions with lines and columns out of " +
              std::to_string(N) + " numbers";
    X.N = mc::ipow(N, 4);
    auto Dec = [=](uint64_t I) {
      mc::Digits D(I);
      std::array<unsigned, 4> A;
      for (auto &Y : A) {
        Y = V[D.take(N)];
      }
      return A;
    };
    X.Run = [=](uint64_t I, mc::Ctx &C) { locations(C, Dec(I)); };
    X.Describe = [=](uint64_t I) {
      auto A = Dec(I);
      return std::to_string(A[0]) + ":" + std::to_string(A[1]) + " and " +
             std::to_string(A[2]) + ":" + std::to_string(A[3]);
    };
    X.Chunk = 2048;
    S.push_back(X);
  }
  for (unsigned Len = 0; Len <= (T ? 7u : 5u); ++Len) {
    mc::Suite X;
    uint64_t N = MemberTokens.size();
    X.Name = "members" + std::to_string(Len);
    X.Bound = "all texts of " + std::to_string(Len) + " of " +
              std::to_string(N) + " tokens";
    X.N = mc::ipow(N, Len);
    auto Dec = [=](uint64_t I) {
      mc::Digits D(I);
      std::string R;
      for (unsigned K = 0; K < Len; ++K) {
        R += MemberTokens[D.take(N)];
      }
      return R;
    };
    X.Run = [=](uint64_t I, mc::Ctx &C) { member(C, Dec(I)); };
    X.Describe = [=](uint64_t I) { return "member offset '" + Dec(I) + "'"; };
    X.Chunk = 4096;
    S.push_back(X);
  }
  {
    mc::Suite X;
    X.Name = "member-pairs";
    X.Bound = "all pairs of member offsets of up to three names";
    uint64_t N = memberTexts().size();
    X.N = N * N;
    X.Run = [=](uint64_t I, mc::Ctx &C) {
      memberPair(C, memberTexts()[I / N], memberTexts()[I % N]);
    };
    X.Describe = [=](uint64_t I) {
      return memberTexts()[I / N] + " and " + memberTexts()[I % N];
    };
    X.Chunk = 4096;
    S.push_back(X);
  }
  static const auto Big = domain(true);
  static const auto Small = domain(T);
  {
    mc::Suite X;
    X.Name = "ranges";
    X.Bound = "all ranges out of path x start x end x category x member x "
              "revisions";
    X.N = Big.size();
    X.Run = [](uint64_t I, mc::Ctx &C) { single(C, Big[I]); };
    X.Describe = [](uint64_t I) { return Big[I].str(); };
    S.push_back(X);
  }
  {
    mc::Suite X;
    uint64_t N = Small.size();
    X.Name = "range-pairs";
    X.Bound = "all pairs of " + std::to_string(N) + " ranges";
    X.N = N * N;
    X.Run = [=](uint64_t I, mc::Ctx &C) { pair(C, Small[I / N], Small[I % N]); };
    X.Describe = [=](uint64_t I) {
      return Small[I / N].str() + " and " + Small[I % N].str();
    };
    X.Chunk = 8192;
    S.push_back(X);
  }
  for (unsigned Len = 1; Len <= (T ? 4u : 3u); ++Len) {
    mc::Suite X;
    int N = int(few().size());
    uint64_t A = 2 * N + N * N;
    X.Name = "lists" + std::to_string(Len);
    X.Bound = "all sequences of " + std::to_string(Len) + " of " +
              std::to_string(A) +
              " additions, removals and updates of locations of a feature";
    X.N = 2 * mc::ipow(A, Len);
    auto Dec = [=](uint64_t I, int &Kind) {
      mc::Digits D(I);
      Kind = int(D.take(2));
      std::vector<int> R;
      for (unsigned K = 0; K < Len; ++K) {
        R.push_back(int(D.take(A)));
      }
      return R;
    };
    X.Run = [=](uint64_t I, mc::Ctx &C) {
      int K;
      auto O = Dec(I, K);
      lists(C, O, K);
    };
    X.Describe = [=](uint64_t I) {
      int K;
      std::string R;
      for (int O : Dec(I, K)) {
        R += O < N ? "add " + few()[O].str()
             : O < 2 * N
                 ? "remove " + few()[O - N].str()
                 : "update " + few()[(O - 2 * N) / N].str() + " to " +
                       few()[(O - 2 * N) % N].str();
        R += "; ";
      }
      return R + (K ? "on a numeric feature with three locations"
                    : "on a binary feature");
    };
    X.Chunk = 2048;
    S.push_back(X);
  }
  {
    const int Max = T ? 40 : 20;
    mc::Suite X;
    X.Name = "longer-lists";
    X.Bound = "features of each kind with 0 to " + std::to_string(Max) +
              " locations, all different or two alternating ones, six "
              "operations at every index";
    X.N = uint64_t(Max + 1) * (Max + 1) * 4 * 2 * 6;
    X.Chunk = 500;
    auto Dec = [=](uint64_t I) {
      mc::Digits D(I);
      std::array<int, 5> R;
      R[4] = int(D.take(Max + 1));
      R[3] = int(D.take(6));
      R[2] = int(D.take(2));
      R[1] = int(D.take(4));
      R[0] = int(D.take(Max + 1));
      return R;
    };
    X.Run = [=](uint64_t I, mc::Ctx &C) {
      auto R = Dec(I);
      if (R[4] <= R[0]) {
        longer(C, R[0], R[1], R[2], R[3], R[4]);
      }
    };
    X.Describe = [=](uint64_t I) {
      auto R = Dec(I);
      return std::to_string(R[0]) + " locations" +
             (R[2] ? ", alternating" : "") + ", kind " + std::to_string(R[1]) +
             ", operation " + std::to_string(R[3]) + " at " +
             std::to_string(R[4]);
    };
    S.push_back(X);
  }
  return mc::runChecks(Argc, Argv, "C25", S);
}
