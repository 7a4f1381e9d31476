// C19: reading an SXFM document yields exactly the model that it describes.
#include "cx.h"
#include "large.h"

#include "vara/Feature/FeatureModelParser.h"

#include <functional>
#include <optional>

using namespace vara::feature;

namespace {

using Strs = std::vector<std::string>;

//===--------------------------------------------------------------------===//
// Reference reader of feature trees

struct Line {
  int Level = 0;
  char Type = 'm';  // r m o ' ' A(lternative) O(r)
  std::string Name; // empty: artificial
  std::string Id;
};

enum Verdict { Reject, Accept, Open };

struct Tree {
  Verdict V = Accept;
  std::string Why;
  std::vector<Line> L;

  void reject(const std::string &W) {
    if (V != Reject) {
      V = Reject;
      Why = W;
    }
  }
  void open(const std::string &W) {
    if (V == Accept) {
      V = Open;
      Why = W;
    }
  }
};

bool word(const std::string &S, bool Id = false) {
  if (S.empty()) {
    return false;
  }
  for (char C : S) {
    if (!(isalnum((unsigned char)C) || C == '_') || (unsigned char)C > 127) {
      return false;
    }
  }
  return Id || !isdigit((unsigned char)S[0]);
}

bool blank(char C) {
  return C == ' ' || C == '\t' || C == '\n' || C == '\v' || C == '\f' ||
         C == '\r';
}

/// NAME [blank] ( ID ), NAME, or nothing but ( ID ) if Anonymous.
bool nameAndId(std::string S, Line &L, bool Anonymous) {
  while (!S.empty() && S.back() == ' ') {
    S.pop_back();
  }
  auto P = S.find('(');
  if (P != std::string::npos) {
    if (S.back() != ')') {
      return false;
    }
    L.Id = S.substr(P + 1, S.size() - P - 2);
    if (!word(L.Id, true)) {
      return false;
    }
    S = S.substr(0, P);
    if (!S.empty() && S.back() == ' ') {
      S.pop_back();
    }
  }
  L.Name = S;
  return S.empty() ? Anonymous : word(S);
}

void readLine(Tree &T, const std::string &S, const std::string &Unit) {
  Line L;
  size_t Colon = S.find(':');
  if (Colon == std::string::npos) {
    T.reject("line without colon");
    return;
  }
  size_t P = 0;
  while (P + Unit.size() <= Colon && S.compare(P, Unit.size(), Unit) == 0) {
    P += Unit.size();
    ++L.Level;
  }
  if (P != Colon) {
    T.reject("wrong indentation");
    return;
  }
  if (Colon + 1 >= S.size()) {
    T.reject("missing type");
    return;
  }
  L.Type = S[Colon + 1];
  std::string Rest = S.substr(Colon + 1);
  if (L.Type == 'r' || L.Type == 'm' || L.Type == 'o' || L.Type == 'g') {
    Rest = Rest.substr(1);
    if (!Rest.empty() && !blank(Rest[0])) {
      T.reject("type not followed by a blank");
      return;
    }
  } else if (L.Type != ' ') {
    T.reject("unknown type");
    return;
  }
  if (!Rest.empty() && Rest[0] == ' ') {
    Rest = Rest.substr(1);
  } else {
    T.open("type at the end of the line, or other blanks");
  }
  if (L.Type == 'g') {
    auto A = Rest.find('[');
    auto Z = Rest.find(']');
    if (A == std::string::npos || Z == std::string::npos) {
      T.reject("group without cardinality");
      return;
    }
    std::string Card = A < Z ? Rest.substr(A, Z - A + 1) : "";
    if (Card == "[1,1]" || Card == "[1,*]") {
      L.Type = Card == "[1,1]" ? 'A' : 'O';
      std::string Before = Rest.substr(0, A);
      std::string After = Rest.substr(Z + 1);
      if (!Before.empty() && After.empty() && Before.back() == ' ' &&
          word(Before.substr(0, Before.size() - 1))) {
        L.Name = Before.substr(0, Before.size() - 1);
      } else if (!Before.empty() || (!After.empty() && After[0] != ' ') ||
                 !nameAndId(After.empty() ? "" : After.substr(1), L, true)) {
        T.open("notation of a group");
      }
    } else {
      bool Plain = A < Z;
      for (size_t I = 1; Plain && I + 1 < Card.size(); ++I) {
        Plain = isdigit((unsigned char)Card[I]) || Card[I] == ',' ||
                Card[I] == '*';
      }
      Plain = Plain && Card.find("01") == std::string::npos;
      if (Plain) {
        T.reject("unsupported cardinality");
        return;
      }
      T.open("notation of a cardinality");
    }
  } else if (!nameAndId(Rest, L, false)) {
    T.open("notation of a feature");
  }
  T.L.push_back(L);
}

Tree readTree(const std::string &Text, const std::string &Unit) {
  Tree T;
  if (Unit.empty()) {
    T.open("no indentation");
    return T;
  }
  size_t P = 0;
  while (P < Text.size()) {
    size_t E = std::min(Text.find('\n', P), Text.size());
    std::string S = Text.substr(P, E - P);
    P = E + 1;
    if (std::all_of(S.begin(), S.end(), blank)) {
      continue;
    }
    readLine(T, S, Unit);
    if (T.V == Reject) {
      return T;
    }
  }
  if (T.L.empty()) {
    T.reject("no features");
    return T;
  }
  std::vector<size_t> Path; // lines at the levels from the root
  std::set<std::string> Names;
  std::set<std::string> Ids;
  int Anonymous = 0;
  for (size_t I = 0; I < T.L.size(); ++I) {
    auto &L = T.L[I];
    if ((L.Type == 'r') != (I == 0)) {
      T.reject("root");
    }
    int Depth = L.Level - T.L[0].Level;
    if (I > 0 && (Depth <= 0 || Depth > int(Path.size()))) {
      T.reject("indentation");
    }
    if (T.V == Reject) {
      break;
    }
    Path.resize(Depth);
    if (T.V == Open) {
      Path.push_back(I);
      continue;
    }
    if (L.Name.empty()) {
      L.Name = "group_" + std::to_string(++Anonymous);
    }
    if (!Names.insert(L.Name).second) {
      T.reject("features with the same name");
    }
    if (!L.Id.empty() && !Ids.insert(L.Id).second) {
      T.open("features with the same identifier");
    }
    if (I > 0) {
      char Up = T.L[Path.back()].Type;
      bool Group = Up == 'A' || Up == 'O';
      bool Member = L.Type == ' ' || L.Type == 'A' || L.Type == 'O';
      if (Group ? !Member : L.Type == ' ') {
        T.open("members of groups outside of groups or vice versa");
      }
    }
    Path.push_back(I);
    if ((L.Type == 'A' || L.Type == 'O') &&
        (I + 1 == T.L.size() || T.L[I + 1].Level <= L.Level)) {
      T.open("group without members");
    }
  }
  return T;
}

/// Notation of obs::tree.
std::string denote(const Tree &T, size_t I = 0) {
  auto &L = T.L[I];
  std::string R = L.Name + (L.Type == 'r' ? ":root" : ":bin") +
                  (L.Type == 'o' ? "?" : "");
  Strs Kids;
  for (size_t J = I + 1; J < T.L.size() && T.L[J].Level > L.Level; ++J) {
    if (T.L[J].Level == L.Level + 1) {
      Kids.push_back(denote(T, J));
    }
  }
  if (Kids.empty()) {
    return R;
  }
  std::sort(Kids.begin(), Kids.end());
  std::string K = "(" + obs::join(Kids) + ")";
  if (L.Type == 'A') {
    K = "(#ALT" + K + ")";
  } else if (L.Type == 'O') {
    K = "(#OR" + K + ")";
  }
  return R + K;
}

//===--------------------------------------------------------------------===//
// Constraints

/// Rejected, or the trees of the constraints.
std::optional<Strs> readConstraints(const Tree &T, const Strs &Lines) {
  Strs R;
  std::map<std::string, std::string> Id;
  std::set<std::string> Names;
  for (auto &L : T.L) {
    if (!L.Id.empty()) {
      Id[L.Id] = L.Name;
    }
    Names.insert(L.Name);
  }
  for (auto &S : Lines) {
    auto C = S.find(':');
    if (C == std::string::npos) {
      return std::nullopt;
    }
    std::vector<cx::Tok> V;
    for (size_t P = C + 1; P < S.size();) {
      if (blank(S[P])) {
        ++P;
      } else if (isalnum((unsigned char)S[P]) || S[P] == '_') {
        size_t E = P;
        while (E < S.size() &&
               (isalnum((unsigned char)S[E]) || S[E] == '_')) {
          ++E;
        }
        std::string W = S.substr(P, E - P);
        P = E;
        if (W == "or") {
          V.push_back({cx::Tok::Op, "|"});
        } else if (W == "and") {
          V.push_back({cx::Tok::Op, "&"});
        } else {
          if (Id.count(W)) {
            W = Id[W];
          }
          if (!Names.count(W)) {
            return std::nullopt;
          }
          V.push_back({cx::Tok::Atom, W});
        }
      } else if (S.compare(P, 2, "=>") == 0) {
        V.push_back({cx::Tok::Op, "=>"});
        P += 2;
      } else if (S[P] == '~') {
        V.push_back({cx::Tok::Neg, ""});
        ++P;
      } else if (S[P] == '(' || S[P] == ')') {
        V.push_back({S[P] == '(' ? cx::Tok::Open : cx::Tok::Close, ""});
        ++P;
      } else {
        return std::nullopt;
      }
    }
    auto X = cx::parse(V);
    if (!X) {
      return std::nullopt;
    }
    R.push_back("B " + *X);
  }
  std::sort(R.begin(), R.end());
  return R;
}

//===--------------------------------------------------------------------===//

struct Doc {
  std::optional<std::string> Name = "m";
  std::optional<std::string> Unit; // attribute; tab if missing
  std::string Tree;
  std::optional<Strs> Cons;
  int Style = 0;
};

std::string escape(const std::string &S, int St) {
  std::string R;
  for (char C : S) {
    if (C == '<') {
      R += "&lt;";
    } else if (C == '&') {
      R += "&amp;";
    } else if (C == '>') {
      R += "&gt;";
    } else if (C == '\r' || C == '"' || (St == 2 && C != '\n')) {
      R += "&#" + std::to_string(int((unsigned char)C)) + ";";
    } else {
      R += C;
    }
  }
  return R;
}

std::string text(const Doc &D) {
  std::string R;
  if (D.Style == 1) {
    R += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- c -->\n";
  }
  R += "<feature_model";
  if (D.Name) {
    R += " name=\"" + *D.Name + "\"";
  }
  R += ">\n";
  if (D.Style == 1) {
    R += "<meta><data name=\"description\">:r x</data>"
         "<data name=\"y\"></data></meta>\n";
  }
  R += "<feature_tree";
  if (D.Unit) {
    std::string U;
    for (char C : *D.Unit) {
      U += C == '\t' ? "&#9;" : std::string(1, C);
    }
    R += " indentation_string=\"" + U + "\"";
  }
  R += ">";
  R += D.Style == 1 ? "<![CDATA[" + D.Tree + "]]>" : escape(D.Tree, D.Style);
  R += "</feature_tree>\n";
  if (D.Cons) {
    R += "<constraints>\n";
    for (auto &C : *D.Cons) {
      R += escape(C, D.Style) + "\n";
    }
    R += "</constraints>";
  }
  return R + "</feature_model>\n";
}

std::string describe(const Doc &D) { return text(D); }

void run(mc::Ctx &C, const Doc &D) {
  auto T = readTree(D.Tree, D.Unit.value_or("\t"));
  std::string Xml = text(D);
  C.check(bool(FeatureModelSxfmParser(Xml).verifyFeatureModel()),
          "document is not accepted by verifying");
  auto FM = FeatureModelSxfmParser(Xml).buildFeatureModel();
  C.trans();
  if (FM) {
    C.eq(obs::integrity(*FM), std::string(), "integrity");
  }
  if (T.V == Reject) {
    C.check(!FM, "document is not rejected: " + T.Why);
    C.state("rejected: " + T.Why);
    return;
  }
  if (T.V == Open) {
    C.state("open: " + T.Why);
    return;
  }
  auto Cons = readConstraints(T, D.Cons.value_or(Strs{}));
  if (!Cons) {
    C.check(!FM, "constraint is not rejected");
    C.state("rejected constraint");
    return;
  }
  C.check(FM != nullptr, "document is rejected");
  C.eq(obs::tree(FM->getRoot()), denote(T), "feature tree");
  C.eq(obs::join(obs::constraints(*FM), "; "), obs::join(*Cons, "; "),
       "constraints");
  if (D.Name) {
    C.eq(FM->getName().str(), *D.Name, "name");
  }
  C.state(denote(T) + obs::join(*Cons, "; "));
}

mc::Suite suite(const std::string &Name, const std::string &Bound, uint64_t N,
                const std::function<Doc(uint64_t)> &Get,
                uint64_t Chunk = 500) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = Bound;
  S.N = N;
  S.Chunk = Chunk;
  S.Describe = [=](uint64_t I) { return describe(Get(I)); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { run(C, Get(I)); };
  return S;
}

//===--------------------------------------------------------------------===//
// All trees

struct Layout {
  std::vector<int> Level;
  std::string Type;
};

std::vector<Layout> layouts(int N) {
  std::vector<Layout> R;
  Layout X;
  X.Level = {0};
  X.Type = "r";
  std::function<void()> Rec = [&]() {
    size_t K = X.Type.size();
    bool OpenGroup = X.Type.back() == 'A' || X.Type.back() == 'O';
    if (int(K) > N) {
      if (!OpenGroup) {
        R.push_back(X);
      }
      return;
    }
    for (int L = OpenGroup ? X.Level.back() + 1 : 1; L <= X.Level.back() + 1;
         ++L) {
      char Up = 'r';
      for (size_t J = K; J-- > 0;) {
        if (X.Level[J] == L - 1) {
          Up = X.Type[J];
          break;
        }
      }
      for (char T : std::string(Up == 'A' || Up == 'O' ? " AO" : "omAO")) {
        X.Level.push_back(L);
        X.Type += T;
        Rec();
        X.Level.pop_back();
        X.Type.pop_back();
      }
    }
  };
  Rec();
  return R;
}

mc::Suite trees(int N, int Styles, int Units) {
  auto Ls = std::make_shared<std::vector<Layout>>(layouts(N));
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    int St = D.take(Styles);
    int Un = D.take(Units);
    auto &L = (*Ls)[D.take(Ls->size())];
    Doc R;
    static const std::vector<std::optional<std::string>> U = {
        std::nullopt, "  ", "\t", "->", "    "};
    R.Unit = U[Un];
    std::string Ind = R.Unit.value_or("\t");
    int Base = Un == 1 ? 2 : Un == 3 ? 1 : 0;
    R.Style = Un % 3;
    R.Tree = Un == 0 ? "" : "\n";
    static const Strs Name = {"root", "b", "a", "d", "e", "c", "g_7", "f"};
    static const Strs Id = {"r0", "i", "b", "a", "e1", "9", "_g", "x"};
    for (size_t K = 0; K < L.Type.size(); ++K) {
      for (int J = 0; J < L.Level[K] + Base; ++J) {
        R.Tree += Ind;
      }
      char T = L.Type[K];
      bool G = T == 'A' || T == 'O';
      R.Tree += ":";
      R.Tree += G ? "g" : T == ' ' ? "" : std::string(1, T);
      std::string Card = T == 'A' ? "[1,1]" : "[1,*]";
      std::string Body;
      switch (St) {
      case 0:
        Body = G ? Card : Name[K];
        break;
      case 1:
        Body = (G ? Card + " " : "") + Name[K] + " (" + Id[K] + ")";
        break;
      case 2:
        Body = (G ? Card + " " : "") + Name[K] + "(" + Id[K] + ")";
        break;
      case 3:
        Body = G ? Name[K] + " " + Card : Name[K] + " (" + Id[K] + ")";
        break;
      case 4:
        Body = G ? Card + " (" + Id[K] + ")" : Name[K] + " (" + Id[K] + ")";
        break;
      default:
        Body = G ? Card + " " + Name[K] : Name[K] + " ";
        break;
      }
      R.Tree += " " + Body + "\n";
      if (Un == 1) {
        R.Tree += "  \n\n";
      }
    }
    if (Un == 3) {
      R.Tree.pop_back();
    }
    size_t Z = L.Type.size() - 1;
    // The first feature may be an anonymous group.
    bool Ids = St == 1 || St == 2 || St == 4;
    if (Ids) {
      R.Cons = Strs{"c1: ~" + Id[Z] + " or " + Id[1],
                    " c2:" + Id[0] + " or ~" + Id[Z]};
    } else if (Un == 1) {
      R.Cons = Strs{};
    } else if (St == 5) {
      R.Cons = Strs{"c: " + Name[Z] + " or ~" + Name[1]};
    }
    return R;
  };
  return suite("trees" + std::to_string(N) + (Units > 1 ? "" : "-styles"),
               "all trees of " + std::to_string(N) +
                   " optional, mandatory, alternative and or lines in " +
                   std::to_string(Styles) +
                   " notations of names and identifiers and " +
                   std::to_string(Units) + " notations of the document",
               Ls->size() * Styles * Units, Get);
}

//===--------------------------------------------------------------------===//
// Constraints

const char *ConTree = "\n:r rt (q)\n\t:o xa (b)\n\t:o b2 (_a1)\n\t:o c\n\t:o "
                      "d9 (xa)\n\t:m e (9)\n";

mc::Suite constraints(const std::string &Name, Strs Tokens, int Len,
                      int Lines) {
  const uint64_t K = Tokens.size();
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    Doc R;
    R.Tree = ConTree;
    bool Tight = D.take(2);
    R.Cons = Strs{};
    for (int L = 0; L < Lines; ++L) {
      std::string S = L ? "\tc2:" : "c1: ";
      for (int J = 0; J < Len; ++J) {
        auto &T = Tokens[D.take(K)];
        bool Word = isalnum((unsigned char)T[0]) || T[0] == '_';
        bool Last = !S.empty() && (isalnum((unsigned char)S.back()) ||
                                   S.back() == '_');
        if (!Tight || T == "or" || T == "and" || (Word && Last)) {
          S += " ";
        }
        S += T;
        if (T == "or" || T == "and") {
          S += " ";
        }
      }
      R.Cons->push_back(S);
    }
    return R;
  };
  return suite(Name,
               "all sequences of " + std::to_string(Len) + " of the tokens " +
                   obs::join(Tokens, " ") + " as " + std::to_string(Lines) +
                   " constraints, tight and spaced",
               mc::ipow(K, Len * Lines) * 2, Get);
}

/// All texts of constraint sections.
mc::Suite conTexts(int Len) {
  const Strs F = {":", "c1", "b", "\n", " ", "\t", "~", "+", "\xc3\xa4", "3"};
  const uint64_t K = F.size();
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    Doc R;
    R.Tree = ConTree;
    R.Cons = Strs{};
    std::string S;
    for (int J = 0; J < Len; ++J) {
      S += F[D.take(K)];
    }
    // split as the reader does
    size_t P = 0;
    while (P <= S.size()) {
      size_t E = std::min(S.find('\n', P), S.size());
      std::string L = S.substr(P, E - P);
      if (!std::all_of(L.begin(), L.end(), blank)) {
        R.Cons->push_back(L);
      }
      P = E + 1;
    }
    return R;
  };
  auto S = suite("constraint-texts" + std::to_string(Len),
                 "all texts of " + std::to_string(Len) +
                     " fragments as constraints",
                 mc::ipow(K, Len), Get);
  // Sums and numbers are not part of the supported subset; they must only not
  // crash.
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto D = Get(I);
    bool Plain = true;
    for (auto &L : *D.Cons) {
      Plain &= L.find_first_of("+3") == std::string::npos;
    }
    if (Plain) {
      run(C, D);
      return;
    }
    auto FM = FeatureModelSxfmParser(text(D)).buildFeatureModel();
    C.trans();
    if (FM) {
      C.eq(obs::integrity(*FM), std::string(), "integrity");
    }
  };
  return S;
}

//===--------------------------------------------------------------------===//
// Faulty trees

mc::Suite texts(const std::string &Name, const std::string &Prefix, Strs F,
                int Len, std::optional<std::string> Unit) {
  const uint64_t K = F.size();
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    Doc R;
    R.Unit = Unit;
    R.Tree = Prefix;
    for (int J = 0; J < Len; ++J) {
      R.Tree += F[D.take(K)];
    }
    return R;
  };
  return suite(Name,
               "all texts of " + std::to_string(Len) + " out of " +
                   std::to_string(K) + " fragments as " +
                   (Prefix.empty() ? "feature tree" : "tail of a feature tree"),
               mc::ipow(K, Len), Get);
}

const char *Seed = ":r root (r)\n"
                   "\t:o a (i1)\n"
                   "\t\t:g [1,*] g1 (i2)\n"
                   "\t\t\t: b\n"
                   "\t\t\t: c (i3)\n"
                   "\t:m d\n"
                   "\t\t:g [1,1]\n"
                   "\t\t\t: e\n";

/// Every character deleted, doubled, replaced or preceded by another one.
mc::Suite faults(int Count) {
  const std::string T = Seed;
  const std::string F = ":rmog []()1*,\t\nax_2-";
  const uint64_t Ops = 2 + 2 * F.size();
  const uint64_t One = T.size() * Ops;
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    Doc R;
    R.Tree = T;
    for (int J = 0; J < Count; ++J) {
      uint64_t Op = D.take(Ops);
      uint64_t P = D.take(T.size());
      if (P >= R.Tree.size()) {
        continue;
      }
      if (Op == 0) {
        R.Tree.erase(P, 1);
      } else if (Op == 1) {
        R.Tree.insert(P, 1, R.Tree[P]);
      } else if (Op % 2) {
        R.Tree[P] = F[(Op - 2) / 2];
      } else {
        R.Tree.insert(P, 1, F[(Op - 2) / 2]);
      }
    }
    return R;
  };
  return suite("faults" + std::to_string(Count),
               "a feature tree with every combination of " +
                   std::to_string(Count) +
                   " deleted, doubled, replaced or inserted characters",
               mc::ipow(One, Count), Get);
}

/// All sequences of lines of a catalogue.
mc::Suite lines(int Len) {
  const Strs F = {":r root",      ":r x (i)",      "\t:m a",
                  "\t:o a (i)",   "\t:g [1,1]",    "\t:g [1,*] g",
                  "\t: a",        "\t\t: b",       "\t\t: c (j)",
                  "\t\t:o d",     "\t\t:g [1,*]",  "\t\t\t: e",
                  "\t\t\t:m root", "  :m a",       "\t:g [1,2]",
                  "\t:g [0,1]",   "\t:g [*,1]",    "\t:g",
                  "\t:x a",       "\ta",           "\t:",
                  ":",            "",              "\t\t\t\t:m f"};
  const uint64_t K = F.size();
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    Doc R;
    for (int J = 0; J < Len; ++J) {
      R.Tree += F[D.take(K)] + "\n";
    }
    return R;
  };
  return suite("lines" + std::to_string(Len),
               "all sequences of " + std::to_string(Len) + " out of " +
                   std::to_string(K) + " lines as feature tree",
               mc::ipow(K, Len), Get);
}

/// Attributes of the document.
mc::Suite attributes() {
  static const std::vector<std::optional<std::string>> Names = {
      std::nullopt, "", "m", " m x "};
  static const std::vector<std::optional<std::string>> Units = {
      std::nullopt, "", "\t", " ", "  ", "    ", "-", ":", "->", "m", "\t\t"};
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    Doc R;
    R.Name = Names[D.take(Names.size())];
    R.Unit = Units[D.take(Units.size())];
    std::string U = Units[D.take(Units.size())].value_or("");
    R.Style = D.take(3);
    uint64_t L = D.take(4);
    for (size_t K = 0; K < L; ++K) {
      std::string Ind;
      for (size_t J = 0; J < K; ++J) {
        Ind += U;
      }
      R.Tree += Ind + (K ? ":m f" + std::to_string(K) : ":r f0") + "\n";
    }
    return R;
  };
  return suite("attributes",
               "all combinations of names, indentation strings of the "
               "document and of the tree, and tree depths",
               Names.size() * Units.size() * Units.size() * 3 * 4, Get);
}

} // namespace

/// Larger regular trees with constraints of many literals.
mc::Suite largeOnes(const std::vector<int> &Sizes) {
  auto L = std::make_shared<std::vector<gen::Shape>>(large::shapes(Sizes));
  enum { Notations = 4, Marks = 3, Clauses = 5 };
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    int St = D.take(Notations);
    int Mark = D.take(Marks);
    int Cl = D.take(Clauses);
    auto &Sh = (*L)[D.take(L->size())];
    auto Name = large::names(Sh.N);
    Doc R;
    static const std::vector<std::optional<std::string>> U = {
        std::nullopt, "   ", "\t", "+"};
    R.Unit = U[St];
    R.Style = St % 3;
    std::string Ind = R.Unit.value_or("\t");
    std::function<void(int, int, bool)> Walk = [&](int P, int Level,
                                                   bool Member) {
      auto Line = [&](int Lv, const std::string &T) {
        for (int J = 0; J < Lv; ++J) {
          R.Tree += Ind;
        }
        R.Tree += ":" + T + "\n";
      };
      bool M = Mark == 0 || (Mark == 1 && P % 2);
      Line(Level, std::string(P == 0 ? "r" : Member ? "" : M ? "m" : "o") +
                      " " + Name[P] +
                      (St % 2 ? " (id" + std::to_string(P) + ")" : ""));
      for (int S = 0; S <= 2; ++S) {
        auto K = Sh.kids(P, S);
        if (K.empty()) {
          continue;
        }
        if (S) {
          Line(Level + 1,
               std::string("g ") +
                   (Sh.Kind[2 * P + S - 1] == 1 ? "[1,1]" : "[1,*]") +
                   (St == 1 ? " (g" + std::to_string(2 * P + S) + ")" : ""));
        }
        for (int C : K) {
          Walk(C, Level + 1 + (S != 0), S != 0);
        }
      }
    };
    Walk(0, 0, false);
    auto Ref = [&](int X) {
      return St % 2 ? "id" + std::to_string(X) : Name[X];
    };
    R.Cons = Strs{};
    for (int X = 0; X < Cl * 2; ++X) {
      std::string T = "c" + std::to_string(X) + ":";
      for (int Y = 0; Y <= (X * 3 + Cl) % 7; ++Y) {
        T += std::string(Y ? " or " : " ") + ((X + Y + Cl) % 3 ? "" : "~") +
             Ref((X * 5 + Y * 7 + 1) % (Sh.N + 1));
      }
      R.Cons->push_back(T);
    }
    return R;
  };
  return suite("large",
               large::bound(Sizes) +
                   ", in 4 notations, with optional, mandatory and mixed "
                   "features and 0 to 8 clauses of up to 7 literals",
               L->size() * Notations * Marks * Clauses, Get);
}

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  Strs Chars = {":", "r", "m", "g", " ", "\t", "\n", "a", "[1,1]", "(a)", "["};
  std::vector<mc::Suite> S = {
      trees(1, 6, 5),
      trees(2, 6, 5),
      trees(3, 6, 5),
      trees(4, 6, T ? 5 : 1),
      attributes(),
      lines(T ? 4 : 3),
      texts("texts", "", Chars, T ? 5 : 4, std::nullopt),
      texts("tails", ":r x\n\t", Chars, T ? 5 : 4, std::nullopt),
      texts("tails-indentation", ":r x\n\t:g [1,1] a\n",
            {"\t", ":", " ", "x", "m", "\n", "(a)"}, T ? 6 : 5, "\t"),
      faults(1),
      constraints("constraints3",
                  {"b", "_a1", "c", "xa", "9", "q", "rt", "b2", "u", "~", "or",
                   "and", "(", ")", "=>"},
                  3, 1),
      constraints("constraints5", {"b", "xa", "~", "or", "and", "(", ")"}, 5,
                  1),
      constraints("two-constraints", {"b", "c", "~", "or"}, 3, 2),
      conTexts(T ? 5 : 4),
      largeOnes(T ? std::vector<int>{6, 12, 17, 21}
                  : std::vector<int>{6, 12, 17})};
  if (T) {
    S.push_back(trees(5, 6, 1));
    S.push_back(constraints("constraints7", {"b", "xa", "~", "or", "(", ")"},
                            6, 1));
    S.push_back(constraints("constraints4",
                            {"b", "_a1", "c", "xa", "9", "q", "rt", "b2", "u",
                             "~", "or", "and", "(", ")", "=>"},
                            4, 1));
  }
  return mc::runChecks(Argc, Argv, "C19", S, {
    "documents between the documented notation and definite errors (unusual "
    "blanks, names that are no words, groups without members, members outside "
    "of groups, repeated identifiers) may be rejected or read as any "
    "consistent model",
  });
}
