// C06: reading an XML document yields exactly the model that it describes.
#include "cx.h"
#include "large.h"

#include "vara/Feature/FeatureModelParser.h"

#include <filesystem>
#include <optional>

using namespace vara::feature;

namespace {

using Strs = std::vector<std::string>;
template <class T> using Maybe = std::optional<T>;

//===--------------------------------------------------------------------===//
// Abstract documents

struct Location {
  Maybe<std::string> Category, Introduced, Removed, Member;
  std::string Path = "src/a.c";
  std::string SL = "1", SC = "2", EL = "3", EC = "4";
};

struct Option {
  std::string Name;
  bool Num = false;
  Maybe<std::string> Out, Pre, Post, Parent, Default, Optional, Min, Max,
      Values, Step;
  std::string PreTag = "prefix", PostTag = "postfix";
  Maybe<Strs> Children, Implied, Excluded;
  Maybe<std::vector<Location>> Locs;
  // what the texts denote
  std::string Range, StepFn;
};

struct ConText {
  std::string Text;
  Maybe<std::string> Req, Kind;
};

struct Document {
  std::string Vm = "m";
  Maybe<std::string> Path = "p", Commit = "c";
  std::vector<Option> Opts; // binary ones and numeric ones, in this order
  bool NumSection = false;
  Maybe<std::vector<ConText>> Bool, NonBool, Mixed;
};

//===--------------------------------------------------------------------===//
// Notations

enum Style { Compact, Indented, Blanks, Cdata, Entities, Noise, NStyles };

std::string escape(const std::string &S, bool Attr, int St) {
  std::string R;
  for (unsigned char C : S) {
    if (St == Entities && C > 32 && C < 127) {
      char B[16];
      snprintf(B, sizeof B, C % 2 ? "&#%d;" : "&#x%x;", C);
      R += B;
    } else if (C == '<') {
      R += "&lt;";
    } else if (C == '&') {
      R += "&amp;";
    } else if (C == '"' && Attr) {
      R += "&quot;";
    } else {
      R += char(C);
    }
  }
  return R;
}

struct Writer {
  int St;
  std::string X;
  int Depth = 0;
  void gap() {
    switch (St) {
    case Indented:
    case Blanks:
      X += "\n" + std::string(2 * Depth, ' ');
      break;
    case Noise:
      X += "<!-- <name>x</name> --><?pi <name>y</name>?>";
      break;
    default:
      break;
    }
  }
  void open(const std::string &Tag, const std::string &Attrs = "") {
    gap();
    X += "<" + Tag + Attrs + ">";
    ++Depth;
  }
  void close(const std::string &Tag) {
    --Depth;
    gap();
    X += "</" + Tag + ">";
  }
  /// Text element; Verbatim forbids blanks that the text does not contain.
  void text(const std::string &Tag, const std::string &T,
            bool Verbatim = false, const std::string &Attrs = "") {
    gap();
    X += "<" + Tag + Attrs + ">";
    switch (St) {
    case Blanks:
      X += Verbatim ? escape(T, false, St) : "\n\t " + escape(T, false, St) + " \n";
      break;
    case Cdata:
      X += T.empty() ? "" : "<![CDATA[" + T + "]]>";
      break;
    case Noise:
      // a comment in the middle does not end the text
      X += escape(T.substr(0, T.size() / 2), false, St) + "<!-- c -->" +
           escape(T.substr(T.size() / 2), false, St);
      break;
    default:
      X += escape(T, false, St);
    }
    X += "</" + Tag + ">";
  }
  void text(const std::string &Tag, const Maybe<std::string> &T,
            bool Verbatim = false) {
    if (T) {
      text(Tag, *T, Verbatim);
    }
  }
  void list(const std::string &Tag, const Maybe<Strs> &L) {
    if (!L) {
      return;
    }
    if (L->empty() && St == Compact) {
      X += "<" + Tag + "/>";
      return;
    }
    open(Tag);
    for (auto &E : *L) {
      text("options", E);
    }
    close(Tag);
  }
  std::string attr(const std::string &N, const Maybe<std::string> &V) {
    if (!V) {
      return "";
    }
    if (St == Blanks) {
      return "\n" + N + " = \"" + escape(*V, true, St) + "\"";
    }
    return " " + N + "=\"" + escape(*V, true, St) + "\"";
  }
  void option(const Option &O) {
    open("configurationOption");
    text("name", O.Name);
    text("outputString", O.Out, true);
    text(O.PreTag, O.Pre);
    text(O.PostTag, O.Post);
    text("parent", O.Parent);
    list("children", O.Children);
    list("impliedOptions", O.Implied);
    list("excludedOptions", O.Excluded);
    text("defaultValue", O.Default);
    text("optional", O.Optional);
    text("minValue", O.Min);
    text("maxValue", O.Max);
    text("values", O.Values);
    text("stepFunction", O.Step);
    if (O.Locs) {
      open("locations");
      for (auto &L : *O.Locs) {
        open("sourceRange", attr("category", L.Category));
        if (L.Introduced) {
          open("revisionRange");
          text("introduced", L.Introduced);
          text("removed", L.Removed);
          close("revisionRange");
        }
        text("path", L.Path);
        open("start");
        text("line", L.SL);
        text("column", L.SC);
        close("start");
        open("end");
        text("line", L.EL);
        text("column", L.EC);
        close("end");
        text("memberOffset", L.Member);
        close("sourceRange");
      }
      close("locations");
    }
    close("configurationOption");
  }
  void constraints(const std::string &Tag,
                   const Maybe<std::vector<ConText>> &L) {
    if (!L) {
      return;
    }
    open(Tag);
    for (auto &C : *L) {
      text("constraint", C.Text, false,
           attr("req", C.Req) + attr("exprKind", C.Kind));
    }
    close(Tag);
  }
  std::string document(const Document &D) {
    X = St == Compact ? "" : "<?xml version=\"1.0\" encoding=\"UTF-8\"?>";
    if (St == Indented) {
      X += "\n<!DOCTYPE vm SYSTEM \"vm.dtd\">";
    }
    open("vm", attr("name", D.Vm) + attr("root", D.Path) +
                   attr("commit", D.Commit));
    bool Num = D.NumSection;
    open("binaryOptions");
    for (auto &O : D.Opts) {
      Num |= O.Num;
      if (!O.Num) {
        option(O);
      }
    }
    close("binaryOptions");
    if (Num) {
      open("numericOptions");
      for (auto &O : D.Opts) {
        if (O.Num) {
          option(O);
        }
      }
      close("numericOptions");
    }
    constraints("booleanConstraints", D.Bool);
    constraints("nonBooleanConstraints", D.NonBool);
    constraints("mixedConstraints", D.Mixed);
    close("vm");
    X += "\n";
    return X;
  }
};

std::string render(const Document &D, int St) {
  Writer W{St, {}, 0};
  return W.document(D);
}

//===--------------------------------------------------------------------===//
// Denotation

std::string trim(const std::string &S) {
  size_t A = S.find_first_not_of(" \t\n\r\v\f");
  if (A == std::string::npos) {
    return "";
  }
  return S.substr(A, S.find_last_not_of(" \t\n\r\v\f") - A + 1);
}

bool isRoot(const std::string &N) { return N == "root" || N == "base"; }

void mentions(const std::string &Ast, Strs &Out) {
  std::string W;
  for (char C : Ast + " ") {
    if (isalnum((unsigned char)C) || C == '_') {
      W += C;
    } else {
      if (!W.empty() && isalpha((unsigned char)W[0]) && W != "excl") {
        Out.push_back(W);
      }
      W.clear();
    }
  }
}

/// Model described by the document, or nullopt if it describes none.
Maybe<ref::Model> denote(const Document &D) {
  auto M = ref::Model::initial("root");
  M.Name = trim(D.Vm);
  M.Path = D.Path ? trim(*D.Path) : std::filesystem::current_path().string();
  M.Commit = D.Commit ? trim(*D.Commit) : "";
  std::map<std::string, std::string> Parent;
  bool Ambiguous = false;
  auto Edge = [&](const std::string &P, const std::string &C) {
    auto It = Parent.find(C);
    Ambiguous |= It != Parent.end() && It->second != P;
    Parent[C] = P;
  };
  auto Add = [&](const std::string &Prefix, const std::string &Ast) {
    ref::Con K{Prefix + Ast, {}};
    mentions(Ast, K.Mentions);
    M.Cons.push_back(K);
  };
  std::set<std::string> Seen;
  std::vector<const Option *> All;
  for (bool Num : {false, true}) {
    for (auto &O : D.Opts) {
      if (O.Num == Num) {
        All.push_back(&O);
      }
    }
  }
  for (auto *P : All) {
    auto &O = *P;
    std::string N = trim(O.Name);
    if (O.Parent && !trim(*O.Parent).empty()) {
      Edge(trim(*O.Parent), N);
    }
    for (auto &C : O.Children ? *O.Children : Strs{}) {
      Edge(N, trim(C));
    }
    for (auto &C : O.Implied ? *O.Implied : Strs{}) {
      Add("B ", "(=> " + N + " " + trim(C) + ")");
    }
    for (auto &C : O.Excluded ? *O.Excluded : Strs{}) {
      Add("B ", "(excl " + N + " " + trim(C) + ")");
    }
    ref::Node X;
    X.Name = N;
    for (auto &L : O.Locs ? *O.Locs : std::vector<Location>{}) {
      std::string T = trim(L.Path) + "@" + trim(L.SL) + ":" + trim(L.SC) +
                      "-" + trim(L.EL) + ":" + trim(L.EC);
      T += L.Category && *L.Category == "inessential" ? "/i" : "/n";
      if (L.Member) {
        T += "/m=" + trim(*L.Member);
      }
      if (L.Introduced) {
        T += "/r=" + trim(*L.Introduced);
        if (L.Removed) {
          T += ".." + trim(*L.Removed);
        }
      }
      X.Locs.push_back(T);
    }
    if (isRoot(N)) {
      M.N[0].Name = N;
      M.N[0].Locs = X.Locs;
      continue;
    }
    if (!Seen.insert(N).second) {
      return std::nullopt;
    }
    X.K = O.Num ? ref::Num : ref::Bin;
    if (O.Out && !trim(*O.Out).empty()) {
      X.Out = O.Out->substr(O.Out->find_first_not_of(" \t\n\r\v\f"));
    }
    X.Opt = O.Optional && trim(*O.Optional) == "True";
    X.Values = O.Range.empty() ? "0..0" : O.Range;
    X.Step = O.StepFn;
    M.add(X, 0);
  }
  if (Ambiguous) {
    return std::nullopt;
  }
  for (auto &[C, P] : Parent) {
    int CI = M.find(C);
    int PI = M.find(P);
    if (CI < 0 || PI < 0 || M.inSubtree(PI, CI)) {
      return std::nullopt;
    }
    M.link(PI, CI);
  }
  auto Section = [&](const Maybe<std::vector<ConText>> &L, int Cat) {
    for (auto &T : L ? *L : std::vector<ConText>{}) {
      auto A = cx::parseText(T.Text);
      if (!A) {
        return false;
      }
      std::string P = Cat == 0 ? "B " : "N ";
      if (Cat == 2) {
        P = "M " + std::string(T.Req && *T.Req == "none" ? "none" : "all") +
            " " + (T.Kind && *T.Kind == "neg" ? "neg" : "pos") + " ";
      }
      Add(P, *A);
    }
    return true;
  };
  if (!Section(D.Bool, 0) || !Section(D.NonBool, 1) || !Section(D.Mixed, 2)) {
    return std::nullopt;
  }
  for (auto &C : M.Cons) {
    for (auto &F : C.Mentions) {
      if (M.find(F) < 0) {
        return std::nullopt;
      }
    }
  }
  // Several mandatory siblings that all exclude each other are alternatives.
  auto Excludes = [&](const std::string &A, const std::string &B) {
    for (auto &C : M.Cons) {
      if (C.Text == "B (excl " + A + " " + B + ")") {
        return true;
      }
    }
    return false;
  };
  size_t Count = M.N.size();
  for (size_t P = 0; P < Count; ++P) {
    auto K = M.N[P].Kids;
    bool Alt = K.size() > 1;
    for (int A : K) {
      Alt &= !M.N[A].Opt;
      for (int B : K) {
        Alt &= A == B || Excludes(M.N[A].Name, M.N[B].Name);
      }
    }
    if (Alt) {
      ref::Node G;
      G.K = ref::Alt;
      int GI = M.add(G, int(P));
      for (int A : K) {
        M.link(GI, A);
      }
    }
  }
  return M;
}

void check(mc::Ctx &C, const Document &D, int St) {
  std::string X = render(D, St);
  C.Note = X;
  auto Want = denote(D);
  FeatureModelXmlParser Verify(X);
  C.check(bool(Verify.verifyFeatureModel()),
          "the verifier rejects a document of the document type");
  FeatureModelXmlParser P(X);
  auto FM = P.buildFeatureModel();
  C.trans(2);
  if (!Want) {
    C.check(!FM, "a document without consistent model is accepted");
    C.state("rejected");
    return;
  }
  C.check(FM != nullptr, "a document is rejected, expected " + Want->str());
  C.eq(obs::model(*FM), Want->str(), "model read from the document");
  auto I = obs::integrity(*FM);
  C.check(I.empty(), I);
  C.state(Want->str());
}

using Gen = std::function<Document(uint64_t &)>;

/// Suite over the documents of G in the given notations.
mc::Suite suite(const std::string &Name, const std::string &Bound, uint64_t N,
                std::vector<int> Styles,
                std::function<Document(mc::Digits &)> G) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = Bound + ", in " + std::to_string(Styles.size()) + " notations";
  S.N = N * Styles.size();
  S.Describe = [=](uint64_t I) {
    mc::Digits D(I / Styles.size());
    return render(G(D), Styles[I % Styles.size()]);
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    mc::Digits D(I / Styles.size());
    check(C, G(D), Styles[I % Styles.size()]);
  };
  return S;
}

const std::vector<int> AllStyles = {Compact, Indented, Blanks,
                                    Cdata,   Entities, Noise};

template <class T> T pick(mc::Digits &D, const std::vector<T> &V) {
  return V[D.take(V.size())];
}

//===--------------------------------------------------------------------===//

/// Root notations: 0 none, 1 root first, 2 root last, 3 base first, 4 base
/// last.
void addRoot(Document &D, int R, const Option &Proto = {}) {
  if (!R) {
    return;
  }
  Option O = Proto;
  O.Name = R <= 2 ? "root" : "base";
  D.Opts.insert(R % 2 ? D.Opts.begin() : D.Opts.end(), O);
}

const std::vector<Strs> Orders = {{"a", "b", "c"}, {"a", "c", "b"},
                                  {"b", "a", "c"}, {"b", "c", "a"},
                                  {"c", "a", "b"}, {"c", "b", "a"}};
const std::vector<Maybe<std::string>> Parents = {std::nullopt, "root", "base",
                                                 "a", "b", "c", "zz"};

mc::Suite treeByParents() {
  return suite("parents",
               "three options with every choice of a parent element (none, "
               "root, base, any option, unknown), in every order, with the "
               "root option absent, first or last",
               343 * 6 * 5, {Compact, Blanks, Noise}, [](mc::Digits &D) {
                 Document X;
                 Maybe<std::string> P[3];
                 for (auto &Y : P) {
                   Y = pick(D, Parents);
                 }
                 for (auto &N : pick(D, Orders)) {
                   Option O;
                   O.Name = N;
                   O.Parent = P[N[0] - 'a'];
                   X.Opts.push_back(O);
                 }
                 addRoot(X, int(D.take(5)));
                 return X;
               });
}

mc::Suite treeByChildren() {
  static const std::vector<Maybe<Strs>> Kids = {
      std::nullopt,    Strs{},          Strs{"a"},      Strs{"b"},
      Strs{"c"},       Strs{"a", "b"},  Strs{"c", "b"}, Strs{"a", "c"},
      Strs{"a", "a"},  Strs{"zz"},      Strs{"root"}};
  static const std::vector<Maybe<Strs>> RootKids = {
      std::nullopt, Strs{"a"}, Strs{"b", "c"}, Strs{"a", "b", "c"},
      Strs{"root"}};
  return suite("children",
               "three options and the root with every choice of a children "
               "element out of 11 and 5 lists",
               1331 * 5 * 2 * (mc::thorough() ? 6 : 1), {Compact, Blanks, Noise},
               [](mc::Digits &D) {
                 Document X;
                 Maybe<Strs> K[3];
                 for (auto &Y : K) {
                   Y = pick(D, Kids);
                 }
                 Option R;
                 R.Children = pick(D, RootKids);
                 int At = 1 + int(D.take(2));
                 for (auto &N :
                      mc::thorough() ? pick(D, Orders) : Orders[0]) {
                   Option O;
                   O.Name = N;
                   O.Children = K[N[0] - 'a'];
                   X.Opts.push_back(O);
                 }
                 addRoot(X, At, R);
                 return X;
               });
}

mc::Suite treeByBoth() {
  static const std::vector<Maybe<std::string>> Par = {std::nullopt, "root", "a",
                                                      "b", "c"};
  static const std::vector<Maybe<Strs>> Kids = {
      std::nullopt, Strs{"a"}, Strs{"b"}, Strs{"c"}, Strs{"b", "c"},
      Strs{"a", "b"}};
  bool T = mc::thorough();
  return suite("parents-and-children",
               "three options with every choice of a parent element and a "
               "children list",
               mc::ipow(30, 3) * (T ? 6 : 1), {Compact, Blanks}, [T](mc::Digits &D) {
                 Document X;
                 Maybe<std::string> P[3];
                 Maybe<Strs> K[3];
                 for (int I = 0; I < 3; ++I) {
                   P[I] = pick(D, Par);
                   K[I] = pick(D, Kids);
                 }
                 for (auto &N : T ? pick(D, Orders) : Orders[3]) {
                   Option O;
                   O.Name = N;
                   O.Num = N == "c";
                   O.Parent = P[N[0] - 'a'];
                   O.Children = K[N[0] - 'a'];
                   X.Opts.push_back(O);
                 }
                 return X;
               });
}

mc::Suite names() {
  static const Strs Name = {"a", "A", "b", "a b", "a-1", "\xc3\xa4", "<&\"'>",
                            "Root", "7"};
  return suite(
      "names", "three binary or numeric options named out of nine names",
      mc::ipow(Name.size() * 2, 3), {Compact, Blanks}, [](mc::Digits &D) {
        Document X;
        for (int I = 0; I < 3; ++I) {
          Option O;
          O.Name = pick(D, Name);
          O.Num = D.take(2);
          if (I == 2) {
            O.Parent = X.Opts[0].Name;
          }
          X.Opts.push_back(O);
        }
        return X;
      });
}

//===--------------------------------------------------------------------===//

const std::vector<Maybe<std::string>> Outs = {std::nullopt, "", "-o", "  --o=<1> ",
                                              "&"};
const std::vector<Maybe<std::string>> Opts = {std::nullopt, "True", "False",
                                              " True "};

std::vector<Maybe<std::vector<Location>>> someLocations() {
  Location A;
  Location B;
  B.Category = "inessential";
  B.Path = "b c/d.h";
  return {std::nullopt, std::vector<Location>{}, std::vector<Location>{A},
          std::vector<Location>{B, A}};
}

mc::Suite binaryAttributes() {
  static const auto Locs = someLocations();
  return suite("binary-options",
               "a binary option with every combination of its elements",
               Outs.size() * 3 * 3 * 2 * Opts.size() * Locs.size() * 2,
               AllStyles, [](mc::Digits &D) {
                 Document X;
                 Option O;
                 O.Name = "a";
                 O.Out = pick(D, Outs);
                 if (int P = int(D.take(3))) {
                   O.Pre = "-";
                   O.PreTag = P == 1 ? "prefix" : "preFix";
                 }
                 if (int P = int(D.take(3))) {
                   O.Post = "True";
                   O.PostTag = P == 1 ? "postfix" : "postFix";
                 }
                 if (D.take(2)) {
                   O.Default = "Selected";
                 }
                 O.Optional = pick(D, Opts);
                 O.Locs = pick(D, Locs);
                 if (D.take(2)) {
                   O.Parent = "";
                 }
                 X.Opts.push_back(O);
                 return X;
               });
}

struct Number {
  const char *Text;
  const char *Value;
};
const std::vector<Number> Numbers = {
    {"0", "0"},
    {"7", "7"},
    {"-12", "-12"},
    {"1e3", "1000"},
    {"-2E+2", "-200"},
    {"007", "7"},
    {"9223372036854775807", "9223372036854775807"},
    {"-9223372036854775808", "-9223372036854775808"},
    {"4294967296", "4294967296"}};

struct StepText {
  const char *Text;
  double (*Fn)(double);
};
const std::vector<StepText> StepTexts = {
    {"x + 2", [](double X) { return X + 2; }},
    {"x * 3", [](double X) { return X * 3; }},
    {"2 ^ x", [](double X) { return std::pow(2, X); }},
    {"x + 0.5", [](double X) { return X + 0.5; }}};

void setStep(Option &O, uint64_t I) {
  if (!I) {
    return;
  }
  O.Step = StepTexts[I - 1].Text;
  for (double X : {0.0, 1.0, 2.0, 3.0, 7.0}) {
    char B[64];
    snprintf(B, sizeof B, "%.12g;", StepTexts[I - 1].Fn(X));
    O.StepFn += B;
  }
}

mc::Suite ranges() {
  uint64_t K = Numbers.size();
  return suite("numeric-ranges",
               "a numeric option with every pair of bounds out of nine "
               "numbers, step functions and optional flags",
               K * K * (StepTexts.size() + 1) * 2 * 3, {Compact, Blanks, Noise},
               [](mc::Digits &D) {
                 Document X;
                 Option O;
                 O.Name = "n";
                 O.Num = true;
                 auto A = pick(D, Numbers);
                 auto B = pick(D, Numbers);
                 O.Min = A.Text;
                 O.Max = B.Text;
                 O.Range = std::string(A.Value) + ".." + B.Value;
                 setStep(O, D.take(StepTexts.size() + 1));
                 if (D.take(2)) {
                   O.Optional = "True";
                 }
                 O.Out = pick(D, std::vector<Maybe<std::string>>{
                                     std::nullopt, "-n", "  -n "});
                 X.Opts.push_back(O);
                 return X;
               });
}

mc::Suite valueLists() {
  static const Strs Sep = {";", ",", " ", " ; ", "\n"};
  uint64_t K = Numbers.size();
  return suite(
      "numeric-values",
      "a numeric option with every list of up to three out of nine numbers, "
      "and five separators",
      K * (K + 1) * (K + 1) * Sep.size() * 2, {Compact, Cdata},
      [](mc::Digits &D) {
        Document X;
        Option O;
        O.Name = "n";
        O.Num = true;
        std::vector<Number> L{pick(D, Numbers)};
        for (int I = 0; I < 2; ++I) {
          if (auto J = D.take(Numbers.size() + 1)) {
            L.push_back(Numbers[J - 1]);
          }
        }
        auto S = pick(D, Sep);
        Strs T;
        Strs V;
        for (auto &N : L) {
          T.push_back(N.Text);
          V.push_back(N.Value);
        }
        O.Values = obs::join(T, S.c_str());
        O.Range = "{" + obs::join(V) + "}";
        setStep(O, D.take(2));
        X.Opts.push_back(O);
        return X;
      });
}

mc::Suite locations() {
  static const std::vector<Maybe<std::string>> Cat = {std::nullopt, "necessary",
                                                      "inessential"};
  static const std::vector<Maybe<std::string>> Member = {std::nullopt, "A::b",
                                                         "N::A::b_1"};
  static const std::vector<Maybe<std::string>> Rev = {std::nullopt, "beef",
                                                      "beef..dead"};
  static const Strs Path = {"a.c", "src/a b.c", "/x/<y>&z.h"};
  static const Strs Line = {"0", "1", "4294967", "017"};
  return suite(
      "locations",
      "a location with every combination of category, revision range, path, "
      "member offset and positions; of a binary, numeric or root option",
      3 * 3 * 3 * 3 * 4 * 3, AllStyles, [](mc::Digits &D) {
        Document X;
        Location L;
        L.Category = pick(D, Cat);
        L.Member = pick(D, Member);
        if (auto R = pick(D, Rev)) {
          L.Introduced = R->substr(0, 4);
          if (R->size() > 4) {
            L.Removed = "dead";
          }
        }
        L.Path = pick(D, Path);
        auto N = D.take(4);
        static const char *SL[] = {"0", "1", "1234567", "12"};
        static const char *EC[] = {"9", "0", "2147483647", "34"};
        L.SL = SL[N];
        L.EC = EC[N];
        Option O;
        O.Name = "a";
        O.Locs = std::vector<Location>{L, Location{}};
        switch (D.take(3)) {
        case 0:
          X.Opts.push_back(O);
          break;
        case 1:
          O.Num = true;
          X.Opts.push_back(O);
          break;
        default:
          O.Name = "root";
          X.Opts.push_back(O);
        }
        return X;
      });
}

mc::Suite metadata() {
  static const Strs Vm = {"", "m", " a b ", "<&\"'>"};
  static const std::vector<Maybe<std::string>> Path = {
      std::nullopt, "", "p", " /a/b c ", "<&\"'>"};
  return suite("metadata", "every combination of model attributes and sections",
               4 * 5 * 5 * 2 * 2 * 2 * 2 * 3, {Compact, Blanks, Noise},
               [](mc::Digits &D) {
                 Document X;
                 X.Vm = pick(D, Vm);
                 X.Path = pick(D, Path);
                 X.Commit = pick(D, Path);
                 X.NumSection = D.take(2);
                 std::vector<ConText> E;
                 if (D.take(2)) {
                   X.Bool = E;
                 }
                 if (D.take(2)) {
                   X.NonBool = E;
                 }
                 if (D.take(2)) {
                   X.Mixed = E;
                 }
                 int R = int(D.take(3));
                 if (R) {
                   addRoot(X, 2 * R - 1);
                 }
                 return X;
               });
}

//===--------------------------------------------------------------------===//

const Strs ConTexts = {"a",
                       "!a",
                       "a | b",
                       "a & !b",
                       "a -> b",
                       "a <-> n",
                       "a => (b => a)",
                       "n > 3",
                       "n * 2 <= 10 - n",
                       "a * n != 4",
                       "root => a",
                       "(a | b) & !(n = -2)",
                       "~(a & b) or a",
                       "a | zz",
                       "a |",
                       ")",
                       ""};

mc::Suite constraints() {
  static const std::vector<Maybe<std::string>> Req = {std::nullopt, "all",
                                                      "none"};
  static const std::vector<Maybe<std::string>> Kind = {std::nullopt, "pos",
                                                       "neg"};
  uint64_t K = ConTexts.size();
  return suite(
      "constraints",
      "constraints of all three kinds out of 17 texts, mixed ones with every "
      "combination of attributes, alone or behind another constraint",
      K * 11 * (K + 1), {Compact, Blanks, Entities}, [=](mc::Digits &D) {
        Document X;
        for (const char *N : {"a", "b", "n"}) {
          Option O;
          O.Name = N;
          O.Num = *N == 'n';
          X.Opts.push_back(O);
        }
        ConText T;
        T.Text = pick(D, ConTexts);
        auto Cat = D.take(11);
        std::vector<ConText> L;
        if (auto F = D.take(K + 1)) {
          L.push_back({ConTexts[F - 1], {}, {}});
        }
        if (Cat >= 2) {
          T.Req = Req[(Cat - 2) % 3];
          T.Kind = Kind[(Cat - 2) / 3];
          X.Bool = L;
          X.Mixed = std::vector<ConText>{T};
        } else {
          L.push_back(T);
          (Cat ? X.NonBool : X.Bool) = L;
        }
        return X;
      });
}

/// Implied and excluded options of two options over five targets each.
mc::Suite impliedExcluded() {
  static const std::vector<Maybe<Strs>> L = {
      std::nullopt,   Strs{},          Strs{"a"},      Strs{"b"},
      Strs{"n"},      Strs{"root"},    Strs{"b", "n"}, Strs{"n", "b"},
      Strs{"b", "b"}, Strs{"zz"}};
  return suite("implied-excluded",
               "all choices of implied and excluded options for two options "
               "out of ten lists",
               10000, {Compact, Blanks, Noise}, [](mc::Digits &D) {
                 Document X;
                 for (const char *N : {"a", "b", "n"}) {
                   Option O;
                   O.Name = N;
                   O.Num = *N == 'n';
                   if (*N != 'b') {
                     O.Implied = pick(D, L);
                     O.Excluded = pick(D, L);
                   }
                   X.Opts.push_back(O);
                 }
                 return X;
               });
}

/// All exclusions between three features, below the root or another feature.
mc::Suite alternatives() {
  static const std::vector<Strs> Trees = {
      {"", "", ""}, {"x", "x", "x"}, {"x", "x", ""}, {"", "a", "a"}};
  return suite(
      "alternatives",
      "three features in four trees, below the root, a binary or a numeric "
      "feature, with all exclusions between them, in both notations, and all "
      "optional flags",
      64 * 8 * 4 * 2 * 2, {Compact, Blanks}, [](mc::Digits &D) {
        Document X;
        bool Numeric = D.take(2);
        auto E = D.take(64);
        auto Opt = D.take(8);
        auto T = pick(D, Trees);
        bool Text = D.take(2);
        static const Strs N = {"a", "b", "c"};
        std::vector<ConText> Cons;
        for (int I = 0; I < 3; ++I) {
          Option O;
          O.Name = N[I];
          if (!T[I].empty()) {
            O.Parent = T[I];
          }
          if (Opt >> I & 1) {
            O.Optional = "True";
          }
          O.Num = I == 2;
          Strs L;
          for (int J = 0; J < 2; ++J) {
            if (E >> (2 * I + J) & 1) {
              auto &To = N[J < I ? J : J + 1];
              if (Text && I == 1) {
                Cons.push_back({N[I] + " => !" + To, {}, {}});
              } else {
                L.push_back(To);
              }
            }
          }
          O.Excluded = L;
          X.Opts.push_back(O);
        }
        Option O;
        O.Name = "x";
        O.Num = Numeric;
        X.Opts.push_back(O);
        X.Bool = Cons;
        return X;
      });
}

/// All exclusions between four mandatory features.
mc::Suite fourAlternatives() {
  return suite(
      "alternatives4",
      "four mandatory features below the root or another one, binary or "
      "numeric, with all exclusions between them",
      4096 * 3, {Compact, Noise}, [](mc::Digits &D) {
        Document X;
        auto E = D.take(4096);
        auto Deep = D.take(3);
        bool Numeric = Deep == 2;
        static const Strs N = {"a", "b", "c", "d"};
        for (int I = 0; I < 4; ++I) {
          Option O;
          O.Name = N[I];
          if (Deep) {
            O.Parent = "x";
          }
          Strs L;
          for (int J = 0; J < 3; ++J) {
            if (E >> (3 * I + J) & 1) {
              L.push_back(N[J < I ? J : J + 1]);
            }
          }
          O.Excluded = L;
          X.Opts.push_back(O);
        }
        Option O;
        O.Name = "x";
        O.Num = Numeric;
        X.Opts.push_back(O);
        return X;
      });
}

/// Larger regular trees; groups are written as mutual exclusions.
mc::Suite largeOnes(const std::vector<int> &Sizes) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(large::shapes(Sizes));
  return suite(
      "large",
      large::bound(Sizes) +
          " written as mutual exclusions, with parents, children or both, in "
          "three orders of the options, completely or with one exclusion "
          "missing or one optional member",
      Sh->size() * 3 * 3 * 3, {Compact, Indented}, [=](mc::Digits &D) {
        auto How = D.take(3);
        auto Order = D.take(3);
        auto Hole = D.take(3);
        auto &S = (*Sh)[D.take(Sh->size())];
        auto Names = large::names(S.N);
        Document X;
        bool Holed = false;
        for (int I = 1; I <= S.N; ++I) {
          Option O;
          O.Name = Names[I];
          if (How != 1) {
            O.Parent = Names[S.Parent[I]];
          }
          if (How != 0 && !S.kids(I).empty()) {
            O.Children.emplace();
            for (int K : S.kids(I)) {
              O.Children->push_back(Names[K]);
            }
          }
          O.Excluded.emplace();
          O.Optional = S.Slot[I] || I % 3 ? "False" : "True";
          if (S.Slot[I]) {
            auto L = S.kids(S.Parent[I], S.Slot[I]);
            for (int K : L) {
              if (K == I) {
                continue;
              }
              if (Hole == 1 && !Holed && L.size() > 2) {
                Holed = true;
                continue;
              }
              O.Excluded->push_back(Names[K]);
            }
            if (Hole == 2 && !Holed && L.size() > 2) {
              O.Optional = "True";
              Holed = true;
            }
          }
          X.Opts.push_back(O);
        }
        if (How == 1) {
          Option R;
          R.Name = "root";
          R.Children.emplace();
          for (int K : S.kids(0)) {
            R.Children->push_back(Names[K]);
          }
          X.Opts.push_back(R);
        }
        if (Order == 1) {
          std::reverse(X.Opts.begin(), X.Opts.end());
        } else if (Order == 2) {
          std::rotate(X.Opts.begin(), X.Opts.begin() + X.Opts.size() / 2,
                      X.Opts.end());
        }
        return X;
      });
}

/// Up to three families of alternatives in one document.
mc::Suite families() {
  static const Strs Order = {"rxy", "yxr", "xyr"};
  return suite(
      "families",
      "up to three features with zero to four mandatory children each that "
      "exclude each other, one below the other or side by side, with an "
      "exclusion missing in one of them, an optional child or none",
      3 * 4 * 4 * 3 * 3 * 7 * 3, {Compact, Noise}, [](mc::Digits &D) {
        static const int Sizes[] = {0, 2, 3, 4};
        int Size[3] = {Sizes[D.take(3)], Sizes[D.take(4)], Sizes[D.take(4)]};
        auto PX = D.take(3); // x: beside, in or below the family of the root
        auto PY = D.take(3); // y: beside, in or below the family of x
        auto Flaw = D.take(7);
        auto Ord = pick(D, Order);
        Document X;
        auto Make = [&](const std::string &N, const std::string &P) {
          Option O;
          O.Name = N;
          O.Parent = P;
          O.Optional = "True";
          return O;
        };
        std::map<char, std::vector<Option>> All;
        const Strs Top = {"root", "x", "y"};
        for (int I = 0; I < 3; ++I) {
          char Key = "rxy"[I];
          Strs Names;
          for (int J = 0; J < Size[I]; ++J) {
            Names.push_back(Key + std::to_string(J));
          }
          // the next feature is the last member of this family
          if (I < 2 && Size[I] && (I ? PY : PX) == 1) {
            Names.back() = Top[I + 1];
          }
          for (size_t J = 0; J < Names.size(); ++J) {
            auto O = Make(Names[J], Top[I]);
            O.Optional = "False";
            O.Excluded.emplace();
            for (size_t K = 0; K < Names.size(); ++K) {
              if (K != J && !(Flaw == unsigned(2 * I + 1) && J == 1 && K == 0)) {
                O.Excluded->push_back(Names[K]);
              }
            }
            if (Flaw == unsigned(2 * I + 2) && J == 0) {
              O.Optional = "True";
            }
            All[Key].push_back(O);
          }
          if (I < 2 && !(Size[I] && (I ? PY : PX) == 1)) {
            // below a member, or somewhere without alternatives
            bool Below = (I ? PY : PX) == 2 && Size[I];
            All[Key].push_back(Make(Top[I + 1], Below ? Names[0] : "z"));
          }
        }
        for (char K : Ord) {
          for (auto &O : All[K]) {
            X.Opts.push_back(O);
          }
        }
        // the family of the root needs all of its children
        auto Z = Make("z", Size[0] ? "r0" : "root");
        X.Opts.push_back(Z);
        return X;
      });
}

} // namespace

int main(int Argc, char **Argv) {
  return mc::runChecks(
      Argc, Argv, "C06",
      {treeByParents(), treeByChildren(), treeByBoth(), names(),
       binaryAttributes(), ranges(), valueLists(), locations(), metadata(),
       constraints(), impliedExcluded(), alternatives(), fourAlternatives(), families(),
       largeOnes(mc::thorough() ? std::vector<int>{4, 5, 6, 7, 8, 10, 13, 17}
                                : std::vector<int>{5, 8, 12})},
      {"documents conform to the document type and are UTF-8; names are not "
       "empty; at most one option is called root or base",
       "excludes that are written as text do not make features alternatives"});
}
