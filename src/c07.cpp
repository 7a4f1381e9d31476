// C07: malformed model documents are rejected and never crash the readers.
#include "gen.h"

#include "vara/Feature/FeatureModel.h"
#include "vara/Feature/FeatureModelParser.h"

#include <libxml/parser.h>
#include <libxml/tree.h>

#include <fstream>
#include <regex>
#include <unistd.h>

namespace {

namespace vf = vara::feature;
using Strs = std::vector<std::string>;

//===--------------------------------------------------------------------===//
// Reference validator

/// Content model over the names of the children, each followed by a blank;
/// "#" for texts.
struct Decl {
  std::string Model;
  Strs Attrs; // name, name! if required, name=a|b if enumerated
};

struct Language {
  std::string Root;
  std::map<std::string, Decl> Elements;
  std::map<std::string, std::regex> Compiled;
  bool Sxfm = false;

  void compile() {
    for (auto &[N, D] : Elements) {
      if (D.Model != "#") {
        Compiled[N] = std::regex(D.Model);
      }
    }
  }
};

Language xml() {
  Language L;
  L.Root = "vm";
  auto &E = L.Elements;
  E["vm"] = {"binaryOptions (numericOptions )?(booleanConstraints )?"
             "(nonBooleanConstraints )?(mixedConstraints )?",
             {"name!", "root", "commit"}};
  E["binaryOptions"] = E["numericOptions"] = {"(configurationOption )*", {}};
  E["booleanConstraints"] = E["nonBooleanConstraints"] =
      E["mixedConstraints"] = {"(constraint )*", {}};
  E["configurationOption"] = {
      "name (outputString )?((prefix |preFix ))?((postfix |postFix ))?"
      "(parent )?(children )?(impliedOptions )?(excludedOptions )?"
      "(defaultValue )?(optional )?((minValue maxValue |values ))?"
      "(stepFunction )?(locations )?",
      {}};
  E["constraint"] = {"#", {"req", "exprKind"}};
  for (const char *N :
       {"name", "outputString", "prefix", "preFix", "postfix", "postFix",
        "parent", "defaultValue", "options", "optional", "minValue",
        "maxValue", "values", "stepFunction", "introduced", "removed", "path",
        "line", "column", "memberOffset"}) {
    E[N] = {"#", {}};
  }
  E["children"] = E["impliedOptions"] = E["excludedOptions"] = {"(options )*",
                                                                {}};
  E["locations"] = {"(sourceRange )*", {}};
  E["sourceRange"] = {"(revisionRange )?path start end (memberOffset )?",
                      {"category=necessary|inessential"}};
  E["revisionRange"] = {"introduced (removed )?", {}};
  E["start"] = E["end"] = {"line column ", {}};
  L.compile();
  return L;
}

Language sxfm() {
  Language L;
  L.Sxfm = true;
  L.Root = "feature_model";
  auto &E = L.Elements;
  E["feature_model"] = {"(meta )?feature_tree (constraints )?", {"name"}};
  E["meta"] = {"(data )*", {}};
  E["data"] = {"#", {"name!"}};
  E["feature_tree"] = {"#", {"indentation_string"}};
  E["constraints"] = {"#", {}};
  L.compile();
  return L;
}

std::string invalid(const Language &L, xmlNode *N) {
  std::string Name = reinterpret_cast<const char *>(N->name);
  auto I = L.Elements.find(Name);
  if (N->ns || I == L.Elements.end()) {
    return "unknown element " + Name;
  }
  std::set<std::string> Seen;
  for (auto *A = N->properties; A; A = A->next) {
    std::string K = reinterpret_cast<const char *>(A->name);
    auto *V = xmlNodeGetContent(reinterpret_cast<xmlNode *>(A));
    std::string Value = reinterpret_cast<char *>(V);
    xmlFree(V);
    bool Known = false;
    for (auto &D : I->second.Attrs) {
      auto Eq = D.find('=');
      if (D == K || D == K + "!") {
        Known = true;
      } else if (Eq != std::string::npos && D.substr(0, Eq) == K) {
        std::string All = "|" + D.substr(Eq + 1) + "|";
        Known = Value.find('|') == std::string::npos && !Value.empty() &&
                All.find("|" + Value + "|") != std::string::npos;
      }
    }
    if (!Known) {
      return "attribute " + K + " of " + Name;
    }
    Seen.insert(K);
  }
  for (auto &D : I->second.Attrs) {
    if (D.back() == '!' && !Seen.count(D.substr(0, D.size() - 1))) {
      return "missing attribute of " + Name;
    }
  }
  bool Texts = I->second.Model == "#";
  std::string Kids;
  for (auto *C = N->children; C; C = C->next) {
    switch (C->type) {
    case XML_ELEMENT_NODE: {
      if (Texts) {
        return "element in " + Name;
      }
      auto E = invalid(L, C);
      if (!E.empty()) {
        return E;
      }
      Kids += std::string(reinterpret_cast<const char *>(C->name)) + " ";
      break;
    }
    case XML_COMMENT_NODE:
    case XML_PI_NODE:
      break;
    case XML_TEXT_NODE:
      if (!Texts && !xmlIsBlankNode(C)) {
        return "text in " + Name;
      }
      break;
    default:
      if (!Texts) {
        return "text in " + Name;
      }
    }
  }
  if (!Texts && !std::regex_match(Kids, L.Compiled.at(Name))) {
    return "children of " + Name + ": " + Kids;
  }
  return "";
}

/// Reason why the text is no document of the language, or "".
std::string invalid(const Language &L, const std::string &Text) {
  auto *D = xmlReadMemory(Text.data(), Text.size(), nullptr, nullptr,
                          XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
  if (!D) {
    return "not well-formed";
  }
  std::string R;
  auto *Root = xmlDocGetRootElement(D);
  if (!Root) {
    R = "no root";
  } else if (L.Root != reinterpret_cast<const char *>(Root->name)) {
    R = "root element";
  } else {
    R = invalid(L, Root);
  }
  xmlFreeDoc(D);
  return R;
}

//===--------------------------------------------------------------------===//

std::unique_ptr<vf::FeatureModelParser> parser(const Language &L,
                                               const std::string &T) {
  if (L.Sxfm) {
    return std::make_unique<vf::FeatureModelSxfmParser>(T);
  }
  return std::make_unique<vf::FeatureModelXmlParser>(T);
}

void run(mc::Ctx &C, const Language &L, const std::string &T) {
  auto Why = invalid(L, T);
  bool Verified = bool(parser(L, T)->verifyFeatureModel());
  auto FM = parser(L, T)->buildFeatureModel();
  C.trans(2);
  if (FM) {
    C.eq(obs::integrity(*FM), std::string(), "integrity");
  }
  C.state(Why.empty() ? FM ? obs::model(*FM) : "inconsistent" : Why);
  if (!Why.empty()) {
    C.check(!Verified, "invalid document is accepted by verifying: " + Why);
    C.check(!FM, "invalid document is loaded: " + Why);
  } else {
    C.check(Verified, "valid document is rejected by verifying");
  }
}

using Gen = std::function<std::string(uint64_t)>;

mc::Suite suite(const std::string &Name, const std::string &Bound,
                const Language &Lang, uint64_t N, const Gen &Get,
                uint64_t Chunk = 500) {
  auto L = std::make_shared<Language>(Lang);
  mc::Suite S;
  S.Name = Name;
  S.Bound = Bound;
  S.N = N;
  S.Chunk = Chunk;
  S.Describe = Get;
  S.Run = [=](uint64_t I, mc::Ctx &C) { run(C, *L, Get(I)); };
  return S;
}

//===--------------------------------------------------------------------===//
// Documents as trees

struct El {
  std::string Name;
  std::vector<std::pair<std::string, std::string>> Attrs;
  std::string Text;
  std::vector<El> Kids;

  std::string str() const {
    std::string R = "<" + Name;
    for (auto &A : Attrs) {
      R += " " + A.first + "=\"" + A.second + "\"";
    }
    R += ">" + Text;
    for (auto &K : Kids) {
      R += K.str();
    }
    return R + "</" + Name + ">";
  }
};

El el(const std::string &Name, std::vector<El> Kids) {
  El R;
  R.Name = Name;
  R.Kids = std::move(Kids);
  return R;
}
El tx(const std::string &Name, const std::string &Text,
      std::vector<std::pair<std::string, std::string>> A = {}) {
  El R;
  R.Name = Name;
  R.Text = Text;
  R.Attrs = std::move(A);
  return R;
}

El seedXml() {
  auto Loc = el("sourceRange",
                {el("revisionRange", {tx("introduced", "i"), tx("removed", "r")}),
                 tx("path", "p.c"),
                 el("start", {tx("line", "1"), tx("column", "2")}),
                 el("end", {tx("line", "3"), tx("column", "4")}),
                 tx("memberOffset", "A::b")});
  Loc.Attrs = {{"category", "inessential"}};
  auto R = el(
      "vm",
      {el("binaryOptions",
          {el("configurationOption",
              {tx("name", "root"), tx("prefix", ""), tx("postfix", ""),
               el("children", {tx("options", "a"), tx("options", "n")})}),
           el("configurationOption",
              {tx("name", "a"), tx("outputString", "-a"), tx("preFix", "x"),
               tx("postFix", "y"), tx("parent", "root"), el("children", {}),
               el("impliedOptions", {tx("options", "b")}),
               el("excludedOptions", {tx("options", "n")}),
               tx("defaultValue", "Selected"), tx("optional", "True"),
               el("locations", {Loc})}),
           el("configurationOption",
              {tx("name", "b"), tx("parent", "a"), tx("optional", "False")})}),
       el("numericOptions",
          {el("configurationOption",
              {tx("name", "n"), tx("parent", "root"), tx("minValue", "0"),
               tx("maxValue", "8"), tx("stepFunction", "n + 2")}),
           el("configurationOption",
              {tx("name", "v"), tx("parent", "a"), tx("values", "1;2")})}),
       el("booleanConstraints", {tx("constraint", "a | !b")}),
       el("nonBooleanConstraints", {tx("constraint", "n &gt; v + 1")}),
       el("mixedConstraints", {tx("constraint", "a * n = 2",
                                  {{"req", "all"}, {"exprKind", "neg"}})})});
  R.Attrs = {{"name", "m"}, {"root", "p"}, {"commit", "c"}};
  return R;
}

El seedSxfm() {
  auto R = el("feature_model",
              {el("meta", {tx("data", "d", {{"name", "creator"}})}),
               tx("feature_tree",
                  "\n:r root (r)\n  :o a (i1)\n  :g [1,*] (i2)\n    : b\n    : "
                  "c (i3)\n  :m d\n    :g [1,1] e\n      : f\n",
                  {{"indentation_string", "  "}}),
               tx("constraints", "\nc1: ~i1 or i2\nc2: b\n")});
  R.Attrs = {{"name", "m"}};
  return R;
}

/// Pre-order list of the elements; stable under changes of later ones.
void collect(El &E, std::vector<El *> &R) {
  R.push_back(&E);
  for (auto &K : E.Kids) {
    collect(K, R);
  }
}

uint64_t count(const El &E) {
  uint64_t R = 1;
  for (auto &K : E.Kids) {
    R += count(K);
  }
  return R;
}

El *parentOf(El &Root, El *E, size_t &Index) {
  for (size_t I = 0; I < Root.Kids.size(); ++I) {
    if (&Root.Kids[I] == E) {
      Index = I;
      return &Root;
    }
    if (auto *P = parentOf(Root.Kids[I], E, Index)) {
      return P;
    }
  }
  return nullptr;
}

/// Structural faults of element At: 0 delete, 1 duplicate, 2 swap with the
/// next, 3 empty, 4 add text, 5 replace by its children, 6 wrap, 7 move to the
/// end of the parent, 8 drop attributes, 9 add attribute, 10 CDATA, 11 comment
/// 12 processing instruction.
const int Faults = 13;

void fault(El &Root, uint64_t At, int Kind) {
  std::vector<El *> L;
  collect(Root, L);
  if (At >= L.size()) {
    return;
  }
  El *E = L[At];
  size_t I = 0;
  El *P = parentOf(Root, E, I);
  switch (Kind) {
  case 0:
    if (P) {
      P->Kids.erase(P->Kids.begin() + I);
    }
    break;
  case 1:
    if (P) {
      El Copy = *E;
      P->Kids.insert(P->Kids.begin() + I, Copy);
    }
    break;
  case 2:
    if (P && I + 1 < P->Kids.size()) {
      std::swap(P->Kids[I], P->Kids[I + 1]);
    }
    break;
  case 3:
    E->Kids.clear();
    E->Text.clear();
    break;
  case 4:
    E->Text += "x";
    break;
  case 5: {
    El Copy = *E;
    if (P) {
      P->Kids.erase(P->Kids.begin() + I);
      P->Kids.insert(P->Kids.begin() + I, Copy.Kids.begin(), Copy.Kids.end());
      P->Text += Copy.Text;
    } else if (!Copy.Kids.empty()) {
      Root = El(Copy.Kids[0]);
    }
    break;
  }
  case 6: {
    El Copy = *E;
    E->Text.clear();
    E->Kids = {Copy};
    break;
  }
  case 7:
    if (P) {
      El Copy = *E;
      P->Kids.erase(P->Kids.begin() + I);
      P->Kids.push_back(Copy);
    }
    break;
  case 8:
    E->Attrs.clear();
    break;
  case 9:
    E->Attrs.emplace_back("x", "y");
    break;
  case 10:
    E->Text += "<![CDATA[ ]]>";
    break;
  case 11:
    E->Text += "<!-- x -->";
    break;
  default:
    E->Text += "<?x y?>";
    break;
  }
}

mc::Suite structure(const Language &L, const El &Seed, int Pairs) {
  const uint64_t One = count(Seed) * Faults;
  return suite((L.Sxfm ? "sxfm-elements" : "xml-elements") +
                   std::to_string(Pairs),
               "all combinations of " + std::to_string(Pairs) +
                   " structural faults (13 kinds) of the elements of a "
                   "document",
               L, mc::ipow(One, Pairs), [=](uint64_t I) {
                 mc::Digits D(I);
                 El R = Seed;
                 for (int K = 0; K < Pairs; ++K) {
                   int F = D.take(Faults);
                   fault(R, D.take(count(Seed)), F);
                 }
                 return R.str();
               });
}

/// Every element renamed, and every element inserted at every place.
mc::Suite names(const Language &L, const El &Seed) {
  auto All = std::make_shared<Strs>();
  for (auto &E : L.Elements) {
    All->push_back(E.first);
  }
  for (const char *N : {"x", "NAME", "a:b", "feature_treee"}) {
    All->push_back(N);
  }
  const uint64_t N = count(Seed);
  // rename; insert before, at the front, at the back; replace the document
  return suite(L.Sxfm ? "sxfm-names" : "xml-names",
               "every element renamed to every element of the language, and "
               "every element inserted next to and into every element",
               L, N * All->size() * 5, [=](uint64_t I) {
                 mc::Digits D(I);
                 int Kind = D.take(5);
                 auto &Name = (*All)[D.take(All->size())];
                 El R = Seed;
                 std::vector<El *> V;
                 collect(R, V);
                 El *E = V[D.take(N)];
                 El New = tx(Name, "");
                 size_t At = 0;
                 El *P = parentOf(R, E, At);
                 switch (Kind) {
                 case 0:
                   E->Name = Name;
                   break;
                 case 1:
                   if (P) {
                     P->Kids.insert(P->Kids.begin() + At, New);
                   }
                   break;
                 case 2:
                   E->Kids.insert(E->Kids.begin(), New);
                   break;
                 case 3:
                   E->Kids.push_back(New);
                   break;
                 default: {
                   // a document of which this element is the root
                   El Copy = *E;
                   Copy.Name = Name;
                   return Copy.str();
                 }
                 }
                 return R.str();
               });
}

mc::Suite attributes(const Language &L, const El &Seed) {
  static const Strs Names = {"name", "root",     "commit",
                             "req",  "exprKind", "category",
                             "x",    "indentation_string"};
  static const Strs Values = {"",     " ",           "x",         "none",
                              "all",  "necessary",   "inessential",
                              "neg",  " necessary ", "necessary|inessential",
                              "NONE", "&lt;",        "a b"};
  const uint64_t N = count(Seed);
  return suite(L.Sxfm ? "sxfm-attributes" : "xml-attributes",
               "every attribute with every value set at every element", L,
               N * Names.size() * Values.size() * 2, [=](uint64_t I) {
                 mc::Digits D(I);
                 auto &Name = Names[D.take(Names.size())];
                 auto &Value = Values[D.take(Values.size())];
                 bool Keep = D.take(2);
                 El R = Seed;
                 std::vector<El *> V;
                 collect(R, V);
                 El *E = V[D.take(N)];
                 if (!Keep) {
                   E->Attrs.clear();
                 }
                 bool Found = false;
                 for (auto &A : E->Attrs) {
                   if (A.first == Name) {
                     A.second = Value;
                     Found = true;
                   }
                 }
                 if (!Found) {
                   E->Attrs.emplace_back(Name, Value);
                 }
                 return R.str();
               });
}

/// Every text replaced.
mc::Suite texts(const Language &L, const El &Seed, int Len) {
  static const Strs Frag = {
      "",     " ",    "root",  "a",   "n",    "True", "-",   "1",
      "9999999999999999999", "e",     "x",    "+",    "*",   "^",   "(",
      ")",    "&lt;", "&amp;", "::",  ";",    "0.5",  "\n",  ":",   "\xc3\xa4",
      "[1,1]", "%s",  "=&gt;", "base", "!",   ","};
  const uint64_t N = count(Seed);
  return suite((L.Sxfm ? "sxfm-texts" : "xml-texts") + std::to_string(Len),
               "every text replaced by all texts of " + std::to_string(Len) +
                   " fragments",
               L, N * mc::ipow(Frag.size(), Len), [=](uint64_t I) {
                 mc::Digits D(I);
                 std::string T;
                 for (int K = 0; K < Len; ++K) {
                   T += Frag[D.take(Frag.size())];
                 }
                 El R = Seed;
                 std::vector<El *> V;
                 collect(R, V);
                 V[D.take(N)]->Text = T;
                 return R.str();
               });
}

/// Pretty-printed text with declaration, comments and entities.
std::string pretty(const El &E, int Ind = 0) {
  std::string I(Ind, ' ');
  std::string R = I + "<" + E.Name;
  for (auto &A : E.Attrs) {
    R += " " + A.first + "=\"" + A.second + "\"";
  }
  if (E.Kids.empty()) {
    return R + ">" + E.Text + "</" + E.Name + ">\n";
  }
  R += ">\n";
  for (auto &K : E.Kids) {
    R += pretty(K, Ind + 1);
  }
  return R + I + "</" + E.Name + ">\n";
}

/// Every byte deleted, doubled, replaced, preceded by another one; every
/// truncation.
mc::Suite bytes(const Language &L, const El &Seed, int Count, bool Few) {
  const std::string T = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- & "
                        "-->\n" +
                        pretty(Seed);
  std::string F = Few ? "<>/" : std::string("<>/&;\"= a1\n-!]:?\0\xff\xc3[", 20);
  const uint64_t Ops = 3 + 2 * F.size();
  const uint64_t One = T.size() * Ops;
  return suite((L.Sxfm ? "sxfm-bytes" : "xml-bytes") + std::to_string(Count),
               "a document of " + std::to_string(T.size()) +
                   " bytes with every combination of " + std::to_string(Count) +
                   " deleted, doubled, replaced or inserted bytes or "
                   "truncations",
               L, mc::ipow(One, Count), [=](uint64_t I) {
                 mc::Digits D(I);
                 std::string R = T;
                 for (int K = 0; K < Count; ++K) {
                   uint64_t Op = D.take(Ops);
                   uint64_t P = D.take(T.size());
                   if (P >= R.size()) {
                     continue;
                   }
                   if (Op == 0) {
                     R.erase(P, 1);
                   } else if (Op == 1) {
                     R.insert(P, 1, R[P]);
                   } else if (Op == 2) {
                     R.resize(P);
                   } else if (Op % 2) {
                     R[P] = F[(Op - 3) / 2];
                   } else {
                     R.insert(P, 1, F[(Op - 3) / 2]);
                   }
                 }
                 return R;
               });
}

/// All texts of few fragments.
mc::Suite fragments(const Language &L, int Len) {
  Strs F = {"<" + L.Root + " name=\"m\">",
            "</" + L.Root + ">",
            "<!-- x -->",
            "<?xml version=\"1.0\"?>",
            "\n",
            "x",
            "<?x y?>",
            "<!DOCTYPE " + L.Root + ">",
            "<![CDATA[x]]>",
            "&amp;"};
  if (L.Sxfm) {
    F.insert(F.end(), {"<feature_tree>", "</feature_tree>", ":r x\n",
                       "<constraints>", "</constraints>", "<meta></meta>"});
  } else {
    F.insert(F.end(), {"<binaryOptions>", "</binaryOptions>",
                       "<numericOptions/>", "<booleanConstraints/>",
                       "<name>a</name>", "<configurationOption>",
                       "</configurationOption>"});
  }
  const uint64_t K = F.size();
  return suite((L.Sxfm ? "sxfm-fragments" : "xml-fragments") +
                   std::to_string(Len),
               "all texts of " + std::to_string(Len) + " out of " +
                   std::to_string(K) + " fragments",
               L, mc::ipow(K, Len), [=](uint64_t I) {
                 mc::Digits D(I);
                 std::string R;
                 for (int J = 0; J < Len; ++J) {
                   R += F[D.take(K)];
                 }
                 return R;
               },
               2000);
}

//===--------------------------------------------------------------------===//
// Documents that are valid but inconsistent

mc::Suite references() {
  auto L = std::make_shared<Language>(xml());
  static const Strs N = {"root", "a", "b", "c", "u"};
  // parents of a, b, c, and one child of one of them
  auto Get = [](uint64_t I) {
    mc::Digits D(I);
    std::array<int, 6> R;
    for (int K = 0; K < 3; ++K) {
      R[K] = int(D.take(6)) - 1; // -1: none
    }
    R[3] = D.take(5); // feature with a child, 4: none
    R[4] = D.take(5); // the child
    R[5] = D.take(5); // name of the third option
    return R;
  };
  auto Text = [=](uint64_t I) {
    auto X = Get(I);
    std::vector<El> O;
    for (int K = 0; K < 4; ++K) {
      El E = el("configurationOption", {tx("name", N[K == 3 ? X[5] : K])});
      if (K && X[K - 1] >= 0) {
        E.Kids.push_back(tx("parent", N[X[K - 1]]));
      }
      if (X[3] == K) {
        E.Kids.push_back(el("children", {tx("options", N[X[4]])}));
      }
      O.push_back(E);
    }
    auto R = el("vm", {el("binaryOptions", O)});
    R.Attrs = {{"name", "m"}};
    return R.str();
  };
  mc::Suite S;
  S.Name = "xml-references";
  S.Bound = "all combinations of parents and one child of three options, "
            "unknown, cyclic, ambiguous and repeated ones included";
  S.N = mc::ipow(6, 3) * 125;
  S.Chunk = 500;
  S.Describe = Text;
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = Get(I);
    auto T = Text(I);
    C.eq(invalid(*L, T), std::string(), "document type");
    C.check(bool(vf::FeatureModelXmlParser(T).verifyFeatureModel()),
            "valid document is rejected by verifying");
    auto FM = vf::FeatureModelXmlParser(T).buildFeatureModel();
    C.trans(2);
    // Every option: name -> named parents
    std::map<std::string, std::set<std::string>> P;
    bool Bad = false;
    bool Free = false;
    Strs Opt = {N[0], N[1], N[2], N[X[5]]};
    std::set<std::string> Known;
    for (int K = 1; K < 4; ++K) {
      if (!Known.insert(Opt[K]).second) {
        Bad = true; // two options with one name
      }
    }
    if (X[5] == 0) {
      Bad = false;
      Free = true; // the root is described twice
    }
    Known.insert("root");
    for (int K = 1; K < 4; ++K) {
      if (X[K - 1] >= 0) {
        P[Opt[K]].insert(N[X[K - 1]]);
      }
    }
    if (X[3] < 4) {
      P[N[X[4]]].insert(Opt[X[3]]);
    }
    for (auto &[F, V] : P) {
      Bad |= !Known.count(F) || V.size() > 1;
      for (auto &Y : V) {
        Bad |= !Known.count(Y);
      }
      // an option that names its parent and is named by another one twice is
      // fine
      Free |= F == "root";
    }
    for (auto &F : Known) {
      std::string Y = F;
      for (int Steps = 0; P.count(Y) && !P[Y].empty(); ++Steps) {
        Y = *P[Y].begin();
        if (Steps > 5) {
          Bad = true;
          break;
        }
      }
    }
    if (FM) {
      C.eq(obs::integrity(*FM), std::string(), "integrity");
    }
    C.state(FM ? obs::model(*FM) : "rejected");
    if (Bad) {
      C.check(!FM, "inconsistent document is loaded");
      return;
    }
    if (Free) {
      return;
    }
    C.check(FM != nullptr, "document is rejected");
    for (auto &F : Known) {
      auto *Z = FM->getFeature(F);
      C.check(Z != nullptr, "feature is missing: " + F);
      auto *Q = Z->getParentFeature();
      std::string Want = F == "root"      ? "<none>"
                         : P[F].empty() ? "root"
                                          : *P[F].begin();
      C.eq(Q ? Q->getName().str() : "<none>", Want, "parent of " + F);
    }
    C.eq(FM->size(), Known.size(), "number of features");
  };
  return S;
}

/// The functions that read files agree with the parser.
mc::Suite files() {
  auto L = std::make_shared<Language>(xml());
  const El Seed = seedXml();
  const uint64_t N = count(Seed);
  mc::Suite S;
  S.Name = "xml-files";
  S.Bound = "a document with every structural fault of an element read from a "
            "file, a missing file and a directory";
  S.N = N * Faults + 3;
  S.Chunk = 100;
  auto Text = [=](uint64_t I) {
    El R = Seed;
    fault(R, I / Faults, I % Faults);
    return R.str();
  };
  S.Describe = [=](uint64_t I) {
    return I < N * Faults ? Text(I) : std::string("special file");
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    char Dir[] = "/tmp/c07.XXXXXX";
    C.check(mkdtemp(Dir), "scratch directory");
    std::string Path = std::string(Dir) + "/m.xml";
    bool Valid = false;
    std::string Want = "none";
    if (I < N * Faults) {
      auto T = Text(I);
      std::ofstream(Path, std::ios::binary) << T;
      Valid = invalid(*L, T).empty();
      auto FM = vf::FeatureModelXmlParser(T).buildFeatureModel();
      Want = FM ? obs::model(*FM) : "none";
    } else if (I == N * Faults) {
      Path = Dir;
    } else if (I == N * Faults + 1) {
      std::ofstream(Path) << "";
    }
    bool Verified = vf::verifyFeatureModel(Path);
    auto FM = vf::loadFeatureModel(Path);
    C.trans(2);
    unlink((std::string(Dir) + "/m.xml").c_str());
    rmdir(Dir);
    C.eq(Verified, Valid, "verdict of verifying a file");
    C.eq(FM ? obs::model(*FM) : "none", Want, "model loaded from a file");
    C.state(Want);
  };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  auto X = xml();
  auto Y = sxfm();
  auto SX = seedXml();
  auto SY = seedSxfm();
  std::vector<mc::Suite> S = {structure(X, SX, 1),
                              structure(Y, SY, 1),
                              structure(Y, SY, 2),
                              names(X, SX),
                              names(Y, SY),
                              attributes(X, SX),
                              attributes(Y, SY),
                              texts(X, SX, 1),
                              texts(Y, SY, T ? 3 : 2),
                              bytes(X, SX, 1, !T),
                              bytes(Y, SY, 1, false),
                              fragments(X, T ? 5 : 4),
                              fragments(Y, T ? 5 : 4),
                              references(),
                              files()};
  if (T) {
    S.push_back(structure(X, SX, 2));
    S.push_back(texts(X, SX, 2));
    S.push_back(structure(Y, SY, 3));
  }
  return mc::runChecks(Argc, Argv, "C07", S, {
    "well-formedness is what libxml2 says; elements inside of general entities "
    "and documents nested deeper than the document types are out of scope",
  });
}
