// C26: the command line viewer reports, prints and draws the model in a file.
// NEEDS: viewer
#include "gen.h"
#include "proc.h"

#include "vara/Feature/FeatureModelWriter.h"


namespace {

namespace vf = vara::feature;

using namespace proc;

/// A stand-in for a viewer: records the file it is given.
void stub(const Scratch &S, const std::string &Name) {
  auto P = S.Path + "/bin/" + Name;
  writeFile(P, "#!/bin/sh\n/bin/cp \"$1\" '" + S.Path + "/part." + Name +
                   "' && echo $# >> '" + S.Path + "/part." + Name +
                   "'\n/bin/mv '" + S.Path + "/part." + Name + "' '" + S.Path +
                   "/seen." + Name + "'\n");
  chmod(P.c_str(), 0755);
}

/// What the viewer was shown, or "<nothing>".
std::string shown(const Scratch &S, const std::string &Name, bool Wait) {
  auto P = S.Path + "/seen." + Name;
  for (int I = 0; Wait && I < 500 && !exists(P); ++I) {
    usleep(20000);
  }
  return exists(P) ? readFile(P) : "<nothing>";
}

//===--------------------------------------------------------------------===//
// Documents

struct Doc {
  std::string Text;  // of documents that are not made from a shape
  std::string Place; // "", "missing" or "directory"
  bool Good = false;
  int Shape = -1;
  int Style = 0;
  std::string Name;
};

std::vector<gen::Shape> &shapes() {
  static std::vector<gen::Shape> V;
  return V;
}
std::vector<Doc> &docs() {
  static std::vector<Doc> V;
  return V;
}

const Strs NodeNames = {"root", "b", "A2", "foo_bar"};

void initialise(bool Thorough) {
  auto One = [](const std::string &O, const std::string &Rest = "") {
    return "<vm name=\"m\"><binaryOptions><configurationOption><name>root"
           "</name></configurationOption>" +
           O + "</binaryOptions><numericOptions></numericOptions>" + Rest +
           "</vm>";
  };
  auto Opt = [](const std::string &N, const std::string &Rest) {
    return "<configurationOption><name>" + N + "</name>" + Rest +
           "</configurationOption>";
  };
  auto Bad = [&](const std::string &Name, const std::string &T,
                 const std::string &Place = "") {
    Doc D;
    D.Name = Name;
    D.Text = T;
    D.Place = Place;
    docs().push_back(D);
  };
  Bad("missing file", "", "missing");
  Bad("directory", "", "directory");
  Bad("empty file", "");
  Bad("text", "no model\n");
  Bad("unclosed", "<vm name=\"m\"><binaryOptions>");
  Bad("unknown element", One("", "<more></more>"));
  Bad("wrong root element", "<model name=\"m\"></model>");
  Bad("sxfm", "<feature_model name=\"m\"><feature_tree>\n:r root(root)\n"
              "</feature_tree><constraints></constraints></feature_model>");
  Bad("unknown parent", One(Opt("a", "<parent>x</parent>")));
  Bad("declared twice", One(Opt("a", "") + Opt("a", "")));
  Bad("cyclic parents",
      One(Opt("a", "<parent>b</parent>") + Opt("b", "<parent>a</parent>")));
  Bad("constraint over unknown feature",
      One("", "<booleanConstraints><constraint>a | b</constraint>"
              "</booleanConstraints>"));
  for (int N = 0; N <= (Thorough ? 3 : 2); ++N) {
    for (auto &S : gen::shapes(N, 1)) {
      int I = int(shapes().size());
      shapes().push_back(S);
      for (int Style = 0; Style < 3; ++Style) {
        Doc D;
        D.Name =
            "model " + S.str(NodeNames) + " style " + std::to_string(Style);
        D.Good = true;
        D.Shape = I;
        D.Style = Style;
        docs().push_back(D);
      }
    }
  }
}

vf::FeatureSourceRange loc(int I) {
  using L = vf::FeatureSourceRange::FeatureSourceLocation;
  return vf::FeatureSourceRange("src/f" + std::to_string(I) + ".cpp", L(I, 2),
                                L(I + 1, 30));
}

/// Node I of a model in a style (0 plain, 1 numeric, 2 mixed).
std::unique_ptr<vf::Feature> node(const Doc &D, int I) {
  auto &S = shapes()[D.Shape];
  bool Optional = S.Slot[I] == 0 && (I + D.Style) % 2;
  std::vector<vf::FeatureSourceRange> L;
  for (int K = 0; D.Style && K < I % 3; ++K) {
    L.push_back(loc(I + K));
  }
  bool Leaf = S.kids(I).empty() && S.Slot[I] == 0;
  if (Leaf && D.Style == 1) {
    return std::make_unique<vf::NumericFeature>(
        NodeNames[I], std::pair<int64_t, int64_t>(-I, 10), Optional, L);
  }
  if (Leaf && D.Style == 2) {
    return std::make_unique<vf::NumericFeature>(
        NodeNames[I], std::vector<int64_t>{1, 4, 9}, Optional, L);
  }
  return std::make_unique<vf::BinaryFeature>(NodeNames[I], Optional, L,
                                             D.Style ? "--f" : "");
}

std::unique_ptr<vf::FeatureModel> model(const Doc &D) {
  auto FM =
      gen::build(shapes()[D.Shape], "root", [&](int I) { return node(D, I); });
  if (!FM) {
    return nullptr;
  }
  auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
  T.setName(D.Style == 2 ? "the \"second\" model"
                         : "model" + std::to_string(D.Style));
  if (shapes()[D.Shape].N > 1 && D.Style) {
    T.addConstraint(std::make_unique<vf::FeatureModel::BooleanConstraint>(
        std::make_unique<vf::ImpliesConstraint>(
            std::make_unique<vf::PrimaryFeatureConstraint>(
                FM->getFeature(NodeNames[1])),
            std::make_unique<vf::PrimaryFeatureConstraint>(
                FM->getFeature(NodeNames[2])))));
  }
  return T.commit() ? std::move(FM) : nullptr;
}

//===--------------------------------------------------------------------===//
// Expected texts

/// Blocks of the dump of a model; members of groups may be listed as children.
std::multiset<std::string> blocks(const vf::FeatureModel &FM, bool Members) {
  std::multiset<std::string> R;
  for (auto *F : FM.unorderedFeatures()) {
    std::string T = "{\n  name: \"" + F->getName().str() +
                    "\",\n  optional: " + (F->isOptional() ? "true" : "false") +
                    ",\n  ";
    std::string L;
    for (auto &X : F->getLocations()) {
      L += "[" + X.toString() + "]";
    }
    if (!L.empty()) {
      T += "locations: " + L + ",\n  ";
    }
    if (auto *P = F->getParentFeature()) {
      T += "parent: " + P->getName().str() + ",\n  ";
    }
    T += "children: [";
    Strs C;
    for (auto *K : FM.unorderedFeatures()) {
      if (K->getParentFeature() == F &&
          (Members || llvm::isa<vf::Feature>(K->getParent()))) {
        C.push_back(K->getName().str() + ",");
      }
    }
    std::sort(C.begin(), C.end());
    for (auto &X : C) {
      T += X;
    }
    T += "]";
    if (auto *N = llvm::dyn_cast<vf::NumericFeature>(F)) {
      auto V = N->getValues();
      if (auto *P = std::get_if<vf::NumericFeature::ValueRangeType>(&V)) {
        T += ",\n  minValue: " + std::to_string(P->first) +
             ",\n  maxValue: " + std::to_string(P->second);
      } else {
        T += ",\n  values: [";
        for (auto X : std::get<vf::NumericFeature::ValueListType>(V)) {
          T += std::to_string(X) + ",";
        }
        T += "]";
      }
    }
    R.insert(T + "\n}\n");
  }
  return R;
}

/// Splits a dump into blocks, with sorted lists of children.
std::multiset<std::string> split(std::string T) {
  std::multiset<std::string> R;
  while (!T.empty() && T.back() == '\n') {
    T.pop_back();
  }
  T += "\n";
  size_t P = 0;
  while (P < T.size()) {
    auto E = T.find("\n}\n", P);
    if (E == std::string::npos) {
      R.insert("rest: " + T.substr(P));
      break;
    }
    auto B = T.substr(P, E + 3 - P);
    auto L = B.find("children: [");
    auto Q = L == std::string::npos ? L : B.find(']', L);
    if (Q != std::string::npos) {
      L += 11;
      Strs C;
      for (size_t I = L; I < Q;) {
        auto N = B.find(',', I);
        N = N == std::string::npos || N > Q ? Q : N + 1;
        C.push_back(B.substr(I, N - I));
        I = N;
      }
      std::sort(C.begin(), C.end());
      std::string J;
      for (auto &X : C) {
        J += X;
      }
      B = B.substr(0, L) + J + B.substr(Q);
    }
    R.insert(B);
    P = E + 3;
  }
  return R;
}

std::string show(const std::multiset<std::string> &S) {
  std::string R;
  for (auto &X : S) {
    R += X;
  }
  return R;
}

/// Numbers the node ids of a graph by their first occurrence, sorts the lines.
std::string normal(const std::string &T) {
  std::map<std::string, std::string> Ids;
  std::string R;
  for (size_t I = 0; I < T.size();) {
    if (T.compare(I, 2, "0x") == 0) {
      size_t E = I + 2;
      while (E < T.size() && isxdigit((unsigned char)T[E])) {
        ++E;
      }
      auto N = std::to_string(Ids.size());
      R += "id" + Ids.emplace(T.substr(I, E - I), N).first->second;
      I = E;
    } else {
      R += T[I++];
    }
  }
  return R;
}

//===--------------------------------------------------------------------===//
// Commands

enum Command {
  NoFile,
  VerifyAfter,
  VerifyBefore,
  Dump,
  DumpXml,
  DumpByEnv,
  ToFile,
  ToExistingFile,
  ToFileEquals,
  ToMissingDir,
  ToDirectory,
  WithViewer,
  DefaultViewer,
  UnknownViewer,
  VerifyAndDump,
  VerifyAndFile,
  UnknownFlag,
  TwoFiles,
  Commands
};

const char *CommandText[] = {"(no file)",
                             "FILE -verify",
                             "-verify FILE",
                             "FILE -dump",
                             "-xml --dump FILE",
                             "FILE with -dump from the environment",
                             "FILE -o OUT",
                             "-o OUT FILE (OUT exists)",
                             "FILE -o=OUT",
                             "FILE -o MISSING/OUT",
                             "FILE -o DIRECTORY",
                             "FILE -viewer see",
                             "FILE",
                             "FILE -viewer unknown",
                             "FILE -verify -dump",
                             "-verify FILE -o OUT",
                             "-bogus FILE",
                             "FILE FILE"};

/// What a command has to do with a valid model.
struct Effect {
  bool Fails = false;
  bool Dumps = false;
  bool Writes = false; // out.dot
  bool There = false;  // out.dot exists before
  std::string Viewer;  // program that is shown the graph
};

/// Args delivers the command line, given the files of the model and the graph.
void run(
    mc::Ctx &C, const Doc &D, const Effect &E, const std::string &Flags,
    const std::function<Strs(const std::string &, const std::string &)> &Args) {
  Scratch S;
  stub(S, "xdg-open");
  stub(S, "see");
  auto Work = S.Path + "/work/";
  auto File = Work + "model.xml";
  std::string Graph;
  std::multiset<std::string> Blocks[2];
  if (D.Good) {
    auto FM = model(D);
    C.check(FM != nullptr, "model is not built");
    auto T = vf::FeatureModelXmlWriter(*FM).writeFeatureModel();
    C.check(T.has_value(), "model is not written");
    writeFile(File, *T);
    auto L = vf::loadFeatureModel(File);
    C.check(L != nullptr, "model is not loaded");
    auto G = S.Path + "/expected";
    llvm::WriteGraph(L.get(), llvm::Twine(L->getName()), false, "", G);
    Graph = readFile(G);
    C.check(!Graph.empty(), "graph is not written");
    Blocks[0] = blocks(*L, false);
    Blocks[1] = blocks(*L, true);
  } else if (D.Place == "directory") {
    mkdir(File.c_str(), 0755);
  } else if (D.Place != "missing") {
    writeFile(File, D.Text);
  }
  auto Before = D.Place.empty() ? readFile(File) : "";
  auto Out = Work + "out.dot";
  mkdir((Work + "dir").c_str(), 0755);
  if (E.There) {
    writeFile(Out, std::string(20000, 'x'));
  }
  auto R = runTool(S, "fm-viewer", Args(File, Out), "FM_VIEWER_FLAGS", Flags);
  C.trans();
  C.Note = "exit status: " + std::to_string(R.Status) + "\nstdout:\n" + R.Out +
           "\nstderr:\n" + R.Err;
  C.check(WIFEXITED(R.Status) && WEXITSTATUS(R.Status) != 99 &&
              WEXITSTATUS(R.Status) != 126,
          "the tool does not end normally");
  bool Ok = WEXITSTATUS(R.Status) == 0;
  bool Want = D.Good && !E.Fails;
  C.eq(Ok, Want, "success");
  if (!Want) {
    C.check(!R.Err.empty(), "an error is not explained");
  }
  C.eq(D.Place.empty() ? readFile(File) : "", Before,
       "the document is unchanged");

  // What is printed.
  if (E.Dumps && Want) {
    auto G = split(R.Out);
    if (G != Blocks[0] && G != Blocks[1]) {
      C.fail("dump\n  observed: " + show(G) +
             "\n  expected: " + show(Blocks[0]));
    }
    C.state(show(G));
  } else {
    C.eq(R.Out, std::string(), "standard output");
  }

  // What is written.
  if (E.Writes && Want) {
    C.eq(normal(readFile(Out)), normal(Graph), "written graph");
    C.state(normal(Graph));
  } else if (E.There) {
    C.eq(readFile(Out), std::string(20000, 'x'),
         "file that was there although nothing is written");
  } else {
    C.check(!exists(Out), "a file is written");
  }
  Strs Left = list(S.Path + "/work");
  Strs Expect = {"dir"};
  if (D.Place != "missing") {
    Expect.push_back("model.xml");
  }
  if (exists(Out)) {
    Expect.push_back("out.dot");
  }
  C.eq(obs::join(Left), obs::join(Expect), "files in the working directory");

  // What is shown.
  bool See = Want && E.Viewer == "see";
  bool Open = Want && E.Viewer == "xdg-open";
  for (auto &[Name, Is] :
       {std::make_pair("see", See), std::make_pair("xdg-open", Open)}) {
    auto G = shown(S, Name, Is);
    auto W = Is ? Graph + "1\n" : std::string("<nothing>");
    C.eq(normal(G), normal(W), std::string("graph shown by ") + Name);
  }
  if (!See && !Open) {
    C.eq(obs::join(list(S.Path + "/tmp")), std::string(),
         "files in the directory for temporary files");
  }
}

void run(mc::Ctx &C, const Doc &D, Command Cmd) {
  Effect E;
  E.Fails = Cmd == NoFile || Cmd == UnknownFlag || Cmd == TwoFiles ||
            Cmd == ToMissingDir || Cmd == ToDirectory;
  E.Dumps = Cmd == Dump || Cmd == DumpXml || Cmd == DumpByEnv;
  E.Writes = Cmd == ToFile || Cmd == ToExistingFile || Cmd == ToFileEquals;
  E.There = Cmd == ToExistingFile;
  E.Viewer = Cmd == WithViewer                              ? "see"
             : Cmd == DefaultViewer || Cmd == UnknownViewer ? "xdg-open"
                                                            : "";
  run(C, D, E, Cmd == DumpByEnv ? "-dump" : "",
      [&](const std::string &File, const std::string &Out) {
        Strs A;
        switch (Cmd) {
        case NoFile:
          break;
        case VerifyAfter:
          A = {"model.xml", "-verify"};
          break;
        case VerifyBefore:
          A = {"-verify", File};
          break;
        case Dump:
          A = {"model.xml", "-dump"};
          break;
        case DumpXml:
          A = {"-xml", "--dump", File};
          break;
        case DumpByEnv:
          A = {File};
          break;
        case ToFile:
          A = {"model.xml", "-o", "out.dot"};
          break;
        case ToExistingFile:
          A = {"-o", Out, File};
          break;
        case ToFileEquals:
          A = {File, "-o=" + Out};
          break;
        case ToMissingDir:
          A = {File, "-o", "missing/out.dot"};
          break;
        case ToDirectory:
          A = {File, "-o", "dir"};
          break;
        case WithViewer:
          A = {File, "-viewer", "see"};
          break;
        case DefaultViewer:
          A = {File};
          break;
        case UnknownViewer:
          A = {File, "-viewer=unknown"};
          break;
        case VerifyAndDump:
          A = {File, "-verify", "-dump"};
          break;
        case VerifyAndFile:
          A = {"-verify", File, "-o", Out};
          break;
        case UnknownFlag:
          A = {"-bogus", File};
          break;
        default:
          A = {File, File};
        }
        return A;
      });
}

/// Options together, in both orders: -verify goes before -dump, that before -o,
/// and that before the viewer.
struct Together {
  bool Verify, Dump, Back;
  int Out;    // none, new, existing, in a missing directory
  int Viewer; // none, one that exists, an unknown one

  explicit Together(uint64_t I) {
    mc::Digits D(I);
    Verify = D.take(2);
    Dump = D.take(2);
    Back = D.take(2);
    Out = int(D.take(4));
    Viewer = int(D.take(3));
  }
  static constexpr uint64_t N = 96;

  Strs args(const std::string &File, const std::string &OutFile) const {
    Strs A;
    if (Verify) {
      A.push_back("-verify");
    }
    if (Out) {
      A.push_back("-o=" + (Out == 3 ? "missing/out.dot" : OutFile));
    }
    A.push_back(File);
    if (Viewer) {
      A.push_back(Viewer == 1 ? "-viewer=see" : "-viewer=unknown");
    }
    if (Dump) {
      A.push_back("-dump");
    }
    if (Back) {
      std::reverse(A.begin(), A.end());
    }
    return A;
  }
  Effect effect() const {
    Effect E;
    E.There = Out == 2;
    if (Verify) {
      return E;
    }
    if (Dump) {
      E.Dumps = true;
    } else if (Out) {
      E.Fails = Out == 3;
      E.Writes = Out != 3;
    } else {
      E.Viewer = Viewer == 1 ? "see" : "xdg-open";
    }
    return E;
  }
};

} // namespace

int main(int Argc, char **Argv) {
  initialise(mc::thorough());
  mc::Suite S;
  S.Name = "commands";
  S.Bound = std::to_string(docs().size()) + " documents (" +
            std::to_string(shapes().size()) +
            " trees in three styles, and invalid documents) x " +
            std::to_string(int(Commands)) + " command lines";
  S.N = docs().size() * Commands;
  S.Run = [](uint64_t I, mc::Ctx &C) {
    run(C, docs()[I / Commands], Command(I % Commands));
  };
  S.Describe = [](uint64_t I) {
    return docs()[I / Commands].Name + ": fm-viewer " +
           CommandText[I % Commands];
  };
  S.Chunk = 8;
  S.Timeout = 60;
  auto Some = std::make_shared<std::vector<int>>();
  for (size_t I = 0; I < docs().size(); ++I) {
    if (mc::thorough() || I % 29 == 0 || (!docs()[I].Good && I % 5 == 0)) {
      Some->push_back(int(I));
    }
  }
  mc::Suite T;
  T.Name = "combinations";
  T.Bound = std::to_string(Some->size()) +
            " documents x all combinations of -verify, -dump, -o (a new, an "
            "existing, an impossible file) and -viewer (known, unknown), in "
            "two orders";
  T.N = Some->size() * Together::N;
  auto Args = [](uint64_t I) {
    std::string R;
    for (auto &A : Together(I % Together::N).args("FILE", "OUT")) {
      R += " " + A;
    }
    return R;
  };
  T.Run = [=](uint64_t I, mc::Ctx &C) {
    Together X(I % Together::N);
    run(C, docs()[(*Some)[I / Together::N]], X.effect(), "",
        [&](const std::string &F, const std::string &O) {
          return X.args(F, O);
        });
  };
  T.Describe = [=](uint64_t I) {
    return docs()[(*Some)[I / Together::N]].Name + ": fm-viewer" + Args(I);
  };
  T.Chunk = 8;
  T.Timeout = 60;
  return mc::runChecks(
      Argc, Argv, "C26", {S, T},
      {"Dump and graph are compared with the model that the library loads, "
       "which C05 and C06 decide. The graph in a file is compared with that of "
       "the library, which C21 "
       "decides; viewers are replaced by scripts that record what they are "
       "given, in a scratch directory."});
}
