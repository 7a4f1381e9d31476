// C29: the configuration generator writes the configurations of a file.
// NEEDS: generator
#include "proc.h"
#include "sol.h"

#include "vara/Feature/FeatureModelWriter.h"

#include "llvm/Support/JSON.h"
#include "llvm/Support/YAMLTraits.h"

LLVM_YAML_IS_STRING_MAP(std::string)

namespace {

using namespace proc;
namespace vf = vara::feature;

// --- documents ---------------------------------------------------------------

struct Doc {
  std::string Name;
  std::string Bad;   // text of a faulty document
  std::string Place; // "", "missing" or "directory"
  bool Good = false;
  sol::Model M;
  Strs Out; // output strings of the nodes
};

std::vector<Doc> &docs() {
  static std::vector<Doc> V;
  return V;
}

const Strs NodeNames = {"root", "b", "A2", "foo_bar"};

void initialise(bool Thorough) {
  auto Bad = [&](const std::string &Name, const std::string &T,
                 const std::string &Place = "") {
    Doc D;
    D.Name = Name;
    D.Bad = T;
    D.Place = Place;
    docs().push_back(D);
  };
  Bad("missing file", "", "missing");
  Bad("directory", "", "directory");
  Bad("empty file", "");
  Bad("text", "no model\n");
  Bad("unclosed", "<vm name=\"m\"><binaryOptions>");
  Bad("unknown parent",
      "<vm name=\"m\"><binaryOptions><configurationOption><name>root</name>"
      "</configurationOption><configurationOption><name>a</name>"
      "<parent>x</parent></configurationOption></binaryOptions>"
      "<numericOptions></numericOptions></vm>");
  std::set<std::string> Seen;
  for (int N = 0; N <= (Thorough ? 3 : 2); ++N) {
    auto Cases = sol::cases(N, 1, true);
    for (auto &[Sh, Opt] : *Cases) {
      for (int Style = 0; Style < 4; ++Style) {
        Doc D;
        D.Good = true;
        D.M = sol::tree(Sh, NodeNames, Opt);
        for (int I = 0; I <= N; ++I) {
          const char *O[] = {"", "--x", "-a=", "it's \"q\""};
          D.Out.push_back(I ? O[(I + Style) % 4] : "");
          bool Leaf = I && Sh.kids(I).empty() && !Sh.Slot[I];
          if (Leaf && Style % 2 && I == N) {
            D.M.Vals[I] = {0, -4, 7};
          }
        }
        if (N >= 2 && Style == 2) {
          D.M.Cons.push_back({"b => A2", 0});
        }
        if (N >= 1 && Style == 3 && !D.M.Vals.count(1)) {
          D.M.Cons.push_back({"b", 0});
        }
        if (N >= 1 && Style == 0 && D.M.Opt[1]) {
          D.M.Cons.push_back({"b & !b", 0}); // nothing is valid
        }
        D.Name = D.M.str() + " style " + std::to_string(Style);
        if (Seen.insert(D.Name).second) {
          docs().push_back(D);
        }
      }
    }
  }
}

std::unique_ptr<vf::FeatureModel> model(const Doc &D) {
  auto FM = gen::build(
      D.M.Sh, D.M.Name[0], [&](int I) -> std::unique_ptr<vf::Feature> {
        auto V = D.M.Vals.find(I);
        if (V != D.M.Vals.end()) {
          return std::make_unique<vf::NumericFeature>(
              D.M.Name[I], V->second, D.M.Opt[I],
              std::vector<vf::FeatureSourceRange>{}, D.Out[I]);
        }
        return std::make_unique<vf::BinaryFeature>(
            D.M.Name[I], D.M.Opt[I], std::vector<vf::FeatureSourceRange>{},
            D.Out[I]);
      });
  if (!FM) {
    return nullptr;
  }
  auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
  T.setName("m");
  for (auto &C : D.M.Cons) {
    T.addConstraint(std::make_unique<vf::FeatureModel::BooleanConstraint>(
        sol::constraint(C.Text)));
  }
  return T.commit() ? std::move(FM) : nullptr;
}

// --- expected lists ------------------------------------------------------------

/// Names in depth-first order, siblings by lowercase name.
void order(const Doc &D, int P, std::vector<int> &Out) {
  Out.push_back(P);
  auto K = D.M.Sh.kids(P);
  auto L = [&](int I) {
    std::string R;
    for (char C : D.M.Name[I]) {
      R += char(tolower(C));
    }
    return R;
  };
  std::sort(K.begin(), K.end(), [&](int A, int B) { return L(A) < L(B); });
  for (int C : K) {
    order(D, C, Out);
  }
}

std::string brackets(const Strs &L) {
  std::string R = "[";
  for (auto &X : L) {
    R += "<" + X + ">";
  }
  return R + "]";
}

/// Output strings of a configuration given as name -> value.
std::string outputs(const Doc &D, const std::map<std::string, std::string> &V) {
  std::vector<int> O;
  order(D, 0, O);
  Strs R;
  for (int I : O) {
    auto E = V.find(D.M.Name[I]);
    if (E != V.end() && E->second != "false" && !D.Out[I].empty()) {
      R.push_back(D.Out[I] + (D.M.Vals.count(I) ? E->second : ""));
    }
  }
  return brackets(R);
}

/// All valid configurations.
Strs every(const Doc &D) {
  Strs R;
  for (auto &T : sol::configurations(D.M)) {
    std::map<std::string, std::string> V;
    // "a=true,b=3" in the notation of obs::join
    size_t P = 0;
    for (int I = 0; I <= D.M.Sh.N; ++I) {
      auto K = D.M.Name[I] + "=";
      P = T.find(K);
      while (P != 0 && P != std::string::npos && (isalnum(T[P - 1]) || T[P - 1] == '_')) {
        P = T.find(K, P + 1);
      }
      auto E = P + K.size();
      while (E < T.size() && (isalnum(T[E]) || T[E] == '-')) {
        ++E;
      }
      V[D.M.Name[I]] = T.substr(P + K.size(), E - P - K.size());
    }
    R.push_back(outputs(D, V));
  }
  std::sort(R.begin(), R.end());
  return R;
}

/// Sample set K of a model and its configurations, last row first.
std::string sample(const Doc &D, int K, Strs &Want) {
  std::string T;
  std::vector<int> Cols;
  for (int I = 0; I <= D.M.Sh.N; ++I) {
    if (K != 1 || I != 1) {
      Cols.push_back(I);
    }
  }
  for (int I : Cols) {
    T += D.M.Name[I] + ";";
  }
  T += "note\n";
  int Rows = K == 2 ? 0 : 5;
  for (int J = 0; J < Rows; ++J) {
    std::map<std::string, std::string> V;
    for (int I : Cols) {
      auto X = (J >> (I % 3)) & 1;
      if (D.M.Vals.count(I)) {
        V[D.M.Name[I]] = std::to_string(J - 2);
        T += std::to_string(J - 2) + ";";
      } else {
        V[D.M.Name[I]] = X ? "true" : "false";
        T += X ? "1;" : "0;";
      }
    }
    T += "x\n";
    Want.insert(Want.begin(), outputs(D, V));
  }
  return T;
}

/// The lists in a document, by number.
bool readBack(mc::Ctx &C, const std::string &T, Strs &R) {
  std::map<std::string, std::string> M;
  llvm::yaml::Input In(T);
  In >> M;
  C.check(!In.error(), "the output is not a YAML map of texts:\n" + T);
  for (size_t I = 0; I < M.size(); ++I) {
    auto E = M.find(std::to_string(I));
    C.check(E != M.end(), "the output lacks a configuration:\n" + T);
    auto J = llvm::json::parse(E->second);
    C.check(bool(J), "not a list of texts: " + E->second);
    auto *A = J->getAsArray();
    C.check(A != nullptr, "not a list: " + E->second);
    Strs L;
    for (auto &V : *A) {
      C.check(bool(V.getAsString()), "not a list of texts: " + E->second);
      L.push_back(V.getAsString()->str());
    }
    R.push_back(brackets(L));
  }
  return true;
}

// --- commands ------------------------------------------------------------------

struct Command {
  const char *Text; // FILE, OUT, CSV0.., MISSING and DIR are replaced
  bool Fails = false;
  int Csv = -1;             // sample set that is read; -1: all configurations
  const char *Out = "OUT";  // "" if nothing is to be written
  bool There = false;       // the output exists before
  const char *Env = "";
};

const std::vector<Command> &commands() {
  static const std::vector<Command> V = {
      {"FILE", false, -1, "configurations.yml"},
      {"FILE -out OUT"},
      {"-out=OUT FILE"},
      {"FILE --out OUT", false, -1, "OUT", true},
      {"FILE -type All -out OUT"},
      {"-type=All FILE", false, -1, "configurations.yml", true},
      {"FILE", false, -1, "OUT", false, "-out OUT"},
      {"FILE -out=", false, -1, ""},
      {"FILE -csv CSV0 -out OUT"}, // the sample set is not asked for
      {"FILE -type sample -csv CSV0 -out OUT", false, 0},
      {"FILE -type sample -csv CSV1 -out OUT", false, 1},
      {"FILE -type sample -csv CSV2 -out OUT", false, 2},
      {"-csv=CSV0 -type=sample FILE", false, 0, "configurations.yml"},
      {"FILE -out OUT", false, 0, "OUT", true, "-type sample -csv CSV0"},
      {"FILE -type sample -out OUT", true},
      {"FILE -type sample -csv= -out OUT", true, -1, "OUT", true},
      {"FILE -type sampling -out OUT", true},
      {"FILE -type sampling -csv CSV0", true},
      {"FILE -type unknown -out OUT", true},
      {"FILE -bogus -out OUT", true},
      {"FILE FILE -out OUT", true},
      {"-out OUT", true},
      {"FILE -out MISSING", true},
      {"FILE -out DIR", true},
      {"FILE -type sample -csv CSV1 -out DIR", true}};
  return V;
}

void run(mc::Ctx &C, const Doc &D, const Command &K) {
  Scratch S;
  auto Work = S.Path + "/work/";
  auto File = Work + "model.xml";
  if (D.Good) {
    auto FM = model(D);
    C.check(FM != nullptr, "model is not built");
    auto T = vf::FeatureModelXmlWriter(*FM).writeFeatureModel();
    C.check(T.has_value(), "model is not written");
    writeFile(File, *T);
  } else if (D.Place == "directory") {
    mkdir(File.c_str(), 0755);
  } else if (D.Place != "missing") {
    writeFile(File, D.Bad);
  }
  Strs Samples[3];
  Strs Texts;
  for (int I = 0; I < 3; ++I) {
    Texts.push_back(D.Good ? sample(D, I, Samples[I]) : "root\n1\n");
    writeFile(Work + "s" + std::to_string(I) + ".csv", Texts[I]);
  }
  mkdir((Work + "dir").c_str(), 0755);
  auto Fill = [&](std::string T) {
    Strs R;
    const std::pair<const char *, std::string> Names[] = {
        {"FILE", File},          {"OUT", Work + "out.yml"},
        {"CSV0", Work + "s0.csv"}, {"CSV1", Work + "s1.csv"},
        {"CSV2", Work + "s2.csv"}, {"MISSING", Work + "none/out.yml"},
        {"DIR", Work + "dir"}};
    size_t P = 0;
    while (P < T.size()) {
      auto E = std::min(T.find(' ', P), T.size());
      auto W = T.substr(P, E - P);
      for (auto &[N, V] : Names) {
        auto Q = W.find(N);
        if (Q != std::string::npos) {
          W.replace(Q, std::string(N).size(), V);
          break;
        }
      }
      R.push_back(W);
      P = E + 1;
    }
    return R;
  };
  std::string OutName = K.Out;
  if (OutName == "OUT") {
    OutName = "out.yml";
  }
  const std::string Old(5000, 'x');
  if (K.There) {
    writeFile(Work + OutName, Old);
  }
  std::string Flags;
  for (auto &X : Fill(K.Env)) {
    Flags += (Flags.empty() ? "" : " ") + X;
  }
  auto Before = D.Place.empty() ? readFile(File) : "";
  auto R =
      runTool(S, "config-generator", Fill(K.Text), "CONFIG_GENERATOR_FLAGS", Flags);
  C.trans();
  C.Note = "exit status: " + std::to_string(R.Status) + "\nstdout:\n" + R.Out +
           "\nstderr:\n" + R.Err;
  C.check(WIFEXITED(R.Status) && WEXITSTATUS(R.Status) != 99 &&
              WEXITSTATUS(R.Status) != 126,
          "the tool does not end normally");
  Strs Want;
  if (D.Good && !K.Fails) {
    Want = K.Csv >= 0 ? Samples[K.Csv] : every(D);
  }
  bool Ok = D.Good && !K.Fails && (K.Csv >= 0 || !Want.empty());
  // Nothing is written if there is nothing to write; where a directory is in
  // the way that is no error either.
  C.eq(WEXITSTATUS(R.Status) == 0, Ok, "success");
  if (!Ok) {
    C.check(!R.Err.empty(), "an error is not explained");
  }
  C.eq(R.Out, std::string(), "standard output");
  C.eq(D.Place.empty() ? readFile(File) : "", Before, "the document");
  for (int I = 0; I < 3; ++I) {
    C.eq(readFile(Work + "s" + std::to_string(I) + ".csv"), Texts[I],
         "a sample set after the run");
  }
  Strs Expect = {"dir", "s0.csv", "s1.csv", "s2.csv"};
  if (D.Place != "missing") {
    Expect.push_back("model.xml");
  }
  bool Writes = Ok && !OutName.empty() && !Want.empty();
  if ((Writes || K.There) && !OutName.empty()) {
    Expect.push_back(OutName);
  }
  std::sort(Expect.begin(), Expect.end());
  C.eq(obs::join(list(S.Path + "/work")), obs::join(Expect), "files");
  C.eq(obs::join(list(Work + "dir")), std::string(), "files in a directory");
  if (Writes) {
    auto T = readFile(Work + OutName);
    Strs Got;
    readBack(C, T, Got);
    if (K.Csv < 0) {
      std::sort(Got.begin(), Got.end());
    }
    C.eq(obs::join(Got), obs::join(Want), "configurations");
    C.state(obs::join(Got));
  } else if (K.There) {
    C.eq(readFile(Work + OutName), Old, "the file that was there before");
  }
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  initialise(T);
  auto NC = commands().size();
  mc::Suite S;
  S.Name = "commands";
  S.Bound = std::to_string(docs().size()) + " documents (all trees of up to " +
            std::to_string(T ? 3 : 2) +
            " features in four styles, faulty files) x " + std::to_string(NC) +
            " command lines";
  S.N = docs().size() * NC;
  S.Chunk = 8;
  S.Timeout = 60;
  S.Describe = [=](uint64_t I) {
    auto &K = commands()[I % NC];
    return docs()[I / NC].Name + "\n" + K.Text +
           (*K.Env ? std::string(" with ") + K.Env + " in the environment" : "");
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    run(C, docs()[I / NC], commands()[I % NC]);
  };
  return mc::runChecks(
      Argc, Argv, "C29", {S},
      {"the CSV library is absent here; standin/csv.hpp reads the sample sets",
       "sample sets that are read exist and are well-formed",
       "the order of all configurations is not compared"});
}
