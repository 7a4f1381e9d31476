// C22: written sample sets list exactly the given configurations.
// NEEDS: configuration
#include "large.h"

#include "vara/Sampling/SampleSetWriter.h"

#include "llvm/Support/JSON.h"
#include "llvm/Support/YAMLTraits.h"

LLVM_YAML_IS_STRING_MAP(std::string)

namespace {

namespace vf = vara::feature;
using Strs = std::vector<std::string>;
using Options = std::map<std::string, std::string>;

const Strs Outputs = {"--x", "", "-a=", "it's", "k: v", "q\"\\", "#[],{}",
                      "\xc3\xa9", "true", " "};

struct Node {
  std::string Name;
  bool Numeric = false;
  std::string Output;
};

struct Model {
  gen::Shape Sh;
  std::vector<Node> N;
  std::string str() const {
    Strs X;
    for (auto &M : N) {
      X.push_back(M.Name + (M.Numeric ? "#" : "") + "<" + M.Output + ">");
    }
    return Sh.str(X);
  }
};

std::unique_ptr<vf::FeatureModel> build(const Model &M) {
  auto FM = gen::build(
      M.Sh, M.N[0].Name, [&](int I) -> std::unique_ptr<vf::Feature> {
        auto &X = M.N[I];
        if (X.Numeric) {
          return std::make_unique<vf::NumericFeature>(
              X.Name, std::vector<int64_t>{-3, 0, 12}, true,
              std::vector<vf::FeatureSourceRange>{}, X.Output);
        }
        return std::make_unique<vf::BinaryFeature>(
            X.Name, true, std::vector<vf::FeatureSourceRange>{}, X.Output);
      });
  return FM;
}

/// Nodes in depth-first order, siblings by lowercase name.
void order(const Model &M, int P, std::vector<int> &Out) {
  Out.push_back(P);
  auto K = M.Sh.kids(P);
  auto L = [&](int I) {
    std::string R;
    for (char C : M.N[I].Name) {
      R += char(tolower(C));
    }
    return R;
  };
  std::sort(K.begin(), K.end(), [&](int A, int B) { return L(A) < L(B); });
  for (int C : K) {
    order(M, C, Out);
  }
}

std::string show(const std::vector<Strs> &L) {
  std::string R;
  for (auto &X : L) {
    R += "[";
    for (auto &Y : X) {
      R += "<" + Y + ">";
    }
    R += "] ";
  }
  return R;
}

/// The lists in the document, by number.
std::vector<Strs> readBack(mc::Ctx &C, const std::string &T) {
  std::map<std::string, std::string> M;
  {
    llvm::yaml::Input In(T);
    In >> M;
    C.check(!In.error(), "the document is not a YAML map of texts:\n" + T);
  }
  std::vector<Strs> R;
  for (size_t I = 0; I < M.size(); ++I) {
    auto E = M.find(std::to_string(I));
    C.check(E != M.end(), "the document lacks a configuration:\n" + T);
    auto J = llvm::json::parse(E->second);
    C.check(bool(J), "not a list of texts: " + E->second);
    auto *A = J->getAsArray();
    C.check(A != nullptr, "not a list: " + E->second);
    R.emplace_back();
    for (auto &V : *A) {
      C.check(bool(V.getAsString()), "not a list of texts: " + E->second);
      R.back().push_back(V.getAsString()->str());
    }
  }
  return R;
}

void compare(mc::Ctx &C, const Model &M, const std::vector<Options> &Configs) {
  auto FM = build(M);
  C.check(FM != nullptr, "model is not built");
  std::vector<int> Order;
  order(M, 0, Order);
  std::vector<std::unique_ptr<vf::Configuration>> L;
  std::vector<Strs> Want;
  for (auto &O : Configs) {
    L.push_back(std::make_unique<vf::Configuration>());
    for (auto &[N, V] : O) {
      L.back()->setConfigurationOption(N, V);
    }
    Want.emplace_back();
    for (int I : Order) {
      auto &X = M.N[I];
      auto E = O.find(X.Name);
      if (E != O.end() && E->second != "false" && !X.Output.empty() && I) {
        Want.back().push_back(X.Output + (X.Numeric ? E->second : ""));
      }
    }
  }
  auto Before = obs::model(*FM);
  auto T = vara::sampling::SampleSetWriter::writeConfigurations(*FM, L);
  C.trans();
  C.eq(show(readBack(C, T)), show(Want), "configurations in the document");
  C.eq(obs::model(*FM), Before, "model after writing");
  C.check(vara::sampling::SampleSetWriter::writeConfigurations(*FM, L) == T,
          "writing again gives another text");
  C.state(T);
}

const std::vector<Strs> NameSets = {{"root", "a", "b", "c"},
                                    {"root", "Z", "y", "x"}};

/// Digits: shape, names, kinds and outputs per node, options per configuration.
mc::Suite small(int N, size_t NOut, int Configs, int Groups) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(gen::shapes(N, Groups));
  mc::Suite S;
  S.Name = "models" + std::to_string(N) + "-" + std::to_string(Configs);
  S.Bound = "all trees of " + std::to_string(N) + " features with at most " +
            std::to_string(Groups) + " groups each, binary or numeric with " +
            std::to_string(NOut) + " output strings, with all lists of " +
            std::to_string(Configs) +
            " configurations that leave out, deselect or select each feature";
  S.N = Sh->size() * NameSets.size() * mc::ipow(2 * NOut, N) *
        mc::ipow(mc::ipow(3, N), Configs);
  S.Chunk = 500;
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    Model M;
    auto &Names = NameSets[D.take(NameSets.size())];
    M.N.push_back({Names[0]});
    for (int K = 1; K <= N; ++K) {
      bool Num = D.take(2);
      M.N.push_back({Names[K], Num, Outputs[D.take(NOut)]});
    }
    std::vector<Options> L(Configs);
    for (auto &O : L) {
      O["root"] = "true";
      O["unknown"] = "true";
      for (int K = 1; K <= N; ++K) {
        auto V = D.take(3);
        if (V) {
          O[Names[K]] = M.N[K].Numeric ? (V == 1 ? "0" : "-3")
                                       : (V == 1 ? "false" : "true");
        }
      }
    }
    M.Sh = (*Sh)[D.take(Sh->size())];
    return std::make_pair(M, L);
  };
  S.Describe = [=](uint64_t I) {
    auto [M, L] = Get(I);
    std::string R = M.str() + "\n";
    for (auto &O : L) {
      for (auto &[N, V] : O) {
        R += N + "=" + V + " ";
      }
      R += "\n";
    }
    return R;
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto [M, L] = Get(I);
    compare(C, M, L);
  };
  return S;
}

/// Long lists, with every pattern of a period up to 3.
mc::Suite longLists(int Max) {
  mc::Suite S;
  S.Name = "long-lists";
  S.Bound = "lists of at most " + std::to_string(Max) +
            " configurations in all patterns of period 3 over 3 features";
  S.N = uint64_t(Max + 1) * mc::ipow(8, 3);
  S.Chunk = 200;
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    std::vector<uint64_t> P;
    for (int K = 0; K < 3; ++K) {
      P.push_back(D.take(8));
    }
    std::vector<Options> L;
    size_t Len = D.take(Max + 1);
    for (size_t K = 0; K < Len; ++K) {
      Options O{{"root", "true"}};
      O["a"] = P[K % 3] & 1 ? "true" : "false";
      O["b"] = P[K % 3] & 2 ? "true" : "false";
      O["c"] = std::to_string(int(K) * (P[K % 3] & 4 ? 1 : -1));
      L.push_back(O);
    }
    return L;
  };
  S.Describe = [=](uint64_t I) {
    return std::to_string(Get(I).size()) + " configurations";
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    Model M;
    M.Sh = gen::shapes(3, 0).front();
    M.N = {{"root"}, {"a", false, "-A"}, {"b", false, "--b b"}, {"c", true, "-c"}};
    compare(C, M, Get(I));
  };
  return S;
}

/// Larger regular trees with four configurations in regular patterns.
mc::Suite largeOnes(const std::vector<int> &Sizes) {
  auto Sh = std::make_shared<std::vector<gen::Shape>>(large::shapes(Sizes));
  mc::Suite S;
  S.Name = "large";
  S.Bound = large::bound(Sizes) +
            ", with four configurations out of 24 patterns of features that "
            "are left out, deselected and selected";
  S.N = Sh->size() * 24;
  S.Chunk = 100;
  auto Get = [=](uint64_t I) {
    Model M;
    M.Sh = (*Sh)[I / 24];
    auto Names = large::names(M.Sh.N);
    for (int K = 0; K <= M.Sh.N; ++K) {
      M.N.push_back({Names[K], K % 4 == 3, K % 5 == 4 ? "" : "-" + Names[K]});
    }
    std::vector<Options> L;
    for (int J = 0; J < 4; ++J) {
      Options O;
      for (int K = 0; K <= M.Sh.N; ++K) {
        int V = int((I + K * (1 + I / 6) + J * 5) % (3 + I % 2));
        if (V) {
          O[Names[K]] = M.N[K].Numeric ? std::to_string(K * J - 3)
                                       : (V == 1 ? "false" : "true");
        }
      }
      L.push_back(O);
    }
    return std::make_pair(M, L);
  };
  S.Describe = [=](uint64_t I) {
    return Get(I).first.str() + " pattern " + std::to_string(I % 24);
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto [M, L] = Get(I);
    compare(C, M, L);
  };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S = {small(1, Outputs.size(), 2, 1),
                              small(2, Outputs.size(), 1, 1),
                              small(2, 2, 2, 1),
                              small(3, T ? 4 : 2, 1, 1),
                              longLists(T ? 120 : 30),
                              largeOnes(T ? std::vector<int>{5, 6, 7, 8, 10, 13, 17}
                                          : std::vector<int>{5, 8, 13})};
  if (T) {
    S.push_back(small(3, 1, 2, 1));
    S.push_back(small(2, 4, 2, 2));
  }
  return mc::runChecks(
      Argc, Argv, "C22", S,
      {"output strings are printable UTF-8",
       "the document is read with the YAML and JSON parsers of LLVM"});
}
