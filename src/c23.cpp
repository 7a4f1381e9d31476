// C23: reading a sample set yields exactly the listed configurations.
// NEEDS: sampling
#include "large.h"

#include "vara/Sampling/SampleSetParser.h"

#include <sys/mman.h>
#include <unistd.h>

namespace {

namespace vf = vara::feature;
using Strs = std::vector<std::string>;
using Options = std::map<std::string, std::string>;

struct Table {
  gen::Shape Sh;
  Strs Names;                  // of the nodes, 0 is the root
  std::vector<bool> Num;       // of the nodes
  Strs Columns;
  std::vector<Strs> Rows;
  int Style = 0; // 0 plain, 1 all cells quoted, 2 CRLF, 3 no line end

  std::string text() const {
    auto Cell = [&](const std::string &T) {
      if (Style != 1 && T.find_first_of(";\"\n") == std::string::npos) {
        return T;
      }
      std::string R = "\"";
      for (char C : T) {
        R += C == '"' ? "\"\"" : std::string(1, C);
      }
      return R + "\"";
    };
    std::string End = Style == 2 ? "\r\n" : "\n";
    auto Line = [&](const Strs &L) {
      std::string R;
      for (auto &X : L) {
        R += (&X == &L[0] ? "" : ";") + Cell(X);
      }
      return R;
    };
    auto R = Line(Columns);
    for (auto &X : Rows) {
      R += End + Line(X);
    }
    return Style == 3 ? R : R + End;
  }
  std::string str() const {
    auto N = Names;
    for (size_t I = 0; I < N.size(); ++I) {
      N[I] += Num[I] ? "#" : "";
    }
    return Sh.str(N) + "\n" + text();
  }
};

std::string show(const Options &O) {
  std::string R = "{";
  for (auto &[N, V] : O) {
    R += N + "=" + V + ",";
  }
  return R + "}";
}

/// A file in memory with a text.
struct File {
  int Fd = memfd_create("samples", 0);
  explicit File(const std::string &T) {
    if (Fd < 0 || write(Fd, T.data(), T.size()) != ssize_t(T.size())) {
      throw mc::Failure("cannot write a file in memory");
    }
  }
  ~File() { close(Fd); }
  std::string path() const { return "/proc/self/fd/" + std::to_string(Fd); }
  std::string text() const {
    std::string R(lseek(Fd, 0, SEEK_END), 0);
    return pread(Fd, &R[0], R.size(), 0) == ssize_t(R.size()) ? R : "?";
  }
};

void check(mc::Ctx &C, const Table &T) {
  auto FM = gen::build(T.Sh, T.Names[0],
                       [&](int I) -> std::unique_ptr<vf::Feature> {
                         if (T.Num[I]) {
                           return std::make_unique<vf::NumericFeature>(
                               T.Names[I], std::vector<int64_t>{0, 1}, true);
                         }
                         return std::make_unique<vf::BinaryFeature>(T.Names[I],
                                                                    true);
                       });
  C.check(FM != nullptr, "model is not built");
  Strs Want;
  for (auto &R : T.Rows) {
    Options O;
    for (size_t K = 0; K < T.Columns.size(); ++K) {
      for (size_t I = 0; I < T.Names.size(); ++I) {
        if (T.Columns[K] == T.Names[I]) {
          O[T.Names[I]] = T.Num[I] ? R[K] : R[K] == "0" ? "false" : "true";
        }
      }
    }
    Want.insert(Want.begin(), show(O)); // last row first
  }
  auto Before = obs::model(*FM);
  File F(T.text());
  auto Got = vara::sampling::SampleSetParser::readConfigurations(*FM, F.path());
  C.trans();
  C.eq(F.text(), T.text(), "file after reading");
  C.eq(obs::model(*FM), Before, "model after reading");
  FM.reset(); // configurations do not need the model
  Strs G;
  for (auto &X : Got) {
    C.check(X != nullptr, "a configuration is null");
    Options O;
    for (auto &E : *X) {
      O[E.getKey().str()] = E.getValue()->asString();
      C.eq(E.getValue()->name().str(), E.getKey().str(), "name of an option");
    }
    G.push_back(show(O));
  }
  C.eq(obs::join(G), obs::join(Want), "configurations");
  C.state(obs::join(G));
}

const std::vector<Strs> NameSets = {{"root", "a", "b", "c"},
                                    {"Base", "Z", "y y", "x"}};
const Strs Bits = {"0", "1"};
const Strs Numbers = {"0", "-3", "12", "1"};

mc::Suite suite(const std::string &Name, const std::string &Bound,
                std::vector<Table> L) {
  auto V = std::make_shared<std::vector<Table>>(std::move(L));
  mc::Suite S;
  S.Name = Name;
  S.Bound = Bound;
  S.N = V->size();
  S.Chunk = 500;
  S.Run = [=](uint64_t I, mc::Ctx &C) { check(C, (*V)[I]); };
  S.Describe = [=](uint64_t I) { return (*V)[I].str(); };
  return S;
}

/// All subsets of columns in the given orders, all cells.
std::vector<Table> tables(int N, int Rows, int Groups, bool Unknown,
                          size_t NameCount = 2) {
  std::vector<Table> R;
  for (auto &Sh : gen::shapes(N, Groups)) {
    for (auto &Names : NameSets) {
      if (size_t(&Names - &NameSets[0]) >= NameCount) {
        break;
      }
      for (uint64_t Kinds = 0; Kinds < 1u << N; ++Kinds) {
        Table T;
        T.Sh = Sh;
        for (int I = 0; I <= N; ++I) {
          T.Names.push_back(Names[I]);
          T.Num.push_back(I && (Kinds >> (I - 1) & 1));
        }
        auto All = T.Names;
        if (Unknown) {
          All.push_back("unknown");
          All.push_back(Names[1] == "Z" ? "z" : "A"); // not the same feature
        }
        for (uint64_t Set = 1; Set < 1u << All.size(); ++Set) {
          for (int Order = 0; Order < 2; ++Order) {
            T.Columns.clear();
            for (size_t I = 0; I < All.size(); ++I) {
              if (Set >> I & 1) {
                T.Columns.push_back(All[I]);
              }
            }
            if (Order) {
              std::reverse(T.Columns.begin(), T.Columns.end());
            }
            std::vector<const Strs *> Cells;
            uint64_t Count = 1;
            for (int J = 0; J < Rows; ++J) {
              for (auto &X : T.Columns) {
                auto P = std::find(T.Names.begin(), T.Names.end(), X);
                bool Num = P != T.Names.end() && T.Num[P - T.Names.begin()];
                Cells.push_back(Num ? &Numbers : &Bits);
                Count *= Cells.back()->size();
              }
            }
            for (uint64_t K = 0; K < Count; ++K) {
              mc::Digits D(K);
              T.Rows.assign(Rows, {});
              for (size_t J = 0; J < Cells.size(); ++J) {
                T.Rows[J / T.Columns.size()].push_back(
                    (*Cells[J])[D.take(Cells[J]->size())]);
              }
              R.push_back(T);
            }
          }
        }
      }
    }
  }
  return R;
}

/// Cells and layouts.
std::vector<Table> layouts() {
  std::vector<Table> R;
  const Strs Values = {"0",  "1",   "9223372036854775807",
                       "-9223372036854775808", "-1", "100000"};
  for (auto &Sh : gen::shapes(2, 1)) {
    for (int Style = 0; Style < 4; ++Style) {
      for (int Rows = 0; Rows <= 3; ++Rows) {
        for (uint64_t K = 0; K < mc::ipow(Values.size(), 2) * 4; ++K) {
          mc::Digits D(K);
          Table T;
          T.Sh = Sh;
          T.Names = {"root", "a", "b"};
          T.Num = {false, true, false};
          T.Columns = {"b", "the \"note\"; text", "a", "root"};
          T.Style = Style;
          auto A = D.take(Values.size());
          auto B = D.take(Values.size());
          auto X = D.take(4);
          for (int J = 0; J < Rows; ++J) {
            T.Rows.push_back({Bits[(X >> (J % 2)) & 1],
                              J % 2 ? "x;y" : "",
                              Values[J % 2 ? A : B], "1"});
          }
          R.push_back(T);
        }
      }
    }
  }
  return R;
}

/// Larger trees and longer lists.
std::vector<Table> largeOnes(const std::vector<int> &Sizes) {
  std::vector<Table> R;
  for (auto &Sh : large::shapes(Sizes)) {
    for (int P = 0; P < 12; ++P) {
      Table T;
      T.Sh = Sh;
      T.Names = large::names(Sh.N);
      T.Names.resize(Sh.N + 1);
      for (int I = 0; I <= Sh.N; ++I) {
        T.Num.push_back(I && I % 4 == 3);
        if (I % 5 != 4) {
          T.Columns.insert(T.Columns.begin() + (P % 2 ? 0 : T.Columns.size()),
                           T.Names[I]);
        }
      }
      for (int J = 0; J < Sh.N * 3 + P; ++J) {
        Strs Row;
        for (size_t K = 0; K < T.Columns.size(); ++K) {
          auto I = std::find(T.Names.begin(), T.Names.end(), T.Columns[K]) -
                   T.Names.begin();
          Row.push_back(T.Num[I] ? std::to_string(int(K) * J - 7)
                                 : Bits[(J + K * (P + 1)) / 2 % 2]);
        }
        T.Rows.push_back(Row);
      }
      R.push_back(T);
    }
  }
  return R;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> S;
  auto Bound = [](int N, int Rows) {
    return "all trees of " + std::to_string(N) +
           " binary and numeric features, every set of columns in two orders, "
           "all cells of " +
           std::to_string(Rows) + " rows";
  };
  S.push_back(suite("tables1", Bound(1, 2) + ", with unknown columns",
                    tables(1, 2, 2, true)));
  S.push_back(suite("tables2", Bound(2, 1) + ", with unknown columns",
                    tables(2, 1, 1, true)));
  S.push_back(suite("tables2-rows", Bound(2, 2), tables(2, 2, 1, false)));
  S.push_back(suite("tables3", Bound(3, 1), tables(3, 1, T ? 1 : 0, false, T ? 2 : 1)));
  if (T) {
    S.push_back(suite("tables1-rows", Bound(1, 3), tables(1, 3, 2, false)));
  }
  S.push_back(suite("layouts",
                    "trees of two features, boundary values, quoted cells, "
                    "other line ends, 0 to 3 rows",
                    layouts()));
  auto Sizes = T ? std::vector<int>{5, 8, 12, 17, 24} : std::vector<int>{5, 9};
  S.push_back(suite("large",
                    large::bound(Sizes) +
                        ", with up to three rows per feature in 12 patterns",
                    largeOnes(Sizes)));
  return mc::runChecks(
      Argc, Argv, "C23", S,
      {"the CSV library is absent here; standin/csv.hpp reads the files",
       "files are well-formed: a header, and a cell for each column"});
}
