// Stand-in for the csv-parser library (https://github.com/vincentlaucsb/csv-parser),
// whose header is absent here: the part of its documented interface that reads
// files with a header row.  It makes the sample set reader of the repository
// executable; the library itself is not what is checked.
#ifndef MC_STANDIN_CSV_HPP
#define MC_STANDIN_CSV_HPP

#include <cstdint>
#include <fstream>
#include <iterator>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace csv {

using string_view = std::string_view;
constexpr int CSV_NOT_FOUND = -1;

class CSVFormat {
public:
  CSVFormat &delimiter(char C) {
    Delim = {C};
    return *this;
  }
  CSVFormat &delimiter(const std::vector<char> &C) {
    Delim = C;
    return *this;
  }
  CSVFormat &trim(const std::vector<char> &C) {
    Trim = C;
    return *this;
  }
  CSVFormat &quote(char C) {
    Quote = C;
    return *this;
  }
  CSVFormat &header_row(int R) {
    Header = R;
    return *this;
  }
  std::vector<char> Delim{','};
  std::vector<char> Trim;
  char Quote = '"';
  int Header = 0;
};

class CSVField {
public:
  explicit CSVField(string_view S) : S(S) {}
  template <class T = std::string> T get() const {
    if constexpr (std::is_same_v<T, std::string> ||
                  std::is_same_v<T, string_view>) {
      return T(S);
    } else {
      std::istringstream In{std::string(S)};
      T V{};
      if (!(In >> V)) {
        throw std::runtime_error("Not a number.");
      }
      return V;
    }
  }
  string_view get_sv() const { return S; }
  bool is_null() const { return S.empty(); }
  bool is_int() const {
    size_t I = !S.empty() && S[0] == '-';
    bool Any = false;
    for (; I < S.size(); ++I, Any = true) {
      if (S[I] < '0' || S[I] > '9') {
        return false;
      }
    }
    return Any;
  }
  bool is_num() const { return is_int(); }
  bool is_str() const { return !is_null() && !is_int(); }
  template <class T> bool operator==(T O) const {
    if constexpr (std::is_arithmetic_v<T>) {
      return get<T>() == O;
    } else {
      return S == string_view(O);
    }
  }

private:
  string_view S;
};

using Names = std::shared_ptr<std::vector<std::string>>;

class CSVRow {
public:
  CSVRow() = default;
  CSVRow(Names N, std::vector<std::string> F)
      : N(std::move(N)),
        F(std::make_shared<std::vector<std::string>>(std::move(F))) {}
  bool empty() const { return size() == 0; }
  size_t size() const { return F ? F->size() : 0; }
  std::vector<std::string> get_col_names() const {
    return N ? *N : std::vector<std::string>{};
  }
  CSVField operator[](size_t I) const {
    if (I >= size()) {
      throw std::runtime_error("Index out of bounds.");
    }
    return CSVField((*F)[I]);
  }
  CSVField operator[](const std::string &Name) const {
    for (size_t I = 0; I < N->size(); ++I) {
      if ((*N)[I] == Name) {
        return (*this)[I];
      }
    }
    throw std::runtime_error("Can't find a column named " + Name);
  }
  operator std::vector<std::string>() const { return *F; }

  class iterator {
  public:
    using value_type = CSVField;
    using difference_type = int;
    using pointer = const CSVField *;
    using reference = CSVField;
    using iterator_category = std::input_iterator_tag;
    iterator(const CSVRow *R, size_t I) : R(R), I(I) {}
    CSVField operator*() const { return (*R)[I]; }
    iterator &operator++() {
      ++I;
      return *this;
    }
    iterator operator++(int) {
      auto T = *this;
      ++I;
      return T;
    }
    bool operator==(const iterator &O) const { return I == O.I; }
    bool operator!=(const iterator &O) const { return I != O.I; }

  private:
    const CSVRow *R;
    size_t I;
  };
  iterator begin() const { return {this, 0}; }
  iterator end() const { return {this, size()}; }

private:
  Names N;
  std::shared_ptr<std::vector<std::string>> F;
};

class CSVReader {
public:
  CSVReader(string_view File, CSVFormat Format = CSVFormat()) {
    std::ifstream In{std::string(File), std::ios::binary};
    if (!In.is_open()) {
      throw std::runtime_error("Cannot open file " + std::string(File));
    }
    std::string T(std::istreambuf_iterator<char>(In), {});
    if (T.compare(0, 3, "\xef\xbb\xbf") == 0) {
      T.erase(0, 3);
    }
    parse(T, Format);
  }

  std::vector<std::string> get_col_names() const { return *N; }
  int index_of(string_view Name) const {
    for (size_t I = 0; I < N->size(); ++I) {
      if ((*N)[I] == Name) {
        return int(I);
      }
    }
    return CSV_NOT_FOUND;
  }
  bool empty() const { return Rows.empty(); }
  size_t n_rows() const { return Next; }
  bool eof() const { return Next == Rows.size(); }
  bool read_row(CSVRow &R) {
    if (eof()) {
      return false;
    }
    R = Rows[Next++];
    return true;
  }

  class iterator {
  public:
    using value_type = CSVRow;
    using difference_type = std::ptrdiff_t;
    using pointer = CSVRow *;
    using reference = CSVRow &;
    using iterator_category = std::input_iterator_tag;
    iterator() = default;
    explicit iterator(CSVReader *R) : R(R) { ++*this; }
    CSVRow &operator*() { return Row; }
    CSVRow *operator->() { return &Row; }
    iterator &operator++() {
      if (!R->read_row(Row)) {
        R = nullptr;
      }
      return *this;
    }
    iterator operator++(int) {
      auto T = *this;
      ++*this;
      return T;
    }
    bool operator==(const iterator &O) const { return R == O.R; }
    bool operator!=(const iterator &O) const { return R != O.R; }

  private:
    CSVReader *R = nullptr;
    CSVRow Row;
  };
  iterator begin() { return iterator(this); }
  iterator end() const { return iterator(); }

private:
  static bool in(const std::vector<char> &V, char C) {
    for (auto X : V) {
      if (X == C) {
        return true;
      }
    }
    return false;
  }

  void parse(const std::string &T, const CSVFormat &Format) {
    std::vector<std::vector<std::string>> Lines;
    std::vector<std::string> Line;
    std::string Field;
    bool Quoted = false;
    bool Any = false;
    auto EndField = [&] {
      while (!Field.empty() && in(Format.Trim, Field.front())) {
        Field.erase(0, 1);
      }
      while (!Field.empty() && in(Format.Trim, Field.back())) {
        Field.pop_back();
      }
      Line.push_back(Field);
      Field.clear();
    };
    auto EndLine = [&] {
      if (Any) {
        EndField();
        Lines.push_back(Line);
      }
      Line.clear();
      Any = false;
    };
    for (size_t I = 0; I < T.size(); ++I) {
      char C = T[I];
      if (Quoted) {
        if (C != Format.Quote) {
          Field += C;
        } else if (I + 1 < T.size() && T[I + 1] == Format.Quote) {
          Field += C;
          ++I;
        } else {
          Quoted = false;
        }
      } else if (C == Format.Quote && Field.empty()) {
        Quoted = true;
        Any = true;
      } else if (in(Format.Delim, C)) {
        Any = true;
        EndField();
      } else if (C == '\n' || C == '\r') {
        EndLine();
      } else {
        Any = true;
        Field += C;
      }
    }
    EndLine();
    for (size_t I = 0; I < Lines.size(); ++I) {
      if (int(I) == Format.Header) {
        *N = Lines[I];
      } else if (int(I) > Format.Header && Lines[I].size() == N->size()) {
        Rows.push_back(CSVRow(N, Lines[I]));
      }
    }
  }

  Names N = std::make_shared<std::vector<std::string>>();
  std::vector<CSVRow> Rows;
  size_t Next = 0;
};

} // namespace csv

#endif
