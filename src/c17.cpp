// C17: configurations keep their options and survive the JSON round trip.
// NEEDS: configuration
#include "engine.h"
#include "obs.h"

#include "vara/Configuration/Configuration.h"

#include <algorithm>
#include <map>
#include <optional>

namespace {

using vara::feature::Configuration;
using vara::feature::ConfigurationOption;
using Strs = std::vector<std::string>;

std::string quoted(const std::string &S) {
  static const char *H = "0123456789abcdef";
  std::string R = "\"";
  for (unsigned char C : S) {
    if (C < 0x20 || C > 0x7e || C == '"' || C == '\\') {
      R += std::string("\\x") + H[C >> 4] + H[C & 15];
    } else {
      R += char(C);
    }
  }
  return R + "\"";
}

// --- reference -------------------------------------------------------------

struct Value {
  int Kind = 0; // 0 bool, 1 integer, 2 text
  int64_t I = 0;
  std::string S;
  std::string text() const {
    return Kind == 0 ? (I ? "true" : "false")
                     : Kind == 1 ? std::to_string(I) : S;
  }
};

/// true and false in any case, integers with 64 bits (decimal, 0x, 0b, 0o and
/// octal with leading 0), everything else is text.
Value read(const std::string &T) {
  std::string L;
  for (char C : T) {
    L += C >= 'A' && C <= 'Z' ? char(C - 'A' + 'a') : C;
  }
  if (L == "true" || L == "false") {
    return {0, L == "true", ""};
  }
  size_t P = 0;
  bool Neg = false;
  if (P < T.size() && T[P] == '-') {
    Neg = true;
    ++P;
  }
  int Base = 10;
  if (L.compare(P, 2, "0x") == 0) {
    Base = 16;
    P += 2;
  } else if (L.compare(P, 2, "0b") == 0) {
    Base = 2;
    P += 2;
  } else if (T.compare(P, 2, "0o") == 0) {
    Base = 8;
    P += 2;
  } else if (P + 1 < T.size() && T[P] == '0' && isdigit((unsigned char)T[P + 1])) {
    Base = 8;
    P += 1;
  }
  if (P == T.size()) {
    return {2, 0, T};
  }
  unsigned __int128 V = 0;
  for (; P < T.size(); ++P) {
    char C = L[P];
    int D = C >= '0' && C <= '9' ? C - '0'
            : C >= 'a' && C <= 'z' ? C - 'a' + 10
                                   : 99;
    if (D >= Base) {
      return {2, 0, T};
    }
    V = V * Base + D;
    if (V >> 64) {
      return {2, 0, T};
    }
  }
  unsigned __int128 Max = (unsigned __int128)1 << 63;
  if (Neg ? V > Max : V >= Max) {
    return {2, 0, T};
  }
  return {1, Neg ? int64_t(-(__int128)V) : int64_t(V), ""};
}

using Map = std::map<std::string, std::string>; // options, values as text

std::string show(const Map &M) {
  std::string R = "{";
  for (auto &[N, V] : M) {
    R += quoted(N) + ":" + quoted(V) + ",";
  }
  return R + "}";
}

struct Json {
  const std::string &S;
  size_t P = 0;
  bool Skip = false; // LLVM 14 misreads escapes of U+20000 and some others

  static bool utf8(const std::string &T) {
    for (size_t I = 0; I < T.size();) {
      unsigned char C = T[I];
      int N = C < 0x80 ? 0 : C >= 0xc2 && C < 0xe0 ? 1
              : (C & 0xf0) == 0xe0                 ? 2
              : C >= 0xf0 && C < 0xf5              ? 3
                                                   : -1;
      if (N < 0 || I + N >= T.size() + 0 + (N == 0)) {
        return false;
      }
      uint32_t V = N == 0 ? C : C & (0x3f >> N);
      for (int J = 1; J <= N; ++J) {
        unsigned char D = T[I + J];
        if ((D & 0xc0) != 0x80) {
          return false;
        }
        V = V << 6 | (D & 0x3f);
      }
      if ((N == 2 && (V < 0x800 || (V >= 0xd800 && V < 0xe000))) ||
          (N == 3 && (V < 0x10000 || V > 0x10ffff))) {
        return false;
      }
      I += N + 1;
    }
    return true;
  }
  void ws() {
    while (P < S.size() && (S[P] == ' ' || S[P] == '\t' || S[P] == '\n' ||
                            S[P] == '\r')) {
      ++P;
    }
  }
  bool eat(char C) {
    ws();
    if (P < S.size() && S[P] == C) {
      ++P;
      return true;
    }
    return false;
  }
  std::optional<uint32_t> hex() {
    uint32_t V = 0;
    for (int I = 0; I < 4; ++I) {
      if (P >= S.size() || !isxdigit((unsigned char)S[P])) {
        return std::nullopt;
      }
      V = V * 16 + std::stoi(std::string(1, S[P++]), nullptr, 16);
    }
    return V;
  }
  static void put(std::string &R, uint32_t V) {
    if (V < 0x80) {
      R += char(V);
    } else if (V < 0x800) {
      R += char(0xc0 | V >> 6);
      R += char(0x80 | (V & 63));
    } else if (V < 0x10000) {
      R += char(0xe0 | V >> 12);
      R += char(0x80 | (V >> 6 & 63));
      R += char(0x80 | (V & 63));
    } else {
      R += char(0xf0 | V >> 18);
      R += char(0x80 | (V >> 12 & 63));
      R += char(0x80 | (V >> 6 & 63));
      R += char(0x80 | (V & 63));
    }
  }
  std::optional<std::string> text() {
    if (!eat('"')) {
      return std::nullopt;
    }
    std::string R;
    while (true) {
      if (P >= S.size()) {
        return std::nullopt;
      }
      unsigned char C = S[P++];
      if (C == '"') {
        return R;
      }
      if (C < 0x20) {
        return std::nullopt;
      }
      if (C != '\\') {
        R += char(C);
        continue;
      }
      if (P >= S.size()) {
        return std::nullopt;
      }
      switch (S[P++]) {
      case '"':
      case '\\':
      case '/':
        R += S[P - 1];
        break;
      case 'b':
        R += '\b';
        break;
      case 'f':
        R += '\f';
        break;
      case 'n':
        R += '\n';
        break;
      case 'r':
        R += '\r';
        break;
      case 't':
        R += '\t';
        break;
      case 'u': {
        auto V = hex();
        if (!V) {
          return std::nullopt;
        }
        // surrogates without partner become U+FFFD
        while (*V >= 0xd800 && *V < 0xdc00) {
          if (S.compare(P, 2, "\\u") != 0) {
            V = 0xfffd;
            break;
          }
          P += 2;
          auto W = hex();
          if (!W) {
            return std::nullopt;
          }
          if (*W >= 0xdc00 && *W < 0xe000) {
            Skip |= (*V & 0x40) != 0;
            V = 0x10000 + ((*V & 0x3ff) << 10) + (*W & 0x3ff);
            break;
          }
          put(R, 0xfffd);
          V = W;
        }
        if (*V >= 0xdc00 && *V < 0xe000) {
          V = 0xfffd;
        }
        put(R, *V);
        break;
      }
      default:
        return std::nullopt;
      }
    }
  }
  /// Object of texts; nothing for every other document.
  std::optional<Map> parse() {
    if (!utf8(S) || !eat('{')) {
      return std::nullopt;
    }
    Map M;
    if (!eat('}')) {
      do {
        auto N = text();
        if (!N || !eat(':')) {
          return std::nullopt;
        }
        auto V = text();
        if (!V) {
          return std::nullopt;
        }
        M[*N] = read(*V).text();
      } while (eat(','));
      if (!eat('}')) {
        return std::nullopt;
      }
    }
    ws();
    if (P != S.size()) {
      return std::nullopt;
    }
    return M;
  }
};

// --- observation -----------------------------------------------------------

void option(mc::Ctx &C, const ConfigurationOption &O, const std::string &Name,
            const Value &V) {
  C.trans();
  C.eq(O.name().str(), Name, "name");
  C.eq(O.isBool(), V.Kind == 0, "isBool");
  C.eq(O.isInt(), V.Kind == 1, "isInt");
  C.eq(O.isString(), V.Kind == 2, "isString");
  C.eq(O.boolValue().has_value(), V.Kind == 0, "boolValue is present");
  C.eq(O.intValue().has_value(), V.Kind == 1, "intValue is present");
  C.eq(O.stringValue().has_value(), V.Kind == 2, "stringValue is present");
  if (V.Kind == 0) {
    C.eq(*O.boolValue(), V.I != 0, "boolValue");
  } else if (V.Kind == 1) {
    C.eq(*O.intValue(), V.I, "intValue");
  } else {
    C.eq(O.stringValue()->str(), V.S, "stringValue");
  }
  C.eq(O.asString(), V.text(), "asString");
  C.eq(O.toString(), Name + ": " + V.text(), "toString");
}

/// Lookup, both ways of iterating, and the names that are not set.
void config(mc::Ctx &C, Configuration &X, const Map &Want, const Strs &Names,
            const std::string &What) {
  Map Got;
  size_t N = 0;
  for (auto &E : X) {
    C.check(E.getValue() != nullptr, What + ": an option is null");
    C.eq(E.getValue()->name().str(), E.getKey().str(), What + ": name");
    Got[E.getKey().str()] = E.getValue()->asString();
    ++N;
  }
  C.eq(show(Got), show(Want), What + ": iterating");
  C.eq(N, Want.size(), What + ": number of options");
  Got.clear();
  N = 0;
  for (auto &E : std::as_const(X)) {
    Got[E.getKey().str()] = E.getValue()->asString();
    ++N;
  }
  C.eq(show(Got), show(Want), What + ": iterating (const)");
  C.eq(N, Want.size(), What + ": number of options (const)");
  auto Look = [&](const std::string &Name) {
    auto I = Want.find(Name);
    auto V = X.configurationOptionValue(Name);
    C.eq(V.has_value(), I != Want.end(), What + ": has " + quoted(Name));
    if (V) {
      C.eq(*V, I->second, What + ": value of " + quoted(Name));
    }
  };
  for (auto &Name : Names) {
    Look(Name);
  }
  for (auto &[Name, V] : Want) {
    Look(Name);
  }
  C.trans(2 + Names.size());
}

void roundTrip(mc::Ctx &C, Configuration &X, const Map &Want,
               const Strs &Names) {
  auto T = X.dumpToString();
  auto R = Json{T}.parse();
  C.check(R.has_value(), "the dump is not a JSON object of texts: " + T);
  C.eq(show(*R), show(Want), "the dump denotes");
  auto Y = Configuration::createConfigurationFromString(T);
  C.check(Y != nullptr, "the dump is not read: " + T);
  config(C, *Y, Want, Names, "read from its dump");
  C.eq(Y->dumpToString(), T, "dumped again");
  // independent of each other
  Y->setConfigurationOption("only in the copy", "1");
  C.check(!X.configurationOptionValue("only in the copy"),
          "the copy changes the original");
  C.trans(3);
}

// --- suites ----------------------------------------------------------------

mc::Suite texts(const std::string &Name, const Strs &Alphabet, int Len) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = "all texts of at most " + std::to_string(Len) + " of " +
            std::to_string(Alphabet.size()) + " characters or words";
  for (int L = 0; L <= Len; ++L) {
    S.N += mc::ipow(Alphabet.size(), L);
  }
  S.Chunk = 2000;
  auto Get = [=](uint64_t I) {
    int L = 0;
    while (I >= mc::ipow(Alphabet.size(), L)) {
      I -= mc::ipow(Alphabet.size(), L++);
    }
    std::string R;
    for (; L; --L) {
      R += Alphabet[I % Alphabet.size()];
      I /= Alphabet.size();
    }
    return R;
  };
  S.Describe = [=](uint64_t I) { return quoted(Get(I)); };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto T = Get(I);
    auto V = read(T);
    {
      // The option keeps its own copies of the texts.
      std::string N = "foo";
      std::string W = T;
      ConfigurationOption O(N, W);
      N = "???";
      W.assign(W.size(), '?');
      option(C, O, "foo", V);
    }
    {
      ConfigurationOption O(T, "x");
      option(C, O, T, {2, 0, "x"});
    }
    Configuration X;
    X.setConfigurationOption(T, "other");
    X.setConfigurationOption("key", T);
    Map Want{{T, "other"}};
    Want["key"] = V.text();
    config(C, X, Want, {"", "KEY"}, "configuration");
    roundTrip(C, X, Want, {});
    C.state(std::to_string(V.Kind) + V.text());
  };
  return S;
}

const Strs Names = {"a", "A", "", "a b", "\"\\\n\x01", "\xc3\xa9"};
const Strs Vals = {"true", "False", "7", "", "x\"y", "-0"};

/// Sequences of calls; digits: name, value, way.
mc::Suite sequences(size_t NN, size_t NV, int Depth) {
  mc::Suite S;
  const uint64_t Ops = NN * NV * 2 + 1;
  S.Name = "sequences" + std::to_string(Depth);
  S.Bound = "all sequences of " + std::to_string(Depth) +
            " calls that set one of " + std::to_string(NN) +
            " options to one of " + std::to_string(NV) +
            " values or replace the configuration by a copy read from its "
            "dump, all observers after every call";
  S.N = mc::ipow(Ops, Depth);
  S.Chunk = 500;
  auto Decode = [=](uint64_t I) {
    std::vector<uint64_t> R;
    mc::Digits D(I);
    for (int K = 0; K < Depth; ++K) {
      R.push_back(D.take(Ops));
    }
    return R;
  };
  S.Describe = [=](uint64_t I) {
    std::string R;
    for (auto O : Decode(I)) {
      if (O + 1 == Ops) {
        R += "read from dump\n";
        continue;
      }
      R += (O % 2 ? "set " : "add ") + quoted(Names[O / 2 % NN]) + " = " +
           quoted(Vals[O / 2 / NN]) + "\n";
    }
    return R;
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = std::make_unique<Configuration>();
    Map M;
    for (auto O : Decode(I)) {
      if (O + 1 == Ops) {
        X = Configuration::createConfigurationFromString(X->dumpToString());
        C.check(X != nullptr, "dump is not read");
      } else {
        auto &N = Names[O / 2 % NN];
        auto &V = Vals[O / 2 / NN];
        if (O % 2) {
          X->setConfigurationOption(N, V);
        } else {
          X->addConfigurationOption(
              std::make_unique<ConfigurationOption>(N, V));
        }
        M[N] = read(V).text();
      }
      config(C, *X, M, Names, "configuration");
    }
    roundTrip(C, *X, M, Names);
    C.state(show(M));
  };
  return S;
}

/// Many options; digits: number of options, pattern of values, what is changed
/// afterwards and how.
mc::Suite many(const std::vector<int> &Sizes) {
  auto ValueAt = [](uint64_t Pattern, int K) -> std::string {
    switch (Pattern) {
    case 0:
      return K % 2 ? "true" : "false";
    case 1:
      return std::to_string(K * K - 50);
    case 2:
      return "text " + std::to_string(K);
    case 3:
      return std::string(size_t(K), 'x');
    default:
      return K % 3 == 0 ? "True" : K % 3 == 1 ? "0x1" + std::to_string(K) : "";
    }
  };
  auto NameAt = [](uint64_t Kind, int K) -> std::string {
    return Kind == 0   ? "o" + std::to_string(K)
           : Kind == 1 ? std::string(size_t(K), 'n')
                       : std::string(1, char(K + 1)) + "\xc3\xa9";
  };
  int Max = *std::max_element(Sizes.begin(), Sizes.end());
  const uint64_t Edits = 3; // none, set, add
  struct Case {
    int N;
    uint64_t P, K, Edit;
    int At;
    bool Down;
  };
  const uint64_t At = Max + 1;
  mc::Suite S;
  S.Name = "many";
  S.Bound = "configurations of 1 to " + std::to_string(Max) +
            " options, five patterns of values, three of names, built up "
            "forwards and backwards, then any option or another one set, "
            "added or left";
  S.N = Sizes.size() * 5 * 3 * Edits * At * 2;
  S.Chunk = 50;
  auto Get = [=](uint64_t I) {
    mc::Digits D(I);
    Case X;
    X.At = int(D.take(At));
    X.Edit = D.take(Edits);
    X.P = D.take(5);
    X.K = D.take(3);
    X.Down = D.take(2);
    X.N = Sizes[D.take(Sizes.size())];
    return X;
  };
  S.Describe = [=](uint64_t I) {
    auto X = Get(I);
    return std::to_string(X.N) + " options, values " + std::to_string(X.P) +
           ", names " + std::to_string(X.K) + (X.Down ? " backwards" : "") +
           ", edit " + std::to_string(X.Edit) + " of option " +
           std::to_string(X.At);
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto X = Get(I);
    // Without an edit one case per configuration is enough.
    if (X.At > X.N || (X.Edit == 0 && X.At > 0)) {
      return;
    }
    Configuration Y;
    Map M;
    for (int J = 0; J < X.N; ++J) {
      int K = X.Down ? X.N - 1 - J : J;
      auto N = NameAt(X.K, K);
      auto V = ValueAt(X.P, K);
      if (J % 2) {
        Y.setConfigurationOption(N, V);
      } else {
        Y.addConfigurationOption(std::make_unique<ConfigurationOption>(N, V));
      }
      M[N] = read(V).text();
      C.trans();
    }
    if (X.Edit) {
      auto N = NameAt(X.K, X.At);
      auto V = "new";
      if (X.Edit == 1) {
        Y.setConfigurationOption(N, V);
      } else {
        Y.addConfigurationOption(std::make_unique<ConfigurationOption>(N, V));
      }
      M[N] = V;
      C.trans();
    }
    Strs Others;
    for (int J = 0; J <= X.N; ++J) {
      Others.push_back(NameAt(X.K, J));
    }
    config(C, Y, M, Others, "configuration");
    roundTrip(C, Y, M, Others);
    C.state(show(M));
  };
  return S;
}

void document(mc::Ctx &C, const std::string &T) {
  Json J{T};
  auto Want = J.parse();
  if (J.Skip) {
    return;
  }
  auto X = Configuration::createConfigurationFromString(T);
  C.trans();
  C.eq(X != nullptr, Want.has_value(), "document is read");
  if (X) {
    config(C, *X, *Want, {"a", "b"}, "document");
    roundTrip(C, *X, *Want, {});
    C.state(show(*Want));
  } else {
    C.state("rejected");
  }
}

mc::Suite documents(const std::string &Name, const Strs &Tokens, int Len,
                    const std::string &Before, const std::string &After) {
  mc::Suite S;
  S.Name = Name;
  S.Bound = "all sequences of " + std::to_string(Len) + " out of " +
            std::to_string(Tokens.size()) + " JSON tokens" +
            (Before.empty() ? "" : " within " + Before + "..." + After);
  S.N = mc::ipow(Tokens.size(), Len);
  S.Chunk = 5000;
  auto Get = [=](uint64_t I) {
    std::string R = Before;
    mc::Digits D(I);
    for (int K = 0; K < Len; ++K) {
      R += Tokens[D.take(Tokens.size())];
    }
    return R + After;
  };
  S.Describe = [=](uint64_t I) { return quoted(Get(I)); };
  S.Run = [=](uint64_t I, mc::Ctx &C) { document(C, Get(I)); };
  return S;
}

mc::Suite faults(bool Pairs) {
  const Strs Seeds = {
      "{\"foo\": \"true\", \"baz\" : \"1\"}", "{}",
      "{ \"a\\\"\\\\\\/\\b\\f\\n\\r\\t\": \"\\u0041\\u00e9\\ud83d\\ude00\" }",
      "{\"\xc3\xa9\":\"\xf0\x9f\x98\x80\",\"a\":\"\",\"b\":\"2\"}\n"};
  std::vector<unsigned char> Bytes;
  if (!Pairs) {
    for (int B = 0; B < 256; ++B) {
      Bytes.push_back(B);
    }
  } else {
    for (unsigned char B : {'"', '\\', '{', '}', ':', ',', 'u', '1', '[', '\0', '\x80'}) {
      Bytes.push_back(B);
    }
  }
  auto Faults = [=](const std::string &D) {
    return D.size() * (2 + Bytes.size()) + (D.size() + 1) * Bytes.size();
  };
  auto Apply = [=](std::string D, uint64_t F) -> std::optional<std::string> {
    if (F < D.size()) {
      return D.erase(F, 1);
    }
    F -= D.size();
    if (F < D.size()) {
      return D.substr(0, F);
    }
    F -= D.size();
    if (F < D.size() * Bytes.size()) {
      D[F / Bytes.size()] = char(Bytes[F % Bytes.size()]);
      return D;
    }
    F -= D.size() * Bytes.size();
    if (F / Bytes.size() > D.size()) {
      return std::nullopt;
    }
    return D.insert(F / Bytes.size(), 1, char(Bytes[F % Bytes.size()]));
  };
  mc::Suite S;
  S.Name = Pairs ? "fault-pairs" : "faults";
  S.Bound = std::string(Pairs ? "all pairs of" : "all") +
            " deletions, truncations, substitutions and insertions of single "
            "bytes (" +
            std::to_string(Bytes.size()) + " values) in " +
            std::to_string(Seeds.size()) + " documents";
  std::vector<uint64_t> Start;
  for (auto &D : Seeds) {
    Start.push_back(S.N);
    uint64_t F = Faults(D);
    S.N += Pairs ? F * Faults(D + "x") : F;
  }
  S.Chunk = 5000;
  auto Get = [=](uint64_t I) -> std::optional<std::string> {
    size_t K = Seeds.size() - 1;
    while (Start[K] > I) {
      --K;
    }
    I -= Start[K];
    uint64_t F = Faults(Seeds[K]);
    auto D = Apply(Seeds[K], I % F);
    if (D && Pairs) {
      D = Apply(*D, I / F);
    }
    return D;
  };
  S.Describe = [=](uint64_t I) { return quoted(Get(I).value_or("")); };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto D = Get(I);
    if (D) {
      document(C, *D);
    }
  };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  const Strs Tok = {"{", "}", "\"a\"", "\"b\"", ":", ",", "\"1\"", "1",
                    "null", "[", "]", " "};
  std::vector<mc::Suite> S = {
      texts("numbers", {"0", "1", "7", "9", "-", "+", "x", "X", "b", "B", "o",
                        "a", "F", " ", ".", "e"},
            T ? 5 : 4),
      texts("words", {"true", "TRUE", "True", "tRuE", "false", "FALSE", "False",
                      "t", "nan", "9223372036854775807", "9223372036854775808",
                      "18446744073709551615", "18446744073709551616", "-", "0x",
                      "7fffffffffffffff", "8000000000000000", "\"", "\\",
                      std::string(1, '\0'), "\xc3\xa9", "\xf0\x9f\x98\x80",
                      "\n", "\x7f", "\x1f", "\xe2\x80\xa8"},
            T ? 4 : 3),
      sequences(6, 6, 2),
      sequences(3, 4, T ? 5 : 3),
      sequences(2, 1, T ? 8 : 6)};
  for (int L = 0; L <= (T ? 6 : 5); ++L) {
    S.push_back(documents("documents" + std::to_string(L), Tok, L, "", ""));
  }
  S.push_back(documents("objects", Tok, T ? 5 : 4, "{\"a\":\"x\"", "}"));
  {
    std::vector<int> Sizes;
    for (int N = 1; N <= (T ? 96 : 40); ++N) {
      Sizes.push_back(N);
    }
    S.push_back(many(Sizes));
  }
  S.push_back(faults(false));
  S.push_back(faults(true));
  return mc::runChecks(Argc, Argv, "C17", S,
                       {"names and values are valid UTF-8",
                        "a JSON object that repeats a name has the value "
                        "given last, and surrogates without partner become U+FFFD"});
}
