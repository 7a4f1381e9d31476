#include "engine.h"

#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <regex>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

// Sanitizer defaults: findings end the child with a recognisable report.
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:detect_container_overflow=0:abort_on_error=1:"
         "allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "handle_abort=0:symbolize=0:quarantine_size_mb=16";
}

namespace mc {

static double now() {
  timespec T{};
  clock_gettime(CLOCK_MONOTONIC, &T);
  return T.tv_sec + T.tv_nsec * 1e-9;
}

constexpr uint64_t TableSize = 1ULL << 23;
constexpr int MaxSuites = 64;
constexpr size_t MsgSize = 16384;

struct Slot {
  std::atomic<uint64_t> Cur;   // case being run (+1), 0 = none
  std::atomic<double> Start;   // when it was started
  std::atomic<uint64_t> Failed; // 1 + index of the failing case
  char Msg[MsgSize];
};

struct Shared {
  std::atomic<uint64_t> Trans;
  std::atomic<uint64_t> Cases;
  std::atomic<uint64_t> SuiteStates[MaxSuites];
  std::atomic<uint64_t> SuiteTrans[MaxSuites];
  std::atomic<uint64_t> TableUsed;
  Slot Slots[64];
  std::atomic<uint64_t> Table[TableSize];
};

static Shared *Sh = nullptr;
static bool Counting = true;

bool thorough() {
  const char *T = getenv("VERIF_TIER");
  return T && std::string(T) == "thorough";
}

void Ctx::state(const std::string &S) {
  if (!Counting) {
    return;
  }
  uint64_t H = 1469598103934665603ULL ^ (uint64_t(Suite) * 0x9E3779B97F4A7C15);
  for (unsigned char C : S) {
    H = (H ^ C) * 1099511628211ULL;
  }
  H ^= H >> 29;
  H *= 0xBF58476D1CE4E5B9ULL;
  H ^= H >> 32;
  if (!H) {
    H = 1;
  }
  if (Sh->TableUsed.load() > TableSize - TableSize / 8) {
    return; // table full: the count becomes a lower bound
  }
  for (uint64_t I = H & (TableSize - 1);; I = (I + 1) & (TableSize - 1)) {
    uint64_t E = Sh->Table[I].load();
    if (E == H) {
      return;
    }
    if (E == 0) {
      if (Sh->Table[I].compare_exchange_strong(E, H)) {
        Sh->TableUsed++;
        Sh->SuiteStates[Suite]++;
        return;
      }
      if (E == H) {
        return;
      }
    }
  }
}

void Ctx::trans(uint64_t N) {
  if (Counting) {
    Sh->Trans += N;
    Sh->SuiteTrans[Suite] += N;
  }
}

/// Runs one case; returns an empty string if the property held.
static std::string runCase(const std::vector<Suite> &Suites, int S, uint64_t I,
                           std::string *Note = nullptr) {
  Ctx C;
  C.Suite = S;
  std::string R;
  try {
    Suites[S].Run(I, C);
  } catch (const Failure &F) {
    R = F.what();
    if (R.empty()) {
      R = "property violated";
    }
  } catch (const std::exception &E) {
    R = std::string("uncaught exception: ") + E.what();
  } catch (...) {
    // z3::exception does not derive from a type with a portable what().
    R = "uncaught exception of unknown type";
  }
  if (Note) {
    *Note = C.Note;
  }
  return R;
}

struct Outcome {
  enum K { Pass, Fail, Crash, Hang } Kind = Pass;
  uint64_t At = 0; // failing case
  std::string Msg;
};

static void childSetup(const std::string &ErrFile) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  rlimit R{0, 0};
  setrlimit(RLIMIT_CORE, &R);
  int Fd = open(ErrFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (Fd >= 0) {
    dup2(Fd, 2);
    dup2(Fd, 1);
    close(Fd);
  }
}

static std::string lastLines(const std::string &File) {
  std::ifstream In(File);
  if (!In) {
    return "";
  }
  In.seekg(0, std::ios::end);
  auto Size = static_cast<long>(In.tellg());
  In.seekg(std::max(0L, Size - 20000));
  std::vector<std::string> L;
  for (std::string S; std::getline(In, S);) {
    L.push_back(S);
  }
  std::string R;
  // Prefer assertion and sanitizer headlines.
  for (auto &S : L) {
    if (S.find("Assertion") != std::string::npos ||
        S.find("ERROR: AddressSanitizer") != std::string::npos ||
        S.find("runtime error:") != std::string::npos ||
        S.find("terminate called") != std::string::npos ||
        S.find("what():") != std::string::npos ||
        S.find("glibcxx") != std::string::npos) {
      R += S.substr(0, 400) + "\n";
    }
  }
  return R;
}

static std::string ScratchDir;

/// The slot's output file is truncated between cases so it stays small.
static void childLoop(const std::vector<Suite> &Suites, int S, uint64_t A,
                      uint64_t B, Slot &Sl, bool StopAfterFail) {
  for (uint64_t I = A; I < B; ++I) {
    Sl.Start = now();
    Sl.Cur = I + 1;
    std::string Note;
    std::string R = runCase(Suites, S, I, &Note);
    if (Counting) {
      Sh->Cases++;
    }
    if (!R.empty()) {
      std::string M = R + (Note.empty() ? "" : "\n" + Note);
      strncpy(Sl.Msg, M.c_str(), MsgSize - 1);
      Sl.Msg[MsgSize - 1] = 0;
      Sl.Failed = I + 1;
      if (StopAfterFail) {
        _exit(3);
      }
    }
    if (lseek(2, 0, SEEK_CUR) > (1 << 16)) {
      if (ftruncate(2, 0) == 0) {
        lseek(2, 0, SEEK_SET);
      }
    }
  }
  Sl.Cur = 0;
  _exit(0);
}

/// Runs cases [A,B) alone in a fresh child (used for confirmation).
static Outcome runAlone(const std::vector<Suite> &Suites, int S, uint64_t A,
                        uint64_t B, double Limit) {
  Slot &Sl = Sh->Slots[63];
  Sl.Cur = 0;
  Sl.Failed = 0;
  Sl.Start = now();
  std::string Err = ScratchDir + "/alone";
  fflush(stdout);
  pid_t P = fork();
  if (P == 0) {
    Counting = false;
    childSetup(Err);
    childLoop(Suites, S, A, B, Sl, true);
  }
  Outcome O;
  while (true) {
    int St = 0;
    pid_t W = waitpid(P, &St, WNOHANG);
    if (W == P) {
      if (WIFEXITED(St) && WEXITSTATUS(St) == 0) {
        return O;
      }
      if (WIFEXITED(St) && WEXITSTATUS(St) == 3 && Sl.Failed) {
        O.Kind = Outcome::Fail;
        O.At = Sl.Failed - 1;
        O.Msg = Sl.Msg;
        return O;
      }
      O.Kind = Outcome::Crash;
      O.At = Sl.Cur ? Sl.Cur - 1 : A;
      O.Msg = WIFSIGNALED(St)
                  ? "crash: " + std::string(strsignal(WTERMSIG(St)))
                  : "unexpected exit with status " +
                        std::to_string(WEXITSTATUS(St));
      O.Msg += "\n" + lastLines(Err);
      return O;
    }
    if (now() - Sl.Start > Limit) {
      kill(P, SIGKILL);
      waitpid(P, &St, 0);
      O.Kind = Outcome::Hang;
      O.At = Sl.Cur ? Sl.Cur - 1 : A;
      O.Msg = "does not terminate (stopped after " +
              std::to_string(int(Limit)) + " s)";
      return O;
    }
    usleep(2000);
  }
}

struct Known {
  std::string Property, Suite, What;
  std::regex Case, Msg;
  uint64_t Hits = 0;
};

static std::vector<Known> loadKnown(const std::string &Dir,
                                    const std::string &Property) {
  std::vector<Known> R;
  auto Buf = llvm::MemoryBuffer::getFile(Dir + "/known_findings.json");
  if (!Buf) {
    return R;
  }
  auto J = llvm::json::parse((*Buf)->getBuffer());
  if (!J) {
    llvm::consumeError(J.takeError());
    return R;
  }
  if (auto *O = J->getAsObject()) {
    if (auto *A = O->getArray("known")) {
      for (auto &E : *A) {
        auto *K = E.getAsObject();
        if (!K || K->getString("property").getValueOr("") != Property) {
          continue;
        }
        Known N;
        N.Property = Property;
        N.Suite = K->getString("suite").getValueOr("").str();
        N.What = K->getString("what").getValueOr("").str();
        N.Case = std::regex(K->getString("case").getValueOr("").str());
        N.Msg = std::regex(K->getString("message").getValueOr("").str());
        R.push_back(N);
      }
    }
  }
  return R;
}

static std::string verifDir() {
  const char *D = getenv("VERIF_DIR");
  return D ? D : "/verif";
}

int runChecks(int Argc, char **Argv, const std::string &Property,
              const std::vector<Suite> &Suites,
              const std::vector<std::string> &Assumptions) {
  double T0 = now();
  // Fixed address layout: pointer-ordered containers behave identically on
  // every run.
  if (!getenv("MC_NOASLR_DONE")) {
    setenv("MC_NOASLR_DONE", "1", 1);
    int P = personality(0xffffffff);
    if (P != -1 && !(P & ADDR_NO_RANDOMIZE) &&
        personality(P | ADDR_NO_RANDOMIZE) != -1) {
      execv("/proc/self/exe", Argv);
    }
  }
  std::string Dir = verifDir();
  std::string Tier = thorough() ? "thorough" : "quick";
  long Seed = getenv("VERIF_SEED") ? atol(getenv("VERIF_SEED")) : 1;
  double Budget = getenv("MC_BUDGET") ? atof(getenv("MC_BUDGET"))
                                      : (thorough() ? 780 : 420);
  Sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared),
                                  PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                                  -1, 0));
  if (Sh == MAP_FAILED) {
    perror("mmap");
    return 2;
  }
  char Tmpl[] = "/tmp/mcXXXXXX";
  ScratchDir = mkdtemp(Tmpl);
  if (Suites.size() > MaxSuites) {
    fprintf(stderr, "too many suites\n");
    return 2;
  }

  // Replay mode: <binary> --replay suite:first[-last]
  if (Argc >= 3 && std::string(Argv[1]) == "--replay") {
    std::string A = Argv[2];
    auto Colon = A.find(':');
    std::string SN = A.substr(0, Colon);
    std::string Range = A.substr(Colon + 1);
    uint64_t First = std::stoull(Range);
    uint64_t Last = First;
    if (auto D = Range.find('-'); D != std::string::npos) {
      Last = std::stoull(Range.substr(D + 1));
    }
    for (size_t S = 0; S < Suites.size(); ++S) {
      if (Suites[S].Name == SN) {
        Counting = false;
        int RC = 0;
        for (uint64_t I = First; I <= Last; ++I) {
          std::cout << SN << ":" << I << " " << Suites[S].Describe(I)
                    << std::endl;
          std::string Note;
          std::string R = runCase(Suites, S, I, &Note);
          std::cout << (R.empty() ? "  holds" : "  VIOLATED: " + R) << "\n"
                    << Note << std::endl;
          RC |= !R.empty();
        }
        return RC;
      }
    }
    fprintf(stderr, "unknown suite\n");
    return 2;
  }
  std::string Only;
  if (Argc >= 3 && std::string(Argv[1]) == "--suite") {
    Only = Argv[2];
  }

  auto KnownList = loadKnown(Dir, Property);
  unsigned Workers = 8;
  if (const char *W = getenv("MC_WORKERS")) {
    Workers = atoi(W);
  }

  struct Viol {
    int S;
    uint64_t I;
    uint64_t From;
    std::string Msg;
  };
  std::vector<Viol> Viols;
  std::vector<Viol> Flaky;
  std::set<std::string> Signatures;
  uint64_t ViolCount = 0;
  uint64_t KnownCount = 0;
  bool Capped = false;
  std::map<std::string, uint64_t> Done;

  llvm::json::Array SuiteJ;
  llvm::json::Array Samples;
  uint64_t Confirmations = 0;

  for (size_t S = 0; S < Suites.size(); ++S) {
    const Suite &Su = Suites[S];
    if (!Only.empty() && Su.Name != Only) {
      continue;
    }
    double TS = now();
    uint64_t Cases0 = Sh->Cases;
    struct Chunk {
      uint64_t A, B;
    };
    uint64_t NextCase = 0;
    std::vector<Chunk> Requeue;
    struct W {
      pid_t P = 0;
      uint64_t A = 0, B = 0;
    };
    std::vector<W> Ws(Workers);
    uint64_t SuiteViol = 0;
    uint64_t Hangs = 0;
    uint64_t Chunk_ = std::max<uint64_t>(
        1, std::min<uint64_t>(Su.Chunk, Su.N / (Workers * 4) + 1));
    bool Stop = false;

    auto Report = [&](uint64_t From, uint64_t At, const std::string &Msg0,
                      bool IsHang) {
      // Confirm: alone first, then with the history of its chunk.
      Confirmations++;
      uint64_t UseFrom = At;
      double Limit = IsHang ? std::max(60.0, Su.Timeout * 3) : Su.Timeout * 3;
      Outcome O = runAlone(Suites, S, At, At + 1, Limit);
      if (O.Kind == Outcome::Pass && !IsHang) {
        O = runAlone(Suites, S, From, At + 1, Limit);
        UseFrom = From;
      }
      if (O.Kind == Outcome::Pass) {
        Flaky.push_back({int(S), At, From, Msg0});
        return;
      }
      std::string Desc = Su.Describe(O.At);
      for (auto &K : KnownList) {
        if ((K.Suite.empty() || K.Suite == Su.Name) &&
            std::regex_search(Desc, K.Case) &&
            std::regex_search(O.Msg, K.Msg)) {
          K.Hits++;
          KnownCount++;
          return;
        }
      }
      ViolCount++;
      SuiteViol++;
      if (Viols.size() < 200) {
        Viols.push_back({int(S), O.At, UseFrom, O.Msg});
      }
    };

    while (true) {
      bool Active = false;
      for (size_t K = 0; K < Ws.size(); ++K) {
        W &Wk = Ws[K];
        Slot &Sl = Sh->Slots[K];
        std::string Err = ScratchDir + "/w" + std::to_string(K);
        if (Wk.P) {
          int St = 0;
          pid_t R = waitpid(Wk.P, &St, WNOHANG);
          if (R == 0) {
            Active = true;
            if (Sl.Cur && now() - Sl.Start > Su.Timeout) {
              kill(Wk.P, SIGKILL);
              waitpid(Wk.P, &St, 0);
              uint64_t At = Sl.Cur - 1;
              uint64_t B = Wk.B;
              uint64_t A = Wk.A;
              Wk.P = 0;
              if (++Hangs > 3) {
                Stop = true;
              }
              Report(A, At, "timeout", true);
              if (At + 1 < B) {
                Requeue.push_back({At + 1, B});
              }
            }
            continue;
          }
          uint64_t A = Wk.A, B = Wk.B;
          Wk.P = 0;
          if (WIFEXITED(St) && WEXITSTATUS(St) == 0) {
            // finished its chunk
          } else if (WIFEXITED(St) && WEXITSTATUS(St) == 3 && Sl.Failed) {
            uint64_t At = Sl.Failed - 1;
            Report(A, At, Sl.Msg, false);
            if (At + 1 < B) {
              Requeue.push_back({At + 1, B});
            }
          } else {
            uint64_t At = Sl.Cur ? Sl.Cur - 1 : A;
            Report(A, At, "crash\n" + lastLines(Err), false);
            if (At + 1 < B) {
              Requeue.push_back({At + 1, B});
            }
          }
        }
        if (SuiteViol >= 25 || now() - T0 > Budget) {
          if (NextCase < Su.N || !Requeue.empty()) {
            if (now() - T0 > Budget) {
              Capped = true;
            }
            Stop = true;
          }
        }
        if (Stop) {
          continue;
        }
        uint64_t A, B;
        if (!Requeue.empty()) {
          A = Requeue.back().A;
          B = Requeue.back().B;
          Requeue.pop_back();
        } else if (NextCase < Su.N) {
          A = NextCase;
          B = std::min(Su.N, A + Chunk_);
          NextCase = B;
        } else {
          continue;
        }
        Sl.Cur = 0;
        Sl.Failed = 0;
        Sl.Start = now();
        Wk.A = A;
        Wk.B = B;
        fflush(stdout);
        pid_t P = fork();
        if (P == 0) {
          childSetup(Err);
          childLoop(Suites, S, A, B, Sl, true);
        }
        if (P < 0) {
          perror("fork");
          Requeue.push_back({A, B});
          Wk.P = 0;
          usleep(10000);
          continue;
        }
        Wk.P = P;
        Active = true;
      }
      if (!Active && (Stop || (Requeue.empty() && NextCase >= Su.N))) {
        break;
      }
      usleep(300);
    }
    uint64_t Ran = Sh->Cases - Cases0;
    double Dt = now() - TS;
    printf("[%s/%s] %s: cases=%llu/%llu states=%llu transitions=%llu "
           "violations=%llu %.1fs\n",
           Property.c_str(), Su.Name.c_str(), Su.Bound.c_str(),
           (unsigned long long)Ran, (unsigned long long)Su.N,
           (unsigned long long)Sh->SuiteStates[S].load(),
           (unsigned long long)Sh->SuiteTrans[S].load(),
           (unsigned long long)SuiteViol, Dt);
    fflush(stdout);
    SuiteJ.push_back(llvm::json::Object{
        {"suite", Su.Name},
        {"bound", Su.Bound},
        {"executions", int64_t(Ran)},
        {"space", int64_t(Su.N)},
        {"distinct_states", int64_t(Sh->SuiteStates[S].load())},
        {"transitions", int64_t(Sh->SuiteTrans[S].load())},
        {"wall_s", Dt}});
    if (Su.N) {
      std::string D = Su.Describe(Su.N / 2);
      if (D.size() > 1500) {
        D.resize(1500);
      }
      Samples.push_back(Su.Name + ":" + std::to_string(Su.N / 2) + " " + D);
    }
  }

  // Flaky reports (never reproduced): property not shown to be violated.
  for (auto &F : Flaky) {
    printf("note: %s:%llu failed once and did not reproduce (%s)\n",
           Suites[F.S].Name.c_str(), (unsigned long long)F.I,
           F.Msg.substr(0, 200).c_str());
  }
  for (auto &K : KnownList) {
    if (K.Hits) {
      printf("KNOWN-FINDING: property=%s %s (%llu executions)\n",
             Property.c_str(), K.What.c_str(), (unsigned long long)K.Hits);
    }
  }
  std::string RDir = Dir + "/replays";
  mkdir(RDir.c_str(), 0755);
  RDir += "/" + Property;
  mkdir(RDir.c_str(), 0755);
  size_t Printed = 0;
  std::set<std::string> Sigs;
  for (auto &V : Viols) {
    std::string Sig = Suites[V.S].Name + V.Msg.substr(0, V.Msg.find('\n'));
    if (!Sigs.insert(Sig).second || Printed >= 5) {
      continue;
    }
    Printed++;
    std::string P = RDir + "/" + Suites[V.S].Name + "-" +
                    std::to_string(V.I) + ".txt";
    std::ofstream Out(P);
    Out << "property: " << Property << "\nsuite: " << Suites[V.S].Name
        << "\ncase: " << V.I << "\nexecution: " << Suites[V.S].Describe(V.I)
        << "\nresult:\n"
        << V.Msg << "\nreplay: " << Dir << "/check.sh " << Property
        << " --replay " << Suites[V.S].Name << ":" << V.From << "-" << V.I
        << "\n";
    Out.close();
    printf("VIOLATION property=%s replay=%s\n", Property.c_str(), P.c_str());
    printf("  %s\n  %s\n", Suites[V.S].Describe(V.I).substr(0, 600).c_str(),
           V.Msg.substr(0, 900).c_str());
  }

  bool Exhaustive = !Capped && Only.empty();
  llvm::json::Object Cov{
      {"states", int64_t(Sh->TableUsed.load())},
      {"transitions", int64_t(Sh->Trans.load())},
      {"traces_validated_against_impl", int64_t(Sh->Cases.load())},
      {"samples", std::move(Samples)},
      {"suites", std::move(SuiteJ)},
      {"exhaustive", Exhaustive},
      {"known_findings_hit", int64_t(KnownCount)},
      {"rule",
       "every index of every suite is executed on the code built from /repo "
       "and compared with the reference model; states are distinct canonical "
       "observations of the implementation"}};
  if (Capped) {
    Cov["capped"] = "time budget reached; suites with executions < space are "
                    "covered up to that index only";
  }
  llvm::json::Array As;
  for (auto &A : Assumptions) {
    As.push_back(A);
  }
  llvm::json::Object Ev{{"property", Property},
                        {"tier", Tier},
                        {"seed", int64_t(Seed)},
                        {"level", "model_checking"},
                        {"coverage", std::move(Cov)},
                        {"assumptions", std::move(As)},
                        {"wall_s", now() - T0},
                        {"violations", int64_t(ViolCount)}};
  mkdir((Dir + "/evidence").c_str(), 0755);
  {
    std::error_code EC;
    llvm::raw_fd_ostream Out(Dir + "/evidence/" + Property + ".json", EC);
    if (!EC) {
      Out << llvm::formatv("{0:2}", llvm::json::Value(std::move(Ev))) << "\n";
    }
  }
  for (unsigned K = 0; K < Workers; ++K) {
    unlink((ScratchDir + "/w" + std::to_string(K)).c_str());
  }
  unlink((ScratchDir + "/alone").c_str());
  rmdir(ScratchDir.c_str());
  printf("[%s] executions=%llu states=%llu transitions=%llu violations=%llu "
         "known=%llu confirmations=%llu wall=%.1fs%s\n",
         Property.c_str(), (unsigned long long)Sh->Cases.load(),
         (unsigned long long)Sh->TableUsed.load(),
         (unsigned long long)Sh->Trans.load(), (unsigned long long)ViolCount,
         (unsigned long long)KnownCount, (unsigned long long)Confirmations,
         now() - T0, Capped ? " (capped)" : "");
  return ViolCount ? 1 : 0;
}

} // namespace mc
