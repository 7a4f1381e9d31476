// Running the command line tools as real processes in a scratch directory.
#ifndef MC_PROC_H
#define MC_PROC_H

#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iterator>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace proc {

using Strs = std::vector<std::string>;

//===--------------------------------------------------------------------===//
// Files

inline std::string readFile(const std::string &P) {
  std::ifstream F(P, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(F), {});
}
inline void writeFile(const std::string &P, const std::string &T) {
  std::ofstream(P, std::ios::binary) << T;
}
inline bool exists(const std::string &P) {
  struct stat S;
  return stat(P.c_str(), &S) == 0;
}
inline Strs list(const std::string &Dir) {
  Strs R;
  if (DIR *D = opendir(Dir.c_str())) {
    while (auto *E = readdir(D)) {
      std::string N = E->d_name;
      if (N != "." && N != "..") {
        R.push_back(N);
      }
    }
    closedir(D);
  }
  std::sort(R.begin(), R.end());
  return R;
}

/// Scratch directory; removed (one level of directories) at the end.
struct Scratch {
  std::string Path;
  Scratch() {
    char T[] = "/tmp/mc-tool-XXXXXX";
    Path = mkdtemp(T);
    for (const char *D : {"bin", "tmp", "work"}) {
      mkdir((Path + "/" + D).c_str(), 0755);
    }
  }
  ~Scratch() {
    for (const char *D : {"bin", "tmp", "work"}) {
      for (auto &F : list(Path + "/" + D)) {
        auto P = Path + "/" + D + "/" + F;
        if (unlink(P.c_str())) {
          rmdir(P.c_str());
        }
      }
      rmdir((Path + "/" + D).c_str());
    }
    for (auto &F : list(Path)) {
      unlink((Path + "/" + F).c_str());
    }
    rmdir(Path.c_str());
  }
};

//===--------------------------------------------------------------------===//
// The tool

inline std::string toolPath(const std::string &Tool) {
  char B[4096];
  auto N = readlink("/proc/self/exe", B, sizeof B - 1);
  std::string P(B, N > 0 ? N : 0);
  return P.substr(0, P.rfind('/')) + "/" + Tool;
}

struct Outcome {
  int Status = 0; // wait status
  std::string Out;
  std::string Err;
};

/// Runs a tool that lies next to the check in the scratch directory.
inline Outcome runTool(const Scratch &S, const std::string &Name,
                       const Strs &Args, const std::string &FlagsName,
                       const std::string &Flags) {
  auto Tool = toolPath(Name);
  auto O = S.Path + "/stdout";
  auto E = S.Path + "/stderr";
  pid_t P = fork();
  if (P == 0) {
    int Null = open("/dev/null", O_RDONLY);
    int OFd = open(O.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    int EFd = open(E.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(Null, 0);
    dup2(OFd, 1);
    dup2(EFd, 2);
    if (chdir((S.Path + "/work").c_str())) {
      _exit(126);
    }
    std::vector<char *> A;
    A.push_back(const_cast<char *>(Name.c_str()));
    for (auto &X : Args) {
      A.push_back(const_cast<char *>(X.c_str()));
    }
    A.push_back(nullptr);
    Strs Env = {"PATH=" + S.Path + "/bin", "TMPDIR=" + S.Path + "/tmp",
                "HOME=" + S.Path, "ASAN_OPTIONS=detect_leaks=0:exitcode=99",
                "UBSAN_OPTIONS=exitcode=99"};
    if (!Flags.empty()) {
      Env.push_back(FlagsName + "=" + Flags);
    }
    std::vector<char *> V;
    for (auto &X : Env) {
      V.push_back(const_cast<char *>(X.c_str()));
    }
    V.push_back(nullptr);
    execve(Tool.c_str(), A.data(), V.data());
    _exit(126);
  }
  Outcome R;
  waitpid(P, &R.Status, 0);
  R.Out = readFile(O);
  R.Err = readFile(E);
  return R;
}

} // namespace proc

#endif
