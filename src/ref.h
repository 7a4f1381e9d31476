// Reference model of a feature model and of the edit operations: plain nodes,
// plain lists, one obvious definition per operation.
#ifndef MC_REF_H
#define MC_REF_H

#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace ref {

enum Kind { Bin, Num, Root, Unknown, Alt, Or };

struct Node {
  Kind K = Bin;
  std::string Name;
  bool Opt = false;
  std::string Values; // rendered like obs::values
  std::string Out;
  std::string Step;
  std::vector<std::string> Locs;
  int Parent = -1;
  std::vector<int> Kids;
  bool Alive = true;
  bool isGroup() const { return K == Alt || K == Or; }
};

struct Con {
  std::string Text; // rendered like obs::constraints
  std::vector<std::string> Mentions;
};

struct Model {
  std::string Name = "FeatureModel";
  std::string Path;
  std::string Commit;
  std::vector<Node> N;
  int RootId = -1;
  std::vector<Con> Cons;

  static Model initial(const std::string &RootName = "root") {
    Model M;
    Node R;
    R.K = Root;
    R.Name = RootName;
    M.N.push_back(R);
    M.RootId = 0;
    return M;
  }

  int find(const std::string &F) const {
    for (size_t I = 0; I < N.size(); ++I) {
      if (N[I].Alive && !N[I].isGroup() && N[I].Name == F) {
        return int(I);
      }
    }
    return -1;
  }
  std::vector<int> groups(int F) const {
    std::vector<int> R;
    for (int K : N[F].Kids) {
      if (N[K].isGroup()) {
        R.push_back(K);
      }
    }
    return R;
  }
  /// The only group directly below feature F, or -1.
  int group(const std::string &F) const {
    int I = find(F);
    if (I < 0) {
      return -1;
    }
    auto G = groups(I);
    return G.size() == 1 ? G[0] : -1;
  }
  int parentFeature(int I) const {
    for (int P = N[I].Parent; P >= 0; P = N[P].Parent) {
      if (!N[P].isGroup()) {
        return P;
      }
    }
    return -1;
  }
  bool inSubtree(int I, int Top) const {
    for (; I >= 0; I = N[I].Parent) {
      if (I == Top) {
        return true;
      }
    }
    return false;
  }
  void unlink(int I) {
    if (N[I].Parent >= 0) {
      auto &K = N[N[I].Parent].Kids;
      K.erase(std::remove(K.begin(), K.end(), I), K.end());
    }
    N[I].Parent = -1;
  }
  void link(int P, int C) {
    unlink(C);
    N[P].Kids.push_back(C);
    N[C].Parent = P;
  }
  int add(Node X, int P) {
    N.push_back(std::move(X));
    int I = int(N.size()) - 1;
    if (P >= 0) {
      link(P, I);
    }
    return I;
  }
  void dropConstraints(const std::string &F) {
    Cons.erase(std::remove_if(Cons.begin(), Cons.end(),
                              [&](const Con &C) {
                                return std::find(C.Mentions.begin(),
                                                 C.Mentions.end(),
                                                 F) != C.Mentions.end();
                              }),
               Cons.end());
  }
  void kill(int I) {
    auto Kids = N[I].Kids;
    for (int K : Kids) {
      kill(K);
    }
    unlink(I);
    N[I].Alive = false;
    if (!N[I].isGroup()) {
      dropConstraints(N[I].Name);
    }
  }
  bool hasFeatureBelow(int I) const {
    for (int K : N[I].Kids) {
      if (!N[K].isGroup() || hasFeatureBelow(K)) {
        return true;
      }
    }
    return false;
  }
  std::vector<std::string> names() const {
    std::vector<std::string> R;
    for (auto &X : N) {
      if (X.Alive && !X.isGroup()) {
        R.push_back(X.Name);
      }
    }
    return R;
  }
  unsigned features() const { return unsigned(names().size()); }

  std::string attrs(int I) const {
    const Node &X = N[I];
    if (X.K == Alt) {
      return "#ALT";
    }
    if (X.K == Or) {
      return "#OR";
    }
    std::string R = X.Name;
    R += X.K == Bin ? ":bin" : X.K == Num ? ":num" : X.K == Root ? ":root"
                                                                 : ":unknown";
    if (X.Opt) {
      R += "?";
    }
    if (X.K == Num) {
      R += X.Values;
      if (!X.Step.empty()) {
        R += "step<" + X.Step + ">";
      }
    }
    if (!X.Out.empty()) {
      R += "'" + X.Out + "'";
    }
    if (!X.Locs.empty()) {
      R += "[";
      for (size_t J = 0; J < X.Locs.size(); ++J) {
        R += (J ? "," : "") + X.Locs[J];
      }
      R += "]";
    }
    return R;
  }
  std::string tree(int I) const {
    std::string R = attrs(I);
    std::vector<std::string> C;
    for (int K : N[I].Kids) {
      C.push_back(tree(K));
    }
    std::sort(C.begin(), C.end());
    if (!C.empty()) {
      R += "(";
      for (size_t J = 0; J < C.size(); ++J) {
        R += (J ? "," : "") + C[J];
      }
      R += ")";
    }
    return R;
  }
  std::string str() const {
    std::string R = "name=" + Name + " path=" + Path + " commit=" + Commit +
                    " tree=" + tree(RootId);
    std::vector<std::string> C;
    for (auto &X : Cons) {
      C.push_back(X.Text);
    }
    std::sort(C.begin(), C.end());
    if (!C.empty()) {
      R += " constraints={";
      for (size_t J = 0; J < C.size(); ++J) {
        R += (J ? "; " : "") + C[J];
      }
      R += "}";
    }
    return R;
  }
};

} // namespace ref

#endif
