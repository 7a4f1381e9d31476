// All sequences of edit operations over a fixed alphabet, from several start
// models.
#ifndef MC_SEQ_H
#define MC_SEQ_H

#include "tx.h"

namespace seq {

using namespace tx;

inline const std::vector<History> &starts() {
  static const std::vector<History> S = {
      {},
      {{AddF, "A", "", 0}, {AddF, "B", "A", 1}},
      {{AddF, "A", "", 1},
       {AddF, "B", "", 0},
       {AddR, "root", "", 2},
       {AddF, "C", "", 2}},
      {{AddF, "A", "", 0},
       {AddF, "B", "A", 0},
       {AddF, "C", "B", 2},
       {AddR, "A", "", 0},
       {AddCon, "", "", 0},
       {AddCon, "", "", 3},
       {AddL, "A", "", 0},
       {SetName, "M", "", 0},
       {SetCommit, "c0ffee", "", 0}},
  };
  return S;
}

inline const std::vector<Op> &alphabet() {
  static const std::vector<Op> A = {
      {AddF, "A", "", 1},       {AddF, "B", "root", 0},
      {AddF, "C", "A", 2},      {AddF, "D", "", 3},
      {AddF, "A", "", 4},       {RmF, "A", "", 0},
      {RmF, "A", "", 2},        {RmF, "B", "", 1},
      {RmF, "C", "", 3},        {RmF, "root", "", 2},
      {AddR, "root", "", 0},    {AddR, "A", "", 2},
      {AddR, "B", "", 1},       {RmR, "A", "", 0},
      {RmR, "root", "", 1},     {AddC, "A", "B", 0},
      {AddC, "B", "A", 3},      {AddC, "root", "C", 0},
      {AddC, "B", "C", 1},      {AddC, "A", "C", 4},
      {AddC, "A", "C", 6},      {SetRoot, "top", "", 0},
      {SetRoot, "root", "", 0}, {SetRoot, "A", "", 0},
      {AddL, "A", "", 0},       {AddL, "C", "", 5},
      {RmL, "A", "", 0},        {SetName, "n1", "", 0},
      {SetCommit, "c1", "", 0}, {SetPath, "p1", "", 0},
      {AddCon, "", "", 0},      {AddCon, "", "", 4},
      {AddCon, "", "", 7},      {AddCon, "", "", 9},
  };
  return A;
}

/// Short alphabet for deeper sequences.
inline const std::vector<Op> &core() {
  static const std::vector<Op> A = {
      {AddF, "A", "", 1},    {AddF, "D", "", 0},  {RmF, "A", "", 2},
      {RmF, "B", "", 0},     {AddR, "A", "", 2},  {RmR, "A", "", 0},
      {AddC, "A", "B", 0},   {AddC, "B", "A", 0}, {SetRoot, "top", "", 0},
      {SetName, "n1", "", 0}, {AddCon, "", "", 0},
  };
  return A;
}

struct Space {
  const std::vector<Op> *Alpha;
  unsigned Len;
  uint64_t Modes;

  uint64_t size() const {
    return starts().size() * mc::ipow(Alpha->size(), Len) * Modes;
  }
  void decode(uint64_t I, unsigned &Mode, unsigned &Start, History &H) const {
    mc::Digits D(I);
    Mode = unsigned(D.take(Modes));
    Start = unsigned(D.take(starts().size()));
    H.clear();
    for (unsigned K = 0; K < Len; ++K) {
      H.push_back((*Alpha)[D.take(Alpha->size())]);
    }
  }
  std::string describe(uint64_t I, const std::vector<const char *> &M) const {
    unsigned Mode;
    unsigned St;
    History H;
    decode(I, Mode, St, H);
    return std::string(M[Mode]) + " from " + str(starts()[St]) +
           " transaction " + str(H);
  }
};

inline ref::Model build(vf::FeatureModel &FM, const History &H, mc::Ctx &C) {
  ref::Model M = ref::Model::initial();
  for (auto &O : H) {
    C.check(apply(M, O) == Okay, "start history is broken");
    C.trans();
    C.checkf(bool(exec(FM, O)),
             [&] { return "edit was rejected: " + O.str(); });
  }
  return M;
}

/// Object arguments of O: names whose node identity matters.
inline bool objectsValid(const Op &O, const ref::Model &Base,
                         const ref::Model &Cur, bool Copy) {
  auto Same = [&](const std::string &N) {
    int B = Base.find(N);
    if (B < 0) {
      return false; // no such object to pass
    }
    // A copy transaction translates objects of the source.
    return Copy || Cur.find(N) == B;
  };
  auto SameGroup = [&](const std::string &N) {
    int B = Base.group(N);
    if (B < 0) {
      return false;
    }
    if (Copy) {
      // The corresponding group of the copy, as long as it is unambiguous.
      int G = Cur.group(N);
      return G >= 0 && Cur.N[G].K == Base.N[B].K;
    }
    return Cur.group(N) == B && Cur.N[B].Alive;
  };
  switch (O.C) {
  case AddF:
    return O.B.empty() || Same(O.B);
  case RmF:
  case AddR:
  case RmR:
  case AddL:
  case RmL:
    return !(O.V & 1) || Same(O.A);
  case AddC:
    if ((O.V & 4) && !SameGroup(O.A)) {
      return false;
    }
    if ((O.V & 8) && !SameGroup(O.B)) {
      return false;
    }
    if ((O.V & 5) == 1 && !Same(O.A)) {
      return false;
    }
    if ((O.V & 10) == 2 && !Same(O.B)) {
      return false;
    }
    return true;
  default:
    return true;
  }
}

} // namespace seq

#endif
