// C27: the Python module mirrors the library and keeps what it hands out alive.
// NEEDS: python
#include "obs.h"
#include "engine.h"

#include <pybind11/embed.h>
#include <pybind11/stl.h>

#include "vara/Feature/ConstraintBuilder.h"
#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/FeatureModelTransaction.h"
#include "vara/Feature/FeatureModelWriter.h"

#include <fstream>
#include <iostream>
#include <unistd.h>

extern "C" PyObject *PyInit_vara_feature();

namespace {

namespace py = pybind11;
namespace vf = vara::feature;
using Strs = std::vector<std::string>;
using FSR = vf::FeatureSourceRange;
using FSL = FSR::FeatureSourceLocation;

//===--------------------------------------------------------------------===//
// Python

// What a Python program can see of a model, in one string per aspect.
const char *Prelude = R"PY(
import gc
import vara_feature.feature as F
import vara_feature.feature_model as M
import vara_feature.constraint as C
import vara_feature.feature_model_builder as B
import vara_feature.fm_writer as W

def s(x):
    return x.str() if hasattr(x, 'str') else str(x)

def pos(p):
    return '-' if p is None else '%d:%d/%s' % (p.line_number, p.column_offset, p)

def loc(l):
    return '|'.join([l.path, pos(l.start), pos(l.end), l.category.name, str(l)])

def name(n):
    return s(n.name) if isinstance(n, F.Feature) else '#'

def feat(f):
    return ' '.join([type(f).__name__, s(f.name), repr(s(f.output_string)),
                     str(f.is_root()), str(f.is_optional()),
                     '[' + ','.join(loc(l) for l in f.locations) + ']',
                     str(f.hasLocations()), str(f),
                     f.to_string() if hasattr(f, 'to_string') else '?'])

def node(n):
    p = n.parent()
    l = [node(c) for c in n.children()]
    assert [name(c) for c in n] == [name(c) for c in n.children()]
    return ('%s<%s %s>(' % (type(n).__name__, name(n),
            '-' if p is None else type(p).__name__ + '/' + name(p)) +
            ','.join(sorted(l)) + ')')

def edges(m):
    l = list(m)
    for f in l:
        l += [c for c in f.children() if not isinstance(c, F.Feature)]
    return ''.join('%d%d' % (a.is_child(b), a.is_parent(b)) for a in l for b in l)

def mixed(c):
    return '%s %s %s' % (c.req.name, c.exprKind.name, c)

def obs(m):
    if m is None:
        return ['None']
    fs = list(m)
    return [s(m.name), m.path, m.commit, '%d %d' % (m.size(), len(m)),
            ';'.join(feat(f) for f in fs),
            node(m.get_root()) if m.get_root() else 'None',
            edges(m),
            ' '.join('%s=%s' % (x, 'None' if m.get_feature(x) is None else
                     feat(m.get_feature(x))) for x in
                     ['root', 'a', 'b', 'c', 'n', 'A', '']),
            ''.join(str(int(x < y)) + str(int(x == y)) for x in fs for y in fs),
            ';'.join(sorted(str(c) + ' ' + str(c.constraint) for c in m.booleanConstraints)),
            ';'.join(sorted(str(c) + ' ' + str(c.constraint) for c in m.nonBooleanConstraints)),
            ';'.join(sorted(mixed(c) + ' ' + str(c.constraint) for c in m.mixedConstraints)),
            W.FeatureModelXmlWriter(m).get_feature_model_as_string()]

def attempt(f):
    try:
        return f()
    except (TypeError, ValueError, IndexError, RuntimeError) as e:
        return 'error'

def churn():
    # give freed memory back to others
    return [F.BinaryFeature('x' * n, True) for n in range(1, 40)]
)PY";

py::object &globals() {
  static py::object *G = nullptr;
  if (!G) {
    PyImport_AppendInittab("vara_feature", PyInit_vara_feature);
    py::initialize_interpreter(false);
    auto *Dict = new py::dict(py::module_::import("__main__").attr("__dict__"));
    // submodules are no importable files; give them their names
    py::exec("import sys, vara_feature as V\n"
             "for n in ['feature', 'feature_model', 'constraint', "
             "'feature_model_builder', 'fm_writer', 'llvm_util']:\n"
             "    sys.modules['vara_feature.' + n] = getattr(V, n)\n",
             *Dict);
    py::exec(Prelude, *Dict);
    G = new py::object(*Dict);
  }
  return *G;
}

/// Runs a program in a scope of its own; it leaves its results in the list
/// `out`.
Strs runPython(const std::string &Code, mc::Ctx &C) {
  auto &G = globals();
  auto Scope = py::reinterpret_steal<py::dict>(PyDict_Copy(G.ptr()));
  Scope["out"] = py::list();
  try {
    py::exec(Code, Scope);
  } catch (py::error_already_set &E) {
    std::string What = E.what();
    C.fail("the program raised an exception:\n" + What + "\n" + Code);
  }
  return Scope["out"].cast<Strs>();
}

std::string quote(const std::string &T) {
  std::string R = "'";
  for (char X : T) {
    R += X == '\n' ? std::string("\\n")
         : X == '\'' || X == '\\' ? std::string("\\") + X
                                  : std::string(1, X);
  }
  return R + "'";
}
std::string pyBool(bool B) { return B ? "True" : "False"; }

//===--------------------------------------------------------------------===//
// What the library says

std::string pos(std::optional<FSL> P) {
  return P ? std::to_string(P->getLineNumber()) + ":" +
                 std::to_string(P->getColumnOffset()) + "/" + P->toString()
           : "-";
}
std::string loc(FSR L) {
  std::optional<FSL> S;
  std::optional<FSL> E;
  if (L.hasStart()) {
    S = *L.getStart();
  }
  if (L.hasEnd()) {
    E = *L.getEnd();
  }
  return L.getPath().string() + "|" + pos(S) + "|" + pos(E) + "|" +
         (L.getCategory() == FSR::Category::necessary ? "necessary"
                                                      : "inessential") +
         "|" + L.toString();
}
std::string typeName(const vf::FeatureTreeNode *N) {
  auto *F = llvm::dyn_cast<vf::Feature>(N);
  if (!F) {
    return "FeatureTreeNode";
  }
  return llvm::isa<vf::RootFeature>(F)      ? "RootFeature"
         : llvm::isa<vf::BinaryFeature>(F)  ? "BinaryFeature"
         : llvm::isa<vf::NumericFeature>(F) ? "NumericFeature"
                                            : "Feature";
}
std::string name(const vf::FeatureTreeNode *N) {
  auto *F = llvm::dyn_cast<vf::Feature>(N);
  return F ? F->getName().str() : "#";
}
std::string repr(const std::string &T) {
  return T.find('\'') != std::string::npos ? "\"" + T + "\"" : "'" + T + "'";
}
std::string feat(vf::Feature *F) {
  Strs L;
  for (auto &X : F->getLocations()) {
    L.push_back(loc(X));
  }
  return typeName(F) + " " + F->getName().str() + " " +
         repr(F->getOutputString().str()) + " " +
         pyBool(llvm::isa<vf::RootFeature>(F)) + " " + pyBool(F->isOptional()) +
         " [" + obs::join(L) + "] " + pyBool(F->hasLocations()) + " " +
         F->toString() + " " + F->toString();
}
std::string node(vf::FeatureTreeNode *N) {
  auto *P = N->getParent();
  Strs L;
  for (auto *X : *N) {
    L.push_back(node(X));
  }
  std::sort(L.begin(), L.end());
  return typeName(N) + "<" + name(N) + " " +
         (P ? typeName(P) + "/" + name(P) : "-") + ">(" + obs::join(L) + ")";
}
template <typename T> std::string constraints(T &&List, bool Mixed = false) {
  Strs L;
  for (auto &&C : List) {
    L.push_back(C->toString() + " " + C->constraint()->toString());
  }
  std::sort(L.begin(), L.end());
  return obs::join(L, ";");
}
Strs observe(vf::FeatureModel *FM) {
  if (!FM) {
    return {"None"};
  }
  const auto &M = *FM;
  Strs R = {M.getName().str(), M.getPath().string(), M.getCommit().str(),
            std::to_string(M.size()) + " " + std::to_string(M.size())};
  std::vector<vf::Feature *> Fs(M.begin(), M.end());
  Strs L;
  for (auto *F : Fs) {
    L.push_back(feat(F));
  }
  R.push_back(obs::join(L, ";"));
  R.push_back(FM->getRoot() ? node(FM->getRoot()) : "None");
  {
    std::vector<vf::FeatureTreeNode *> Ns(Fs.begin(), Fs.end());
    for (size_t I = 0; I < Ns.size(); ++I) {
      // as the program does: also those that are appended meanwhile
      if (llvm::isa<vf::Feature>(Ns[I]) || true) {
        for (auto *X : *Ns[I]) {
          if (!llvm::isa<vf::Feature>(X)) {
            Ns.push_back(X);
          }
        }
      }
    }
    std::string E;
    for (auto *A : Ns) {
      for (auto *B : Ns) {
        E += A->hasEdgeTo(*B) ? "1" : "0";
        E += A->hasEdgeFrom(*B) ? "1" : "0";
      }
    }
    R.push_back(E);
  }
  L.clear();
  for (std::string N : {"root", "a", "b", "c", "n", "A", ""}) {
    auto *F = FM->getFeature(N);
    L.push_back(N + "=" + (F ? feat(F) : "None"));
  }
  R.push_back(obs::join(L, " "));
  {
    std::string E;
    for (auto *A : Fs) {
      for (auto *B : Fs) {
        E += *A < *B ? "1" : "0";
        E += *A == *B ? "1" : "0";
      }
    }
    R.push_back(E);
  }
  R.push_back(constraints(M.booleanConstraints()));
  R.push_back(constraints(M.nonBooleanConstraints()));
  L.clear();
  for (auto &&C : M.mixedConstraints()) {
    L.push_back(
        std::string(C->req() == vf::FeatureModel::MixedConstraint::Req::ALL
                        ? "ALL "
                        : "NONE ") +
        (C->exprKind() == vf::FeatureModel::MixedConstraint::ExprKind::POS
             ? "POS "
             : "NEG ") +
        C->toString() + " " + C->constraint()->toString());
  }
  std::sort(L.begin(), L.end());
  R.push_back(obs::join(L, ";"));
  R.push_back(vf::FeatureModelXmlWriter(*FM).writeFeatureModel().value_or(""));
  return R;
}

void compare(mc::Ctx &C, const Strs &Got, const Strs &Want,
             const std::string &Code) {
  for (size_t I = 0; I < std::max(Got.size(), Want.size()); ++I) {
    std::string G = I < Got.size() ? Got[I] : "<nothing>";
    std::string W = I < Want.size() ? Want[I] : "<nothing>";
    if (G != W) {
      C.fail("result " + std::to_string(I) + " of the program differs from the "
             "library:\n  observed: " + G + "\n  expected: " + W + "\n" + Code);
    }
  }
}

//===--------------------------------------------------------------------===//
// Scratch files

struct Scratch {
  std::string Path;
  Scratch() {
    char T[] = "/tmp/mc-python-XXXXXX";
    Path = mkdtemp(T);
  }
  std::string file(const std::string &Name, const std::string &Text) const {
    auto P = Path + "/" + Name;
    std::ofstream(P, std::ios::binary) << Text;
    return P;
  }
  ~Scratch() {
    for (const char *N : {"doc", "out", "out2"}) {
      unlink((Path + "/" + N).c_str());
    }
    rmdir(Path.c_str());
  }
};
std::string readFile(const std::string &P) {
  std::ifstream F(P, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(F), {});
}

const std::string Doctype =
    "<!DOCTYPE vm SYSTEM \"vm.dtd\">\n";

/// A model with everything a Python program can reach.
const std::string FullXml = R"XML(<?xml version="1.0" encoding="UTF-8"?>
<!DOCTYPE vm SYSTEM "vm.dtd">
<vm name="vm" root="p/q" commit="abc">
  <binaryOptions>
    <configurationOption>
      <name>root</name>
      <outputString></outputString>
      <prefix></prefix>
      <postfix></postfix>
      <children><options>a</options><options>n</options></children>
      <impliedOptions></impliedOptions>
      <excludedOptions></excludedOptions>
      <optional>False</optional>
    </configurationOption>
    <configurationOption>
      <name>a</name>
      <outputString>-a with a rather long text behind it</outputString>
      <parent>root</parent>
      <children><options>b</options><options>c</options></children>
      <optional>True</optional>
      <locations>
        <sourceRange category="necessary"><path>src/some/long/directory/a.cpp</path>
          <start><line>1</line><column>2</column></start>
          <end><line>3</line><column>4</column></end></sourceRange>
        <sourceRange category="inessential"><path>b.h</path>
          <start><line>5</line><column>6</column></start>
          <end><line>7</line><column>8</column></end></sourceRange>
      </locations>
    </configurationOption>
    <configurationOption>
      <name>b</name>
      <outputString>-b</outputString>
      <parent>a</parent>
      <excludedOptions><options>c</options></excludedOptions>
      <optional>False</optional>
    </configurationOption>
    <configurationOption>
      <name>c</name>
      <outputString>-c</outputString>
      <parent>a</parent>
      <excludedOptions><options>b</options></excludedOptions>
      <optional>False</optional>
    </configurationOption>
  </binaryOptions>
  <numericOptions>
    <configurationOption>
      <name>n</name>
      <outputString>-n</outputString>
      <parent>root</parent>
      <optional>False</optional>
      <minValue>1</minValue>
      <maxValue>5</maxValue>
    </configurationOption>
  </numericOptions>
  <booleanConstraints><constraint>a | b</constraint><constraint>b => a</constraint></booleanConstraints>
  <nonBooleanConstraints><constraint>n + 1 &lt; 7</constraint></nonBooleanConstraints>
  <mixedConstraints><constraint req="none" exprKind="neg">a * n = 0</constraint></mixedConstraints>
</vm>
)XML";

//===--------------------------------------------------------------------===//
// 1. Handles that outlive what they were taken from

enum Type { TModel, TNode, TFeature, TName, TLoc, TPos, TCon, TWrap, TWriter,
            TIterF, TIterN, TIterL, TIterB, TIterX, TIterM, TDone };

struct Step {
  Type From;
  Type To;
  const char *Code; // Python: from `h` to the new `h`
};

const std::vector<Step> &steps() {
  static const std::vector<Step> L = {
      {TModel, TFeature, "h.get_root()"},
      {TModel, TFeature, "h.get_feature('a')"},
      {TModel, TFeature, "h.get_feature('c')"},
      {TModel, TFeature, "next(iter(h))"},
      {TModel, TFeature, "list(h)[2]"},
      {TModel, TIterF, "iter(h)"},
      {TModel, TName, "h.name"},
      {TModel, TIterB, "h.booleanConstraints"},
      {TModel, TIterX, "h.nonBooleanConstraints"},
      {TModel, TIterM, "h.mixedConstraints"},
      {TModel, TWriter, "W.FeatureModelXmlWriter(h)"},
      {TModel, TModel, "h.merge_with(h)"},
      {TFeature, TNode, "h.parent()"},
      {TFeature, TIterN, "h.children()"},
      {TFeature, TIterN, "iter(h)"},
      {TFeature, TIterL, "h.locations"},
      {TFeature, TName, "h.name"},
      {TFeature, TName, "h.output_string"},
      {TNode, TNode, "h.parent()"},
      {TNode, TIterN, "h.children()"},
      {TNode, TIterN, "iter(h)"},
      {TIterF, TFeature, "next(h)"},
      {TIterF, TFeature, "list(h)[-1]"},
      {TIterN, TNode, "next(h)"},
      {TIterN, TNode, "list(h)[-1]"},
      {TIterL, TLoc, "next(h)"},
      {TIterL, TLoc, "list(h)[-1]"},
      {TLoc, TPos, "h.start"},
      {TLoc, TPos, "h.end"},
      {TIterB, TWrap, "next(h)"},
      {TIterB, TWrap, "list(h)[-1]"},
      {TIterX, TWrap, "next(h)"},
      {TIterM, TWrap, "next(h)"},
      {TWrap, TCon, "h.constraint"},
      {TCon, TCon, "h.clone()"},
      {TCon, TWrap, "M.BooleanConstraint(h)"},
      {TCon, TWrap, "M.MixedConstraint(h, M.Req.ALL, M.ExprKind.POS)"},
  };
  return L;
}

/// Python expression for everything that can be seen of a handle.
std::string look(Type T) {
  switch (T) {
  case TModel:
    return "'\\n'.join(obs(h))";
  case TNode:
    return "(node(h) + (feat(h) if isinstance(h, F.Feature) else ''))";
  case TFeature:
    return "(node(h) + feat(h) + str(hash(h) == hash(h)))";
  case TName:
    return "h.str()";
  case TLoc:
    return "loc(h)";
  case TPos:
    return "pos(h)";
  case TCon:
    return "(str(h) + str(h.clone()))";
  case TWrap:
    return "(str(h) + str(h.constraint))";
  case TWriter:
    return "h.get_feature_model_as_string()";
  case TIterF:
    return "';'.join(feat(x) for x in h)";
  case TIterN:
    return "';'.join(node(x) for x in h)";
  case TIterL:
    return "';'.join(loc(x) for x in h)";
  default:
    return "';'.join(str(x) + str(x.constraint) for x in h)";
  }
}

struct Chain {
  int Source;
  std::vector<int> Steps;
  Type Last;
};

const char *const Sources[] = {
    "M.loadFeatureModel(doc)",
    "built()",
    "M.loadFeatureModel(doc).merge_with(M.loadFeatureModel(doc))",
    // features without a model
    "F.BinaryFeature('a' * 20, True, [F.Location('p', F.LineColumnOffset(1, "
    "2), F.LineColumnOffset(3, 4))], 'o' * 20)",
    "F.NumericFeature('n' * 20, (1, 4), False, [F.Location('p', "
    "F.LineColumnOffset(1, 2), F.LineColumnOffset(3, 4))], 'o' * 20)",
    "F.RootFeature('r' * 20)",
    "F.Location('p' * 20, F.LineColumnOffset(1, 2), F.LineColumnOffset(3, 4))",
    "C.ConstraintBuilder().feature('a').lOr().feature('b').build()",
    "M.NonBooleanConstraint(C.ConstraintBuilder().constant(1).build())",
};
const Type SourceTypes[] = {TModel,   TModel,   TModel, TFeature, TFeature,
                            TFeature, TLoc,     TCon,   TWrap};

const char *Built = R"PY(
def built():
    b = B.FeatureModelBuilder()
    b.make_root('root').make_binary_feature('a', True)
    b.make_binary_feature('b', False).make_binary_feature('c', False)
    b.add_an_edge('root', 'a').add_an_edge('a', 'b').add_an_edge('a', 'c')
    b.emplace_relationship('a', 'OR').set_vm_name('v' * 20)
    b.add_boolean_constraint(C.ConstraintBuilder().feature('a').implies().feature('b').build())
    b.add_boolean_constraint(C.ConstraintBuilder().feature('a').lOr().feature('b').build())
    b.add_non_boolean_constraint(C.ConstraintBuilder().feature('a').equal().constant(1).build())
    return b.build_feature_model()
)PY";

std::vector<Chain> chains(unsigned Depth) {
  std::vector<Chain> R;
  for (int S = 0; S < 9; ++S) {
    std::vector<Chain> Front = {{S, {}, SourceTypes[S]}};
    R.push_back(Front[0]);
    for (unsigned D = 0; D < Depth; ++D) {
      std::vector<Chain> Next;
      for (auto &X : Front) {
        for (size_t I = 0; I < steps().size(); ++I) {
          if (steps()[I].From == X.Last) {
            auto Y = X;
            Y.Steps.push_back(I);
            Y.Last = steps()[I].To;
            Next.push_back(Y);
          }
        }
      }
      R.insert(R.end(), Next.begin(), Next.end());
      Front = std::move(Next);
    }
  }
  return R;
}

std::string chainText(const Chain &X) {
  std::string R = Sources[X.Source];
  for (int S : X.Steps) {
    R += std::string("; h = ") + steps()[S].Code;
  }
  return R;
}

/// The same walk twice: once all handles on the way stay, once only the last.
std::string chainProgram(const Chain &X, const std::string &Doc) {
  std::string P = std::string("doc = ") + quote(Doc) + Built;
  for (bool Keep : {true, false}) {
    P += std::string("def walk():\n    h = ") + Sources[X.Source] + "\n";
    P += "    keep = [h]\n";
    for (int S : X.Steps) {
      P += "    if h is None: return (None, keep)\n";
      P += std::string("    try: h = ") + steps()[S].Code + "\n";
      P += "    except (StopIteration, IndexError): return (None, keep)\n";
      if (Keep) {
        P += "    keep.append(h)\n";
      } else {
        P += "    keep = []\n";
      }
    }
    P += std::string("    return (h, ") + (Keep ? "keep" : "[]") + ")\n";
    P += "h, keep = walk()\n";
    if (!Keep) {
      P += "keep = []; gc.collect(); junk = churn()\n";
    }
    P += "out.append('None' if h is None else " + look(X.Last) + ")\n";
    P += "h = None; keep = []\n";
  }
  return P;
}

void runChain(mc::Ctx &C, const Chain &X) {
  Scratch S;
  auto Doc = S.file("doc", FullXml);
  auto Code = chainProgram(X, Doc);
  auto Out = runPython(Code, C);
  C.trans(2 * (X.Steps.size() + 1));
  C.check(Out.size() == 2, "the program did not finish");
  C.state(std::to_string(X.Last) + Out[0]);
  if (Out[0] != Out[1]) {
    C.fail("the last handle shows something else once the others are gone\n"
           "  observed: " + Out[1] + "\n  expected: " + Out[0] + "\n" + Code);
  }
}

//===--------------------------------------------------------------------===//
// Programs with a twin in C++

struct Twin {
  std::unique_ptr<vf::FeatureModel> M;
  std::unique_ptr<vf::FeatureModelBuilder> B;
  std::unique_ptr<vf::ConstraintBuilder> CB;
  Strs Out;
};
struct Op {
  std::string Py;
  std::function<void(Twin &)> Cxx;
};

std::unique_ptr<vf::Constraint> con(int I) {
  vf::ConstraintBuilder CB;
  if (I == 0) {
    return CB.feature("a").implies().feature("b").build();
  }
  return CB.feature("n").add().constant(3).lessEqual().feature("a").build();
}
const char *const ConPy[] = {
    "C.ConstraintBuilder().feature('a').implies().feature('b').build()",
    "C.ConstraintBuilder().feature('n').add().constant(3).lessEqual().feature("
    "'a').build()"};

std::vector<Op> builderOps() {
  std::vector<Op> L;
  for (std::string N : {"a", "b", "A"}) {
    for (bool O : {true, false}) {
      L.push_back({"b.make_binary_feature(" + quote(N) + ", " + pyBool(O) + ")",
                   [=](Twin &T) {
                     T.B->makeFeature<vf::BinaryFeature>(N, O);
                   }});
    }
  }
  for (auto [P, K] : std::vector<std::pair<std::string, std::string>>{
           {"root", "a"}, {"a", "b"}, {"b", "a"}, {"r", "a"}, {"root", "A"}}) {
    L.push_back({"b.add_an_edge(" + quote(P) + ", " + quote(K) + ")",
                 [P = P, K = K](Twin &T) { T.B->addEdge(P, K); }});
  }
  for (auto [P, K] : std::vector<std::pair<std::string, bool>>{
           {"root", true}, {"root", false}, {"a", true}, {"r", false}}) {
    L.push_back(
        {"b.emplace_relationship(" + quote(P) + (K ? ", 'OR')" : ", 'XOR')"),
         [P = P, K = K](Twin &T) {
           T.B->emplaceRelationship(
               K ? vf::Relationship::RelationshipKind::RK_OR
                 : vf::Relationship::RelationshipKind::RK_ALTERNATIVE,
               P);
         }});
  }
  for (int I : {0, 1}) {
    L.push_back({std::string("b.add_boolean_constraint(") + ConPy[I] + ")",
                 [=](Twin &T) {
                   T.B->addConstraint(
                       std::make_unique<vf::FeatureModel::BooleanConstraint>(
                           con(I)));
                 }});
    L.push_back({std::string("b.add_non_boolean_constraint(") + ConPy[I] + ")",
                 [=](Twin &T) {
                   T.B->addConstraint(
                       std::make_unique<vf::FeatureModel::NonBooleanConstraint>(
                           con(I)));
                 }});
  }
  L.push_back({"b.set_vm_name('vm')", [](Twin &T) { T.B->setVmName("vm"); }});
  L.push_back({"b.set_path('p/q')", [](Twin &T) { T.B->setPath("p/q"); }});
  L.push_back(
      {"b.set_commit('abc')", [](Twin &T) { T.B->setCommit("abc"); }});
  for (std::string N : {"root", "r"}) {
    L.push_back({"b.make_root(" + quote(N) + ")",
                 [=](Twin &T) { T.B->makeRoot(N); }});
  }
  return L;
}

using LocArg = std::vector<FSR>;
LocArg locArg(int K) {
  LocArg R;
  if (K) {
    R.emplace_back(fs::path("x.cpp"), FSL(1, 2), FSL(3, 4),
                   FSR::Category::inessential);
  }
  if (K > 1) {
    R.emplace_back(fs::path("y.cpp"));
  }
  return R;
}
const char *const LocPy[] = {
    "[]",
    "[F.Location('x.cpp', F.LineColumnOffset(1, 2), F.LineColumnOffset(3, 4), "
    "F.Location.Category.inessential)]",
    "[F.Location('x.cpp', F.LineColumnOffset(1, 2), F.LineColumnOffset(3, 4), "
    "F.Location.Category.inessential), F.Location('y.cpp')]"};

using Values = vf::NumericFeature::ValuesVariantType;
const std::vector<std::pair<std::string, Values>> &values() {
  static const std::vector<std::pair<std::string, Values>> L = {
      {"(1, 9)", std::pair<int64_t, int64_t>(1, 9)},
      {"[1, 9]", std::vector<int64_t>{1, 9}},
      {"[4]", std::vector<int64_t>{4}},
      {"[1, 2, 7]", std::vector<int64_t>{1, 2, 7}},
      {"(-3, 3)", std::pair<int64_t, int64_t>(-3, 3)},
      {"[-9223372036854775808, 9223372036854775807]",
       std::vector<int64_t>{INT64_MIN, INT64_MAX}},
  };
  return L;
}

const std::string OtherXml = R"XML(<?xml version="1.0" encoding="UTF-8"?>
<!DOCTYPE vm SYSTEM "vm.dtd">
<vm name="o" root="p">
  <binaryOptions>
    <configurationOption><name>root</name><optional>False</optional></configurationOption>
    <configurationOption><name>d</name><parent>root</parent><optional>True</optional></configurationOption>
    <configurationOption><name>e</name><parent>d</parent><optional>False</optional></configurationOption>
  </binaryOptions>
</vm>
)XML";

std::unique_ptr<vf::FeatureModel> load(const std::string &Doc) {
  return vf::loadFeatureModel(Doc);
}

std::vector<Op> editOps(const std::string &Doc, const std::string &Other) {
  std::vector<Op> L;
  for (std::string P : {"root", "a", "x"}) {
    for (std::string N : {"x", "b", "X"}) {
      for (bool O : {true, false}) {
        if (N == "X" && O) {
          continue;
        }
        for (int K : {-1, 1}) {
          if (K > 0 && N != "x") {
            continue;
          }
          L.push_back(
              {"m.add_binary_feature(m.get_feature(" + quote(P) + "), " +
                   quote(N) + ", " + pyBool(O) +
                   (K < 0 ? "" : std::string(", ") + LocPy[K]) + ")",
               [=](Twin &T) {
                 auto *F = T.M->getFeature(P);
                 if (!F) {
                   T.Out.push_back("error");
                   return;
                 }
                 vf::addFeature(*T.M,
                                std::make_unique<vf::BinaryFeature>(
                                    N, O, locArg(K < 0 ? 0 : K)),
                                F);
                 T.Out.push_back("None");
               }});
        }
      }
    }
  }
  for (std::string P : {"root", "a"}) {
    for (auto &V : values()) {
      for (int K : {-1, 2}) {
        if (&V - values().data() > 1 && (P == "a" || K > 0)) {
          continue;
        }
        bool O = K > 0;
        L.push_back({"m.add_numeric_feature(m.get_feature(" + quote(P) +
                         "), 'n2', " + V.first + ", " + pyBool(O) +
                         (K < 0 ? "" : std::string(", ") + LocPy[K]) + ")",
                     [=](Twin &T) {
                       auto *F = T.M->getFeature(P);
                       if (!F) {
                         T.Out.push_back("error");
                         return;
                       }
                       vf::addFeature(*T.M,
                                      std::make_unique<vf::NumericFeature>(
                                          "n2", V.second, O,
                                          locArg(K < 0 ? 0 : K)),
                                      F);
                       T.Out.push_back("None");
                     }});
      }
    }
  }
  for (std::string N : {"root", "a", "b", "n", "x"}) {
    for (int R : {-1, 0, 1}) {
      if (R == 0 && N != "a") {
        continue;
      }
      L.push_back({"m.remove_feature(m.get_feature(" + quote(N) + ")" +
                       (R < 0    ? ""
                        : R == 0 ? ", recursive=False"
                                 : ", recursive=True") +
                       ")",
                   [=](Twin &T) {
                     auto *F = T.M->getFeature(N);
                     if (!F) {
                       T.Out.push_back("error");
                       return;
                     }
                     vf::detail::FeatureVariantTy V = F;
                     vf::removeFeature(*T.M, V, R == 1);
                     T.Out.push_back("None");
                   }});
    }
  }
  L.push_back({"setattr(m, 'commit', 'c0ffee')", [](Twin &T) {
                 vf::setCommit(*T.M, "c0ffee");
                 T.Out.push_back("None");
               }});
  for (int K : {-1, 0, 1}) {
    for (bool Self : {false, true}) {
      L.push_back(
          {std::string("merge(") + (Self ? "m" : "M.loadFeatureModel(other)") +
               (K < 0 ? "" : K == 0 ? ", strict=False" : ", True") + ")",
           [=](Twin &T) {
             std::unique_ptr<vf::FeatureModel> O;
             if (!Self) {
               O = load(Other);
             }
             auto R =
                 vf::mergeFeatureModels(*T.M, Self ? *T.M : *O, K != 0);
             T.Out.push_back(R ? "merged" : "None");
             if (R) {
               T.M = std::move(R);
             }
           }});
    }
  }
  return L;
}

std::vector<Op> constraintOps() {
  std::vector<Op> L;
#define OP(N) L.push_back({"cb." #N "()", [](Twin &T) { T.CB->N(); }});
  OP(openPar) OP(closePar) OP(lNot) OP(lOr) OP(lXor) OP(lAnd) OP(implies)
  OP(excludes) OP(equivalent) OP(equal) OP(notEqual) OP(less) OP(greater)
  OP(lessEqual) OP(greaterEqual) OP(neg) OP(add) OP(subtract) OP(multiply)
  OP(divide)
#undef OP
  L.push_back({"cb()", [](Twin &T) { (*T.CB)(); }});
  L.push_back({"cb.feature('A')", [](Twin &T) { T.CB->feature("A"); }});
  L.push_back({"cb.constant(-7)", [](Twin &T) { T.CB->constant(-7); }});
  return L;
}

std::string rejoin(const Strs &L) { return obs::join(L, "\n"); }

/// Sequences over Ops.
struct Sequences {
  std::string Name;
  std::string Kind;
  unsigned Length;
  std::function<std::vector<Op>(const Scratch &)> Ops;
  std::function<std::string(const Scratch &)> Before; // Python
  std::function<void(Twin &, const Scratch &)> Start;
  std::string PerOp; // Python text around one operation, `@` stands for it
  bool OpResult;     // whether the twin reports a result per operation
  std::string After; // Python
  std::function<void(Twin &)> End;
};

mc::Suite suite(const Sequences &Q) {
  mc::Suite S;
  S.Name = Q.Name;
  size_t K;
  {
    Scratch D;
    K = Q.Ops(D).size();
  }
  S.N = mc::ipow(K, Q.Length);
  S.Bound = "all sequences of " + std::to_string(Q.Length) + " of " +
            std::to_string(K) + " " + Q.Kind;
  auto Program = [=](uint64_t I, const std::vector<Op> &Ops,
                     const Scratch &D, std::vector<int> &Idx) {
    std::string P = Q.Before(D);
    mc::Digits G(I);
    for (unsigned J = 0; J < Q.Length; ++J) {
      Idx.push_back(G.take(K));
      auto T = Q.PerOp;
      auto At = T.find('@');
      P += T.replace(At, 1, Ops[Idx.back()].Py) + "\n";
    }
    return P + Q.After;
  };
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    static const std::map<std::string, int> None;
    Scratch D;
    auto Ops = Q.Ops(D);
    std::vector<int> Idx;
    auto Code = Program(I, Ops, D, Idx);
    Twin T;
    Q.Start(T, D);
    for (int X : Idx) {
      Ops[X].Cxx(T);
    }
    Q.End(T);
    auto Out = runPython(Code, C);
    C.trans(2 * Q.Length);
    C.state(rejoin(T.Out));
    compare(C, Out, T.Out, Code);
  };
  S.Describe = [=](uint64_t I) {
    Scratch D;
    std::vector<int> Idx;
    return Program(I, Q.Ops(D), D, Idx);
  };
  S.Chunk = 512;
  return S;
}

void append(Strs &A, const Strs &B) { A.insert(A.end(), B.begin(), B.end()); }

Sequences builderSeq(unsigned N) {
  return {"builder" + std::to_string(N),
          "calls of a model builder",
          N,
          [](const Scratch &) { return builderOps(); },
          [](const Scratch &) {
            return std::string("b = B.FeatureModelBuilder()\n");
          },
          [](Twin &T, const Scratch &) {
            T.B = std::make_unique<vf::FeatureModelBuilder>();
          },
          "assert @ is b",
          false,
          "m = b.build_feature_model()\nout += obs(m)\n",
          [](Twin &T) {
            T.M = T.B->buildFeatureModel();
            append(T.Out, observe(T.M.get()));
          }};
}

Sequences editSeq(unsigned N) {
  return {"edits" + std::to_string(N),
          "edits of a loaded model",
          N,
          [](const Scratch &D) {
            return editOps(D.Path + "/doc", D.Path + "/out");
          },
          [](const Scratch &D) {
            return "doc = " + quote(D.file("doc", FullXml)) +
                   "\nother = " + quote(D.file("out", OtherXml)) +
                   "\nm = M.loadFeatureModel(doc)\n"
                   "def merge(o, *a, **k):\n"
                   "    global m\n"
                   "    r = m.merge_with(o, *a, **k)\n"
                   "    if r is not None: m = r\n"
                   "    return 'merged' if r is not None else None\n";
          },
          [](Twin &T, const Scratch &D) {
            D.file("doc", FullXml);
            D.file("out", OtherXml);
            T.M = load(D.Path + "/doc");
          },
          "out.append(str(attempt(lambda: @)))",
          true,
          "out += obs(m)\n",
          [](Twin &T) { append(T.Out, observe(T.M.get())); }};
}

Sequences constraintSeq(unsigned N) {
  return {"constraints" + std::to_string(N),
          "calls of a constraint builder",
          N,
          [](const Scratch &) { return constraintOps(); },
          [](const Scratch &) {
            return std::string("cb = C.ConstraintBuilder()\n");
          },
          [](Twin &T, const Scratch &) {
            T.CB = std::make_unique<vf::ConstraintBuilder>();
          },
          "assert @ is cb",
          false,
          "c = cb.build()\nout.append(str(c))\n"
          "if c is not None:\n"
          "    w = M.BooleanConstraint(c)\n"
          "    out += [str(c.clone()), str(w), str(w.constraint)]\n"
          "    w = M.NonBooleanConstraint(c)\n"
          "    out += [str(w), str(w.constraint)]\n"
          "    for r in [M.Req.ALL, M.Req.NONE]:\n"
          "        for e in [M.ExprKind.POS, M.ExprKind.NEG]:\n"
          "            w = M.MixedConstraint(c, r, e)\n"
          "            assert w.req == r and w.exprKind == e\n"
          "            out += [mixed(w), str(w.constraint)]\n"
          "out.append(str(cb.feature('Z').build()))\n",
          [](Twin &T) {
            auto R = T.CB->build();
            if (!R) {
              T.Out.push_back("None");
            } else {
              auto S = R->toString();
              Strs L = {S, S, S, S, S, S};
              for (const char *Q : {"ALL POS ", "ALL NEG ", "NONE POS ",
                                    "NONE NEG "}) {
                L.push_back(Q + S);
                L.push_back(S);
              }
              append(T.Out, L);
            }
            T.CB->feature("Z");
            auto Z = T.CB->build();
            T.Out.push_back(Z ? Z->toString() : "None");
          }};
}

//===--------------------------------------------------------------------===//
// Values: source ranges and features

struct LocSpec {
  std::string Path;
  int S; // 0 none, 1 1:2, 2 1:3
  int E;
  int Cat; // -1 left out
};
const std::vector<LocSpec> &locSpecs() {
  static const std::vector<LocSpec> L = [] {
    std::vector<LocSpec> R;
    for (std::string P : {"p", "d/p", ""}) {
      for (int S : {0, 1, 2}) {
        for (int E : {0, 1, 2}) {
          for (int Cat : {-1, 0, 1}) {
            R.push_back({P, S, E, Cat});
          }
        }
      }
    }
    return R;
  }();
  return L;
}
std::string posPy(int K) {
  return K == 0   ? "None"
         : K == 1 ? "F.LineColumnOffset(1, 2)"
                  : "F.LineColumnOffset(4294967, 3)";
}
std::optional<FSL> posCxx(int K) {
  return K == 0 ? std::optional<FSL>()
                : K == 1 ? std::optional<FSL>(FSL(1, 2))
                         : std::optional<FSL>(FSL(4294967, 3));
}
std::string locPy(const LocSpec &L) {
  std::string R = "F.Location(" + quote(L.Path);
  if (L.S || L.E || L.Cat >= 0) {
    R += ", " + posPy(L.S);
  }
  if (L.E || L.Cat >= 0) {
    R += ", " + posPy(L.E);
  }
  if (L.Cat >= 0) {
    R += L.Cat ? ", F.Location.Category.inessential"
               : ", F.Location.Category.necessary";
  }
  return R + ")";
}
FSR locCxx(const LocSpec &L) {
  return FSR(fs::path(L.Path), posCxx(L.S), posCxx(L.E),
             L.Cat == 1 ? FSR::Category::inessential
                        : FSR::Category::necessary);
}

mc::Suite locSuite() {
  mc::Suite S;
  S.Name = "ranges";
  S.Bound = "all pairs of " + std::to_string(locSpecs().size()) +
            " source ranges: attributes, equality, changes of one by the "
            "attributes of the other";
  auto K = locSpecs().size();
  S.N = K * K;
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto &A = locSpecs()[I / K];
    auto &B = locSpecs()[I % K];
    std::string Code =
        "a = " + locPy(A) + "\nb = " + locPy(B) +
        "\nout += [loc(a), loc(b), str(a == b), str(a == None), "
        "str((a.start == b.start) if a.start else b.start == None), "
        "str((a.end == b.end) if a.end else b.end == None)]\n"
        "f = F.BinaryFeature('f', True, [a])\n"
        "a.path = b.path\n"
        "a.category = b.category\n"
        "out.append(loc(a))\n"
        "if a.start and b.start:\n"
        "    x = a.start\n"
        "    x.line_number = b.start.line_number\n"
        "    x.column_offset = b.start.column_offset + 1\n"
        "if a.end and b.end: a.end.line_number = b.end.line_number\n"
        "out += [loc(a), loc(b), feat(f)]\n"
        "l = next(f.locations)\n"
        "l.path = 'changed'\n"
        "out.append(feat(f))\n"
        "f.addLocation(b)\n"
        "out.append(feat(f))\n"
        "out.append(str(f.updateLocation(b, a)))\n"
        "out.append(feat(f))\n"
        "f.removeLocation(b)\n"
        "out.append(feat(f))\n"
        "f.removeLocation(a)\n"
        "out.append(feat(f))\n";
    Strs W;
    auto X = locCxx(A);
    auto Y = locCxx(B);
    append(W, {loc(X), loc(Y), pyBool(X == Y), "False",
               pyBool(posCxx(A.S) == posCxx(B.S)),
               pyBool(posCxx(A.E) == posCxx(B.E))});
    vf::BinaryFeature F("f", true, std::vector<FSR>{X});
    X.setPath(Y.getPath().string());
    X.setCategory(Y.getCategory());
    W.push_back(loc(X));
    if (X.hasStart() && Y.hasStart()) {
      X.getStart()->setLineNumber(Y.getStart()->getLineNumber());
      X.getStart()->setColumnOffset(Y.getStart()->getColumnOffset() + 1);
    }
    if (X.hasEnd() && Y.hasEnd()) {
      X.getEnd()->setLineNumber(Y.getEnd()->getLineNumber());
    }
    append(W, {loc(X), loc(Y), feat(&F)});
    F.getLocationsBegin()->setPath("changed");
    W.push_back(feat(&F));
    F.addLocation(Y);
    W.push_back(feat(&F));
    W.push_back(pyBool(F.updateLocation(Y, X)));
    W.push_back(feat(&F));
    F.removeLocation(Y);
    W.push_back(feat(&F));
    F.removeLocation(X);
    W.push_back(feat(&F));
    auto Out = runPython(Code, C);
    C.trans(20);
    C.state(rejoin(W));
    compare(C, Out, W, Code);
  };
  S.Describe = [=](uint64_t I) {
    return locPy(locSpecs()[I / K]) + " and " + locPy(locSpecs()[I % K]);
  };
  return S;
}

struct FeatSpec {
  std::string Py;
  std::function<std::unique_ptr<vf::Feature>()> Cxx;
};
const std::vector<FeatSpec> &featSpecs() {
  static const std::vector<FeatSpec> L = [] {
    std::vector<FeatSpec> R;
    for (std::string N : {"a", "A", "b", ""}) {
      for (bool O : {true, false}) {
        // arguments left out
        for (int K : {-1, 0, 1, 2}) {
          for (std::string Out : {"?", "", "-o"}) {
            if (K < 0 && Out != "?") {
              continue;
            }
            auto Tail = (K < 0 ? "" : std::string(", ") + LocPy[K]) +
                        (Out == "?" ? "" : ", " + quote(Out)) + ")";
            auto Text = Out == "?" ? "" : Out;
            R.push_back({"F.BinaryFeature(" + quote(N) + ", " + pyBool(O) +
                             Tail,
                         [=] {
                           return std::make_unique<vf::BinaryFeature>(
                               N, O, locArg(std::max(K, 0)), Text);
                         }});
            for (auto &V : values()) {
              if (N != "a" && &V != values().data()) {
                continue;
              }
              R.push_back({"F.NumericFeature(" + quote(N) + ", " + V.first +
                               ", " + pyBool(O) + Tail,
                           [=] {
                             return std::make_unique<vf::NumericFeature>(
                                 N, V.second, O, locArg(std::max(K, 0)), Text);
                           }});
            }
          }
        }
      }
      R.push_back({"F.RootFeature(" + quote(N) + ")",
                   [=] { return std::make_unique<vf::RootFeature>(N); }});
    }
    return R;
  }();
  return L;
}

mc::Suite featSuite() {
  mc::Suite S;
  S.Name = "features";
  auto K = featSpecs().size();
  S.Bound = "all pairs of " + std::to_string(K) +
            " features: attributes, equality, order and hash";
  S.N = K * K;
  S.Run = [=](uint64_t I, mc::Ctx &C) {
    auto &A = featSpecs()[I / K];
    auto &B = featSpecs()[I % K];
    std::string Code =
        "a = " + A.Py + "\nb = " + B.Py +
        "\nout += [feat(a), feat(b), str(a == b), str(a < b), str(b < a), "
        "str(a != b), str(hash(a) == hash(b) or not a == b), "
        "str(len({a, b})), str(a.is_child(b)), str(a.is_parent(b)), "
        "str(a.parent()), str(list(a))]\n";
    auto X = A.Cxx();
    auto Y = B.Cxx();
    Strs W = {feat(X.get()),        feat(Y.get()),
              pyBool(*X == *Y),     pyBool(*X < *Y),
              pyBool(*Y < *X),      pyBool(!(*X == *Y)),
              "True",               *X == *Y ? "1" : "2",
              "False",              "False",
              "None",               "[]"};
    auto Out = runPython(Code, C);
    C.trans(12);
    C.state(rejoin(W));
    compare(C, Out, W, Code);
  };
  S.Describe = [=](uint64_t I) {
    return featSpecs()[I / K].Py + " and " + featSpecs()[I % K].Py;
  };
  S.Chunk = 1024;
  return S;
}

//===--------------------------------------------------------------------===//
// Files

const std::vector<std::pair<std::string, std::string>> &docs() {
  static const std::vector<std::pair<std::string, std::string>> L = [] {
    std::vector<std::pair<std::string, std::string>> R;
    R.push_back({"full", FullXml});
    R.push_back({"other", OtherXml});
    R.push_back({"empty", ""});
    R.push_back({"text", "no model"});
    R.push_back({"unfinished", FullXml.substr(0, FullXml.size() / 2)});
    auto With = [&](const std::string &N, const std::string &Old,
                    const std::string &New) {
      auto T = FullXml;
      T.replace(T.find(Old), Old.size(), New);
      R.push_back({N, T});
    };
    With("unknown parent", "<parent>a</parent>", "<parent>zz</parent>");
    With("unknown element", "<parent>a</parent>", "<foo>a</foo>");
    With("bad constraint", "a | b", "a | ");
    With("no type", "</minValue>", "</minValue><minValue>3</minValue>");
    With("utf-8", "-b<", "-b \xc3\xa4<");
    With("escapes", "-b<", "-b &lt;&amp;&quot;<");
    With("no commit", " commit=\"abc\"", "");
    R.push_back({"sxfm",
                 "<feature_model name=\"S\">\n<feature_tree>\n:r "
                 "root(root)\n\t:o a(a)\n\t:m b(b)\n</feature_tree>\n"
                 "<constraints>\nc1:~a or b\n</constraints>\n"
                 "</feature_model>\n"});
    return R;
  }();
  return L;
}

mc::Suite fileSuite() {
  mc::Suite S;
  S.Name = "files";
  S.N = (docs().size() + 1) * 4;
  S.Bound = std::to_string(docs().size()) +
            " documents and a missing file, given as text or as path: loaded, "
            "verified, written to a file that can be created or not";
  S.Run = [](uint64_t I, mc::Ctx &C) {
    Scratch D;
    bool AsPath = I & 1;
    bool Good = I & 2;
    auto J = I / 4;
    if (J < docs().size()) {
      D.file("doc", docs()[J].second);
    }
    auto Doc = D.Path + "/doc";
    auto To = Good ? D.Path + "/out" : D.Path + "/none/out";
    std::string Code =
        "import pathlib\n"
        "p = " + (AsPath ? "pathlib.Path(" + quote(Doc) + ")" : quote(Doc)) +
        "\nm = M.loadFeatureModel(p)\nout += obs(m)\n"
        "out.append(str(M.verifyFeatureModel(p)))\n"
        "if m is not None:\n"
        "    w = W.FeatureModelXmlWriter(m)\n"
        "    r = w.write_feature_model_to_file(" + quote(To) + ")\n"
        "    out.append(str(r))\n";
    auto M = load(Doc);
    Strs W = observe(M.get());
    W.push_back(pyBool(vf::verifyFeatureModel(Doc)));
    std::string Want;
    if (M) {
      auto Status = vf::FeatureModelXmlWriter(*M).writeFeatureModel(
          Good ? D.Path + "/out2" : D.Path + "/none/out2");
      W.push_back(std::to_string(Status));
      Want = readFile(D.Path + "/out2");
    }
    auto Out = runPython(Code, C);
    C.trans(3);
    C.state(rejoin(W));
    for (auto &X : Out) {
      for (size_t P; (P = X.find(D.Path)) != std::string::npos;) {
        X.replace(P, D.Path.size(), "@");
      }
    }
    for (auto &X : W) {
      for (size_t P; (P = X.find(D.Path)) != std::string::npos;) {
        X.replace(P, D.Path.size(), "@");
      }
    }
    compare(C, Out, W, Code);
    C.eq(readFile(D.Path + "/out"), Want, "written file");
    if (M && Good) {
      D.file("out2", vf::FeatureModelXmlWriter(*M).writeFeatureModel().value_or(
                         "nothing"));
      C.eq(rejoin(observe(load(D.Path + "/out").get())),
           rejoin(observe(load(D.Path + "/out2").get())), "file against text");
    }
  };
  S.Describe = [](uint64_t I) {
    auto J = I / 4;
    return (J < docs().size() ? docs()[J].first : std::string("missing")) +
           (I & 1 ? " as path" : " as text") +
           (I & 2 ? "" : ", output cannot be created");
  };
  return S;
}

} // namespace

int main(int Argc, char **Argv) {
  bool T = mc::thorough();
  std::vector<mc::Suite> L;
  {
    unsigned Depth = T ? 6 : 5;
    auto All = std::make_shared<std::vector<Chain>>(chains(Depth));
    mc::Suite S;
    S.Name = "handles";
    S.Bound = "all walks of up to " + std::to_string(Depth) +
              " steps from 9 objects to what they hand out, all but the last "
              "handle dropped";
    S.N = All->size();
    S.Run = [=](uint64_t I, mc::Ctx &C) { runChain(C, (*All)[I]); };
    S.Describe = [=](uint64_t I) { return "h = " + chainText((*All)[I]); };
    S.Chunk = 64;
    L.push_back(S);
  }
  for (unsigned N = 1; N <= (T ? 4 : 3); ++N) {
    L.push_back(suite(builderSeq(N)));
  }
  for (unsigned N = 1; N <= (T ? 3 : 2); ++N) {
    L.push_back(suite(editSeq(N)));
  }
  for (unsigned N = 1; N <= (T ? 4 : 3); ++N) {
    L.push_back(suite(constraintSeq(N)));
  }
  L.push_back(locSuite());
  L.push_back(featSuite());
  L.push_back(fileSuite());
  return mc::runChecks(
      Argc, Argv, "C27", L,
      {"The twin of a program calls the library that the other checks decide; "
       "handles to features that the program itself removed from their model "
       "and the viewer (view) are out of scope.",
       "Memory that was freed is detected by the address sanitizer, in the "
       "module and the library; the interpreter itself is not instrumented."});
}
