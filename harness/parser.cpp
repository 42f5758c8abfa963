// Base Modelica sources read back from a faulty store by concurrent compiler
// front ends. Whatever the store returns, every front end must terminate and
// either build the tree of the program it was given or report an error.
#include "../sim/harness.h"
#include "../sim/simpool.h"
#include "marco/AST/BaseModelica/AST.h"
#include "marco/Parser/BaseModelica/Parser.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/DiagnosticIDs.h"
#include "clang/Basic/DiagnosticOptions.h"
#include "clang/Basic/FileManager.h"
#include "clang/Basic/SourceManager.h"
#include "llvm/Support/raw_ostream.h"
#include "modelica.h"
#include "text.h"
#include <algorithm>
#include <memory>

using namespace marco;
using namespace marco::ast::bmodelica;
namespace mp = marco::parser::bmodelica;
using marco::ast::ASTNode;

enum { P_ACCEPT, P_REJECT, P_GREY, P_GREYOK, P_FAULTY_ACCEPT, P_FAULTY_REJECT, P_SAME, P_COPY };
const char *const harnessProbes[] = {"programs_accepted",        "programs_rejected",        "outside_of_the_subset",
                                     "outside_and_accepted",     "damaged_but_still_valid",  "damaged_and_rejected",
                                     "damaged_into_same_program", "copied_trees",            nullptr};
const char *const harnessFaults[] = {VERIF_TEXT_FAULTS, nullptr};

void harnessBoot(const char *) {
  // Statics of the libraries.
  llvm::errs();
}
void harnessConfig(sim::Config &c, sim::Rng &, const char *) { c.maxEvents = 20000000ull; }

namespace {
// ---- printing of the trees in the notation of the reference
struct Dump {
  std::string o;
  void s(const char *x) { o += x; }
  void q(llvm::StringRef x) { o += mo::Reference::quote(x.str()); }

  void root(const ASTNode *n) {
    s("(root");
    for (auto &c : n->cast<Root>()->getInnerClasses()) {
      s(" ");
      klass(c.get());
    }
    s(")");
  }
  void klass(const ASTNode *n) {
    if (auto *d = n->dyn_cast<PartialDerFunction>()) {
      s("(der ");
      q(d->getName());
      s(" ");
      expr(d->getDerivedFunction());
      for (auto &v : d->getIndependentVariables()) {
        s(" ");
        expr(v.get());
      }
      s(")");
      return;
    }
    if (n->isa<Model>())
      s("(model ");
    else if (n->isa<Record>())
      s("(record ");
    else if (n->isa<Package>())
      s("(package ");
    else if (auto *f = n->dyn_cast<StandardFunction>())
      s(f->isPure() ? "(function pure " : "(function impure ");
    else
      s("(unknown-class ");
    const Class *c = n->cast<Class>();
    q(c->getName());
    s(" (vars");
    for (auto &v : c->getVariables()) {
      s(" ");
      member(v->cast<Member>());
    }
    s(") (eqs");
    for (auto &e : c->getEquationSections()) {
      auto *sec = e->cast<EquationSection>();
      s(sec->isInitial() ? " (initial" : " (normal");
      for (size_t i = 0; i < sec->getNumOfEquations(); ++i) {
        s(" ");
        equation(sec->getEquation(i));
      }
      s(")");
    }
    s(") (algs");
    for (auto &a : c->getAlgorithms()) {
      auto *alg = a->cast<Algorithm>();
      s(alg->isInitial() ? " (initial" : " (normal");
      for (size_t i = 0; i < alg->size(); ++i) {
        s(" ");
        statement((*alg)[i]);
      }
      s(")");
    }
    s(") (inner");
    for (auto &i : c->getInnerClasses()) {
      s(" ");
      klass(i.get());
    }
    s(")");
    if (c->isExternal()) {
      s(" (external ");
      q(c->getExternalLanguage());
      if (c->hasExternalFunctionCall()) {
        s(" ");
        external(c->getExternalFunctionCall());
      }
      if (c->hasExternalAnnotation()) {
        s(" ");
        annotation(c->getExternalAnnotation());
      }
      s(")");
    }
    if (c->hasAnnotation()) {
      s(" ");
      annotation(c->getAnnotation());
    }
    s(")");
  }
  void external(const ExternalFunctionCall *c) {
    s("(call");
    if (c->hasDestination()) {
      s(" (to ");
      expr(c->getDestination());
      s(")");
    }
    s(" ");
    q(c->getCallee());
    for (size_t i = 0; i < c->getNumOfArguments(); ++i) {
      s(" ");
      expr(c->getArgument(i));
    }
    s(")");
  }
  void annotation(const Annotation *a) {
    s("(annotation ");
    classMod(a->getProperties());
    s(")");
  }
  void classMod(const ClassModification *c) {
    s("(args");
    for (auto &a : c->getArguments()) {
      if (auto *e = a->dyn_cast<ElementModification>()) {
        s(" (el");
        if (e->hasEachProperty())
          s(" each");
        if (e->hasFinalProperty())
          s(" final");
        s(" ");
        q(e->getName());
        if (e->hasModification()) {
          s(" ");
          mod(e->getModification());
        }
        s(")");
      } else {
        s(" (unknown-argument)");
      }
    }
    s(")");
  }
  static std::string place(const SourcePosition &p) { return std::to_string(p.line) + ":" + std::to_string(p.column); }
  void span(const ASTNode *n) {
    auto l = n->getLocation();
    o += "@" + place(l.begin) + "-" + place(l.end);
  }
  void mod(const Modification *m) {
    s("(mod");
    if (m->hasClassModification()) {
      s(" ");
      classMod(m->getClassModification());
    }
    if (m->hasExpression()) {
      s(" ");
      expr(m->getExpression());
    }
    s(")");
  }
  void member(const Member *m) {
    s("(var ");
    q(m->getName());
    span(m);
    s(" ");
    type(m->getType());
    auto *p = m->getTypePrefix();
    int k = p->isDiscrete() + p->isParameter() + p->isConstant();
    s(k > 1 ? " several" : p->isDiscrete() ? " discrete" : p->isParameter() ? " parameter" : p->isConstant() ? " constant" : " none");
    s(p->isInput() && p->isOutput() ? " both" : p->isInput() ? " input" : p->isOutput() ? " output" : " none");
    s(m->isPublic() ? " public" : " protected");
    if (m->hasModification()) {
      s(" ");
      mod(m->getModification());
    }
    s(")");
  }
  void type(const VariableType *t) {
    if (auto *b = t->dyn_cast<BuiltInType>()) {
      switch (b->getBuiltInTypeKind()) {
      case BuiltInType::Kind::Boolean: s("(Boolean"); break;
      case BuiltInType::Kind::Integer: s("(Integer"); break;
      case BuiltInType::Kind::Real: s("(Real"); break;
      case BuiltInType::Kind::String: s("(String"); break;
      }
    } else {
      auto *u = t->cast<UserDefinedType>();
      s("(type");
      if (u->isGlobalLookup())
        s(" .");
      for (size_t i = 0; i < u->getPathLength(); ++i) {
        s(" ");
        q(u->getElement(i));
      }
    }
    for (size_t i = 0; i < t->getRank(); ++i) {
      const ArrayDimension *d = (*t)[i];
      s(" ");
      if (d->hasExpression())
        expr(d->getExpression());
      else if (d->isDynamic())
        s(":");
      else
        o += "#" + std::to_string(d->getNumericSize());
    }
    s(")");
  }
  void index(const ForIndex *i) {
    s("(index ");
    q(i->getName());
    if (i->hasExpression()) {
      s(" ");
      expr(i->getExpression());
    }
    s(")");
  }
  void equation(const ASTNode *n) {
    if (auto *e = n->dyn_cast<EqualityEquation>()) {
      s("(eq ");
      expr(e->getLhsExpression());
      s(" ");
      expr(e->getRhsExpression());
      s(")");
    } else if (auto *f = n->dyn_cast<ForEquation>()) {
      s("(for (");
      for (size_t i = 0; i < f->getNumOfForIndices(); ++i) {
        if (i)
          s(" ");
        index(f->getForIndex(i));
      }
      s(")");
      for (size_t i = 0; i < f->getNumOfEquations(); ++i) {
        s(" ");
        equation(f->getEquation(i));
      }
      s(")");
    } else if (auto *c = n->dyn_cast<IfEquation>()) {
      s("(if (");
      expr(c->getIfCondition());
      for (size_t i = 0; i < c->getNumOfIfEquations(); ++i) {
        s(" ");
        equation(c->getIfEquation(i));
      }
      s(")");
      for (size_t k = 0; k < c->getNumOfElseIfConditions(); ++k) {
        s(" (");
        expr(c->getElseIfCondition(k));
        for (size_t i = 0; i < c->getNumOfElseIfEquations(k); ++i) {
          s(" ");
          equation(c->getElseIfEquation(k, i));
        }
        s(")");
      }
      if (c->hasElseEquations()) {
        s(" (else");
        for (size_t i = 0; i < c->getNumOfElseEquations(); ++i) {
          s(" ");
          equation(c->getElseEquation(i));
        }
        s(")");
      }
      s(")");
    } else if (auto *w = n->dyn_cast<WhenEquation>()) {
      s("(when (");
      expr(w->getWhenCondition());
      for (size_t i = 0; i < w->getNumOfWhenEquations(); ++i) {
        s(" ");
        equation(w->getWhenEquation(i));
      }
      s(")");
      for (size_t k = 0; k < w->getNumOfElseWhenConditions(); ++k) {
        s(" (");
        expr(w->getElseWhenCondition(k));
        for (size_t i = 0; i < w->getNumOfElseWhenEquations(k); ++i) {
          s(" ");
          equation(w->getElseWhenEquation(k, i));
        }
        s(")");
      }
      if (w->hasElseEquations()) {
        s(" (else");
        for (size_t i = 0; i < w->getNumOfElseEquations(); ++i) {
          s(" ");
          equation(w->getElseEquation(i));
        }
        s(")");
      }
      s(")");
    } else {
      s("(unknown-equation)");
    }
  }
  void block(const StatementsBlock *b) {
    s("(do");
    for (size_t i = 0; i < b->size(); ++i) {
      s(" ");
      statement((*b)[i]);
    }
    s(")");
  }
  void statement(const ASTNode *n) {
    if (auto *a = n->dyn_cast<AssignmentStatement>()) {
      s("(assign ");
      tuple(a->getDestinations());
      s(" ");
      expr(a->getExpression());
      s(")");
    } else if (auto *c = n->dyn_cast<CallStatement>()) {
      s("(callst ");
      expr(c->getCall());
      s(")");
    } else if (n->isa<BreakStatement>()) {
      s("(break)");
    } else if (n->isa<ReturnStatement>()) {
      s("(return)");
    } else if (auto *i = n->dyn_cast<IfStatement>()) {
      s("(if (");
      expr(i->getIfCondition());
      s(" ");
      block(i->getIfBlock());
      s(")");
      for (size_t k = 0; k < i->getNumOfElseIfBlocks(); ++k) {
        s(" (");
        expr(i->getElseIfCondition(k));
        s(" ");
        block(i->getElseIfBlock(k));
        s(")");
      }
      if (i->hasElseBlock()) {
        s(" (else ");
        block(i->getElseBlock());
        s(")");
      }
      s(")");
    } else if (auto *f = n->dyn_cast<ForStatement>()) {
      s("(for (");
      for (size_t k = 0; k < f->getNumOfForIndices(); ++k) {
        if (k)
          s(" ");
        index(f->getForIndex(k));
      }
      s(") (do");
      for (size_t k = 0; k < f->getNumOfStatements(); ++k) {
        s(" ");
        statement(f->getStatement(k));
      }
      s("))");
    } else if (auto *w = n->dyn_cast<WhileStatement>()) {
      s("(while ");
      expr(w->getCondition());
      s(" (do");
      for (size_t k = 0; k < w->size(); ++k) {
        s(" ");
        statement((*w)[k]);
      }
      s("))");
    } else if (auto *w = n->dyn_cast<WhenStatement>()) {
      s("(when ");
      expr(w->getCondition());
      s(" (do");
      for (size_t k = 0; k < w->size(); ++k) {
        s(" ");
        statement((*w)[k]);
      }
      s("))");
    } else {
      s("(unknown-statement)");
    }
  }
  void tuple(const Tuple *t) {
    s("(tuple");
    for (size_t i = 0; i < t->size(); ++i) {
      s(" ");
      expr(t->getExpression(i));
    }
    s(")");
  }
  void expr(const ASTNode *n) {
    if (auto *c = n->dyn_cast<Constant>()) {
      c->visit([&](const auto &v) {
        using T = std::decay_t<decltype(v)>;
        if constexpr (std::is_same_v<T, bool>)
          o += v ? "Btrue" : "Bfalse";
        else if constexpr (std::is_same_v<T, int64_t>)
          o += "I" + std::to_string(v);
        else if constexpr (std::is_same_v<T, double>)
          o += mo::Reference::real(v);
        else
          o += "S" + mo::Reference::quote(v);
      });
      span(n);
    } else if (auto *r = n->dyn_cast<ComponentReference>()) {
      if (r->isDummy()) {
        s("_");
        return;
      }
      s("(ref");
      if (r->isGlobalLookup())
        s(" .");
      for (size_t i = 0; i < r->getPathLength(); ++i) {
        auto *e = r->getElement(i);
        s(" (");
        q(e->getName());
        o += "@" + place(e->getLocation().begin);
        for (size_t k = 0; k < e->getNumOfSubscripts(); ++k) {
          s(" ");
          expr(e->getSubscript(k));
        }
        s(")");
      }
      s(")");
    } else if (auto *b = n->dyn_cast<Subscript>()) {
      s("(sub");
      if (!b->isUnbounded()) {
        s(" ");
        expr(b->getExpression());
      }
      s(")");
    } else if (auto *p = n->dyn_cast<Operation>()) {
      static const char *names[] = {"unknown", "negate", "add", "addEW", "subtract", "subtractEW", "multiply",
                                    "multiplyEW", "divide", "divideEW", "ifelse", "greater", "greaterEqual",
                                    "equal", "different", "lessEqual", "less", "land", "lor", "lnot",
                                    "subscription", "powerOf", "powerOfEW", "range"};
      static const OperationKind kinds[] = {
          OperationKind::unknown,      OperationKind::negate,     OperationKind::add,       OperationKind::addEW,
          OperationKind::subtract,     OperationKind::subtractEW, OperationKind::multiply,  OperationKind::multiplyEW,
          OperationKind::divide,       OperationKind::divideEW,   OperationKind::ifelse,    OperationKind::greater,
          OperationKind::greaterEqual, OperationKind::equal,      OperationKind::different, OperationKind::lessEqual,
          OperationKind::less,         OperationKind::land,       OperationKind::lor,       OperationKind::lnot,
          OperationKind::subscription, OperationKind::powerOf,    OperationKind::powerOfEW, OperationKind::range};
      const char *name = "unknown";
      for (size_t i = 0; i < sizeof kinds / sizeof *kinds; ++i)
        if (kinds[i] == p->getOperationKind())
          name = names[i];
      o += std::string("(") + name;
      for (auto &a : p->getArguments()) {
        s(" ");
        expr(a.get());
      }
      s(")");
    } else if (auto *t = n->dyn_cast<Tuple>()) {
      tuple(t);
    } else if (auto *k = n->dyn_cast<Call>()) {
      s("(call ");
      expr(k->getCallee());
      for (auto &a : k->getArguments()) {
        s(" ");
        argument(a.get());
      }
      s(")");
    } else if (auto *g = n->dyn_cast<ArrayForGenerator>()) {
      s("(generator ");
      expr(g->getValue());
      s(" (");
      for (unsigned i = 0; i < g->getNumIndices(); ++i) {
        if (i)
          s(" ");
        index(g->getIndex(i));
      }
      s("))");
    } else if (auto *a = n->dyn_cast<ArrayConstant>()) {
      s("(array");
      for (size_t i = 0; i < a->size(); ++i) {
        s(" ");
        expr((*a)[i]);
      }
      s(")");
    } else {
      s("(unknown-expression)");
    }
  }
  void argument(const ASTNode *n) {
    if (auto *e = n->dyn_cast<ExpressionFunctionArgument>()) {
      s("(arg ");
      expr(e->getExpression());
      s(")");
    } else if (auto *m = n->dyn_cast<NamedFunctionArgument>()) {
      s("(named ");
      q(m->getName());
      s(" ");
      argument(m->getValue());
      s(")");
    } else if (auto *r = n->dyn_cast<ReductionFunctionArgument>()) {
      s("(reduce ");
      expr(r->getExpression());
      s(" (");
      for (size_t i = 0; i < r->getNumOfForIndices(); ++i) {
        if (i)
          s(" ");
        index(r->getForIndex(i));
      }
      s("))");
    } else {
      s("(unknown-argument)");
    }
  }
};

const char *const kVocabulary[] = {
    "(", ")", "[", "]", "{", "}", ",", ";", ":", "=", ":=", ".", "+", "-", "*", "/", "^", ".+", ".*", "==", "<", "<>",
    "x", "y", "1", "2.5", "1.", "3e2", "\"s\"", "true", "end", "if", "then", "else", "elseif", "for", "in", "loop",
    "while", "when", "elsewhen", "initial", "equation", "algorithm", "public", "protected", "model", "function",
    "record", "package", "class", "der", "annotation", "external", "parameter", "constant", "input", "output", "final",
    "each", "and", "or", "not", "Real", "Integer", "break", "return", "der(x)", "/*", "*/", "//", "'", "\"", "#", "\\",
    "redeclare", "replaceable", "operator", "pure", "impure", "end x;", "x = y;", "x := y;", "Real z;", "within",
    "connect", "false", ">=", "<=", "./", ".^", ".-", "1e", "1.5e+", "99999999999999999999", "$x", "\n", "\x01"};
constexpr size_t kVocab = sizeof kVocabulary / sizeof *kVocabulary;
std::string damaged(const Load &l, int variant) { return damaged(l, variant, kVocabulary, kVocab); }

// ---- execution
struct Consumer : clang::DiagnosticConsumer {
  int errors = 0, others = 0;
  std::string first;
  void HandleDiagnostic(clang::DiagnosticsEngine::Level level, const clang::Diagnostic &info) override {
    if (level >= clang::DiagnosticsEngine::Error) {
      if (!errors++) {
        llvm::SmallString<128> m;
        info.FormatDiagnostic(m);
        first = m.str().str();
      }
    } else {
      ++others;
    }
  }
};
struct Outcome {
  bool ok = false;
  int errors = 0;
  std::string first, tree, copy;
};
Outcome compile(const std::string &text) {
  Outcome r;
  Consumer consumer;
  llvm::IntrusiveRefCntPtr<clang::DiagnosticOptions> options(new clang::DiagnosticOptions());
  clang::DiagnosticsEngine diags(llvm::IntrusiveRefCntPtr<clang::DiagnosticIDs>(new clang::DiagnosticIDs()), options,
                                 &consumer, false);
  auto file = std::make_shared<SourceFile>("program.mo");
  clang::SourceManagerForFile sm("program.mo", text);
  auto buffer = llvm::MemoryBuffer::getMemBufferCopy(text, "program.mo");
  file->setMemoryBuffer(buffer.get());
  std::unique_ptr<ASTNode> root, copy;
  {
    sim::instrument(true);
    mp::Parser parser(diags, sm.get(), file);
    auto result = parser.parseRoot();
    if (result.has_value()) {
      root = std::move(*result);
      if (root)
        copy = root->clone();
    }
    r.ok = result.has_value();
    sim::instrument(false);
  }
  r.errors = consumer.errors;
  r.first = consumer.first;
  if (r.ok && !root)
    sim::violation("silent-failure", "the parser returned no tree without failing, for the source:\n%s", escape(text).c_str());
  if (r.ok) {
    Dump d, e;
    d.root(root.get());
    sim::instrument(true);
    root.reset();
    sim::instrument(false);
    e.root(copy.get());
    sim::instrument(true);
    copy.reset();
    sim::instrument(false);
    r.tree = d.o;
    r.copy = e.o;
    sim::probe(P_COPY);
  }
  return r;
}
struct World {
  Load l;
  std::string tree; // of the intact program, when valid
  bool valid = false;
};
struct Client {
  World *w;
  int id;
};
const char *gIntact = "";
void examine(const std::string &text, const char *what, int id, int variant) {
  mo::Reference ref(text);
  Outcome o = compile(text);
  std::string shown = escape(text);
  if (shown.size() > 3000)
    shown = shown.substr(0, 3000) + "...";
  if (!o.ok && !o.errors)
    sim::violation("silent-failure", "client %d, %s %d: compilation failed without an error; source:\n%s", id, what, variant, shown.c_str());
  if (o.ok && o.errors)
    sim::violation(ref.verdict == mo::ACCEPT ? "spurious-diagnostic" : "accepted-invalid",
                   "client %d, %s %d: a tree was built, yet an error was reported (%s); source:\n%s", id, what, variant,
                   o.first.c_str(), shown.c_str());
  if (ref.verdict == mo::ACCEPT) {
    if (!o.ok)
      sim::violation("rejected-valid", "client %d, %s %d: valid program rejected (%s); source:\n%s", id, what, variant,
                     o.first.c_str(), shown.c_str());
    if (!mo::same(ref.tree, o.tree))
      sim::violation("wrong-tree", "client %d, %s %d: expected\n%.1800s\ngot\n%.1800s\nsource:\n%.1500s", id, what, variant,
                     ref.tree.c_str(), o.tree.c_str(), shown.c_str());
  } else if (ref.verdict == mo::REJECT && o.ok)
    sim::violation("accepted-invalid", "client %d, %s %d: accepted, while it is no program from offset %zu on; tree\n%.1500s\nsource:\n%s",
                   id, what, variant, ref.errorPos, o.tree.c_str(), shown.c_str());
  if (o.ok && o.tree != o.copy)
    sim::violation("wrong-copy", "client %d, %s %d: the tree is\n%.1800s\nits copy\n%.1800s\nsource:\n%.1500s", id, what, variant,
                   o.tree.c_str(), o.copy.c_str(), shown.c_str());
  if (variant < 0 && id == 0)
    gIntact = ref.verdict == mo::ACCEPT ? "valid" : ref.verdict == mo::REJECT ? "invalid" : o.ok ? "grey-accepted" : "grey-rejected";
  sim::probe(ref.verdict == mo::ACCEPT ? P_ACCEPT : ref.verdict == mo::REJECT ? P_REJECT : P_GREY);
  if (ref.verdict == mo::GREY && o.ok)
    sim::probe(P_GREYOK);
  if (variant >= 0)
    sim::probe(ref.verdict == mo::ACCEPT ? P_FAULTY_ACCEPT : P_FAULTY_REJECT);
}
void clientMain(void *arg) {
  sim::instrument(false);
  auto *c = (Client *)arg;
  Load &l = c->w->l;
  if (c->id == 0 || l.clients > 1)
    examine(damaged(l, -1), "intact program", c->id, -1);
  for (int v = 0; v < l.variants; ++v) {
    if (v % l.clients != c->id)
      continue;
    bool any = false;
    for (auto &f : l.faults)
      if (f.variant == v) {
        any = true;
        ++sim::result().faults[faultKind(f.kind)];
      }
    if (any)
      examine(damaged(l, v), "damaged program", c->id, v);
  }
}

// ---- generation of programs
struct Gen {
  sim::Rng &r;
  std::vector<std::string> t;
  int budget;
  int focus; // a kind of equation or statement that is preferred
  Gen(sim::Rng &r, int budget) : r(r), budget(budget), focus((int)r.below(10)) {}
  bool p(int n) { return r.below(n) == 0; }
  void k(const std::string &s) {
    --budget;
    t.push_back(s);
  }
  std::string name() {
    static const char *n[] = {"x", "y", "z", "i", "j", "a1", "_b", "Foo", "ending", "der1", "inputs", "e1", "E", "$v", "initial_", "if_", "x2y",
                              "'a b'", "'it\\'s'", "'+'", "T", "Real_", "longNameOfSomething", "'\\n'", "'end'"};
    return n[r.below(4) ? r.below(8) : r.below(sizeof n / sizeof *n)];
  }
  std::string exponent() {
    static const char *e[] = {"e", "E", "e-", "E-", "e+", "E+"};
    return e[r.below(6)] + std::string(p(8) ? "0" : "") + std::to_string(r.below(40));
  }
  std::string number() {
    static const char *n[] = {"0", "1", "2", "10", "007", "123456789", "999999999999999999", "1.5", "0.25", "1.", "0.", "3.14159265358979",
                              "1e3", "1E+2", "2e-3", "1.e2", "1.5e-10", "0.001", "0.0e0", "100.0625", "12345.678901234567890123", "9e15",
                              "0.1e1", "1e-30", "00.5", "1.0E5"};
    if (p(3))
      return std::to_string(r.below(100));
    if (p(8)) { // made of random digits
      std::string s;
      for (int i = 0, e = 1 + (int)r.below(p(2) ? 20 : 4); i < e; ++i)
        s += (char)('0' + r.below(10));
      if (p(4))
        return s + exponent();
      s += ".";
      for (int i = 0, e = (int)r.below(24); i < e; ++i)
        s += (char)('0' + (p(2) ? 0 : r.below(10)));
      if (p(3))
        s += exponent();
      return s;
    }
    return n[r.below(sizeof n / sizeof *n)];
  }
  std::string str() {
    static const char *n[] = {"\"\"", "\"C\"", "\"a b\"", "\"it's\"", "\"q\\\"q\"", "\"back\\\\\"", "\"line\\nbreak\"", "\"/* no */\"",
                              "\"// no\"", "\"tab\tand\nnewline\"", "\"\\a\\b\\f\\r\\t\\v\\z\""};
    return n[r.below(sizeof n / sizeof *n)];
  }
  void refer(int depth) {
    if (p(25))
      k(".");
    do {
      k(name());
      if (p(4) && depth > 0)
        subs(depth - 1);
    } while (p(5) && (k("."), true));
  }
  void subs(int depth) {
    k("[");
    do {
      if (p(5))
        k(":");
      else
        expr(depth);
    } while (p(3) && (k(","), true));
    k("]");
  }
  void indices(int depth) {
    do {
      k(name());
      if (!p(8)) {
        k("in");
        expr(depth);
      }
    } while (p(4) && (k(","), true));
  }
  void args(int depth) {
    k("(");
    if (!p(5)) {
      int pos = (int)r.below(3), named = p(4) ? 1 + (int)r.below(2) : 0;
      bool first = true;
      for (int i = 0; i < pos; ++i) {
        if (!first)
          k(",");
        expr(depth - 1);
        if (first && p(8)) {
          k("for");
          indices(depth - 1);
          k(")");
          return;
        }
        first = false;
      }
      for (int i = 0; i < named; ++i) {
        if (!first)
          k(",");
        first = false;
        k(name());
        k("=");
        expr(depth - 1);
      }
    }
    k(")");
  }
  void primary(int depth) {
    int c = depth <= 0 || budget < 0 ? (int)r.below(6) : (int)r.below(14);
    switch (c) {
    case 0:
    case 1:
      return k(number());
    case 2:
      return k(p(3) ? "true" : p(2) ? "false" : str());
    case 3:
    case 4:
    case 5:
    case 6:
      return refer(depth);
    case 7:
    case 8: {
      k("(");
      int n = p(3) ? (int)r.below(4) : 1;
      for (int i = 0; i < n; ++i) {
        if (i)
          k(",");
        if (n > 1 && i + 1 < n && p(6))
          continue; // omitted
        expr(depth - 1);
      }
      k(")");
      if (p(6))
        subs(depth - 1);
      return;
    }
    case 9: {
      k("{");
      expr(depth - 1);
      if (p(4)) {
        k("for");
        indices(depth - 1);
      } else
        while (p(2)) {
          k(",");
          expr(depth - 1);
        }
      k("}");
      if (p(8))
        subs(depth - 1);
      return;
    }
    case 10:
      k("der");
      args(depth);
      if (p(10))
        subs(depth - 1);
      return;
    default:
      refer(1);
      args(depth);
      if (p(8))
        subs(depth - 1);
    }
  }
  void arith(int depth) {
    if (p(8))
      k(p(4) ? "+" : "-");
    int terms = p(3) ? 2 + (int)r.below(2) : 1;
    for (int i = 0; i < terms; ++i) {
      if (i) {
        static const char *ops[] = {"+", "-", "+", "-", ".+", ".-"};
        k(ops[r.below(6)]);
      }
      int fs = p(4) ? 2 + (int)r.below(2) : 1;
      for (int j = 0; j < fs; ++j) {
        if (j) {
          static const char *ops[] = {"*", "/", "*", "/", ".*", "./"};
          k(ops[r.below(6)]);
        }
        primary(depth - 1);
        if (p(8)) {
          k(p(3) ? ".^" : "^");
          primary(depth - 1);
        }
      }
    }
  }
  void logical(int depth) {
    int a = p(10) ? 2 + (int)r.below(2) : 1;
    for (int i = 0; i < a; ++i) {
      if (i)
        k("or");
      int b = p(10) ? 2 + (int)r.below(2) : 1;
      for (int j = 0; j < b; ++j) {
        if (j)
          k("and");
        if (p(20))
          k("not");
        arith(depth);
        if (p(8)) {
          static const char *ops[] = {"<", "<=", ">", ">=", "==", "<>"};
          k(ops[r.below(6)]);
          arith(depth);
        }
      }
    }
  }
  void expr(int depth) {
    if (depth <= 0 || budget < 0) {
      if (p(2))
        k(number());
      else
        k(name());
      return;
    }
    if (p(15)) {
      k("if");
      expr(depth - 1);
      k("then");
      expr(depth - 1);
      k("else");
      expr(depth - 1);
      return;
    }
    logical(depth);
    if (p(10)) {
      k(":");
      logical(depth - 1);
      if (p(3)) {
        k(":");
        logical(depth - 1);
      }
    }
  }
  void commentString() {
    if (p(6))
      k(str());
  }
  void equations(int n, int depth) {
    for (int i = 0; i < n && budget > 0; ++i)
      equation(depth);
  }
  void equation(int depth) {
    int c = depth > 0 ? (int)r.below(8) : 0;
    if (depth > 0 && focus < 4 && focus && p(2))
      c = 4 + focus;
    if (c < 5) {
      expr(3);
      k("=");
      expr(3);
    } else if (c == 5) {
      k("for");
      indices(2);
      k("loop");
      equations((int)r.below(3), depth - 1);
      k("end");
      k("for");
    } else if (c == 6) {
      k("if");
      expr(2);
      k("then");
      equations((int)r.below(3), depth - 1);
      while (p(2)) {
        k("elseif");
        expr(2);
        k("then");
        equations((int)r.below(3), depth - 1);
      }
      if (p(2)) {
        k("else");
        equations((int)r.below(3), depth - 1);
      }
      k("end");
      k("if");
    } else {
      k("when");
      expr(2);
      k("then");
      equations((int)r.below(3), depth - 1);
      while (p(2)) {
        k("elsewhen");
        expr(2);
        k("then");
        equations((int)r.below(3), depth - 1);
      }
      k("end");
      k("when");
    }
    if (c < 5 || p(6))
      commentString();
    k(";");
  }
  void statements(int n, int depth) {
    for (int i = 0; i < n && budget > 0; ++i)
      statement(depth);
  }
  void statement(int depth) {
    int c = depth > 0 ? (int)r.below(12) : (int)r.below(7);
    if (depth > 0 && focus < 4 && focus && p(2))
      c = focus == 1 ? 7 : focus == 2 ? 9 : 11;
    switch (c) {
    case 0:
    case 1:
    case 2:
    case 3:
      refer(2);
      k(":=");
      expr(3);
      break;
    case 4: {
      k("(");
      int n = 1 + (int)r.below(3);
      for (int i = 0; i < n; ++i) {
        if (i)
          k(",");
        if (i + 1 < n && p(4))
          continue;
        refer(1);
      }
      k(")");
      k(":=");
      refer(1);
      args(2);
      break;
    }
    case 5:
      refer(1);
      args(2);
      break;
    case 6:
      k(p(2) ? "break" : "return");
      break;
    case 7:
    case 8:
      k("if");
      expr(2);
      k("then");
      statements((int)r.below(3), depth - 1);
      while (p(2)) {
        k("elseif");
        expr(2);
        k("then");
        statements((int)r.below(3), depth - 1);
      }
      if (p(2)) {
        k("else");
        statements((int)r.below(3), depth - 1);
      }
      k("end");
      k("if");
      break;
    case 9:
    case 10:
      k("for");
      indices(2);
      k("loop");
      statements((int)r.below(3), depth - 1);
      k("end");
      k("for");
      break;
    default: {
      bool loop = p(2);
      k(loop ? "while" : "when");
      expr(2);
      k(loop ? "loop" : "then");
      statements((int)r.below(3), depth - 1);
      k("end");
      k(loop ? "while" : "when");
    }
    }
    k(";");
  }
  void classMod(int depth) {
    k("(");
    if (!p(8))
      do {
        if (p(8))
          k("each");
        if (p(10))
          k("final");
        k(p(3) ? "start" : p(3) ? "fixed" : name());
        if (p(4) && depth > 0) {
          classMod(depth - 1);
          if (p(3)) {
            k("=");
            expr(2);
          }
        } else if (!p(6)) {
          k(p(10) ? ":=" : "=");
          expr(2);
        }
      } while (p(3) && (k(","), true));
    k(")");
  }
  void annotation() {
    k("annotation");
    classMod(2);
  }
  void element() {
    if (p(12))
      k("final");
    if (p(4))
      k(p(3) ? "discrete" : p(2) ? "parameter" : "constant");
    if (p(4))
      k(p(2) ? "input" : "output");
    if (p(3)) {
      if (p(8))
        k(".");
      k(p(3) ? "Foo" : name());
      while (p(2)) {
        k(".");
        k(name());
      }
    } else
      k(p(3) ? "Integer" : p(4) ? "Boolean" : p(6) ? "String" : "Real");
    if (p(4)) {
      k("[");
      do {
        if (p(4))
          k(":");
        else if (p(2))
          k(std::to_string(r.below(10)));
        else
          expr(2);
      } while (p(3) && (k(","), true));
      k("]");
    }
    k(name());
    if (p(5))
      classMod(2);
    if (p(4)) {
      k("=");
      expr(3);
    }
    commentString();
    if (p(12))
      annotation();
    k(";");
  }
  void elements(int n, int depth) {
    for (int i = 0; i < n && budget > 0; ++i) {
      if (p(8) && depth > 0)
        klass(depth - 1);
      else
        element();
    }
  }
  void klass(int depth) {
    bool fun = false;
    switch (r.below(6)) {
    case 0:
      k("function");
      fun = true;
      break;
    case 1:
      k("record");
      break;
    case 2:
      k("package");
      break;
    case 3:
      k("class");
      break;
    case 4:
      if (p(3))
        k(p(2) ? "pure" : "impure");
      if (!t.empty() && t.back() != "pure" && t.back() != "impure" && p(8))
        k("operator");
      k("function");
      fun = true;
      break;
    default:
      k("model");
    }
    std::string n = name();
    k(n);
    if (fun && p(6)) {
      k("=");
      k("der");
      k("(");
      refer(0);
      while (p(2)) {
        k(",");
        k(name());
      }
      k(")");
      commentString();
      k(";");
      return;
    }
    commentString();
    elements((int)r.below(4), depth);
    for (int i = 0, e = (int)r.below(5); i < e && budget > 0; ++i) {
      switch (r.below(6)) {
      case 0:
        k("public");
        elements((int)r.below(3), depth);
        break;
      case 1:
        k("protected");
        elements((int)r.below(3), depth);
        break;
      case 2:
      case 3:
        if (p(3))
          k("initial");
        k("equation");
        equations((int)r.below(4), 2);
        break;
      default:
        if (p(3))
          k("initial");
        k("algorithm");
        statements((int)r.below(4), 2);
      }
    }
    if (fun && p(4)) {
      k("external");
      if (p(2))
        k(str());
      if (p(2)) {
        if (p(2)) {
          refer(1);
          k("=");
        }
        k(name());
        k("(");
        for (int i = 0, e = (int)r.below(3); i < e; ++i) {
          if (i)
            k(",");
          expr(1);
        }
        k(")");
      }
      if (p(3))
        annotation();
      k(";");
    }
    if (p(6)) {
      annotation();
      k(";");
    }
    k("end");
    k(n);
    k(";");
  }
  std::string space() {
    static const char *n[] = {" ", " ", " ", "\n", "\n  ", "\t", "\r\n", "  ", " /* c */ ", "/**/", "// c\n", "/* a * b / c **/", "/*\n\n*/", " //\n ", "\x0b"};
    return n[p(4) ? r.below(sizeof n / sizeof *n) : r.below(3)];
  }
  static bool word(char c) { return mo::nondigit(c) || mo::digit(c) || c == '$' || c == '\'' || c == '"' || c == '.'; }
  std::vector<std::string> spaced() {
    std::vector<std::string> o;
    for (size_t i = 0; i < t.size(); ++i) {
      std::string s;
      if (i) {
        char a = t[i - 1].back(), b = t[i][0];
        // Two tokens may touch when they stay two tokens.
        bool touch = !(word(a) && word(b)) && !strchr("+-*/^.<>:=", a) && !strchr("=>", b) && b != '/';
        if (strchr("()[]{},;", a) && !strchr("=", b))
          touch = true;
        if (a == '.' || b == '.' || (b == '/' && a == '/') )
          touch = touch && !mo::digit(a) && !mo::digit(b) && word(b) && a == '.' && t[i - 1] == ".";
        s = touch && !p(3) ? "" : space();
        if (s.empty() && !touch)
          s = " ";
        if (!s.empty() && s[0] == '/' && a == '/')
          s = " " + s;
        if (!s.empty() && s[0] == '/' && a == '.')
          s = " " + s;
      } else if (p(10))
        s = space();
      o.push_back(s + t[i]);
    }
    if (p(3))
      o.push_back(space());
    return o;
  }
};
} // namespace

std::string harnessGenerate(sim::Rng &r, const char *) {
  auto num = [](uint64_t v) { return std::to_string(v); };
  int budget = r.below(3) ? 20 + (int)r.below(80) : 100 + (int)r.below(300);
  Gen g(r, budget);
  int classes = r.below(10) ? 1 + (int)r.below(2) : (int)r.below(4);
  for (int i = 0; i < classes; ++i)
    g.klass(2);
  int clients = 1 + (int)r.below(3);
  std::string s = "O clients " + num(clients) + "\n";
  size_t bytes = 1;
  auto toks = g.spaced();
  for (auto &t : toks) {
    s += "T " + escape(t) + "\n";
    bytes += t.size();
  }
  s += drawFaults(r, toks.size(), bytes, kVocab);
  return s;
}

bool harnessExecute(const std::string &text, const char *) {
  sim::instrument(false);
  World w;
  if (!parseLoad(text, w.l))
    return false;
  std::vector<Client> cs(w.l.clients);
  std::vector<int> ids;
  for (int i = 0; i < w.l.clients; ++i) {
    cs[i] = {&w, i};
    ids.push_back(sim::spawn(clientMain, &cs[i], "client"));
  }
  for (int id : ids)
    sim::join(id);
  snprintf(sim::result().extra, sizeof(sim::result().extra), "clients=%d tokens=%zu variants=%d intact=%s", w.l.clients, w.l.toks.size(),
           w.l.variants, gIntact);
  return true;
}
