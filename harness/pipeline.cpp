// The compilation pipeline as a whole: from the text of a model to the
// schedule and the explicit equations handed to code generation.
#include "interp.h"
#include "model.h"
#include "../sim/simpool.h"
#include "marco/AST/BaseModelica/AST.h"
#include "marco/Codegen/Lowering/BaseModelica/Bridge.h"
#include "marco/Dialect/BaseModelica/Transforms/AllocationOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/ClassInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/ConstantMaterializableTypeInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/DerivableTypeInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/InvertibleOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/Passes.h"
#include "marco/Dialect/BaseModelica/Transforms/RuntimeVerifiableOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/VectorizableOpInterfaceImpl.h"
#include "marco/Dialect/IDA/IR/Dialect.h"
#include "marco/Dialect/KINSOL/IR/Dialect.h"
#include "marco/Dialect/Modeling/IR/Dialect.h"
#include "marco/Parser/BaseModelica/Parser.h"
#include "mlir/Dialect/DLTI/DLTI.h"
#include "mlir/Dialect/Tensor/IR/Tensor.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Transforms/Passes.h"
#include "clang/Basic/FileManager.h"
#include "clang/Basic/SourceManager.h"
#include "system.h"

using namespace mlir::bmodelica;

enum { P_OK, P_REFUSED, P_MUST, P_SINGULAR, P_UNSUP, P_STATES, P_GROUPS, P_PARITEMS, P_BACK, P_OUTPUTS, P_LOOP, P_INSTANT, P_PROMOTED, P_SOLVER, P_DERIV, P_NEWTON };
const char *const harnessProbes[] = {"compiled", "refused", "must_compile", "singular_model", "not_interpreted", "with_states",
                                     "parallel_block_groups", "parallel_iterations", "backward_recurrence", "with_outputs",
                                     "not_triangular", "runtime_schedulers", "promoted_to_parameters", "newton_solvers", "derivatives_compared", "newton_gave_up", nullptr};
const char *const harnessFaults[] = {nullptr};

static mlir::MLIRContext *gCtx;
namespace verif_compat { void forgetLocked(); }

void harnessBoot(const char *) {
  mlir::DialectRegistry r;
  r.insert<mlir::arith::ArithDialect, mlir::tensor::TensorDialect, mlir::scf::SCFDialect, mlir::DLTIDialect>();
  r.insert<mlir::modeling::ModelingDialect, BaseModelicaDialect, mlir::ida::IDADialect, mlir::kinsol::KINSOLDialect, mlir::runtime::RuntimeDialect>();
  registerAllocationOpInterfaceExternalModels(r);
  registerClassInterfaceExternalModels(r);
  registerDerivableOpInterfaceExternalModels(r);
  registerEquationExpressionOpInterfaceExternalModels(r);
  registerInvertibleOpInterfaceExternalModels(r);
  registerRuntimeVerifiableOpInterfaceExternalModels(r);
  registerVectorizableOpInterfaceExternalModels(r);
  registerConstantMaterializableTypeInterfaceExternalModels(r);
  registerDerivableTypeInterfaceExternalModels(r);
  gCtx = new mlir::MLIRContext(r, mlir::MLIRContext::Threading::DISABLED);
  gCtx->loadAllAvailableDialects();
}

void harnessConfig(sim::Config &c, sim::Rng &, const char *) { c.maxEvents = 400000000ull; }

std::string harnessGenerate(sim::Rng &r, const char *mode) {
  mdl::Gen g{r};
  mdl::Model m = g();
  auto opt = [&](const char *n, int v) { m.opt[n] = std::to_string(v); };
  opt("rovp", r.chance(3));
  opt("prune", !r.chance(3));
  opt("promote", !r.chance(3));
  opt("sve", !r.chance(3));
  opt("cse", !r.chance(3));
  // The number of cycles to enumerate may explode.
  opt("subst", g.crossed ? 0 : !r.chance(4));
  opt("siter", r.chance(3) ? 1 + (int)r.below(4) : 12);
  opt("scal", !r.chance(3));
  opt("thr", r.chance(3) ? 0 : 50);
  opt("par", r.chance(3) ? (int)r.below(4) : -1); // blocks per group, 0: no parallelization
  opt("sched", r.chance(3));
  opt("mono", r.chance(4));
  opt("newton", (int)r.below(3)); // 2: with all derivatives
  opt("exec", (int)r.below(1000000));
  return mdl::print(m);
}

namespace {
struct Quiet : clang::DiagnosticConsumer {
  int errors = 0;
  std::string first;
  void HandleDiagnostic(clang::DiagnosticsEngine::Level l, const clang::Diagnostic &i) override {
    if (l >= clang::DiagnosticsEngine::Error) {
      ++errors;
      llvm::SmallString<200> s;
      i.FormatDiagnostic(s);
      if (first.empty())
        first = s.str().str();
    }
  }
};
bool expandModel(const mdl::Model &m, std::vector<mdl::Scalar> &eqs) {
  for (auto &v : m.vars)
    for (int d : v.dims)
      if (d < 1)
        return false;
  return mdl::expand(m, eqs);
}
std::string show(const mdl::Key &k) {
  std::string s = k.first;
  for (int i : k.second)
    s += "[" + std::to_string(i) + "]";
  return s;
}
} // namespace

bool harnessExecute(const std::string &workload, const char *mode) {
  mdl::Model m;
  sim::instrument(false);
  if (!mdl::parse(workload, m))
    return false;
  std::vector<mdl::Scalar> all, dyn;
  if (m.eqs.empty() || !expandModel(m, all))
    return false;
  // What is to be determined, and from what.
  mdl::Values vals;
  std::set<mdl::Key> unknown, unknown0; // after, and at, the initial time
  std::set<std::string> states, derived;
  bool outs = false;
  for (auto &s : all)
    for (auto &k : s.keys)
      if (k.first.compare(0, 4, "der(") == 0)
        derived.insert(k.first.substr(4, k.first.size() - 5));
  for (auto &v : m.vars) {
    int n = 0;
    for (auto &p : mdl::points(v.dims)) {
      if (v.kind == "par")
        vals[{v.name, p}] = v.value + n++;
      else if (v.kind == "state")
        vals[{v.name, p}] = v.value;
      else if (v.kind == "istate")
        unknown0.insert({v.name, p});
      else
        unknown.insert({v.name, p});
      if (derived.count(v.name))
        unknown.insert({"der(" + v.name + ")", p});
    }
    outs |= v.kind == "out";
    if (v.kind == "state" || v.kind == "istate") {
      if (!derived.count(v.name))
        return false;
      states.insert(v.name);
    } else if (derived.count(v.name))
      return false;
  }
  for (auto &s : all)
    if (!m.eqs[s.eq].initial)
      dyn.push_back(s);
  unknown0.insert(unknown.begin(), unknown.end());
  std::map<int, mdl::Key> order, order0;
  mdl::Values ref = vals;
  bool backward = false;
  bool solvable0 = mdl::substitute(m, all, unknown0, ref, order0);
  bool must = solvable0 && mdl::ordered(m, all, order0, &backward);
  // The same once the states are known (whatever their values).
  mdl::Values known = vals;
  for (auto &v : m.vars)
    if (v.kind == "istate")
      for (auto &p : mdl::points(v.dims))
        known[{v.name, p}] = ref.count({v.name, p}) ? ref[{v.name, p}] : 1.0;
  bool solvable = mdl::substitute(m, dyn, unknown, known, order);
  must = must && solvable && mdl::ordered(m, dyn, order, &backward);
  auto unmatched = [&](const std::vector<mdl::Scalar> &eqs, const std::set<mdl::Key> &un) {
    if (eqs.size() != un.size())
      return true;
    sys::Bip b;
    b.nl = b.nr = (int)eqs.size();
    b.adj.resize(b.nl);
    std::map<mdl::Key, int> id;
    for (auto &k : un)
      id[k] = (int)id.size();
    for (int i = 0; i < b.nl; ++i)
      for (auto &k : eqs[i].keys)
        if (id.count(k))
          b.adj[i].push_back(id[k]);
    return b.solve() != b.nl;
  };
  bool singular = unmatched(dyn, unknown) || unmatched(all, unknown0);
  // A state whose derivative is not determined for all of its elements.
  std::string text = mdl::text(m);
  if (getenv("VERIF_SHOW"))
    fprintf(stderr, "%smust %d solvable %d singular %d\n", text.c_str(), must, solvable, singular);

  // ---- from the text to the module
  Quiet quiet;
  clang::DiagnosticsEngine diags(new clang::DiagnosticIDs(), new clang::DiagnosticOptions(), &quiet, false);
  clang::SourceManagerForFile sm("p.mo", text);
  auto file = std::make_shared<marco::SourceFile>("p.mo");
  auto buffer = llvm::MemoryBuffer::getMemBufferCopy(text, "p.mo");
  file->setMemoryBuffer(buffer.get());
  marco::parser::bmodelica::Parser parser(diags, sm.get(), file);
  auto root = parser.parseRoot();
  if (!root.has_value())
    sim::internalError("the generated model does not parse: %s", quiet.first.c_str());
  int errors = 0;
  std::string message;
  mlir::ScopedDiagnosticHandler handler(gCtx, [&](mlir::Diagnostic &d) {
    sim::Pause p;
    if (d.getSeverity() == mlir::DiagnosticSeverity::Error) {
      ++errors;
      message += (message.empty() ? "" : "; ") + d.str();
    }
    return mlir::success();
  });
  marco::codegen::lowering::bmodelica::Bridge bridge(*gCtx);
  if (!bridge.lower(*(*root)->cast<marco::ast::bmodelica::Root>()))
    sim::violation("refused-model", "the model is not lowered: %s", message.c_str());
  auto module = std::move(bridge.getMLIRModule());

  // ---- the pipeline (FrontendActions.cpp)
  verif_compat::forgetLocked();
  sim::SimThreadPool *pool = new sim::SimThreadPool(sim::config().workers);
  gCtx->setThreadPool(*pool);
  mlir::PassManager pm(gCtx);
  auto on = [&](const char *n) { return m.option(n, 0) != 0; };
  pm.addPass(mlir::createCanonicalizerPass());
  if (on("rovp")) {
    pm.addPass(createReadOnlyVariablesPropagationPass());
    pm.addPass(mlir::createCanonicalizerPass());
  }
  pm.addPass(createAutomaticDifferentiationPass());
  pm.addPass(createDerivativeChainRulePass());
  pm.addPass(createPureFunctionInliningPass());
  pm.addPass(createRecordInliningPass());
  pm.addPass(createFunctionUnwrapPass());
  pm.addPass(createFunctionManglingPass());
  pm.addPass(mlir::createCanonicalizerPass());
  pm.addPass(createRangeBoundariesInferencePass());
  pm.addPass(mlir::createCanonicalizerPass());
  pm.addPass(createEquationSidesSplitPass());
  pm.addPass(createEquationInductionsExplicitationPass());
  pm.addPass(createViewAccessFoldingPass());
  pm.addPass(createEquationTemplatesCreationPass());
  if (on("cse"))
    pm.addPass(createCallCSEPass());
  pm.addPass(createDerivativesMaterializationPass());
  pm.addPass(createBindingEquationConversionPass());
  pm.addPass(createExplicitStartValueInsertionPass());
  pm.addPass(createModelAlgorithmConversionPass());
  pm.addPass(createExplicitInitialEquationsInsertionPass());
  pm.addPass(mlir::createCanonicalizerPass());
  pm.addPass(createDerivativesMaterializationPass());
  pm.addPass(createDerivativesInitializationPass());
  MatchingPassOptions mo;
  mo.enableScalarization = on("scal");
  mo.scalarAccessThreshold = m.option("thr", 50) / 100.0;
  pm.addPass(createMatchingPass(mo));
  pm.addPass(createEquationAccessSplitPass());
  pm.addPass(createScalarRangesEquationSplitPass());
  if (on("sve"))
    pm.addPass(createSingleValuedInductionEliminationPass());
  if (on("prune"))
    pm.addPass(createVariablesPruningPass());
  pm.addPass(createSCCDetectionPass());
  if (on("promote"))
    pm.addPass(createVariablesPromotionPass());
  if (on("subst")) {
    SCCSolvingBySubstitutionPassOptions o;
    // Each round may double what it works on.
    o.maxIterations = m.option("siter", 8);
    pm.addPass(createSCCSolvingBySubstitutionPass(o));
  }
  pm.addPass(mlir::createCanonicalizerPass());
  if (on("sve"))
    pm.addPass(createSingleValuedInductionEliminationPass());
  EulerForwardPassOptions eo;
  eo.rangedStateUpdateFunctions = !on("mono");
  pm.addPass(createEulerForwardPass(eo));
  pm.addPass(createInitialConditionsSolvingPass());
  pm.addPass(createSchedulingPass());
  pm.addPass(createEquationExplicitationPass());
  if (on("newton")) {
    SCCSolvingWithKINSOLPassOptions ko;
    ko.reducedDerivatives = m.option("newton", 0) == 1;
    pm.addPass(createSCCSolvingWithKINSOLPass(ko));
  }
  pm.addPass(createSCCAbsenceVerificationPass());
  if (m.option("par", -1)) {
    ScheduleParallelizationPassOptions po;
    po.maxParallelBlocks = m.option("par", -1);
    pm.addPass(createScheduleParallelizationPass(po));
    if (on("sched"))
      pm.addPass(createSchedulersInstantiationPass());
  }
  sim::instrument(true);
  bool ok = mlir::succeeded(pm.run(*module));
  sim::instrument(false);
  if (getenv("VERIF_SHOW")) {
    module->print(llvm::errs(), mlir::OpPrintingFlags().useLocalScope());
    fprintf(stderr, "\nok %d %s\n", ok, message.c_str());
  }
  snprintf(sim::result().extra, sizeof(sim::result().extra), "eqs=%zu must=%d solvable=%d singular=%d ok=%d", dyn.size(), must, solvable, singular, ok);
  sim::probe(ok ? P_OK : P_REFUSED);
  if (must)
    sim::probe(P_MUST);
  if (must && backward)
    sim::probe(P_BACK);
  if (singular)
    sim::probe(P_SINGULAR);
  if (!(solvable && solvable0) && !singular)
    sim::probe(P_LOOP);
  if (!states.empty())
    sim::probe(P_STATES);
  if (outs)
    sim::probe(P_OUTPUTS);
  // What can be differentiated can be left to the solver.
  std::function<bool(const mdl::Node &)> smooth = [&](const mdl::Node &n) {
    for (const char *o : {"min", "max", "abs", "if", "sum", "{"})
      if (n.op == o)
        return false;
    if (n.k.empty() && !n.op.empty() && strtod(n.op.c_str(), nullptr) == 0 && (isdigit(n.op[0]) || n.op[0] == '-'))
      return false;
    if (auto *v = m.find(n.op); v && n.k.size() < v->dims.size())
      return false;
    for (auto &k : n.k)
      if (!smooth(k))
        return false;
    return true;
  };
  bool loops = on("newton") && !singular;
  for (auto &e : m.eqs)
    loops = loops && smooth(e.l) && smooth(e.r);
  if (!ok) {
    if (loops && !must)
      sim::violation("refused-loop", "a model whose equations can be left to a solver is refused: %.800s", message.c_str());
    if (must)
      sim::violation(message.find("unsolved SCC") != std::string::npos ? "refused-unsolved" : message.find("' op ") != std::string::npos ? "refused-op" : "refused-model", "a model whose equations can be ordered is refused: %.800s", message.c_str());
    if (!errors)
      sim::violation("silent-failure", "the model is refused without an error");
    return true;
  }
  if (singular)
    sim::violation("accepted-singular", "a structurally singular model is compiled");

  // ---- what the result computes
  ir::Interp in(*module, (uint64_t)m.option("exec", 1));
  auto finish = [&]() {
    if (!in.error.empty())
      sim::violation("wrong-code", "%s", in.error.c_str());
    if (!in.unsupported.empty()) {
      sim::probe(in.unsolved ? P_NEWTON : P_UNSUP);
      if (getenv("VERIF_SHOW"))
        fprintf(stderr, "unsupported %s\n", in.unsupported.c_str());
      return false;
    }
    return true;
  };
  if (!in.start())
    return true;
  auto collect = [&](mdl::Values &v) {
    v.clear();
    for (auto &d : m.vars) {
      for (int der = 0; der < 2; ++der) {
        auto f = in.vars.find((der ? "der_" : "") + d.name);
        if (f == in.vars.end() || (der && !derived.count(d.name)))
          continue;
        auto pts = mdl::points(d.dims);
        if (pts.size() != f->second.d.size())
          sim::violation("wrong-code", "variable %s has another shape", d.name.c_str());
        for (size_t i = 0; i < pts.size(); ++i)
          v[{der ? "der(" + d.name + ")" : d.name, pts[i]}] = f->second.d[i];
      }
    }
  };
  auto check = [&](const mdl::Values &v, const mdl::Values &reference, bool known, const std::vector<mdl::Scalar> &eqs, const char *when) {
    if (known)
      for (auto &k : reference) {
        auto f = v.find(k.first);
        const mdl::Var *d = m.find(k.first.first);
        bool needed = !outs || !on("prune") || (d && d->kind == "out");
        if (f == v.end()) {
          if (needed)
            sim::violation("wrong-code", "%s: variable %s is gone", when, show(k.first).c_str());
          continue;
        }
        if (!(std::fabs(f->second - k.second) <= 1e-6 * (1 + std::fabs(k.second))))
          sim::violation("wrong-values", "%s: %s is %.9g instead of %.9g", when, show(k.first).c_str(), f->second, k.second);
      }
    else if (!outs || !on("prune"))
      for (auto &s : eqs) {
        double r = mdl::residual(m, s, v);
        double g = mdl::magnitude(m, s, v);
        if (!(g < 1e6))
          continue;
        // A division by zero that the model itself asks for.
        bool defined = true;
        for (auto &k : s.keys) {
          auto f = v.find(k);
          if (f == v.end() || !std::isfinite(f->second))
            defined = false;
        }
        if (defined && !std::isfinite(r))
          continue;
        if (!(std::fabs(r) <= 1e-5 * g))
          sim::violation("wrong-values", "%s: an equation is off by %.9g: %.300s", when, r, mdl::print(m.eqs[s.eq].l).c_str());
      }
  };
  // Once in the order in which the work is listed, then in orders drawn for
  // the run: the outcome has to be the same.
  auto call = [&](const char *fn, std::vector<double> args) {
    if (!mlir::SymbolTable::lookupSymbolIn(*module, fn))
      return in.err(std::string("function ") + fn + " is missing");
    auto vars = in.vars, globals = in.globals;
    in.serial = true;
    in.callFunction(fn, args);
    in.serial = false;
    auto wantVars = in.vars, wantGlobals = in.globals;
    uint64_t g = in.parallelGroups, it = in.parallelItems;
    for (int k = 0; k < 3 && !in.stopped() && (k == 0 || g + it); ++k) {
      in.vars = vars;
      in.globals = globals;
      in.callFunction(fn, args);
      if (!in.error.empty())
        sim::violation("order-dependent", "%s: %s", fn, in.error.c_str());
      for (auto &v : wantVars)
        for (size_t i = 0; i < v.second.d.size(); ++i) {
          double a = v.second.d[i], b = in.vars[v.first].d[i];
          if (a != b && !(a != a && b != b))
            sim::violation("order-dependent", "%s: element %zu of %s is %.9g in the listed order and %.9g in another permitted one", fn, i,
                           v.first.c_str(), a, b);
        }
    }
    in.vars = wantVars;
    in.globals = wantGlobals;
  };
  in.reduced = m.option("newton", 0) != 2;
  if (on("sched") && m.option("par", -1))
    sim::probe(P_INSTANT);
  in.runAll<mlir::runtime::ICModelBeginOp>();
  call("solveICModel", {});
  in.runAll<mlir::runtime::ICModelEndOp>();
  if (!finish())
    return true;
  mdl::Values now;
  collect(now);
  check(now, ref, solvable0, all, "at the initial time");
  const double h = 0.125;
  in.runAll<mlir::runtime::DynamicModelBeginOp>();
  for (int t = 0; t < 2; ++t) {
    call("updateStateVariables", {h});
    if (!finish())
      return true;
    mdl::Values next = vals;
    for (auto &v : m.vars)
      if (states.count(v.name) && in.vars.count(v.name))
        for (auto &p : mdl::points(v.dims))
          next[{v.name, p}] = now[{v.name, p}] + h * now[{"der(" + v.name + ")", p}];
    // Nothing but states and parameters may survive the step.
    for (VariableOp v : in.model.getOps<VariableOp>()) {
      std::string n = v.getSymName().str();
      if (v.isReadOnly()) {
        const mdl::Var *d = m.find(n);
        if (d && d->kind != "par")
          sim::probe(P_PROMOTED);
        continue;
      }
      if (!states.count(n))
        for (double &x : in.vars[n].d)
          x = NAN;
    }
    call("updateNonStateVariables", {});
    if (!finish())
      return true;
    mdl::Values got;
    collect(got);
    for (auto &k : next)
      if (states.count(k.first.first) && got.count(k.first))
        if (!(std::fabs(got[k.first] - k.second) <= 1e-6 * (1 + std::fabs(k.second))))
          sim::violation("wrong-values", "after step %d: state %s is %.9g instead of %.9g", t + 1, show(k.first).c_str(), got[k.first], k.second);
    mdl::Values r2 = next;
    std::map<int, mdl::Key> o2;
    bool again = solvable && mdl::substitute(m, dyn, unknown, r2, o2);
    if (solvable && !again)
      return true; // grew beyond what is compared
    check(got, r2, solvable, dyn, "after a step");
    now = got;
  }
  in.runAll<mlir::runtime::DynamicModelEndOp>();
  if ((!in.solvers.empty() || !in.scheds.empty()) && in.error.empty() && in.unsupported.empty())
    in.err("a solver or a scheduler is never released");
  if (!finish())
    return true;
  if (in.solves)
    sim::probe(P_SOLVER);
  if (in.entries)
    sim::probe(P_DERIV);
  if (in.parallelGroups)
    sim::probe(P_GROUPS);
  if (in.parallelItems)
    sim::probe(P_PARITEMS);
  return true;
}
