// Executes the Base Modelica IR left by the compilation pipeline on memory of
// its own: model variables start undefined, and whatever the IR declares to be
// parallel happens in an order drawn for the run.
#ifndef VERIF_INTERP_H
#define VERIF_INTERP_H
#include "../sim/harness.h"
#include "marco/Dialect/BaseModelica/IR/Dialect.h"
#include "marco/Dialect/KINSOL/IR/Dialect.h"
#include "marco/Dialect/Runtime/IR/Dialect.h"
#include "marco/Dialect/SUNDIALS/IR/Dialect.h"
#include "mlir/Dialect/Affine/IR/AffineOps.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/IR/BuiltinOps.h"
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace ir {
namespace bm = mlir::bmodelica;
// What memory holds before anything is stored there: arithmetic passes the
// payload on, and makes no such value itself.
inline double undefined() { return std::nan("57005"); }
inline bool isUndefined(double d) {
  uint64_t u;
  std::memcpy(&u, &d, sizeof u);
  return std::isnan(d) && (u & 0xffff) == 57005;
}
struct Arr {
  std::vector<int64_t> sh;
  std::vector<double> d;
  static int64_t count(const std::vector<int64_t> &s) {
    int64_t c = 1;
    for (int64_t x : s)
      c *= x;
    return c;
  }
};
struct Val {
  std::vector<int64_t> sh;
  std::vector<double> d;
  Arr *mem = nullptr; // a view of memory: shape `sh` from `off`
  int64_t off = 0;
  double s() const { return mem ? mem->d[off] : d[0]; }
};
struct Sched {
  struct Item {
    std::string fn;
    marco::modeling::IndexSet idx;
    bool parallel;
  };
  std::vector<Item> items;
};
// An algebraic loop handed to the Newton solver.
struct Newton {
  struct Eqn {
    marco::modeling::MultidimensionalRange range;
    std::string residual;
    std::map<int, std::vector<std::string>> access; // by variable
    std::map<int, std::pair<std::string, std::vector<int64_t>>> jacobian;
  };
  struct Variable {
    std::vector<int64_t> dims;
    std::string get, set;
  };
  std::vector<Variable> vars;
  std::vector<Eqn> eqs;
};
struct Interp {
  mlir::ModuleOp module;
  bm::ModelOp model;
  sim::Rng rng;
  std::map<std::string, Arr> vars, globals;
  std::map<std::string, Sched> scheds;
  std::string unsupported, error;
  uint64_t steps = 0;
  std::map<std::string, Newton> solvers;
  std::map<std::string, Arr> *frame = nullptr; // of the function being called
  std::vector<Val> returned;
  std::vector<Arr> pool; // seeds of the derivatives
  uint64_t solves = 0, unsolved = 0, entries = 0;
  bool reduced = true; // only the declared accesses have derivatives
  bool serial = false; // everything in the order it is listed in
  uint64_t parallelGroups = 0, parallelItems = 0, calls = 0, backward = 0;
  double time = 0;
  using Env = llvm::DenseMap<mlir::Value, Val>;

  Interp(mlir::ModuleOp m, uint64_t seed) : module(m), rng(seed) {}
  bool stopped() const { return !unsupported.empty() || !error.empty(); }
  void unsup(const std::string &s) {
    if (unsupported.empty())
      unsupported = s;
  }
  void err(const std::string &s) {
    if (error.empty())
      error = s;
  }
  static std::vector<int64_t> shape(mlir::Type t) {
    if (auto s = mlir::dyn_cast<mlir::ShapedType>(t))
      return std::vector<int64_t>(s.getShape().begin(), s.getShape().end());
    return {};
  }
  bool start() {
    module.walk([&](bm::ModelOp m) { model = m; });
    if (!model) {
      unsup("no model");
      return false;
    }
    for (bm::VariableOp v : model.getOps<bm::VariableOp>()) {
      Arr a;
      auto s = v.getVariableType().getShape();
      a.sh.assign(s.begin(), s.end());
      for (int64_t x : a.sh)
        if (x < 0) {
          unsup("dynamic size");
          return false;
        }
      a.d.assign(Arr::count(a.sh), undefined());
      vars[v.getSymName().str()] = a;
    }
    return true;
  }
  static double apf(const llvm::APFloat &f) { return f.convertToDouble(); }
  bool attr(mlir::Attribute a, mlir::Type t, Val &v) {
    v.sh = shape(t);
    if (auto x = mlir::dyn_cast<bm::IntegerAttr>(a))
      v.d = {(double)x.getValue().getSExtValue()};
    else if (auto x = mlir::dyn_cast<bm::RealAttr>(a))
      v.d = {apf(x.getValue())};
    else if (auto x = mlir::dyn_cast<bm::BooleanAttr>(a))
      v.d = {x.getValue() ? 1.0 : 0.0};
    else if (auto x = mlir::dyn_cast<mlir::BoolAttr>(a))
      v.d = {x.getValue() ? 1.0 : 0.0};
    else if (auto x = mlir::dyn_cast<mlir::IntegerAttr>(a))
      v.d = {(double)x.getInt()};
    else if (auto x = mlir::dyn_cast<mlir::FloatAttr>(a))
      v.d = {x.getValueAsDouble()};
    else if (auto x = mlir::dyn_cast<bm::DenseRealElementsAttr>(a))
      for (auto &f : x.getValues())
        v.d.push_back(apf(f));
    else if (auto x = mlir::dyn_cast<bm::DenseIntegerElementsAttr>(a))
      for (int64_t i : x.getValues())
        v.d.push_back((double)i);
    else if (auto x = mlir::dyn_cast<bm::DenseBooleanElementsAttr>(a))
      for (bool b : x.getValues())
        v.d.push_back(b);
    else
      return false;
    int64_t n = Arr::count(v.sh);
    if ((int64_t)v.d.size() == 1 && n > 1)
      v.d.assign(n, v.d[0]);
    return (int64_t)v.d.size() == n;
  }
  Val load(const Val &v) {
    if (!v.mem)
      return v;
    Val r;
    r.sh = v.sh;
    int64_t n = Arr::count(v.sh);
    r.d.assign(v.mem->d.begin() + v.off, v.mem->d.begin() + v.off + n);
    return r;
  }
  Val elementwise(const Val &a, const Val &b, double (*f)(double, double)) {
    Val r;
    r.sh = a.sh.size() >= b.sh.size() ? a.sh : b.sh;
    int64_t n = Arr::count(r.sh);
    for (int64_t i = 0; i < n; ++i)
      r.d.push_back(f(a.d.size() == 1 ? a.d[0] : i < (int64_t)a.d.size() ? a.d[i] : NAN, b.d.size() == 1 ? b.d[0] : i < (int64_t)b.d.size() ? b.d[i] : NAN));
    return r;
  }
  // The part of `v` under the leading subscripts.
  bool narrow(Val &v, const std::vector<int64_t> &s) {
    if (s.size() > v.sh.size()) {
      err("too many subscripts");
      return false;
    }
    int64_t off = 0, len = Arr::count(v.sh);
    for (size_t i = 0; i < s.size(); ++i) {
      len /= v.sh[i];
      if (s[i] < 0 || s[i] >= v.sh[i]) {
        err("subscript " + std::to_string(s[i]) + " outside of a dimension of size " + std::to_string(v.sh[i]));
        return false;
      }
      off += s[i] * len;
    }
    v.sh.erase(v.sh.begin(), v.sh.begin() + s.size());
    if (v.mem)
      v.off += off;
    else
      v.d = std::vector<double>(v.d.begin() + off, v.d.begin() + off + len);
    return true;
  }
  void callFunction(const std::string &name, const std::vector<double> &args) {
    mlir::Operation *f = mlir::SymbolTable::lookupSymbolIn(module, name);
    if (!f || f->getNumRegions() < 1 || f->getRegion(0).empty())
      return unsup("call of " + name);
    mlir::Block &b = f->getRegion(0).front();
    if (b.getNumArguments() != args.size())
      return err("call of " + name + " with " + std::to_string(args.size()) + " arguments instead of " + std::to_string(b.getNumArguments()));
    Env env;
    for (size_t i = 0; i < args.size(); ++i)
      env[b.getArgument(i)] = Val{{}, {args[i]}};
    ++calls;
    run(b, env);
  }
  void callRange(const std::string &fn, const marco::modeling::MultidimensionalRange &r) {
    std::vector<double> a;
    for (size_t i = 0; i < r.rank(); ++i) {
      a.push_back((double)r[i].getBegin());
      a.push_back((double)r[i].getEnd());
    }
    callFunction(fn, a);
  }
  // How the runtime may execute an equation, as a list of steps.
  void equation(const std::string &fn, const marco::modeling::IndexSet &idx, bool parallel, std::vector<std::function<void()>> &out) {
    if (idx.empty()) {
      out.push_back([=] { callFunction(fn, {}); });
      return;
    }
    std::vector<marco::modeling::MultidimensionalRange> rs;
    for (const auto &r : llvm::make_range(idx.rangesBegin(), idx.rangesEnd()))
      rs.push_back(r);
    if (!parallel) {
      out.push_back([=] {
        for (auto &r : rs)
          callRange(fn, r);
      });
      return;
    }
    for (auto &r : rs)
      for (const auto &p : r) {
        llvm::SmallVector<marco::modeling::Range> one;
        for (size_t i = 0; i < p.rank(); ++i)
          one.push_back(marco::modeling::Range(p[i], p[i] + 1));
        marco::modeling::MultidimensionalRange m(one);
        out.push_back([=] { callRange(fn, m); });
      }
    parallelItems += out.size();
  }
  void shuffle(std::vector<std::function<void()>> &v) {
    for (size_t i = v.size(); i > 1 && !serial; --i)
      std::swap(v[i - 1], v[rng.below(i)]);
    for (auto &f : v)
      f();
  }
  void schedule(mlir::Region &r) {
    for (mlir::Operation &op : r.front()) {
      if (stopped())
        return;
      if (mlir::isa<bm::InitialOp, bm::DynamicOp, bm::ScheduleBlockOp>(op))
        schedule(op.getRegion(0));
      else if (auto p = mlir::dyn_cast<bm::ParallelScheduleBlocksOp>(op)) {
        ++parallelGroups;
        std::vector<std::function<void()>> v;
        for (mlir::Operation &b : p.getBodyRegion().front())
          v.push_back([this, &b] { schedule(b.getRegion(0)); });
        shuffle(v);
      } else if (auto c = mlir::dyn_cast<bm::EquationCallOp>(op)) {
        std::vector<std::function<void()>> v;
        equation(c.getCallee().str(), c.getProperties().indices, c.getParallelizable(), v);
        shuffle(v);
      } else if (auto c = mlir::dyn_cast<mlir::runtime::SchedulerRunOp>(op)) {
        if (!scheds.count(c.getScheduler().str()))
          return err("a scheduler is used which was not created");
        ++parallelGroups;
        std::vector<std::function<void()>> v;
        for (auto &i : scheds[c.getScheduler().str()].items)
          equation(i.fn, i.idx, i.parallel, v);
        shuffle(v);
      } else if (op.hasTrait<mlir::OpTrait::IsTerminator>())
        return;
      else {
        Env env;
        step(op, env);
      }
    }
  }
  void runSchedule(mlir::SymbolRefAttr s) {
    mlir::Operation *op = mlir::SymbolTable::lookupSymbolIn(module, s);
    if (!op || !mlir::isa<bm::ScheduleOp>(op))
      return err("missing schedule");
    schedule(op->getRegion(0));
  }
  void run(mlir::Block &b, Env &env) {
    for (mlir::Operation &op : b) {
      if (stopped())
        return;
      if (++steps > 2000000)
        return err("the generated code does not terminate");
      if (op.hasTrait<mlir::OpTrait::IsTerminator>()) {
        returned.clear();
        for (mlir::Value v : op.getOperands())
          returned.push_back(load(get(env, v)));
        return;
      }
      step(op, env);
    }
  }
  mlir::Operation *function(const std::string &name) {
    mlir::Operation *f = mlir::SymbolTable::lookupSymbolIn(module, name);
    if (!f || f->getNumRegions() < 1 || f->getRegion(0).empty()) {
      unsup("call of " + name);
      return nullptr;
    }
    return f;
  }
  // A function with SSA arguments and at most one scalar result.
  double scalarCall(const std::string &name, const std::vector<double> &args) {
    mlir::Operation *f = function(name);
    if (!f)
      return NAN;
    mlir::Block &b = f->getRegion(0).front();
    Env env;
    if (args.size() < b.getNumArguments()) {
      err("call of " + name + " with too few arguments");
      return NAN;
    }
    for (size_t i = 0; i < b.getNumArguments(); ++i)
      env[b.getArgument(i)] = Val{{}, {args[i]}};
    run(b, env);
    return returned.empty() ? NAN : returned[0].s();
  }
  std::vector<double> indices(const std::string &name, const std::vector<int64_t> &at) {
    mlir::Operation *f = function(name);
    std::vector<double> r;
    if (!f)
      return r;
    std::vector<double> args(at.begin(), at.end());
    mlir::Block &b = f->getRegion(0).front();
    Env env;
    if (args.size() < b.getNumArguments()) {
      err("call of " + name + " with too few arguments");
      return r;
    }
    for (size_t i = 0; i < b.getNumArguments(); ++i)
      env[b.getArgument(i)] = Val{{}, {args[i]}};
    run(b, env);
    for (auto &v : returned)
      r.push_back(v.s());
    return r;
  }
  // A function of the modelled language: named inputs, outputs and locals.
  bool modelCall(bm::FunctionOp f, const std::vector<Val> &args, std::vector<Val> &out) {
    std::map<std::string, Arr> mine;
    size_t k = 0;
    for (bm::VariableOp v : f.getVariables()) {
      Arr a;
      auto s = v.getVariableType().getShape();
      a.sh.assign(s.begin(), s.end());
      for (int64_t x : a.sh)
        if (x < 0) {
          unsup("dynamic size");
          return false;
        }
      a.d.assign(Arr::count(a.sh), undefined());
      if (v.isInput()) {
        if (k >= args.size() || args[k].d.size() != a.d.size()) {
          err("call of " + f.getSymName().str() + " with the wrong arguments");
          return false;
        }
        a.d = args[k++].d;
      }
      mine[v.getSymName().str()] = a;
    }
    if (k != args.size()) {
      err("call of " + f.getSymName().str() + " with too many arguments");
      return false;
    }
    auto *old = frame;
    frame = &mine;
    for (mlir::Operation &op : f.getBody()->getOperations()) {
      if (mlir::isa<bm::VariableOp>(op))
        continue;
      if (!mlir::isa<bm::AlgorithmOp>(op)) {
        unsup(op.getName().getStringRef().str());
        break;
      }
      Env env;
      run(op.getRegion(0).front(), env);
    }
    frame = old;
    for (bm::VariableOp v : f.getVariables())
      if (v.isOutput()) {
        Arr &a = mine[v.getSymName().str()];
        out.push_back(Val{a.sh, a.d});
      }
    return !stopped();
  }
  static std::vector<std::vector<int64_t>> pointsOf(const std::vector<int64_t> &dims) {
    std::vector<std::vector<int64_t>> r;
    std::vector<int64_t> i(dims.size(), 0);
    for (;;) {
      r.push_back(i);
      int d = (int)dims.size() - 1;
      while (d >= 0 && ++i[d] >= dims[d])
        i[d--] = 0;
      if (d < 0)
        return r;
    }
  }
  // What the solver does with an instance: Newton's method on the residual and
  // derivative functions it was given.  The derivatives are compared with
  // differences of the residuals.
  void solve(const std::string &name) {
    Newton &s = solvers[name];
    ++solves;
    struct Unknown {
      int var;
      std::vector<int64_t> at;
    };
    struct Row {
      int eq;
      std::vector<int64_t> at;
    };
    std::vector<Unknown> xs;
    std::vector<Row> rows;
    for (size_t v = 0; v < s.vars.size(); ++v)
      for (auto &p : pointsOf(s.vars[v].dims))
        xs.push_back({(int)v, p});
    for (size_t e = 0; e < s.eqs.size(); ++e)
      for (const auto &p : s.eqs[e].range) {
        Row r{(int)e, {}};
        for (size_t i = 0; i < p.rank(); ++i)
          r.at.push_back(p[i]);
        rows.push_back(r);
      }
    size_t n = xs.size();
    if (rows.size() != n)
      return err("a solver is given " + std::to_string(rows.size()) + " equations for " + std::to_string(n) + " variables");
    auto getter = [&](size_t i) { return scalarCall(s.vars[xs[i].var].get, std::vector<double>(xs[i].at.begin(), xs[i].at.end())); };
    auto setter = [&](size_t i, double x) {
      // Arguments: the value is first or last.
      mlir::Operation *f = function(s.vars[xs[i].var].set);
      if (!f)
        return;
      auto op = mlir::cast<mlir::sundials::VariableSetterOp>(f);
      mlir::Block &b = f->getRegion(0).front();
      Env env;
      auto ix = op.getVariableIndices();
      if (ix.size() > xs[i].at.size())
        return err("a setter with too many indices");
      for (size_t k = 0; k < ix.size(); ++k)
        env[ix[k]] = Val{{}, {(double)xs[i].at[k]}};
      env[op.getValue()] = Val{{}, {x}};
      run(b, env);
    };
    auto residual = [&](size_t r) { return scalarCall(s.eqs[rows[r].eq].residual, std::vector<double>(rows[r].at.begin(), rows[r].at.end())); };
    std::vector<char> proxy(n, 0); // not determined here
    std::vector<double> start(n), x(n);
    for (size_t i = 0; i < n; ++i) {
      start[i] = x[i] = getter(i);
      if (std::isnan(x[i]))
        x[i] = 0;
      if (stopped())
        return;
    }
    auto apply = [&]() {
      for (size_t i = 0; i < n; ++i)
        setter(i, x[i]);
    };
    std::vector<std::vector<double>> J(n, std::vector<double>(n));
    auto derivatives = [&]() {
      for (size_t r = 0; r < n; ++r) {
        auto &e = s.eqs[rows[r].eq];
        for (size_t i = 0; i < n; ++i) {
          J[r][i] = 0;
          auto j = e.jacobian.find(xs[i].var);
          if (j == e.jacobian.end())
            continue;
          if (reduced) {
            bool hit = false;
            for (auto &a : e.access[xs[i].var]) {
              auto p = indices(a, rows[r].at);
              if (stopped())
                return;
              bool same = p.size() == xs[i].at.size();
              for (size_t k = 0; same && k < p.size(); ++k)
                same = std::llround(p[k]) == xs[i].at[k];
              hit |= same;
            }
            if (!hit)
              continue;
          }
          mlir::Operation *f = function(j->second.first);
          if (!f)
            return;
          auto op = mlir::cast<mlir::kinsol::JacobianFunctionOp>(f);
          Env env;
          auto bind = [&](mlir::ArrayRef<mlir::BlockArgument> a, const std::vector<int64_t> &v) {
            if (a.size() > v.size())
              return err("a derivative function with too many indices");
            for (size_t k = 0; k < a.size(); ++k)
              env[a[k]] = Val{{}, {(double)v[k]}};
          };
          bind(op.getEquationIndices(), rows[r].at);
          bind(op.getVariableIndices(), xs[i].at);
          env[op.getMemoryPool()] = Val{{}, {0}};
          auto seeds = op.getADSeeds();
          if (seeds.size() != j->second.second.size())
            return err("a derivative function with another number of seeds than buffers");
          pool.assign(seeds.size(), Arr());
          for (size_t k = 0; k < seeds.size(); ++k) {
            pool[k].d.assign(j->second.second[k], 0.0);
            env[seeds[k]] = Val{{}, {(double)k}};
          }
          run(f->getRegion(0).front(), env);
          if (stopped())
            return;
          if (returned.size() != 1)
            return err("a derivative function without a result");
          J[r][i] = returned[0].s();
          for (auto &a : pool)
            for (double y : a.d)
              if (y != 0)
                return err("a derivative function leaves its seeds changed");
          ++entries;
        }
      }
    };
    auto all = [&]() {
      std::vector<double> f(n);
      for (size_t r = 0; r < n && !stopped(); ++r)
        f[r] = residual(r);
      return f;
    };
    bool solved = false;
    for (int it = 0; it < 12 && !stopped(); ++it) {
      apply();
      auto f = all();
      if (stopped())
        return;
      double worst = 0, size = 1;
      for (size_t r = 0; r < n; ++r) {
        if (isUndefined(f[r]))
          return err("the residual of an equation reads undefined values");
        if (!std::isfinite(f[r])) {
          ++unsolved;
          return unsup("no convergence");
        }
        worst = std::max(worst, std::fabs(f[r]));
        size = std::max(size, std::fabs(x[r]));
      }
      if (it > 0 && worst <= 1e-12 * size) {
        solved = true;
        break;
      }
      derivatives();
      if (stopped())
        return;
      if (it < 2)
        for (size_t i = 0; i < n; ++i) {
          auto diff = [&](double h) {
            std::vector<double> a, b;
            setter(i, x[i] + h);
            a = all();
            setter(i, x[i] - h);
            b = all();
            setter(i, x[i]);
            for (size_t r = 0; r < n; ++r)
              a[r] = (a[r] - b[r]) / (2 * h);
            return a;
          };
          auto one = diff(1e-4), two = diff(3e-5), three = diff(7e-4);
          if (stopped())
            return;
          for (size_t r = 0; r < n; ++r) {
            double big = 1 + std::fabs(one[r]);
            if (!(std::fabs(one[r] - two[r]) < 1e-5 * big && std::fabs(one[r] - three[r]) < 1e-4 * big))
              continue; // not smooth here
            if (rows[r].eq < (int)s.eqs.size() && proxied(s.eqs[rows[r].eq].residual))
              continue; // stands for an equation elsewhere
            if (!std::isfinite(J[r][i]) && !isUndefined(J[r][i]))
              continue; // passes through infinity
            if (!(std::fabs(J[r][i] - one[r]) < 1e-3 * big * std::max(1.0, size * 1e-3)))
              return err("a derivative function returns " + std::to_string(J[r][i]) + " instead of " + std::to_string(one[r]));
          }
        }
      // J d = -f
      std::vector<std::vector<double>> A = J;
      std::vector<double> d(n);
      for (size_t r = 0; r < n; ++r)
        A[r].push_back(-f[r]);
      for (size_t c = 0; c < n; ++c) {
        size_t best = c;
        for (size_t r = c + 1; r < n; ++r)
          if (std::fabs(A[r][c]) > std::fabs(A[best][c]))
            best = r;
        if (!(std::fabs(A[best][c]) > 1e-9)) {
          ++unsolved;
          return unsup("singular derivatives");
        }
        std::swap(A[c], A[best]);
        for (size_t r = c + 1; r < n; ++r) {
          double k = A[r][c] / A[c][c];
          if (k != 0)
            for (size_t j = c; j <= n; ++j)
              A[r][j] -= k * A[c][j];
        }
      }
      for (size_t c = n; c-- > 0;) {
        double v = A[c][n];
        for (size_t j = c + 1; j < n; ++j)
          v -= A[c][j] * d[j];
        d[c] = v / A[c][c];
      }
      for (size_t i = 0; i < n; ++i)
        x[i] += d[i];
    }
    if (stopped())
      return;
    if (!solved) {
      ++unsolved;
      return unsup("no convergence");
    }
    // What the instance does not determine stays as it was.
    for (size_t r = 0; r < n; ++r)
      if (proxied(s.eqs[rows[r].eq].residual))
        for (size_t i = 0; i < n; ++i)
          if (J[r][i] != 0)
            proxy[i] = 1;
    for (size_t i = 0; i < n; ++i)
      if (proxy[i])
        setter(i, start[i]);
  }
  static bool proxied(const std::string &residual) { return residual.compare(0, 20, "kinsol_zero_residual") == 0; }
  Val get(Env &env, mlir::Value v) {
    auto i = env.find(v);
    if (i == env.end()) {
      unsup("a value from elsewhere");
      return Val{{}, {NAN}};
    }
    return i->second;
  }
  void step(mlir::Operation &op, Env &env) {
    llvm::StringRef n = op.getName().getStringRef();
    auto res = [&](Val v) { env[op.getResult(0)] = std::move(v); };
    auto in = [&](unsigned i) { return load(get(env, op.getOperand(i))); };
    if (stopped())
      return;
    if (n == "bmodelica.constant" || n == "arith.constant") {
      Val v;
      if (!attr(op.getAttr("value"), op.getResult(0).getType(), v))
        return unsup("constant");
      return res(v);
    }
    if (auto g = mlir::dyn_cast<bm::QualifiedVariableGetOp>(op)) {
      std::string name = g.getVariable().getLeafReference().str();
      auto i = vars.find(name);
      if (i == vars.end())
        return err("access to " + name + ", which the model does not declare");
      Val v;
      v.mem = &i->second;
      v.sh = i->second.sh;
      if (!mlir::isa<bm::ArrayType>(op.getResult(0).getType()))
        v = load(v);
      return res(v);
    }
    if (auto s = mlir::dyn_cast<bm::QualifiedVariableSetOp>(op)) {
      std::string name = s.getVariable().getLeafReference().str();
      auto i = vars.find(name);
      if (i == vars.end())
        return err("access to " + name + ", which the model does not declare");
      Val v = in(op.getNumOperands() - 1);
      if (op.getNumOperands() != 1) {
        Val w;
        w.mem = &i->second;
        w.sh = i->second.sh;
        std::vector<int64_t> at;
        for (mlir::Value k : s.getIndices())
          at.push_back(std::llround(load(get(env, k)).s()));
        if (stopped() || !narrow(w, at))
          return;
        if (!w.sh.empty())
          return unsup("assignment of a part");
        w.mem->d[w.off] = load(get(env, s.getValue())).s();
        return;
      }
      if (v.d.size() != i->second.d.size())
        return err("assignment of another shape to " + name);
      i->second.d = v.d;
      return;
    }
    if (auto g = mlir::dyn_cast<bm::GlobalVariableGetOp>(op)) {
      Arr &a = globals[g.getVariable().str()];
      if (a.d.empty()) {
        a.sh = shape(op.getResult(0).getType());
        a.d.assign(Arr::count(a.sh), undefined());
      }
      Val v;
      v.mem = &a;
      v.sh = a.sh;
      return res(v);
    }
    if (auto r = mlir::dyn_cast<bm::RunScheduleOp>(op))
      return runSchedule(r.getSchedule());
    if (n == "bmodelica.time")
      return res(Val{{}, {time}});
    if (n == "bmodelica.tensor_extract" || n == "bmodelica.tensor_view" || n == "bmodelica.subscription" || n == "bmodelica.load") {
      Val v = get(env, op.getOperand(0));
      std::vector<int64_t> s;
      for (unsigned i = 1; i < op.getNumOperands(); ++i) {
        if (mlir::isa<bm::RangeType>(op.getOperand(i).getType()))
          return unsup("range subscript");
        s.push_back(std::llround(in(i).s()));
      }
      if (stopped() || !narrow(v, s))
        return;
      return res(n == "bmodelica.subscription" ? v : load(v));
    }
    if (n == "bmodelica.store") {
      auto st = mlir::cast<bm::StoreOp>(op);
      Val v = get(env, st.getArray());
      Val x = load(get(env, st.getValue()));
      std::vector<int64_t> s;
      for (mlir::Value i : st.getIndices())
        s.push_back(std::llround(load(get(env, i)).s()));
      if (stopped() || !narrow(v, s))
        return;
      if (!v.mem || !v.sh.empty())
        return err("store to something else than an element");
      v.mem->d[v.off] = x.s();
      return;
    }
    if (auto g = mlir::dyn_cast<bm::VariableGetOp>(op)) {
      auto i = frame ? frame->find(g.getVariable().str()) : decltype(frame->begin())();
      if (!frame || i == frame->end())
        return unsup("variable_get");
      return res(Val{i->second.sh, i->second.d});
    }
    if (auto g = mlir::dyn_cast<bm::VariableSetOp>(op)) {
      auto i = frame ? frame->find(g.getVariable().str()) : decltype(frame->begin())();
      if (!frame || i == frame->end() || op.getNumOperands() != 1)
        return unsup("variable_set");
      Val v = in(0);
      if (v.d.size() != i->second.d.size())
        return err("assignment of another shape to " + i->first);
      i->second.d = v.d;
      return;
    }
    if (n == "bmodelica.array_to_tensor")
      return res(in(0));
    if (n == "bmodelica.pool_variable_get") {
      int64_t k = std::llround(in(1).s());
      if (k < 0 || k >= (int64_t)pool.size())
        return err("a seed which does not exist");
      Val v;
      v.mem = &pool[k];
      v.sh = shape(op.getResult(0).getType());
      if (Arr::count(v.sh) != (int64_t)pool[k].d.size())
        return err("a seed of another size than its buffer");
      return res(v);
    }
    if (n == "arith.cmpi") {
      if (mlir::cast<mlir::arith::CmpIOp>(op).getPredicate() != mlir::arith::CmpIPredicate::eq)
        return unsup("cmpi");
      return res(Val{{}, {in(0).s() == in(1).s() ? 1.0 : 0.0}});
    }
    if (n == "arith.andi")
      return res(Val{{}, {in(0).s() != 0 && in(1).s() != 0 ? 1.0 : 0.0}});
    if (n == "arith.select")
      return res(in(0).s() != 0 ? in(1) : in(2));
    if (auto c = mlir::dyn_cast<mlir::func::CallOp>(op)) {
      if (op.getNumOperands() || op.getNumResults())
        return unsup("func.call");
      return callFunction(c.getCallee().str(), {});
    }
    if (auto c = mlir::dyn_cast<mlir::kinsol::InitOp>(op)) {
      solvers[c.getInstance().str()] = Newton();
      return;
    }
    if (auto c = mlir::dyn_cast<mlir::kinsol::FreeOp>(op)) {
      if (!solvers.erase(c.getInstance().str()))
        return err("a solver is released which was not created");
      return;
    }
    if (auto c = mlir::dyn_cast<mlir::kinsol::AddVariableOp>(op)) {
      Newton::Variable v;
      for (mlir::Attribute a : c.getDimensions())
        v.dims.push_back(mlir::cast<mlir::IntegerAttr>(a).getInt());
      v.get = c.getGetter().getLeafReference().str();
      v.set = c.getSetter().getLeafReference().str();
      auto &s = solvers[c.getInstance().str()];
      s.vars.push_back(v);
      return res(Val{{}, {(double)s.vars.size() - 1}});
    }
    if (auto c = mlir::dyn_cast<mlir::kinsol::AddEquationOp>(op)) {
      auto &s = solvers[c.getInstance().str()];
      s.eqs.push_back({c.getEquationRanges().getValue(), "", {}, {}});
      return res(Val{{}, {(double)s.eqs.size() - 1}});
    }
    if (auto c = mlir::dyn_cast<mlir::kinsol::AddVariableAccessOp>(op)) {
      solvers[c.getInstance().str()].eqs.at(std::llround(in(0).s())).access[std::llround(in(1).s())].push_back(c.getAccessFunction().str());
      return;
    }
    if (auto c = mlir::dyn_cast<mlir::kinsol::SetResidualOp>(op)) {
      solvers[c.getInstance().str()].eqs.at(std::llround(in(0).s())).residual = c.getFunction().str();
      return;
    }
    if (auto c = mlir::dyn_cast<mlir::kinsol::AddJacobianOp>(op)) {
      std::vector<int64_t> sizes;
      for (mlir::Attribute a : c.getSeedSizes())
        sizes.push_back(mlir::cast<mlir::IntegerAttr>(a).getInt());
      solvers[c.getInstance().str()].eqs.at(std::llround(in(0).s())).jacobian[std::llround(in(1).s())] = {c.getFunction().str(), sizes};
      return;
    }
    if (auto c = mlir::dyn_cast<mlir::kinsol::SolveOp>(op)) {
      std::string who = c.getInstance().str();
      if (!solvers.count(who))
        return err("a solver is used which was not created");
      return solve(who);
    }
    if (n == "bmodelica.array_copy" || n == "bmodelica.array_fill")
      return unsup(n.str());
    if (n == "bmodelica.tensor_broadcast") {
      Val x = in(0), v;
      v.sh = shape(op.getResult(0).getType());
      v.d.assign(Arr::count(v.sh), x.s());
      return res(v);
    }
    if (n == "bmodelica.tensor_from_elements") {
      Val v;
      v.sh = shape(op.getResult(0).getType());
      for (unsigned i = 0; i < op.getNumOperands(); ++i) {
        Val x = in(i);
        v.d.insert(v.d.end(), x.d.begin(), x.d.end());
      }
      return res(v);
    }
    if (n == "bmodelica.cast" || n == "arith.index_cast" || n == "builtin.unrealized_conversion_cast")
      return res(in(0));
    if (n == "bmodelica.select") {
      Val c = in(0);
      if (op.getNumOperands() != 3)
        return unsup("select of several values");
      Val t = in(1), e = in(2);
      return res(std::isnan(c.s()) ? Val{{}, {NAN}} : c.s() != 0 ? t : e);
    }
    if (n == "bmodelica.sum") {
      Val x = in(0);
      double s = 0;
      for (double y : x.d)
        s += y;
      return res(Val{{}, {s}});
    }
    struct Un {
      const char *n;
      double (*f)(double);
    };
    static const Un un[] = {{"neg", [](double a) { return -a; }},   {"abs", [](double a) { return std::fabs(a); }},
                            {"sin", [](double a) { return std::sin(a); }}, {"cos", [](double a) { return std::cos(a); }},
                            {"exp", [](double a) { return std::exp(a); }}, {"not", [](double a) { return a == 0 ? 1.0 : 0.0; }}};
    struct Bi {
      const char *n;
      double (*f)(double, double);
    };
    static const Bi bi[] = {{"add", [](double a, double b) { return a + b; }},
                            {"add_ew", [](double a, double b) { return a + b; }},
                            {"sub", [](double a, double b) { return a - b; }},
                            {"sub_ew", [](double a, double b) { return a - b; }},
                            {"mul_ew", [](double a, double b) { return a * b; }},
                            {"div", [](double a, double b) { return a / b; }},
                            {"div_ew", [](double a, double b) { return a / b; }},
                            {"pow", [](double a, double b) { return std::pow(a, b); }},
                            {"min", [](double a, double b) { return std::isnan(a) || std::isnan(b) ? NAN : a < b ? a : b; }},
                            {"max", [](double a, double b) { return std::isnan(a) || std::isnan(b) ? NAN : a > b ? a : b; }},
                            {"gt", [](double a, double b) { return std::isnan(a) || std::isnan(b) ? NAN : a > b ? 1.0 : 0.0; }},
                            {"gte", [](double a, double b) { return std::isnan(a) || std::isnan(b) ? NAN : a >= b ? 1.0 : 0.0; }},
                            {"lt", [](double a, double b) { return std::isnan(a) || std::isnan(b) ? NAN : a < b ? 1.0 : 0.0; }},
                            {"lte", [](double a, double b) { return std::isnan(a) || std::isnan(b) ? NAN : a <= b ? 1.0 : 0.0; }},
                            {"eq", [](double a, double b) { return a == b ? 1.0 : 0.0; }},
                            {"neq", [](double a, double b) { return a != b ? 1.0 : 0.0; }}};
    if (n.consume_front("bmodelica.")) {
      for (auto &u : un)
        if (n == u.n && op.getNumOperands() == 1) {
          Val x = in(0);
          for (double &y : x.d)
            y = u.f(y);
          return res(x);
        }
      for (auto &b : bi)
        if (n == b.n && op.getNumOperands() == 2)
          return res(elementwise(in(0), in(1), b.f));
      if (n == "mul") {
        Val a = in(0), b = in(1);
        if (!a.sh.empty() && !b.sh.empty())
          return unsup("product of arrays");
        return res(elementwise(a, b, [](double x, double y) { return x * y; }));
      }
      if (n == "call") {
        auto c = mlir::cast<bm::CallOp>(op);
        std::string callee = c.getCallee().getLeafReference().str();
        if (auto f = mlir::dyn_cast_or_null<bm::FunctionOp>(mlir::SymbolTable::lookupSymbolIn(module, callee))) {
          std::vector<Val> args, out;
          for (unsigned i = 0; i < op.getNumOperands(); ++i)
            args.push_back(in(i));
          if (stopped() || !modelCall(f, args, out))
            return;
          if (out.size() != op.getNumResults())
            return err("call of " + callee + " with another number of results");
          for (unsigned i = 0; i < op.getNumResults(); ++i)
            env[op.getResult(i)] = out[i];
          return;
        }
        std::vector<double> a;
        for (unsigned i = 0; i < op.getNumOperands(); ++i)
          a.push_back(in(i).s());
        if (op.getNumResults())
          return unsup("call with results");
        return callFunction(c.getCallee().getLeafReference().str(), a);
      }
      return unsup("bmodelica." + n.str());
    }
    if (n == "arith.subi")
      return res(elementwise(in(0), in(1), [](double a, double b) { return a - b; }));
    if (n == "arith.addi")
      return res(elementwise(in(0), in(1), [](double a, double b) { return a + b; }));
    if (n == "arith.muli")
      return res(elementwise(in(0), in(1), [](double a, double b) { return a * b; }));
    if (auto f = mlir::dyn_cast<mlir::scf::ForOp>(op)) {
      int64_t lo = std::llround(in(0).s()), hi = std::llround(in(1).s()), st = std::llround(in(2).s());
      if (f.getNumRegionIterArgs() || st <= 0)
        return unsup("scf.for");
      for (int64_t i = lo; i < hi && !stopped(); i += st) {
        env[f.getInductionVar()] = Val{{}, {(double)i}};
        run(*f.getBody(), env);
      }
      return;
    }
    if (auto f = mlir::dyn_cast<mlir::affine::AffineForOp>(op)) {
      int64_t lo = INT64_MIN, hi = INT64_MAX;
      auto bound = [&](mlir::AffineMap m, mlir::ValueRange vs, bool lower) {
        llvm::SmallVector<mlir::Attribute> a, r;
        for (mlir::Value v : vs)
          a.push_back(mlir::IntegerAttr::get(mlir::IndexType::get(op.getContext()), std::llround(load(get(env, v)).s())));
        if (mlir::failed(m.constantFold(a, r)))
          return unsup("affine bound");
        for (mlir::Attribute x : r) {
          int64_t k = mlir::cast<mlir::IntegerAttr>(x).getInt();
          lower ? lo = std::max(lo, k) : hi = std::min(hi, k);
        }
      };
      bound(f.getLowerBoundMap(), f.getLowerBoundOperands(), true);
      bound(f.getUpperBoundMap(), f.getUpperBoundOperands(), false);
      if (f.getNumRegionIterArgs())
        return unsup("affine.for");
      for (int64_t i = lo; i < hi && !stopped(); i += f.getStepAsInt()) {
        env[f.getInductionVar()] = Val{{}, {(double)i}};
        run(*f.getBody(), env);
      }
      return;
    }
    if (auto r = mlir::dyn_cast<mlir::runtime::SchedulerCreateOp>(op)) {
      scheds[r.getScheduler().str()].items.clear();
      return;
    }
    if (auto r = mlir::dyn_cast<mlir::runtime::SchedulerDestroyOp>(op)) {
      if (!scheds.erase(r.getScheduler().str()))
        return err("a scheduler is released which was not created");
      return;
    }
    if (auto r = mlir::dyn_cast<mlir::runtime::SchedulerAddEquationOp>(op)) {
      scheds[r.getScheduler().str()].items.push_back({r.getFunction().str(), r.getProperties().indices, r.getIndependentIndices()});
      return;
    }
    unsup(n.str());
  }
  template <typename T>
  void runAll() { // the begin/end functions of the runtime
    for (T op : module.getOps<T>()) {
      Env env;
      run(op.getBodyRegion().front(), env);
    }
  }
};
} // namespace ir
#endif
