// Histories over incidence matrices and local matching solutions: concurrent
// clients with private matrices, sharing matrices, access functions and index
// sets. Every matrix must be the one of a set of (equation, variable) pairs.
#include "../sim/simpool.h"
#include "marco/Modeling/AccessFunction.h"
#include "marco/Modeling/AccessFunctionGeneric.h"
#include "marco/Modeling/DimensionAccessAdd.h"
#include "marco/Modeling/DimensionAccessConstant.h"
#include "marco/Modeling/DimensionAccessDimension.h"
#include "marco/Modeling/DimensionAccessMul.h"
#include "marco/Modeling/DimensionAccessRange.h"
#include "marco/Modeling/LocalMatchingSolutions.h"
#include "marco/Modeling/MCIM.h"
#include "system.h"
#include "llvm/Support/raw_ostream.h"
#include <array>
#include <memory>

using namespace marco::modeling;
using namespace marco::modeling::internal;
using sys::Box;
using sys::Pt;
using PS = std::set<Pt>;
using Pair = std::pair<Pt, Pt>;
using Rel = std::set<Pair>;

enum { P_POINTS, P_UNSET, P_SUB, P_FILTER, P_RESPACE, P_SPLIT, P_LOCAL, P_LOCALSET, P_EMPTY };
const char *const harnessProbes[] = {
    "matrices_with_single_points", "elements_unset",      "subtractions",        "filters",
    "changes_of_space",            "matrices_split",      "local_problems",      "local_problems_with_ranges",
    "matrices_emptied",            nullptr};
const char *const harnessFaults[] = {nullptr};

static mlir::MLIRContext *gCtx;
void harnessBoot(const char *) {
  gCtx = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
}
void harnessConfig(sim::Config &c, sim::Rng &, const char *) {
  c.maxEvents = 60000000ull;
}

namespace {
constexpr int kSpaces = 3, kFuns = 6, kShared = 2, kRegs = 3, kSets = 3;

struct FunDim {
  sys::Dim d;
  int64_t width = 1; // > 1: a range of elements
};
struct Fun {
  bool present = false;
  std::vector<FunDim> d;
  bool setValued() const {
    for (auto &x : d)
      if (x.width > 1)
        return true;
    return false;
  }
  PS eval(const Pt &p) const {
    std::vector<Pt> cur{{}};
    for (auto &x : d) {
      std::vector<Pt> next;
      for (auto &c : cur)
        for (int64_t k = 0; k < x.width; ++k) {
          next.push_back(c);
          next.back().push_back(x.d.eval(p) + k);
        }
      cur = std::move(next);
    }
    return PS(cur.begin(), cur.end());
  }
};
struct Op {
  int client, op, dst, a, b, f, s, t;
};
struct Load {
  int clients = 2, er = 1, vr = 1;
  std::array<std::vector<Box>, kSpaces> e, v; // spaces
  std::array<std::vector<Box>, kSets> se, sv; // filters
  std::array<Fun, kFuns> f;
  std::vector<Op> ops;
};

bool parseLoad(const std::string &w, Load &l) {
  std::istringstream in(w);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string t;
    s >> t;
    if (t == "O") {
      std::string k;
      int v;
      s >> k >> v;
      if (k == "clients")
        l.clients = v;
      else if (k == "er")
        l.er = v;
      else if (k == "vr")
        l.vr = v;
    } else if (t == "E" || t == "V" || t == "Q" || t == "W") {
      int k;
      s >> k;
      Box b;
      int64_t lo, hi;
      while (s >> lo >> hi)
        b.r.push_back({lo, hi});
      bool eq = t == "E" || t == "Q", space = t == "E" || t == "V";
      if (k < 0 || k >= (space ? kSpaces : kSets) || (int)b.r.size() != (eq ? l.er : l.vr))
        continue;
      bool ok = true;
      for (auto &r : b.r)
        ok &= r.first < r.second && r.first >= -16 && r.second <= 32;
      if (ok && b.size() <= 64)
        (space ? (eq ? l.e : l.v)[k] : (eq ? l.se : l.sv)[k]).push_back(b);
    } else if (t == "F") {
      int k;
      s >> k;
      Fun f;
      sys::Dim d;
      int64_t width;
      while (s >> d.dim >> d.coef >> d.dim2 >> d.off >> width) {
        if (d.dim >= l.er || d.dim2 >= l.er || width < 1 || width > 4)
          break;
        if (width > 1 && d.dim >= 0)
          width = 1;
        if (d.dim < 0)
          d.dim2 = -1;
        f.d.push_back({d, width});
      }
      f.present = (int)f.d.size() == l.vr;
      if (k >= 0 && k < kFuns && f.present)
        l.f[k] = f;
    } else if (t == "C") {
      Op o;
      if (s >> o.client >> o.op >> o.dst >> o.a >> o.b >> o.f >> o.s >> o.t)
        if (o.dst >= 0 && o.dst < kRegs && o.a >= 0 && o.a < kRegs + kShared && o.b >= 0 &&
            o.b < kRegs + kShared && o.f >= 0 && o.f < kFuns && o.s >= 0 && o.t >= 0)
          l.ops.push_back(o);
    }
  }
  if (l.er < 1 || l.er > 3 || l.vr < 1 || l.vr > 3)
    return false;
  for (int k = 0; k < kSpaces; ++k)
    if (l.e[k].empty() || l.v[k].empty())
      return false;
  return l.clients >= 1 && l.clients <= 4;
}

PS pointsOf(const std::vector<Box> &bs) {
  PS s;
  for (auto &b : bs)
    sys::forEach(b, [&](const Pt &p) { s.insert(p); });
  return s;
}
MultidimensionalRange mr(const Box &b) {
  llvm::SmallVector<Range, 3> r;
  for (auto &x : b.r)
    r.emplace_back(x.first, x.second);
  return MultidimensionalRange(r);
}
Point pt(const Pt &p) {
  llvm::SmallVector<Point::data_type> c(p.begin(), p.end());
  return Point(c);
}
Pt un(const Point &p) {
  Pt q;
  for (size_t i = 0; i < p.rank(); ++i)
    q.push_back(p[i]);
  return q;
}
IndexSet toSet(const std::vector<Box> &bs) {
  IndexSet s;
  for (auto &b : bs)
    s += mr(b);
  return s;
}
std::string show(const Pt &p) {
  std::string s = "(";
  for (auto x : p)
    s += std::to_string(x) + ",";
  return s + ")";
}

std::unique_ptr<AccessFunction> toFunction(const Fun &f, int er) {
  llvm::SmallVector<std::unique_ptr<DimensionAccess>> res;
  for (auto &x : f.d) {
    std::unique_ptr<DimensionAccess> e;
    if (x.width > 1) {
      e = std::make_unique<DimensionAccessRange>(gCtx, Range(x.d.off, x.d.off + x.width));
    } else if (x.d.dim < 0) {
      e = std::make_unique<DimensionAccessConstant>(gCtx, x.d.off);
    } else {
      e = std::make_unique<DimensionAccessDimension>(gCtx, x.d.dim);
      if (x.d.coef != 1)
        e = std::make_unique<DimensionAccessMul>(gCtx, std::move(e),
                                                 std::make_unique<DimensionAccessConstant>(gCtx, x.d.coef));
      if (x.d.dim2 >= 0)
        e = std::make_unique<DimensionAccessAdd>(gCtx, std::move(e),
                                                 std::make_unique<DimensionAccessDimension>(gCtx, x.d.dim2));
      if (x.d.off)
        e = std::make_unique<DimensionAccessAdd>(gCtx, std::move(e),
                                                 std::make_unique<DimensionAccessConstant>(gCtx, x.d.off));
    }
    res.push_back(std::move(e));
  }
  return AccessFunction::build(gCtx, er, res);
}

struct Mat {
  std::unique_ptr<MCIM> m;
  int e = 0, v = 0; // spaces
  Rel r;
};
struct World {
  Load l;
  std::array<std::shared_ptr<const IndexSet>, kSpaces> e, v;
  std::array<PS, kSpaces> me, mv;
  std::array<IndexSet, kSets> se, sv;
  std::array<PS, kSets> mse, msv;
  std::array<std::unique_ptr<AccessFunction>, kFuns> f;
  std::array<Mat, kShared> sh;
};
struct Client {
  World *w;
  int id;
};
struct Regs {
  std::array<Mat, kRegs> r;
};

#define INSTR_OFF() sim::Pause pause__

[[noreturn]] void fail(const char *cls, int client, size_t op, const std::string &m) {
  sim::violation(cls, "client %d, operation %zu: %s", client, op, m.c_str());
}

Rel restrict(const Rel &r, const PS *e, const PS *v) {
  Rel o;
  for (auto &x : r)
    if ((!e || e->count(x.first)) && (!v || v->count(x.second)))
      o.insert(x);
  return o;
}

// The matrix must be exactly `want`.
void check(const MCIM &m, const PS &es, const PS &vs, const Rel &want, int client, size_t op, const char *what) {
  bool empty = m.empty();
  IndexSet rows = m.flattenRows(), cols = m.flattenColumns();
  PS gr, gc;
  for (Point p : rows) {
    INSTR_OFF();
    gr.insert(un(p));
  }
  for (Point p : cols) {
    INSTR_OFF();
    gc.insert(un(p));
  }
  {
    INSTR_OFF();
    if (empty != want.empty())
      fail("wrong-matrix", client, op, std::string(what) + ": empty() is " + (empty ? "true" : "false"));
    PS wr, wc;
    for (auto &x : want) {
      wc.insert(x.first);
      wr.insert(x.second);
    }
    if (gr != wr)
      fail("wrong-matrix", client, op, std::string(what) + ": wrong set of variables (flattenRows)");
    if (gc != wc)
      fail("wrong-matrix", client, op, std::string(what) + ": wrong set of equations (flattenColumns)");
  }
  size_t n = 0;
  for (const Pt &e : es) {
    Point pe = pt({0});
    {
      INSTR_OFF();
      pe = pt(e);
    }
    for (const Pt &v : vs) {
      Point pv = pt({0});
      bool exp;
      {
        INSTR_OFF();
        pv = pt(v);
        exp = want.count({e, v}) != 0;
        if (!exp && ++n % 3 != op % 3 && es.size() * vs.size() > 60)
          continue;
      }
      bool got = m.get(pe, pv);
      INSTR_OFF();
      if (got != exp)
        fail("wrong-matrix", client, op,
             std::string(what) + ": element " + show(e) + " " + show(v) + " is " + (got ? "set" : "not set"));
    }
  }
}

// Partial matchings, together covering `want` and nothing else.
template <typename T>
void checkSolutions(T &sols, size_t n, const PS &es, const PS &vs, const Rel &want, int client, size_t op,
                    const char *what) {
  Rel seen;
  for (size_t k = 0; k < n; ++k) {
    const MCIM &m = sols[k];
    std::set<Pt> usedE, usedV;
    for (const Pt &e : es)
      for (const Pt &v : vs) {
        Point pe = pt({0}), pv = pe;
        {
          INSTR_OFF();
          if (!want.count({e, v}) && (e.back() * 5 + v.back()) % 3 != (int64_t)(op % 3))
            continue;
          pe = pt(e);
          pv = pt(v);
        }
        if (!m.get(pe, pv))
          continue;
        INSTR_OFF();
        if (!want.count({e, v}))
          fail("wrong-solution", client, op,
               std::string(what) + ": solution " + std::to_string(k) + " matches " + show(e) + " with " + show(v) +
                   " which is not accessed");
        if (!usedE.insert(e).second)
          fail("wrong-solution", client, op,
               std::string(what) + ": solution " + std::to_string(k) + " matches equation " + show(e) + " twice");
        if (!usedV.insert(v).second)
          fail("wrong-solution", client, op,
               std::string(what) + ": solution " + std::to_string(k) + " matches variable " + show(v) + " twice");
        seen.insert({e, v});
      }
  }
  INSTR_OFF();
  for (auto &x : want)
    if (!seen.count(x))
      fail("lost-solution", client, op,
           std::string(what) + ": " + show(x.first) + " " + show(x.second) + " belongs to no solution");
}

void clientMain(void *arg) {
  sim::instrument(true);
  auto *c = static_cast<Client *>(arg);
  World &w = *c->w;
  auto *regs = new Regs();
  for (auto &r : regs->r)
    r.m = std::make_unique<MCIM>(w.e[0], w.v[0]);
  for (size_t i = 0; i < w.l.ops.size(); ++i) {
    const Op &o = w.l.ops[i];
    if (o.client != c->id)
      continue;
    Mat &R = regs->r[o.dst];
    Mat &A = o.a < kRegs ? regs->r[o.a] : w.sh[o.a - kRegs];
    Mat &B = o.b < kRegs ? regs->r[o.b] : w.sh[o.b - kRegs];
    const Fun &F = w.l.f[o.f];
    const PS &es = w.me[R.e], &vs = w.mv[R.v];
    const char *name = "";
    Rel add;
    switch (o.op) {
    case 0:   // apply to the whole space
    case 1: { // apply to some equations
      if (!F.present)
        continue;
      name = o.op ? "apply to a subset" : "apply";
      IndexSet eqs;
      {
        INSTR_OFF();
        for (auto &p : es)
          if (!o.op || w.mse[o.s % kSets].count(p))
            for (auto &v : F.eval(p))
              if (vs.count(v))
                add.insert({p, v});
      }
      if (o.op) {
        eqs = R.m->getEquationSpace().intersect(w.se[o.s % kSets]);
        R.m->apply(eqs, *w.f[o.f]);
      } else
        R.m->apply(*w.f[o.f]);
      INSTR_OFF();
      R.r.insert(add.begin(), add.end());
      break;
    }
    case 2:   // set
    case 3: { // unset
      name = o.op == 2 ? "set" : "unset";
      Point pe = pt({0}), pv = pe;
      {
        INSTR_OFF();
        auto ie = es.begin(), iv = vs.begin();
        Pair x;
        if (o.op == 3 && !R.r.empty() && o.t % 4) {
          auto it = R.r.begin();
          std::advance(it, (o.s * 7 + o.t) % R.r.size());
          x = *it;
        } else {
          std::advance(ie, (o.s * 13 + o.t) % es.size());
          std::advance(iv, (o.t * 11 + o.s) % vs.size());
          x = {*ie, *iv};
        }
        pe = pt(x.first);
        pv = pt(x.second);
        if (o.op == 2)
          R.r.insert(x);
        else
          R.r.erase(x);
        sim::probe(o.op == 2 ? P_POINTS : P_UNSET);
      }
      if (o.op == 2)
        R.m->set(pe, pv);
      else
        R.m->unset(pe, pv);
      break;
    }
    case 4:
    case 5:
    case 6:
    case 7: {
      if (A.e != B.e || A.v != B.v)
        continue;
      if (o.op == 4 || o.op == 5) {
        if (R.e != A.e || R.v != A.v || &R == &A)
          continue;
        name = o.op == 4 ? "+=" : "-=";
        if (o.op == 4)
          *R.m += *A.m;
        else
          *R.m -= *A.m;
        INSTR_OFF();
        for (auto &x : A.r)
          if (o.op == 4)
            R.r.insert(x);
          else
            R.r.erase(x);
      } else {
        name = o.op == 6 ? "+" : "-";
        MCIM t = o.op == 6 ? *A.m + *B.m : *A.m - *B.m;
        *R.m = t;
        INSTR_OFF();
        Rel x = A.r;
        for (auto &y : B.r)
          if (o.op == 6)
            x.insert(y);
          else
            x.erase(y);
        R.e = A.e;
        R.v = A.v;
        R.r = std::move(x);
      }
      INSTR_OFF();
      if (o.op % 2)
        sim::probe(P_SUB);
      break;
    }
    case 8: {
      name = "filterRows";
      MCIM t = A.m->filterRows(w.se[o.s % kSets]);
      *R.m = std::move(t);
      INSTR_OFF();
      R.r = restrict(A.r, &w.mse[o.s % kSets], nullptr);
      R.e = A.e;
      R.v = A.v;
      sim::probe(P_FILTER);
      break;
    }
    case 9: {
      name = "filterColumns";
      MCIM t = A.m->filterColumns(w.sv[o.s % kSets]);
      *R.m = std::move(t);
      INSTR_OFF();
      R.r = restrict(A.r, nullptr, &w.msv[o.s % kSets]);
      R.e = A.e;
      R.v = A.v;
      sim::probe(P_FILTER);
      break;
    }
    case 10: {
      name = "withSpace";
      int ne = o.s % kSpaces, nv = o.t % kSpaces;
      MCIM t = A.m->withSpace(w.e[ne], w.v[nv]);
      *R.m = std::move(t);
      INSTR_OFF();
      R.r = restrict(A.r, &w.me[ne], &w.mv[nv]);
      R.e = ne;
      R.v = nv;
      sim::probe(P_RESPACE);
      break;
    }
    case 11: {
      name = "change of spaces";
      int ne = o.s % kSpaces, nv = o.t % kSpaces;
      if (o.a % 3 == 0) {
        R.m->setEquationSpace(w.e[ne]);
        R.m->setVariableSpace(w.v[nv]);
      } else if (o.a % 3 == 1) {
        R.m->setEquationSpace(w.e[ne]);
        nv = R.v;
      } else {
        R.m->setVariableSpace(w.v[nv]);
        ne = R.e;
      }
      INSTR_OFF();
      R.r = restrict(R.r, &w.me[ne], &w.mv[nv]);
      R.e = ne;
      R.v = nv;
      sim::probe(P_RESPACE);
      break;
    }
    case 12: {
      name = "copy";
      MCIM t(*A.m);
      *R.m = t;
      {
        INSTR_OFF();
        R.r = A.r;
        R.e = A.e;
        R.v = A.v;
      }
      t.clear();
      check(t, w.me[R.e], w.mv[R.v], Rel(), c->id, i, "cleared copy");
      break;
    }
    case 13: {
      name = "comparison";
      bool eq = *A.m == *B.m, ne = *A.m != *B.m;
      INSTR_OFF();
      bool same = w.me[A.e] == w.me[B.e] && w.mv[A.v] == w.mv[B.v] && A.r == B.r;
      if (eq != same || ne == same)
        fail("wrong-comparison", c->id, i, eq ? "different matrices are equal" : "equal matrices are different");
      continue;
    }
    case 14: {
      name = "split";
      auto sols = A.m->splitGroups();
      checkSolutions(sols, sols.size(), w.me[A.e], w.mv[A.v], A.r, c->id, i, name);
      INSTR_OFF();
      sim::probe(P_SPLIT);
      continue;
    }
    case 15: { // local matching problem given by access functions
      name = "local matching problem";
      llvm::SmallVector<std::unique_ptr<AccessFunction>> fs;
      Rel want;
      int ne = o.s % kSpaces, nv = o.t % kSpaces;
      int n = 1 + o.a % 3;
      bool ranges = false;
      for (int k = 0; k < n; ++k) {
        const Fun &G = w.l.f[(o.f + k) % kFuns];
        bool ok = G.present;
        {
          INSTR_OFF();
          Rel add;
          for (auto &p : w.me[ne])
            for (auto &v : G.eval(p)) {
              if (ok && w.mv[nv].count(v))
                add.insert({p, v});
              else
                ok = false;
            }
          // The accesses are always inside the variable.
          if (ok)
            want.insert(add.begin(), add.end());
          ranges |= ok && G.setValued();
        }
        if (ok)
          fs.push_back(w.f[(o.f + k) % kFuns]->clone());
      }
      if (fs.empty())
        continue;
      auto sols = solveLocalMatchingProblem(*w.e[ne], *w.v[nv], fs);
      checkSolutions(sols, sols.size(), w.me[ne], w.mv[nv], want, c->id, i, name);
      INSTR_OFF();
      sim::probe(ranges ? P_LOCALSET : P_LOCAL);
      continue;
    }
    case 16: { // local matching problem given by a matrix
      name = "local matching problem of a matrix";
      auto sols = solveLocalMatchingProblem(*A.m);
      checkSolutions(sols, sols.size(), w.me[A.e], w.mv[A.v], A.r, c->id, i, name);
      INSTR_OFF();
      sim::probe(P_LOCAL);
      continue;
    }
    case 17: {
      name = "clear";
      R.m->clear();
      INSTR_OFF();
      R.r.clear();
      break;
    }
    default:
      continue;
    }
    check(*R.m, w.me[R.e], w.mv[R.v], R.r, c->id, i, name);
    INSTR_OFF();
    if (R.r.empty())
      sim::probe(P_EMPTY);
  }
  delete regs;
  sim::instrument(false);
}
} // namespace

std::string harnessGenerate(sim::Rng &r, const char *) {
  auto num = [](int64_t v) { return std::to_string(v); };
  int er = r.below(3) ? 1 : 2, vr = r.below(3) ? 1 : 2;
  int clients = 1 + (int)r.below(3);
  std::string s = "O er " + num(er) + "\nO vr " + num(vr) + "\nO clients " + num(clients) + "\n";
  int64_t eo = r.below(3) ? 0 : r.range(-2, 3), vo = r.below(3) ? 0 : r.range(-2, 3);
  auto boxes = [&](const char *tag, int k, int rank, int64_t org, int64_t ext, int n) {
    for (int i = 0; i < n; ++i) {
      s += std::string(tag) + " " + num(k);
      for (int d = 0; d < rank; ++d) {
        int64_t lo = org + (int64_t)r.below(ext), hi = lo + 1 + (int64_t)r.below(ext);
        s += " " + num(lo) + " " + num(std::min(hi, org + ext));
      }
      s += "\n";
    }
  };
  int64_t ee = er == 1 ? r.range(2, 9) : r.range(2, 4), ve = vr == 1 ? r.range(2, 9) : r.range(2, 4);
  auto full = [&](const char *tag, int rank, int64_t org, int64_t ext) {
    s += std::string(tag) + " 0";
    for (int d = 0; d < rank; ++d)
      s += " " + num(org) + " " + num(org + ext);
    s += "\n";
  };
  full("E", er, eo, ee);
  full("V", vr, vo, ve);
  for (int k = 1; k < kSpaces; ++k) {
    boxes("E", k, er, eo, ee, 1 + r.below(3));
    boxes("V", k, vr, vo, ve, 1 + r.below(3));
  }
  for (int k = 0; k < kSets; ++k) {
    boxes("Q", k, er, eo, ee, r.below(4));
    boxes("W", k, vr, vo, ve, r.below(4));
  }
  for (int k = 0; k < kFuns; ++k) {
    s += "F " + num(k);
    bool ranges = r.below(3) == 0;
    for (int d = 0; d < vr; ++d) {
      int dim = r.below(4) ? (int)r.below(er) : -1;
      int64_t coef = 1;
      int dim2 = -1;
      if (dim >= 0 && r.below(6) == 0)
        coef = r.below(2) ? 2 : -1;
      if (dim >= 0 && er > 1 && r.below(8) == 0)
        dim2 = (int)r.below(er);
      int64_t off = dim < 0 ? vo + (int64_t)r.below(ve) : vo - eo * coef + (r.below(2) ? 0 : r.range(-2, 2));
      if (dim >= 0 && coef < 0)
        off = vo + ve - 1 + eo + r.range(-1, 1);
      int64_t width = 1;
      if (ranges && (dim < 0 || r.below(2))) {
        if (dim >= 0)
          dim = dim2 = -1, coef = 1, off = vo + (int64_t)r.below(ve);
        width = std::min<int64_t>(r.range(1, 4), vo + ve - off);
      }
      s += "  " + num(dim) + " " + num(coef) + " " + num(dim2) + " " + num(off) + " " + num(width);
    }
    s += "\n";
  }
  int n = 5 + (int)r.below(r.below(3) ? 20 : 45);
  static const int mix[] = {0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 5, 6, 7, 7, 8, 8,
                            9, 9, 10, 10, 11, 11, 12, 13, 14, 14, 15, 15, 16, 17};
  for (int i = 0; i < n; ++i) {
    int op = i < 3 ? (int)r.below(3) : mix[r.below(sizeof mix / sizeof *mix)];
    s += "C " + num(r.below(clients)) + " " + num(op) + " " + num(r.below(kRegs)) + " " +
         num(r.below(kRegs + kShared)) + " " + num(r.below(kRegs + kShared)) + " " + num(r.below(kFuns)) + " " +
         num(r.below(40)) + " " + num(r.below(40)) + "\n";
  }
  return s;
}

bool harnessExecute(const std::string &text, const char *) {
  sim::instrument(false);
  World w;
  if (!parseLoad(text, w.l))
    return false;
  auto *pool = new sim::SimThreadPool(sim::config().workers);
  gCtx->setThreadPool(*pool);
  for (int k = 0; k < kSpaces; ++k) {
    w.me[k] = pointsOf(w.l.e[k]);
    w.mv[k] = pointsOf(w.l.v[k]);
  }
  for (int k = 0; k < kSets; ++k) {
    w.mse[k] = pointsOf(w.l.se[k]);
    w.msv[k] = pointsOf(w.l.sv[k]);
  }
  sim::instrument(true);
  for (int k = 0; k < kSpaces; ++k) {
    w.e[k] = std::make_shared<const IndexSet>(toSet(w.l.e[k]));
    w.v[k] = std::make_shared<const IndexSet>(toSet(w.l.v[k]));
  }
  for (int k = 0; k < kSets; ++k) {
    w.se[k] = toSet(w.l.se[k]);
    w.sv[k] = toSet(w.l.sv[k]);
  }
  for (int k = 0; k < kFuns; ++k)
    if (w.l.f[k].present)
      w.f[k] = toFunction(w.l.f[k], w.l.er);
  for (int k = 0; k < kShared; ++k) {
    Mat &M = w.sh[k];
    M.m = std::make_unique<MCIM>(w.e[0], w.v[0]);
    for (int j = k; j < kFuns; j += 2) {
      const Fun &F = w.l.f[j];
      if (!F.present)
        continue;
      M.m->apply(*w.f[j]);
      INSTR_OFF();
      for (auto &p : w.me[0])
        for (auto &v : F.eval(p))
          if (w.mv[0].count(v))
            M.r.insert({p, v});
    }
    check(*M.m, w.me[0], w.mv[0], M.r, -1, k, "construction of a shared matrix");
  }
  sim::instrument(false);
  std::vector<Client> cs(w.l.clients);
  std::vector<int> ids;
  for (int i = 0; i < w.l.clients; ++i) {
    cs[i] = {&w, i};
    ids.push_back(sim::spawn(clientMain, &cs[i], "client"));
  }
  for (int id : ids)
    sim::join(id);
  sim::instrument(true);
  for (int k = 0; k < kShared; ++k)
    check(*w.sh[k].m, w.me[0], w.mv[0], w.sh[k].r, -1, k, "shared matrix after the clients ended");
  sim::instrument(false);
  snprintf(sim::result().extra, sizeof(sim::result().extra), "clients=%d ops=%zu", w.l.clients, w.l.ops.size());
  return true;
}
