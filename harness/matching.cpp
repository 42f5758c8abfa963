// C01/C02/...: array-aware matching under simulated schedules.
#include "system.h"
#include "../sim/simpool.h"
#include "marco/Modeling/Matching.h"
#include "llvm/Support/raw_ostream.h"

using namespace marco::modeling;

struct Var {
  int id;
  const sys::Obj *o;
};
struct Eq {
  int id;
  const sys::Obj *o;
  std::vector<std::pair<int, std::shared_ptr<AccessFunction>>> acc;
};

namespace marco::modeling::matching {
template <>
struct VariableTraits<Var> {
  using Id = int;
  static Id getId(const Var *v) { return v->id; }
  static size_t getRank(const Var *v) { return v->o->rank(); }
  static IndexSet getIndices(const Var *v) { return sys::toIndexSet(*v->o); }
  static llvm::raw_ostream &dump(const Var *v, llvm::raw_ostream &os) {
    return os << v->id;
  }
};
template <>
struct EquationTraits<Eq> {
  using Id = int;
  using VariableType = Var;
  static Id getId(const Eq *e) { return e->id; }
  static size_t getNumOfIterationVars(const Eq *e) { return e->o->rank(); }
  static IndexSet getIterationRanges(const Eq *e) {
    return sys::toIndexSet(*e->o);
  }
  static IndexSet getIndices(const Eq *e) { return sys::toIndexSet(*e->o); }
  static std::vector<Access<int>> getAccesses(const Eq *e) {
    std::vector<Access<int>> r;
    for (auto &a : e->acc)
      r.emplace_back(a.first, a.second->clone());
    return r;
  }
  static llvm::raw_ostream &dump(const Eq *e, llvm::raw_ostream &os) {
    return os << e->id;
  }
};
} // namespace marco::modeling::matching

enum { P_LEAF_OFF, P_SCAL_OFF, P_MATCHED, P_FAILED, P_SINGULAR, P_SCALARIZED,
       P_HK, P_UNBAL, P_SET };
const char *const harnessProbes[] = {"leaf_simplification_off",
                                     "scalarization_off",
                                     "full_matching_found",
                                     "no_full_matching",
                                     "singular_system",
                                     "scalarization_threshold_low",
                                     "nonleaf_system",
                                     "unbalanced_system",
                                     "accesses_to_several_elements",
                                     nullptr};
const char *const harnessFaults[] = {nullptr};

static mlir::MLIRContext *gCtx;

void harnessBoot(const char *) {
  gCtx = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
}

void harnessConfig(sim::Config &c, sim::Rng &, const char *) {
  c.maxEvents = 300000000ull;
}

static void expand(sys::System &s, sys::Bip &b,
                   std::map<std::pair<int, sys::Pt>, int> &ei,
                   std::map<std::pair<int, sys::Pt>, int> &vi) {
  for (auto &e : s.eqs)
    for (auto &p : e.second.points())
      ei[{e.first, p}] = b.nl++;
  for (auto &v : s.vars)
    for (auto &p : v.second.points())
      vi[{v.first, p}] = b.nr++;
  b.adj.resize(b.nl);
  for (auto &a : s.accs)
    for (auto &p : s.eqs[a.eq].points())
      for (auto &q : a.evalAll(p))
        b.adj[ei[{a.eq, p}]].push_back(vi[{a.var, q}]);
}

// How many equations are left out by greedy assignments: the ones for which
// augmenting paths are needed.
static int hardness(sim::Rng &r, sys::System &s) {
  sys::Bip b;
  std::map<std::pair<int, sys::Pt>, int> ei, vi;
  expand(s, b, ei, vi);
  int total = 0;
  for (int t = 0; t < 3; ++t) {
    std::vector<int> order;
    for (int i = 0; i < b.nl; ++i)
      order.insert(order.begin() + r.below(i + 1), i);
    std::vector<char> used(b.nr, 0);
    for (int u : order) {
      std::vector<int> c;
      for (int v : b.adj[u])
        if (!used[v])
          c.push_back(v);
      if (c.empty())
        ++total;
      else
        used[c[r.below((unsigned)c.size())]] = 1;
    }
  }
  return total;
}

// Equally sized variables and equations with few accesses each, most of which
// cover whole variables: the augmenting paths cross each other, and the same
// edges get matched and freed repeatedly.
static sys::System generateCrossing(sim::Rng &r) {
  sys::System s;
  int n = 4 + (int)r.below(7);
  int64_t len = r.below(3) ? 1 : 2 + (int64_t)r.below(2);
  std::vector<int> perm;
  for (int i = 0; i < n; ++i)
    perm.insert(perm.begin() + r.below(i + 1), i);
  auto add = [&](int eq, int var, int role) {
    sys::Acc a;
    a.eq = eq;
    a.var = var;
    a.role = role;
    a.d.resize(1);
    if (len > 1 && role == 0 && r.below(6) == 0) {
      a.d[0].dim = -1;
      a.d[0].off = (int)r.below((unsigned)len);
    } else {
      a.d[0].dim = 0;
      a.d[0].coef = 1;
      a.d[0].off = 0;
    }
    s.accs.push_back(a);
  };
  for (int i = 0; i < n; ++i) {
    sys::Obj v;
    v.id = i;
    sys::Box b;
    b.r.push_back({0, len});
    v.boxes.push_back(b);
    s.vars[i] = v;
    s.eqs[i] = v;
  }
  // A random complete matching, hidden among accesses in random order.
  std::vector<std::pair<int, int>> edges;
  for (int i = 0; i < n; ++i)
    edges.push_back({i, perm[i]});
  int extra = n / 2 + (int)r.below((unsigned)n + 1);
  for (int k = 0; k < extra; ++k) {
    std::pair<int, int> e{(int)r.below(n), (int)r.below(n)};
    if (std::find(edges.begin(), edges.end(), e) == edges.end())
      edges.push_back(e);
  }
  if (r.below(8) == 0)
    edges.erase(edges.begin() + r.below(n));
  for (size_t i = edges.size() - 1; i > 0; --i)
    std::swap(edges[i], edges[r.below((unsigned)i + 1)]);
  for (auto &e : edges)
    add(e.first, e.second, e.second == perm[e.first]);
  return s;
}

std::string harnessGenerate(sim::Rng &r, const char *mode) {
  sys::GenParams g;
  if (r.below(2) == 0) {
    int candidates = r.below(4) ? 16 : 1, best = -1;
    sys::System s;
    for (int i = 0; i < candidates; ++i) {
      sys::System t = generateCrossing(r);
      int h = candidates == 1 ? 0 : hardness(r, t);
      if (h > best) {
        best = h;
        s = t;
      }
    }
    s.opt["leaf"] = r.below(6) == 0;
    s.opt["scal"] = r.below(3) == 0;
    s.opt["threshold"] = 50;
    return sys::print(s);
  }
  switch (r.below(4)) {
  case 0:
    g.maxVars = 3;
    g.maxExtent = 3;
    g.maxRank = 1;
    break;
  case 1:
    g.maxVars = 4;
    g.maxExtent = 3;
    g.maxRank = 2;
    break;
  case 2:
    g.maxVars = 7;
    g.maxExtent = 2;
    g.maxRank = 1;
    g.extraAccesses = 12;
    break;
  default:
    g.maxVars = 4;
    g.maxExtent = 5;
    g.maxRank = 3;
    g.maxScalars = 60;
  }
  g.pSingular = r.below(3) == 0 ? 1 : 0;
  g.pGeneral = r.below(3) == 0 ? 4 : 0;
  g.pSet = r.below(4) == 0 ? 1 + (int)r.below(3) : 0;
  sys::System s;
  int candidates = r.below(3) ? 12 : 1, best = -1;
  for (int i = 0; i < candidates; ++i) {
    sys::System t = sys::generateTiled(r, g);
    int h = candidates == 1 ? 0 : hardness(r, t);
    if (h > best) {
      best = h;
      s = t;
    }
  }
  s.opt["leaf"] = r.below(4) != 0;
  s.opt["scal"] = r.below(3) != 0;
  static const int th[] = {0, 10, 30, 50, 50, 100, 200};
  s.opt["threshold"] = th[r.below(7)];
  return sys::print(s);
}

bool harnessExecute(const std::string &w, const char *mode) {
  sim::instrument(false);
  sys::System s;
  if (!sys::parse(w, s))
    return false;
  bool sound = !strcmp(mode, "sound") || !strcmp(mode, "all");
  bool complete = !strcmp(mode, "complete") || !strcmp(mode, "all");

  // Reference model.
  std::map<std::pair<int, sys::Pt>, int> ei, vi;
  sys::Bip b;
  expand(s, b, ei, vi);
  bool expected = b.nl == b.nr && b.solve() == b.nl;
  if (b.nl > 200 || b.nr > 200)
    return false;
  // The cost grows with the elements read at once: what the budget of a run says
  // about small systems does not hold for these.
  size_t pairs = 0;
  for (auto &x : b.adj)
    pairs += x.size();
  sim::costly(pairs > 700);
  if (!expected)
    sim::probe(P_SINGULAR);
  if (b.nl != b.nr)
    sim::probe(P_UNBAL);
  for (auto &a : s.accs)
    if (a.setValued()) {
      sim::probe(P_SET);
      break;
    }

  sim::SimThreadPool *pool = new sim::SimThreadPool(sim::config().workers);
  gCtx->setThreadPool(*pool);

  matching::MatchingOptions opt;
  opt.enableLeafNodesSimplification = s.opt["leaf"];
  opt.enableScalarization = s.opt["scal"];
  opt.scalarAccessThreshold = s.opt["threshold"] / 100.0;
  if (!opt.enableLeafNodesSimplification)
    sim::probe(P_LEAF_OFF);
  if (!opt.enableScalarization)
    sim::probe(P_SCAL_OFF);

  using Graph = MatchingGraph<Var, Eq>;
  using Solution = Graph::MatchingSolution;
  llvm::SmallVector<Solution> result;
  bool found;
  {
    sim::instrument(true);
    Graph graph(gCtx);
    for (auto &v : s.vars)
      graph.addVariable(Var{v.first, &v.second});
    for (auto &e : s.eqs) {
      Eq eq{e.first, &e.second, {}};
      for (auto &a : s.accs)
        if (a.eq == e.first)
          eq.acc.push_back(
              {a.var, sys::toAccess(a, e.second.rank(), gCtx)});
      graph.addEquation(std::move(eq));
    }
    found = graph.match(result, opt);
    sim::instrument(false);
  }
  snprintf(sim::result().extra, sizeof(sim::result().extra),
           "nl=%d nr=%d acc=%zu exp=%d got=%d", b.nl, b.nr, s.accs.size(),
           expected, found);
  sim::probe(found ? P_MATCHED : P_FAILED);

  if (complete && found != expected) {
    if (expected)
      sim::violation("matching-missed",
                     "a complete matching exists but none was found");
    sim::violation("matching-impossible",
                   "a matching was reported for a system that has none");
  }
  if (found && sound) {
    std::map<std::pair<int, sys::Pt>, int> eqSeen, varSeen;
    for (auto &m : result) {
      auto ep = sys::toPoints(m.getEquationIndices());
      auto vp = sys::toPoints(m.getVariableIndices());
      if (ep.size() != vp.size())
        sim::violation("matching-size",
                       "equation %d matches %zu indices with %zu indices of "
                       "variable %d",
                       m.getEquation(), ep.size(), vp.size(), m.getVariable());
      if (!s.eqs.count(m.getEquation()) || !s.vars.count(m.getVariable()))
        sim::violation("matching-unknown", "unknown equation or variable");
      sys::Bip lb;
      lb.nl = (int)ep.size();
      lb.nr = (int)vp.size();
      lb.adj.resize(lb.nl);
      std::map<sys::Pt, int> vpi;
      for (size_t i = 0; i < vp.size(); ++i)
        vpi[vp[i]] = (int)i;
      for (size_t i = 0; i < ep.size(); ++i) {
        if (!ei.count({m.getEquation(), ep[i]}))
          sim::violation("matching-domain",
                         "equation %d is matched at %s, outside its domain",
                         m.getEquation(), sys::str(ep[i]).c_str());
        if (eqSeen[{m.getEquation(), ep[i]}]++)
          sim::violation("matching-duplicate-equation",
                         "equation %d at %s is matched more than once",
                         m.getEquation(), sys::str(ep[i]).c_str());
        for (auto &a : s.accs)
          if (a.eq == m.getEquation() && a.var == m.getVariable()) {
            for (auto &q : a.evalAll(ep[i])) {
              auto it = vpi.find(q);
              if (it != vpi.end())
                lb.adj[i].push_back(it->second);
            }
          }
      }
      for (auto &p : vp) {
        if (!vi.count({m.getVariable(), p}))
          sim::violation("matching-domain",
                         "variable %d is matched at %s, outside its domain",
                         m.getVariable(), sys::str(p).c_str());
        if (varSeen[{m.getVariable(), p}]++)
          sim::violation("matching-duplicate-variable",
                         "variable %d at %s is matched more than once",
                         m.getVariable(), sys::str(p).c_str());
      }
      if (lb.solve() != lb.nl)
        sim::violation("matching-not-accessed",
                       "equation %d is matched with indices of variable %d "
                       "that it does not access one-to-one",
                       m.getEquation(), m.getVariable());
    }
    for (auto &e : ei)
      if (!eqSeen.count(e.first))
        sim::violation("matching-incomplete-equation",
                       "equation %d at %s is left unmatched", e.first.first,
                       sys::str(e.first.second).c_str());
    for (auto &v : vi)
      if (!varSeen.count(v.first))
        sim::violation("matching-incomplete-variable",
                       "variable %d at %s is left unmatched", v.first.first,
                       sys::str(v.first.second).c_str());
  }
  return true;
}
