// C03/C04: dependency graphs, strongly connected components and scheduling of
// matched array equations, under simulated schedules of the worker threads.
#include "system.h"
#include "../sim/simpool.h"
#include "marco/Modeling/ArrayEquationsDependencyGraph.h"
#include "marco/Modeling/ArrayVariablesDependencyGraph.h"
#include "marco/Modeling/DependencyGraph.h"
#include "marco/Modeling/SCCsDependencyGraph.h"
#include "marco/Modeling/Scheduling.h"
#include "marco/Modeling/SingleEntryDigraph.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>

using namespace marco::modeling;
using sys::Pt;

struct Var {
  int id;
  int getId() const { return id; }
};
struct Eq {
  int id;
  int rank;
  IndexSet indices;
  std::vector<std::pair<int, std::shared_ptr<AccessFunction>>> writes, reads;
};
using EqP = const Eq *;

namespace marco::modeling::dependency {
template <>
struct VariableTraits<Var> {
  using Id = int;
  static Id getId(const Var *v) { return v->id; }
};
template <>
struct EquationTraits<EqP> {
  using Id = int;
  using VariableType = Var;
  using AccessProperty = int;
  static Id getId(const EqP *e) { return (*e)->id; }
  static size_t getNumOfIterationVars(const EqP *e) { return (*e)->rank; }
  static IndexSet getIterationRanges(const EqP *e) { return (*e)->indices; }
  static std::vector<Access<Var, int>> get(
      const std::vector<std::pair<int, std::shared_ptr<AccessFunction>>> &l) {
    std::vector<Access<Var, int>> r;
    for (auto &a : l)
      r.emplace_back(Var{a.first}, a.second->clone(), 0);
    return r;
  }
  static std::vector<Access<Var, int>> getWrites(const EqP *e) {
    return get((*e)->writes);
  }
  static std::vector<Access<Var, int>> getReads(const EqP *e) {
    return get((*e)->reads);
  }
};

} // namespace marco::modeling::dependency

// The strongly connected components handed to the scheduler.
struct Component {
  std::vector<const Eq *> eqs;
  std::map<const Eq *, std::vector<const Eq *>> deps;
};
using CompP = const Component *;
namespace marco::modeling::dependency {
template <>
struct SCCTraits<CompP> {
  using ElementRef = EqP;
  static std::vector<ElementRef> getElements(const CompP *c) {
    return (*c)->eqs;
  }
  static std::vector<ElementRef> getDependencies(const CompP *c,
                                                 ElementRef e) {
    auto it = (*c)->deps.find(e);
    return it == (*c)->deps.end() ? std::vector<ElementRef>() : it->second;
  }
};
} // namespace marco::modeling::dependency

enum { P_CYCLIC, P_ACYCLIC, P_MULTI_SCC, P_SPLIT, P_FORWARD, P_BACKWARD,
       P_SCALAR, P_ANY, P_SELF_LOOP, P_SELF_CYCLE, P_MULTIBOX, P_SET, P_COSTLY };
const uint64_t kMaxPaths = 20000;
const char *const harnessProbes[] = {"scalar_cycle_across_equations",
                                     "no_cycle_across_equations",
                                     "scc_with_several_equations",
                                     "equation_split_between_sccs",
                                     "scheduled_forward",
                                     "scheduled_backward",
                                     "scheduled_scalar_by_scalar",
                                     "scheduled_in_any_direction",
                                     "array_equation_reading_its_own_variable",
                                     "algebraic_loop_inside_one_equation",
                                     "non_rectangular_domain",
                                     "dependency_on_several_elements_at_once",
                                     "too_many_paths_to_bound_the_search_of_cycles",
                                     nullptr};
const char *const harnessFaults[] = {nullptr};

static mlir::MLIRContext *gCtx;
void harnessBoot(const char *) {
  gCtx = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
}
void harnessConfig(sim::Config &c, sim::Rng &, const char *) {
  c.maxEvents = 60000000ull;
}

// Reads of neighbouring elements: x[i] = f(x[i - 1], y[i + 1], ...).
static sys::Acc neighbour(sim::Rng &r, const sys::Obj &e, const sys::Obj &v,
                          const sys::Acc *w, int eqId) {
  sys::Acc a;
  a.eq = eqId;
  a.var = v.id;
  if (w && (int)w->d.size() == v.rank()) {
    a.d = w->d;
    for (auto &d : a.d)
      if (r.below(2))
        d.off += r.below(4) ? r.range(-1, 1) : r.range(-2, 2);
  } else
    for (int i = 0; i < v.rank(); ++i) {
      sys::Dim d;
      d.dim = e.rank() ? (int)r.below(e.rank()) : -1;
      d.off = r.range(0, 3);
      a.d.push_back(d);
    }
  return a;
}

// Recurrences: each variable is defined by one or two array equations over its
// interior, which read neighbouring elements of the same or other variables.
static std::string generateRecurrences(sim::Rng &r) {
  sys::System s;
  int nv = 1 + (int)r.below(4), eqId = 0;
  int rank = 1 + (int)r.below(3);
  int64_t ext = rank == 3 ? 4 : rank == 2 ? 5 : 8;
  std::map<int, sys::Acc> main;
  for (int v = 0; v < nv; ++v) {
    int rk = r.below(4) ? rank : 1 + (int)r.below(3);
    sys::Obj o;
    o.id = v;
    sys::Box b;
    for (int i = 0; i < rk; ++i)
      b.r.push_back({0, 3 + (int64_t)r.below((unsigned)(rk == 3 ? 2 : ext - 2))});
    o.boxes.push_back(b);
    s.vars[v] = o;
    // interior, possibly split along one dimension
    std::vector<sys::Box> parts;
    sys::Box in = b;
    for (auto &d : in.r) {
      d.first += 1;
      if (r.below(3))
        d.second -= 1;
    }
    unsigned sd = r.below(rk);
    if (r.below(3) == 0 && in.r[sd].second - in.r[sd].first > 1) {
      sys::Box x = in, y = in;
      int64_t c = in.r[sd].first + 1 +
                  (int64_t)r.below((unsigned)(in.r[sd].second -
                                              in.r[sd].first - 1));
      x.r[sd].second = c;
      y.r[sd].first = c;
      parts = {x, y};
    } else
      parts = {in};
    for (auto &p : parts) {
      // equation dimension perm[i] <-> variable dimension i
      std::vector<int> perm;
      for (int i = 0; i < rk; ++i)
        perm.insert(perm.begin() + r.below(i + 1), i);
      if (r.below(2))
        for (int i = 0; i < rk; ++i)
          perm[i] = i;
      sys::Obj e;
      e.id = eqId++;
      sys::Box eb;
      eb.r.resize(rk);
      sys::Acc w;
      w.eq = e.id;
      w.var = v;
      w.role = 1;
      for (int i = 0; i < rk; ++i) {
        sys::Dim d;
        d.dim = perm[i];
        int64_t sh = r.below(3) ? 0 : (int64_t)r.below(3);
        d.off = -sh;
        eb.r[perm[i]] = {p.r[i].first + sh, p.r[i].second + sh};
        w.d.push_back(d);
      }
      e.boxes.push_back(eb);
      s.eqs[e.id] = e;
      s.accs.push_back(w);
      main[e.id] = w;
    }
  }
  for (auto &e : s.eqs) {
    int n = 1 + (int)r.below(3);
    int sign[3];
    for (int &x : sign)
      x = (int)r.range(-1, 1);
    bool mixed = r.below(3) == 0;
    for (int i = 0; i < n; ++i) {
      sys::Acc a = main[e.first];
      a.role = 0;
      if (r.below(3) == 0)
        a.var = (int)r.below(nv);
      if (s.vars[a.var].rank() != (int)a.d.size())
        continue;
      for (size_t k = 0; k < a.d.size(); ++k)
        a.d[k].off += mixed ? r.range(-1, 1) : r.below(3) ? sign[k] : 0;
      if (r.below(12) == 0) {
        a.d[0].dim = -1;
        a.d[0].coef = r.below(3) ? 1 : 2;
        a.d[0].dim2 = -1;
        a.d[0].off = (int64_t)r.below(3);
      }
      std::set<Pt> vp;
      for (auto &p : s.vars[a.var].points())
        vp.insert(p);
      bool ok = true;
      for (auto &p : e.second.points())
        for (auto &q : a.evalAll(p))
          ok &= vp.count(q) > 0;
      if (ok)
        s.accs.push_back(a);
    }
  }
  s.opt["dupwrite"] = r.below(8) == 0;
  s.opt["shuffle"] = r.below(1000);
  return sys::print(s);
}

std::string harnessGenerate(sim::Rng &r, const char *mode) {
  if (r.below(2))
    return generateRecurrences(r);
  sys::GenParams g;
  g.maxVars = 1 + (int)r.below(6);
  g.maxRank = 1 + (int)r.below(3);
  g.maxExtent = 2 + (int)r.below(4);
  g.maxScalars = 50;
  g.pSingular = 0;
  g.pGeneral = r.below(4) == 0 ? 4 : 0;
  g.pSet = r.below(4) == 0 ? 2 : 0;
  g.extraAccesses = 0;
  sys::System s = sys::generateTiled(r, g);
  std::vector<int> eids, vids;
  for (auto &e : s.eqs)
    eids.push_back(e.first);
  for (auto &v : s.vars)
    vids.push_back(v.first);
  // Leave a margin of elements which no equation writes around some of the
  // variables, so that equations can refer to the neighbouring elements.
  if (r.below(4))
    for (auto &v : s.vars)
      if (v.second.boxes.size() == 1 && r.below(4)) {
        for (auto &d : v.second.boxes[0].r)
          d.second += 2;
        for (auto &a : s.accs)
          if (a.var == v.first)
            for (auto &d : a.d)
              d.off += 1;
      }
  std::map<int, sys::Acc> main;
  for (auto &a : s.accs)
    main[a.eq] = a;
  int extra = (int)r.below(2 + 2 * eids.size());
  for (int i = 0; i < extra; ++i) {
    sys::Obj &e = s.eqs[eids[r.below(eids.size())]];
    sys::Acc a;
    for (int t = 0; t < 8; ++t) {
      // half of the reads refer to the variable written by the equation
      int vid = r.below(3) == 0 ? main[e.id].var : vids[r.below(vids.size())];
      if (r.below(3))
        a = neighbour(r, e, s.vars[vid], &main[e.id], e.id);
      else
        a = sys::randomAccess(r, e, s.vars[vid], g);
      std::set<Pt> vp;
      for (auto &p : s.vars[vid].points())
        vp.insert(p);
      bool ok = true;
      for (auto &p : e.points())
        for (auto &q : a.evalAll(p))
          ok &= vp.count(q) > 0;
      if (ok)
        break;
    }
    a.role = 0;
    s.accs.push_back(a);
  }
  s.opt["dupwrite"] = r.below(6) == 0;
  s.opt["shuffle"] = r.below(1000);
  return sys::print(s);
}

// ---------------------------------------------------------------------
// Reference model
struct Model {
  std::vector<std::pair<int, Pt>> node;
  std::map<std::pair<int, Pt>, int> id;
  std::vector<std::vector<int>> adj; // reader -> writer
  std::vector<int> comp;             // SCC of each node
  int ncomp = 0;

  static void tarjan(const std::vector<std::vector<int>> &adj,
                     std::vector<int> &comp, int &ncomp) {
    int n = (int)adj.size(), t = 0;
    ncomp = 0;
    comp.assign(n, -1);
    std::vector<int> low(n, 0), num(n, 0), st;
    std::function<void(int)> dfs = [&](int u) {
      low[u] = num[u] = ++t;
      st.push_back(u);
      for (int v : adj[u]) {
        if (!num[v]) {
          dfs(v);
          low[u] = std::min(low[u], low[v]);
        } else if (comp[v] < 0)
          low[u] = std::min(low[u], num[v]);
      }
      if (low[u] == num[u]) {
        for (;;) {
          int v = st.back();
          st.pop_back();
          comp[v] = ncomp;
          if (v == u)
            break;
        }
        ++ncomp;
      }
    };
    for (int i = 0; i < n; ++i)
      if (!num[i])
        dfs(i);
  }
};

static std::set<std::set<int>>
groups(const std::vector<int> &comp, int n) {
  std::vector<std::set<int>> g(n);
  for (size_t i = 0; i < comp.size(); ++i)
    g[comp[i]].insert((int)i);
  return std::set<std::set<int>>(g.begin(), g.end());
}

static Eq makeEq(const sys::System &s, const sys::Obj &o, int id,
                 const std::vector<Pt> *points, bool dup) {
  Eq e;
  e.id = id;
  e.rank = o.rank();
  if (points) {
    for (auto &p : *points) {
      llvm::SmallVector<Point::data_type, 3> c(p.begin(), p.end());
      e.indices += Point(c);
    }
  } else
    e.indices = sys::toIndexSet(o);
  for (auto &a : s.accs)
    if (a.eq == o.id) {
      std::shared_ptr<AccessFunction> f = sys::toAccess(a, o.rank(), gCtx);
      (a.role == 1 ? e.writes : e.reads).push_back({a.var, f});
      if (a.role == 1 && dup)
        e.writes.push_back({a.var, f});
    }
  return e;
}

static void arrayGraphs(sys::System &s, std::vector<Eq> &eqs, Model &m) {
  // array level model
  std::map<int, int> idx;
  for (size_t i = 0; i < eqs.size(); ++i)
    idx[eqs[i].id] = (int)i;
  int n = (int)eqs.size();
  std::vector<std::set<int>> es(n);
  for (size_t u = 0; u < m.adj.size(); ++u)
    for (int v : m.adj[u])
      es[idx[m.node[u].first]].insert(idx[m.node[v].first]);
  std::vector<std::vector<int>> adj(n);
  for (int i = 0; i < n; ++i)
    adj[i].assign(es[i].begin(), es[i].end());
  std::vector<int> comp;
  int nc;
  Model::tarjan(adj, comp, nc);

  using G = ArrayEquationsDependencyGraph<Var, EqP>;
  std::vector<EqP> ptrs;
  for (auto &e : eqs)
    ptrs.push_back(&e);
  sim::instrument(true);
  G graph(gCtx);
  graph.addEquations(ptrs);
  auto sccs = graph.getSCCs();
  SCCsDependencyGraph<G::SCC> sccGraph;
  sccGraph.addSCCs(sccs);
  auto order = sccGraph.postOrder();
  sim::instrument(false);
  // vertices
  std::multiset<int> seen;
  for (auto d : llvm::make_range(graph.equationsBegin(), graph.equationsEnd()))
    seen.insert(graph[d]->id);
  for (auto &e : eqs)
    if (seen.count(e.id) != 1)
      sim::violation("dependency-vertices",
                     "equation %d appears %zu times in the dependency graph",
                     e.id, seen.count(e.id));
  if (seen.size() != eqs.size())
    sim::violation("dependency-vertices", "unexpected equations in the graph");
  // SCCs
  std::set<std::set<int>> got, exp = groups(comp, nc);
  std::vector<int> pos(n, -1);
  int k = 0;
  for (auto &scc : sccs) {
    std::set<int> g;
    for (auto d : scc) {
      int i = idx[scc[d].getProperty()->id];
      if (!g.insert(i).second)
        sim::violation("dependency-sccs", "duplicate equation in a component");
      pos[i] = k;
      // edges
      std::set<int> out;
      for (auto t : llvm::make_range(scc.getGraph().linkedVerticesBegin(d),
                                     scc.getGraph().linkedVerticesEnd(d)))
        out.insert(idx[scc[t].getProperty()->id]);
      if (out != es[i]) {
        std::string a, b;
        for (int x : out)
          a += " " + std::to_string(eqs[x].id);
        for (int x : es[i])
          b += " " + std::to_string(eqs[x].id);
        sim::violation("dependency-edges",
                       "equation %d depends on {%s } but the graph says {%s }",
                       eqs[i].id, b.c_str(), a.c_str());
      }
    }
    ++k;
    got.insert(g);
  }
  if (got != exp)
    sim::violation("dependency-sccs",
                   "%zu strongly connected components instead of %zu, or "
                   "different ones",
                   got.size(), exp.size());
  for (int u = 0; u < n; ++u)
    for (int v : adj[u])
      if (pos[v] > pos[u])
        sim::violation("dependency-scc-order",
                       "the component of equation %d is listed before the one "
                       "of equation %d it depends on",
                       eqs[u].id, eqs[v].id);
  // order of the components
  std::vector<int> opos(n, -1);
  k = 0;
  for (auto d : order) {
    for (auto e : sccGraph[d])
      opos[idx[sccGraph[d][e].getProperty()->id]] = k;
    ++k;
  }
  for (int u = 0; u < n; ++u) {
    if (opos[u] < 0)
      sim::violation("scc-order", "equation %d is missing in the post order",
                     eqs[u].id);
    for (int v : adj[u])
      if (opos[v] > opos[u])
        sim::violation("scc-order",
                       "equation %d precedes equation %d it depends on",
                       eqs[u].id, eqs[v].id);
  }
  if (k != nc)
    sim::violation("scc-order", "wrong number of components in post order");

  // scalar graph
  using SG = ScalarEquationsDependencyGraph<Var, EqP>;
  sim::instrument(true);
  SG sgraph(gCtx);
  sgraph.addEquations(ptrs);
  auto po = sgraph.postOrder();
  auto rpo = sgraph.reversePostOrder();
  sim::instrument(false);
  std::vector<int> sp(m.node.size(), -1);
  k = 0;
  for (auto d : po) {
    auto &se = sgraph[d];
    Pt p;
    for (size_t i = 0; i < se.getIndex().rank(); ++i)
      p.push_back(se.getIndex()[i]);
    auto it = m.id.find({se.getProperty()->id, p});
    if (it == m.id.end() || sp[it->second] >= 0)
      sim::violation("scalar-order", "equation %d at %s is duplicate or unknown",
                     se.getProperty()->id, sys::str(p).c_str());
    sp[it->second] = k++;
  }
  if (k != (int)m.node.size() || rpo.size() != po.size())
    sim::violation("scalar-order",
                   "%d scalar equations in post order instead of %zu", k,
                   m.node.size());
  // An acyclic dependency must be respected.
  for (size_t u = 0; u < m.adj.size(); ++u)
    for (int v : m.adj[u])
      if (m.comp[u] != m.comp[v] && sp[v] > sp[u])
        sim::violation("scalar-order",
                       "equation %d at %s precedes equation %d at %s, which it "
                       "depends on",
                       m.node[u].first, sys::str(m.node[u].second).c_str(),
                       m.node[v].first, sys::str(m.node[v].second).c_str());

  // variables graph
  std::vector<int> vid;
  std::map<int, int> vidx;
  for (auto &v : s.vars) {
    vidx[v.first] = (int)vid.size();
    vid.push_back(v.first);
  }
  std::vector<std::set<int>> ve(vid.size());
  for (auto &e : eqs)
    if (!e.writes.empty())
      for (auto &a : e.reads)
        ve[vidx[e.writes[0].first]].insert(vidx[a.first]);
  std::vector<std::vector<int>> vadj(vid.size());
  for (size_t i = 0; i < vid.size(); ++i)
    vadj[i].assign(ve[i].begin(), ve[i].end());
  Model::tarjan(vadj, comp, nc);
  using VG = ArrayVariablesDependencyGraph<Var, EqP>;
  sim::instrument(true);
  VG vg(gCtx);
  std::vector<Var> vars;
  for (int v : vid)
    vars.push_back(Var{v});
  vg.addVariables(vars);
  vg.addEquations(ptrs);
  auto vs = vg.getSCCs();
  sim::instrument(false);
  got.clear();
  for (auto &scc : vs) {
    std::set<int> g;
    for (auto d : scc)
      g.insert(vidx[scc[d].getProperty().id]);
    got.insert(g);
  }
  if (got != groups(comp, nc) || vs.size() != got.size())
    sim::violation("variables-sccs",
                   "wrong strongly connected components of the variables");

  // reachability from selected variables (removal of unused variables)
  using Base = ::marco::modeling::dependency::SingleEntryDigraph<
      internal::dependency::ArrayVariable<Var>>;
  using PG = ArrayVariablesDependencyGraph<Var, EqP, Base>;
  int root = (int)(m.node.size() % vid.size());
  sim::instrument(true);
  auto base = std::make_shared<Base>();
  PG pg(gCtx, base);
  PG::VariableDescriptor rootD;
  for (int v : vid) {
    auto d = pg.addVariable(Var{v});
    if (v == vid[root])
      rootD = d;
  }
  pg.addEquations(ptrs);
  base->addEdge(base->getEntryNode(), rootD);
  auto ps = pg.getSCCs();
  sim::instrument(false);
  std::set<int> reach = {root}, used;
  for (std::vector<int> wl = {root}; !wl.empty();) {
    int u = wl.back();
    wl.pop_back();
    for (int v : vadj[u])
      if (reach.insert(v).second)
        wl.push_back(v);
  }
  for (auto &scc : ps)
    for (auto d : scc)
      used.insert(vidx[scc[d].getProperty().id]);
  if (used != reach)
    sim::violation("variables-reachable",
                   "%zu variables are reached from variable %d instead of %zu",
                   used.size(), vid[root], reach.size());
}

struct Item {
  int eq;
  std::set<Pt> pts;
};

bool harnessExecute(const std::string &w, const char *mode) {
  sim::instrument(false);
  sys::System s;
  if (!sys::parse(w, s))
    return false;
  bool array = !strcmp(mode, "array") || !strcmp(mode, "all");
  bool scc = !strcmp(mode, "scc") || !strcmp(mode, "all");
  bool sched = !strcmp(mode, "schedule") || !strcmp(mode, "all");

  // The write accesses must be one-to-one and cover distinct variables.
  Model m;
  std::map<std::pair<int, Pt>, int> writer;
  for (auto it = s.eqs.begin(); it != s.eqs.end();) {
    int nw = 0;
    for (auto &a : s.accs)
      nw += a.eq == it->first && a.role == 1;
    it = nw != 1 ? s.eqs.erase(it) : std::next(it);
  }
  s.accs.erase(std::remove_if(s.accs.begin(), s.accs.end(),
                              [&](sys::Acc &a) { return !s.eqs.count(a.eq); }),
               s.accs.end());
  if (s.eqs.empty())
    return false;
  for (auto &e : s.eqs) {
    if (e.second.boxes.size() > 1)
      sim::probe(P_MULTIBOX);
    for (auto &p : e.second.points()) {
      m.id[{e.first, p}] = (int)m.node.size();
      m.node.push_back({e.first, p});
    }
  }
  if (m.node.size() > 160)
    return false;
  m.adj.resize(m.node.size());
  for (auto &a : s.accs)
    if (a.role == 1)
      for (auto &p : s.eqs[a.eq].points()) {
        int me = m.id[{a.eq, p}];
        if (a.setValued() || !writer.insert({{a.var, a.eval(p)}, me}).second)
          return false;
      }
  for (auto &a : s.accs)
    if (a.role == 0)
      for (auto &p : s.eqs[a.eq].points()) {
        for (auto &q : a.evalAll(p)) {
          auto it = writer.find({a.var, q});
          if (it != writer.end()) {
            m.adj[m.id[{a.eq, p}]].push_back(it->second);
            if (m.node[it->second].first == a.eq)
              sim::probe(P_SELF_LOOP);
            if (a.setValued())
              sim::probe(P_SET);
          }
        }
      }
  Model::tarjan(m.adj, m.comp, m.ncomp);
  bool crossCycle = false, selfCycle = false;
  {
    std::vector<std::set<int>> ce(m.ncomp);
    std::vector<int> cn(m.ncomp, 0);
    for (size_t i = 0; i < m.node.size(); ++i) {
      ce[m.comp[i]].insert(m.node[i].first);
      cn[m.comp[i]]++;
    }
    for (int c = 0; c < m.ncomp; ++c) {
      crossCycle |= ce[c].size() > 1;
      selfCycle |= ce[c].size() == 1 && cn[c] > 1;
    }
    for (size_t i = 0; i < m.node.size(); ++i)
      for (int v : m.adj[i])
        selfCycle |= v == (int)i;
  }
  sim::probe(crossCycle ? P_CYCLIC : P_ACYCLIC);
  if (selfCycle)
    sim::probe(P_SELF_CYCLE);

  auto *pool = new sim::SimThreadPool(sim::config().workers);
  gCtx->setThreadPool(*pool);
  bool dup = s.opt["dupwrite"];
  std::vector<Eq> eqs;
  for (auto &e : s.eqs)
    eqs.push_back(makeEq(s, e.second, e.first, nullptr, dup));
  std::vector<EqP> ptrs;
  for (auto &e : eqs)
    ptrs.push_back(&e);
  if (array)
    arrayGraphs(s, eqs, m);
  if (!scc && !sched)
    return true;

  // The search of the cycles follows all the paths: when they are too many, its
  // cost is not held against it.
  {
    uint64_t steps = 0;
    std::vector<char> on(m.adj.size(), 0);
    std::function<void(int)> walk = [&](int u) {
      if (++steps > kMaxPaths)
        return;
      on[u] = 1;
      for (int v : m.adj[u])
        if (!on[v])
          walk(v);
      on[u] = 0;
    };
    for (size_t i = 0; i < m.adj.size() && steps <= kMaxPaths; ++i)
      walk((int)i);
    sim::costly(steps > kMaxPaths);
    if (steps > kMaxPaths)
      sim::probe(P_COSTLY);
  }

  // strongly connected components of (equation, indices) views
  using DG = DependencyGraph<Var, EqP>;
  std::vector<std::vector<Item>> comps;
  {
    sim::instrument(true);
    DG dg(gCtx);
    dg.addEquations(ptrs);
    auto res = dg.getSCCs();
    sim::instrument(false);
    for (auto &c : res) {
      std::vector<Item> items;
      for (auto &v : c)
        {
          auto pts = sys::toPoints(v.getIndices());
          items.push_back({dg[*v]->id, std::set<Pt>(pts.begin(), pts.end())});
        }
      comps.push_back(items);
    }
  }
  std::vector<int> where(m.node.size(), -1);
  std::map<int, int> views;
  for (size_t c = 0; c < comps.size(); ++c) {
    if (comps[c].size() > 1)
      sim::probe(P_MULTI_SCC);
    for (auto &it : comps[c]) {
      if (++views[it.eq] == 2)
        sim::probe(P_SPLIT);
      for (auto &p : it.pts) {
        auto f = m.id.find({it.eq, p});
        if (f == m.id.end())
          sim::violation("scc-domain",
                         "equation %d at %s is outside the domain", it.eq,
                         sys::str(p).c_str());
        if (where[f->second] >= 0)
          sim::violation("scc-duplicate",
                         "equation %d at %s belongs to two views", it.eq,
                         sys::str(p).c_str());
        where[f->second] = (int)c;
      }
    }
  }
  for (size_t i = 0; i < m.node.size(); ++i)
    if (where[i] < 0)
      sim::violation("scc-missing", "equation %d at %s is in no component",
                     m.node[i].first, sys::str(m.node[i].second).c_str());
  {
    std::map<int, int> first;
    std::map<int, std::set<int>> ce;
    for (size_t i = 0; i < m.node.size(); ++i)
      ce[m.comp[i]].insert(m.node[i].first);
    for (size_t i = 0; i < m.node.size(); ++i) {
      if (ce[m.comp[i]].size() < 2)
        continue;
      auto r = first.insert({m.comp[i], (int)i});
      int j = r.first->second;
      if (where[j] != where[i])
        sim::violation("scc-cycle-split",
                       "equation %d at %s and equation %d at %s depend on each "
                       "other but are in different components",
                       m.node[i].first, sys::str(m.node[i].second).c_str(),
                       m.node[j].first, sys::str(m.node[j].second).c_str());
    }
  }
  // dependencies between the components must be acyclic
  std::vector<std::set<int>> cs(comps.size());
  for (size_t u = 0; u < m.adj.size(); ++u)
    for (int v : m.adj[u])
      if (where[u] != where[v])
        cs[where[u]].insert(where[v]);
  std::vector<std::vector<int>> cadj(comps.size());
  for (size_t i = 0; i < comps.size(); ++i)
    cadj[i].assign(cs[i].begin(), cs[i].end());
  std::vector<int> cc;
  int ncc;
  Model::tarjan(cadj, cc, ncc);
  if (ncc != (int)comps.size())
    sim::violation("scc-order-cyclic",
                   "the components depend on each other in a cycle");
  if (!sched)
    return true;

  // Scheduling. Every view becomes an equation of its own, as done by the
  // compiler between the detection of the components and their scheduling.
  std::vector<std::unique_ptr<Eq>> views2;
  std::vector<Component> cs2(comps.size());
  std::map<const Eq *, int> compOf;
  std::map<const Eq *, int> original;
  std::vector<const Eq *> viewOf(m.node.size());
  int vid = 0;
  for (size_t c = 0; c < comps.size(); ++c)
    for (auto &it : comps[c]) {
      std::vector<Pt> pts(it.pts.begin(), it.pts.end());
      views2.push_back(std::make_unique<Eq>(
          makeEq(s, s.eqs[it.eq], vid++, &pts, dup)));
      // makeEq refers to the accesses of the original equation
      cs2[c].eqs.push_back(views2.back().get());
      compOf[views2.back().get()] = (int)c;
      original[views2.back().get()] = it.eq;
      for (auto &p : pts)
        viewOf[m.id[{it.eq, p}]] = views2.back().get();
    }
  {
    std::map<const Eq *, std::set<int>> dep;
    std::map<const Eq *, int> order;
    for (size_t i = 0; i < views2.size(); ++i)
      order[views2[i].get()] = (int)i;
    for (size_t u = 0; u < m.adj.size(); ++u)
      for (int v : m.adj[u])
        dep[viewOf[u]].insert(order[viewOf[v]]);
    for (auto &d : dep)
      for (int o : d.second)
        cs2[compOf[d.first]].deps[d.first].push_back(views2[o].get());
  }
  // The components are handed over in an arbitrary order.
  std::vector<CompP> compPtrs;
  for (auto &c : cs2)
    compPtrs.push_back(&c);
  {
    sim::Rng sr(s.opt.count("shuffle") ? (uint64_t)s.opt["shuffle"] : 1);
    for (size_t i = compPtrs.size(); i > 1; --i)
      std::swap(compPtrs[i - 1], compPtrs[sr.below((unsigned)i)]);
  }
  struct Sched {
    const Eq *eq;
    std::vector<Pt> pts;
    std::vector<int> dir; // 0 any, 1 forward, 2 backward, 3 unknown
  };
  std::vector<std::vector<Sched>> plan;
  {
    sim::instrument(true);
    Scheduler<Var, CompP> scheduler(gCtx);
    auto res = scheduler.schedule(compPtrs);
    sim::instrument(false);
    for (auto &g : res) {
      std::vector<Sched> items;
      for (auto &e : g) {
        Sched it;
        it.eq = e.getEquation();
        auto pts = sys::toPoints(e.getIndexes());
        it.pts.assign(pts.begin(), pts.end());
        for (auto d : e.getIterationDirections())
          it.dir.push_back(d == scheduling::Direction::Any        ? 0
                           : d == scheduling::Direction::Forward  ? 1
                           : d == scheduling::Direction::Backward ? 2
                                                                  : 3);
        items.push_back(it);
      }
      plan.push_back(items);
    }
  }
  std::vector<int> when(m.node.size(), -1);
  for (size_t g = 0; g < plan.size(); ++g)
    for (auto &it : plan[g]) {
      if (!original.count(it.eq))
        sim::violation("schedule-unknown", "unknown equation in the schedule");
      int eq = original[it.eq];
      for (auto &p : it.pts) {
        auto f = m.id.find({eq, p});
        if (f == m.id.end() || viewOf[f->second] != it.eq)
          sim::violation("schedule-domain",
                         "equation %d is scheduled at %s, out of its domain",
                         eq, sys::str(p).c_str());
        if (when[f->second] >= 0)
          sim::violation("schedule-duplicate",
                         "equation %d at %s is scheduled twice", eq,
                         sys::str(p).c_str());
        when[f->second] = (int)g;
      }
      if (it.dir.size() != (size_t)it.eq->rank)
        sim::violation("schedule-directions",
                       "%zu iteration directions for an equation of rank %d",
                       it.dir.size(), it.eq->rank);
    }
  for (size_t i = 0; i < m.node.size(); ++i)
    if (when[i] < 0)
      sim::violation("schedule-missing", "equation %d at %s is not scheduled",
                     m.node[i].first, sys::str(m.node[i].second).c_str());
  // Across the scheduled groups. The scalar equations obtained from an array
  // equation with an internal algebraic loop can't be ordered.
  for (size_t u = 0; u < m.adj.size(); ++u)
    for (int v : m.adj[u])
      if (when[v] > when[u] && m.comp[u] != m.comp[v])
        sim::violation("schedule-order",
                       "equation %d at %s is computed before equation %d at "
                       "%s, which it depends on",
                       m.node[u].first, sys::str(m.node[u].second).c_str(),
                       m.node[v].first, sys::str(m.node[v].second).c_str());
  // Within a scheduled group.
  for (auto &g : plan) {
    if (g.size() > 1) {
      std::set<int> cc;
      for (auto &it : g) {
        cc.insert(compOf[it.eq]);
        for (int d : it.dir)
          if (d != 3)
            sim::violation("schedule-cycle-direction",
                           "an equation of an algebraic loop is given a fixed "
                           "iteration direction");
      }
      if (cc.size() != 1)
        sim::violation("schedule-group",
                       "equations of different components are in one group");
      continue;
    }
    const Sched &it = g[0];
    int eq = original[it.eq];
    if (cs2[compOf[it.eq]].eqs.size() > 1)
      sim::violation("schedule-group",
                     "the equations of a component are scheduled separately");
    if (it.pts.size() == 1 && views2.size() && sys::toPoints(it.eq->indices).size() > 1)
      sim::probe(P_SCALAR);
    std::vector<int> free;
    for (size_t d = 0; d < it.dir.size(); ++d) {
      if (it.dir[d] == 3)
        sim::violation("schedule-directions",
                       "no iteration direction for equation %d", eq);
      sim::probe(it.dir[d] == 1   ? P_FORWARD
                 : it.dir[d] == 2 ? P_BACKWARD
                                  : P_ANY);
      if (it.dir[d] == 0)
        free.push_back((int)d);
    }
    for (unsigned mask = 0; mask < (1u << free.size()); ++mask) {
      std::vector<int> dir = it.dir;
      for (size_t k = 0; k < free.size(); ++k)
        dir[free[k]] = (mask >> k & 1) ? 2 : 1;
      auto before = [&](const Pt &a, const Pt &b) {
        for (size_t d = 0; d < a.size(); ++d)
          if (a[d] != b[d])
            return dir[d] == 2 ? a[d] > b[d] : a[d] < b[d];
        return false;
      };
      std::set<Pt> in(it.pts.begin(), it.pts.end());
      for (auto &p : it.pts) {
        int u = m.id[{eq, p}];
        for (int v : m.adj[u]) {
          if (m.node[v].first != eq || m.comp[u] == m.comp[v])
            continue;
          const Pt &q = m.node[v].second;
          if (in.count(q) && !before(q, p))
            sim::violation("schedule-direction",
                           "equation %d at %s is computed before its instance "
                           "at %s, which it depends on",
                           eq, sys::str(p).c_str(), sys::str(q).c_str());
        }
      }
    }
  }
  return true;
}
