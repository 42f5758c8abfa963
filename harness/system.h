// Shared description of array equation systems used by the modelling harnesses:
// textual workload <-> in-memory description <-> marco objects, plus the
// scalar expansion used by the reference models.
#ifndef VERIF_SYSTEM_H
#define VERIF_SYSTEM_H
#include "harness.h"
#include "marco/Modeling/AccessFunction.h"
#include "marco/Modeling/DimensionAccessRange.h"
#include "marco/Modeling/IndexSet.h"
#include "mlir/IR/MLIRContext.h"
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace sys {
using Pt = std::vector<int64_t>;

struct Box {
  std::vector<std::pair<int64_t, int64_t>> r; // [lo, hi)
  int64_t size() const {
    int64_t s = 1;
    for (auto &p : r)
      s *= p.second - p.first;
    return s;
  }
};

inline void forEach(const Box &b, const std::function<void(const Pt &)> &f) {
  Pt p;
  for (auto &x : b.r)
    p.push_back(x.first);
  for (auto &x : b.r)
    if (x.second <= x.first)
      return;
  for (;;) {
    f(p);
    int d = (int)p.size() - 1;
    while (d >= 0 && ++p[d] == b.r[d].second) {
      p[d] = b.r[d].first;
      --d;
    }
    if (d < 0)
      return;
  }
}

// One dimension of an access: coef * d[dim] (+ d[dim2]) + off. Without dim, the
// coefficient is the number of consecutive elements accessed: [off, off + coef).
struct Dim {
  int dim = -1; // -1: constant
  int64_t coef = 1;
  int dim2 = -1;
  int64_t off = 0;
  int64_t eval(const Pt &p) const {
    int64_t v = off;
    if (dim >= 0)
      v += coef * p[dim];
    if (dim2 >= 0)
      v += p[dim2];
    return v;
  }
};

struct Acc {
  int eq, var;
  int role = 0; // harness specific (0 read, 1 write, ...)
  std::vector<Dim> d;
  Pt eval(const Pt &p) const {
    Pt r;
    for (auto &x : d)
      r.push_back(x.eval(p));
    return r;
  }
  bool setValued() const {
    for (auto &x : d)
      if (x.dim < 0 && x.coef > 1)
        return true;
    return false;
  }
  // All the accessed elements.
  std::vector<Pt> evalAll(const Pt &p) const {
    std::vector<Pt> cur{eval(p)};
    for (size_t k = 0; k < d.size(); ++k)
      if (d[k].dim < 0 && d[k].coef > 1) {
        std::vector<Pt> next;
        for (auto &c : cur)
          for (int64_t i = 0; i < d[k].coef; ++i) {
            next.push_back(c);
            next.back()[k] += i;
          }
        cur = std::move(next);
      }
    return cur;
  }
};

struct Obj {
  int id;
  std::vector<Box> boxes; // disjoint
  std::vector<Pt> points() const {
    std::set<Pt> s;
    for (auto &b : boxes)
      forEach(b, [&](const Pt &p) { s.insert(p); });
    return std::vector<Pt>(s.begin(), s.end());
  }
  int rank() const { return boxes.empty() ? 0 : (int)boxes[0].r.size(); }
};

struct System {
  std::map<int, Obj> vars, eqs;
  std::vector<Acc> accs;
  std::map<std::string, int64_t> opt;
};

inline std::string printObj(char tag, const Obj &o) {
  std::string s;
  for (auto &b : o.boxes) {
    s += tag;
    s += " " + std::to_string(o.id) + " :";
    for (auto &r : b.r)
      s += " " + std::to_string(r.first) + " " + std::to_string(r.second);
    s += "\n";
  }
  return s;
}
inline std::string printAcc(const Acc &a) {
  std::string s = "A " + std::to_string(a.eq) + " " + std::to_string(a.var) +
                  " " + std::to_string(a.role) + " :";
  for (auto &d : a.d)
    s += " [" + std::to_string(d.dim) + " " + std::to_string(d.coef) + " " +
         std::to_string(d.dim2) + " " + std::to_string(d.off) + "]";
  return s + "\n";
}

// Parses a workload; drops items which are not meaningful (out-of-bounds
// accesses, unknown ids, overlapping boxes): the shrinker relies on it.
inline bool parse(const std::string &w, System &s) {
  std::istringstream in(w);
  std::string line;
  std::vector<Acc> accs;
  while (std::getline(in, line)) {
    std::string clean;
    for (char c : line)
      clean += (c == '[' || c == ']') ? ' ' : c;
    std::istringstream l(clean);
    std::string tag;
    l >> tag;
    if (tag == "V" || tag == "E") {
      int id;
      std::string colon;
      l >> id >> colon;
      Box b;
      int64_t lo, hi;
      while (l >> lo >> hi)
        b.r.push_back({lo, hi});
      if (b.r.empty())
        continue;
      bool bad = false;
      for (auto &r : b.r)
        if (r.first >= r.second || r.first < 0 || r.second > 64)
          bad = true;
      if (bad)
        continue;
      Obj &o = (tag == "V" ? s.vars : s.eqs)[id];
      o.id = id;
      if (!o.boxes.empty() && o.boxes[0].r.size() != b.r.size())
        continue;
      // keep boxes disjoint
      bool overlap = false;
      for (auto &x : o.boxes) {
        bool ov = true;
        for (size_t i = 0; i < b.r.size(); ++i)
          if (b.r[i].second <= x.r[i].first || x.r[i].second <= b.r[i].first)
            ov = false;
        overlap |= ov;
      }
      if (!overlap)
        o.boxes.push_back(b);
    } else if (tag == "A") {
      Acc a;
      std::string colon;
      l >> a.eq >> a.var >> a.role >> colon;
      Dim d;
      while (l >> d.dim >> d.coef >> d.dim2 >> d.off)
        a.d.push_back(d);
      accs.push_back(a);
    } else if (tag == "O") {
      std::string k;
      int64_t v;
      l >> k >> v;
      s.opt[k] = v;
    }
  }
  for (auto it = s.eqs.begin(); it != s.eqs.end();)
    it = it->second.boxes.empty() ? s.eqs.erase(it) : std::next(it);
  for (auto it = s.vars.begin(); it != s.vars.end();)
    it = it->second.boxes.empty() ? s.vars.erase(it) : std::next(it);
  for (auto &a : accs) {
    auto e = s.eqs.find(a.eq);
    auto v = s.vars.find(a.var);
    if (e == s.eqs.end() || v == s.vars.end())
      continue;
    if ((int)a.d.size() != v->second.rank())
      continue;
    bool ok = true;
    for (auto &d : a.d) {
      if (d.dim >= e->second.rank() || d.dim < -1)
        ok = false;
      if (d.dim2 >= e->second.rank() || d.dim2 < -1)
        ok = false;
      if (d.dim >= 0 && d.coef == 0)
        ok = false;
      if (d.dim < 0 && (d.coef < 1 || d.coef > 8 || (d.coef > 1 && d.dim2 >= 0)))
        ok = false;
    }
    if (!ok)
      continue;
    auto vp = v->second.points();
    std::set<Pt> vs(vp.begin(), vp.end());
    for (auto &p : e->second.points())
      for (auto &q : a.evalAll(p))
        if (!vs.count(q)) {
          ok = false;
          break;
        }
    if (ok)
      s.accs.push_back(a);
  }
  return !s.eqs.empty() && !s.vars.empty();
}

inline marco::modeling::IndexSet toIndexSet(const Obj &o) {
  using namespace marco::modeling;
  IndexSet s;
  for (auto &b : o.boxes) {
    llvm::SmallVector<Range, 3> r;
    for (auto &x : b.r)
      r.emplace_back(x.first, x.second);
    s += MultidimensionalRange(r);
  }
  return s;
}

inline std::vector<Pt> toPoints(const marco::modeling::IndexSet &s) {
  std::vector<Pt> r;
  for (marco::modeling::Point p : s) {
    Pt q;
    for (size_t i = 0; i < p.rank(); ++i)
      q.push_back(p[i]);
    r.push_back(q);
  }
  return r;
}

inline mlir::AffineExpr toExpr(const Dim &d, mlir::MLIRContext *ctx) {
  mlir::AffineExpr e;
  if (d.dim >= 0) {
    e = mlir::getAffineDimExpr(d.dim, ctx);
    if (d.coef != 1)
      e = e * d.coef;
  }
  if (d.dim2 >= 0) {
    auto e2 = mlir::getAffineDimExpr(d.dim2, ctx);
    e = e ? e + e2 : e2;
  }
  if (!e)
    e = mlir::getAffineConstantExpr(d.off, ctx);
  else if (d.off != 0)
    e = e + d.off;
  return e;
}

inline std::unique_ptr<marco::modeling::AccessFunction>
toAccess(const Acc &a, int eqRank, mlir::MLIRContext *ctx) {
  if (a.setValued()) {
    using namespace marco::modeling;
    llvm::SmallVector<std::unique_ptr<DimensionAccess>> res;
    for (auto &d : a.d) {
      if (d.dim < 0 && d.coef > 1) {
        res.push_back(std::make_unique<DimensionAccessRange>(ctx, Range(d.off, d.off + d.coef)));
        continue;
      }
      res.push_back(DimensionAccess::build(toExpr(d, ctx)));
    }
    return AccessFunction::build(ctx, eqRank, res);
  }
  llvm::SmallVector<mlir::AffineExpr> ex;
  for (auto &d : a.d)
    ex.push_back(toExpr(d, ctx));
  return marco::modeling::AccessFunction::build(
      mlir::AffineMap::get(eqRank, 0, ex, ctx));
}

inline std::string str(const Pt &p) {
  std::string s = "(";
  for (size_t i = 0; i < p.size(); ++i)
    s += (i ? "," : "") + std::to_string(p[i]);
  return s + ")";
}

// Scalar bipartite graph and Hopcroft-Karp (reference model).
struct Bip {
  int nl = 0, nr = 0;
  std::vector<std::vector<int>> adj;
  std::vector<int> ml, mr;
  bool aug(int u, std::vector<char> &seen) {
    for (int v : adj[u])
      if (!seen[v]) {
        seen[v] = 1;
        if (mr[v] < 0 || aug(mr[v], seen)) {
          ml[u] = v;
          mr[v] = u;
          return true;
        }
      }
    return false;
  }
  int solve() {
    ml.assign(nl, -1);
    mr.assign(nr, -1);
    int c = 0;
    for (int u = 0; u < nl; ++u) {
      std::vector<char> seen(nr, 0);
      c += aug(u, seen);
    }
    return c;
  }
};

//===------------------------------------------------------------------===//
// Generator
//===------------------------------------------------------------------===//
struct GenParams {
  int maxVars = 5, maxRank = 2, maxExtent = 4;
  int maxScalars = 40;
  int extraAccesses = 6;
  int pSingular = 4;  // 1/p
  int pGeneral = 12;  // 1/p of non roto-translation accesses
  int pMultiBox = 6;
  int pSet = 0;       // 1/p of accesses to several elements at once
};

inline Dim randomDim(sim::Rng &r, const Obj &e, int64_t lo, int64_t hi,
                     int pConst, int pGeneral, bool &ok) {
  // Result must stay within [lo, hi) for every point of e.
  Dim d;
  ok = true;
  for (int tries = 0; tries < 6; ++tries) {
    if (r.below(pConst) == 0 || e.rank() == 0) {
      d = Dim();
      d.dim = -1;
      d.off = r.range(lo, hi - 1);
      return d;
    }
    d = Dim();
    d.dim = (int)r.below(e.rank());
    d.coef = 1;
    if (r.chance(pGeneral)) {
      if (r.below(2))
        d.coef = 2;
      else
        d.dim2 = (int)r.below(e.rank());
    }
    int64_t mn = INT64_MAX, mx = INT64_MIN;
    for (auto &p : e.points()) {
      int64_t v = d.eval(p);
      mn = std::min(mn, v);
      mx = std::max(mx, v);
    }
    if (mx - mn + 1 > hi - lo)
      continue;
    d.off = r.range(lo - mn, hi - 1 - mx);
    return d;
  }
  d = Dim();
  d.dim = -1;
  d.off = r.range(lo, hi - 1);
  return d;
}

inline Acc randomAccess(sim::Rng &r, const Obj &e, const Obj &v,
                        const GenParams &g) {
  Acc a;
  a.eq = e.id;
  a.var = v.id;
  const Box &b = v.boxes[r.below(v.boxes.size())];
  bool ok;
  for (auto &rg : b.r)
    a.d.push_back(randomDim(r, e, rg.first, rg.second, 4, g.pGeneral, ok));
  if (g.pSet && r.chance(g.pSet)) {
    size_t k = r.below(a.d.size());
    auto &rg = b.r[k];
    a.d[k] = Dim();
    a.d[k].off = r.range(rg.first, rg.second - 1);
    a.d[k].coef = r.range(1, std::min<int64_t>(4, rg.second - a.d[k].off));
  }
  return a;
}

// Variables are tiled by equations through roto-translations, hence the system
// is solvable by construction unless made singular on purpose.
inline System generateTiled(sim::Rng &r, const GenParams &g) {
  System s;
  int nv = 1 + (int)r.below(g.maxVars);
  int64_t total = 0;
  int eid = 0;
  for (int i = 0; i < nv; ++i) {
    Obj v;
    v.id = i;
    int rank = 1 + (int)r.below(g.maxRank);
    Box b;
    for (int k = 0; k < rank; ++k) {
      int64_t lo = r.below(3) ? 0 : r.range(0, 3);
      b.r.push_back({lo, lo + 1 + (int64_t)r.below(g.maxExtent)});
    }
    if (total + b.size() > g.maxScalars && i > 0)
      break;
    total += b.size();
    v.boxes.push_back(b);
    if (r.chance(g.pMultiBox)) {
      Box c = b;
      int k = (int)r.below(rank);
      int64_t len = 1 + (int64_t)r.below(2);
      int64_t lo = b.r[k].second + (int64_t)r.below(3);
      c.r[k] = {lo, lo + len};
      v.boxes.push_back(c);
      total += c.size();
    }
    s.vars[i] = v;
  }
  std::vector<Acc> main;
  for (auto &kv : s.vars) {
    Obj &v = kv.second;
    // cut the boxes into tiles
    std::vector<Box> tiles = v.boxes;
    int cuts = (int)r.below(3);
    for (int c = 0; c < cuts; ++c) {
      size_t t = r.below(tiles.size());
      int k = (int)r.below(tiles[t].r.size());
      auto &rg = tiles[t].r[k];
      if (rg.second - rg.first < 2)
        continue;
      int64_t m = r.range(rg.first + 1, rg.second - 1);
      Box n = tiles[t];
      n.r[k].first = m;
      rg.second = m;
      tiles.push_back(n);
    }
    for (auto &t : tiles) {
      int vr = (int)t.r.size();
      // permutation of dimensions + translation; optionally an extra unit dim
      std::vector<int> perm(vr);
      for (int k = 0; k < vr; ++k)
        perm[k] = k;
      for (int k = vr - 1; k > 0; --k)
        std::swap(perm[k], perm[r.below(k + 1)]);
      Obj e;
      e.id = eid++;
      Box eb;
      eb.r.resize(vr);
      Acc a;
      a.eq = e.id;
      a.var = v.id;
      a.role = 1;
      a.d.resize(vr);
      for (int k = 0; k < vr; ++k) {
        int64_t len = t.r[k].second - t.r[k].first;
        int64_t lo = r.below(2) ? t.r[k].first : r.range(0, 4);
        if (len == 1 && r.below(2)) {
          // constant subscript; the induction has a single value
          eb.r[perm[k]] = {lo, lo + 1};
          a.d[k].dim = -1;
          a.d[k].off = t.r[k].first;
        } else {
          eb.r[perm[k]] = {lo, lo + len};
          a.d[k].dim = perm[k];
          a.d[k].off = t.r[k].first - lo;
        }
      }
      e.boxes.push_back(eb);
      s.eqs[e.id] = e;
      main.push_back(a);
    }
  }
  std::vector<int> eids, vids;
  for (auto &e : s.eqs)
    eids.push_back(e.first);
  for (auto &v : s.vars)
    vids.push_back(v.first);
  int extra = (int)r.below(g.extraAccesses + 1);
  std::vector<Acc> accs = main;
  for (int i = 0; i < extra; ++i) {
    Obj &e = s.eqs[eids[r.below(eids.size())]];
    Obj &v = s.vars[vids[r.below(vids.size())]];
    Acc a = randomAccess(r, e, v, g);
    accs.insert(accs.begin() + r.below(accs.size() + 1), a);
  }
  if (r.chance(g.pSingular)) {
    // drop some accesses or replace them by random ones
    int n = 1 + (int)r.below(2);
    for (int i = 0; i < n && !accs.empty(); ++i) {
      size_t k = r.below(accs.size());
      Obj &e = s.eqs[accs[k].eq];
      Obj &v = s.vars[vids[r.below(vids.size())]];
      accs[k] = randomAccess(r, e, v, g);
    }
  }
  s.accs = accs;
  return s;
}

inline std::string print(const System &s) {
  std::string o;
  for (auto &k : s.opt)
    o += "O " + k.first + " " + std::to_string(k.second) + "\n";
  for (auto &v : s.vars)
    o += printObj('V', v.second);
  for (auto &e : s.eqs)
    o += printObj('E', e.second);
  for (auto &a : s.accs)
    o += printAcc(a);
  return o;
}
} // namespace sys
#endif
