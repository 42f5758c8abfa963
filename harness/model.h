// Small Base Modelica models with a known meaning: their text, the equations
// they stand for one scalar at a time, and their solution by substitution.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include "../sim/harness.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mdl {
// ---- expressions: "2.5", "x", "i", "(x 1 (+ i 1))", "(+ a b)", "(der (z 1))"
struct Node {
  std::string op;
  std::vector<Node> k;
  Node() {}
  Node(std::string o, std::vector<Node> kids = {}) : op(std::move(o)), k(std::move(kids)) {}
};
inline bool isNum(const std::string &s) { return !s.empty() && (isdigit(s[0]) || (s[0] == '-' && s.size() > 1)); }
inline Node num(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.10g", v);
  return Node(b);
}
inline std::string print(const Node &n) {
  if (n.k.empty())
    return n.op;
  std::string r = "(" + n.op;
  for (auto &c : n.k)
    r += " " + print(c);
  return r + ")";
}
inline bool parse(const std::string &s, size_t &p, Node &n, int depth = 0) {
  while (p < s.size() && s[p] == ' ')
    ++p;
  if (p >= s.size() || s[p] == ')' || depth > 60)
    return false;
  bool list = s[p] == '(';
  if (list)
    ++p;
  size_t b = p;
  while (p < s.size() && !strchr(" ()", s[p]))
    ++p;
  n.op = s.substr(b, p - b);
  n.k.clear();
  if (n.op.empty())
    return false;
  if (!list)
    return true;
  for (;;) {
    while (p < s.size() && s[p] == ' ')
      ++p;
    if (p >= s.size())
      return false;
    if (s[p] == ')') {
      ++p;
      return true;
    }
    n.k.emplace_back();
    if (!parse(s, p, n.k.back(), depth + 1))
      return false;
  }
}
inline bool parse(const std::string &s, Node &n) {
  size_t p = 0;
  return parse(s, p, n);
}
inline const std::set<std::string> &operators() {
  static const std::set<std::string> o = {"+", "-", "*", "/", "neg", "if", "min", "max", "abs", "sin", "cos", "exp", "sum", "der", "{", ">", "<", ":"};
  return o;
}

// ---- models
struct Var {
  std::string name, kind; // var, out, par, state
  std::vector<int> dims;
  double value = 0; // of a parameter, start of a state
  int size() const {
    int s = 1;
    for (int d : dims)
      s *= d;
    return s;
  }
};
struct Loop {
  std::string name;
  int lo, hi;
};
struct Eq {
  bool initial = false;
  std::vector<Loop> loops;
  Node l, r;
};
struct Model {
  std::map<std::string, std::string> opt;
  std::vector<Var> vars;
  std::vector<Eq> eqs;
  const Var *find(const std::string &n) const {
    for (auto &v : vars)
      if (v.name == n)
        return &v;
    return nullptr;
  }
  int option(const std::string &n, int d) const {
    auto i = opt.find(n);
    return i == opt.end() ? d : atoi(i->second.c_str());
  }
};

inline std::string print(const Model &m) {
  std::string o;
  char b[64];
  for (auto &p : m.opt)
    o += "O " + p.first + " " + p.second + "\n";
  for (auto &v : m.vars) {
    snprintf(b, sizeof b, "%.10g", v.value);
    o += "V " + v.kind + " " + v.name + " " + b;
    for (int d : v.dims)
      o += " " + std::to_string(d);
    o += "\n";
  }
  for (auto &e : m.eqs) {
    o += e.initial ? "I " : "E ";
    for (auto &l : e.loops)
      o += l.name + ":" + std::to_string(l.lo) + ":" + std::to_string(l.hi) + " ";
    o += "= " + print(e.l) + " " + print(e.r) + "\n";
  }
  return o;
}
inline bool parse(const std::string &text, Model &m) {
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string t;
    s >> t;
    if (t == "O") {
      std::string a, b;
      s >> a >> b;
      m.opt[a] = b;
    } else if (t == "V") {
      Var v;
      s >> v.kind >> v.name >> v.value;
      int d;
      while (s >> d)
        v.dims.push_back(d);
      if (v.name.empty() || m.find(v.name))
        return false;
      m.vars.push_back(v);
    } else if (t == "E" || t == "I") {
      Eq e;
      e.initial = t == "I";
      size_t q = line.find("= ");
      if (q == std::string::npos)
        return false;
      std::istringstream ls(line.substr(2, q - 2));
      while (ls >> t) {
        Loop l;
        size_t a = t.find(':'), b = t.rfind(':');
        if (a == std::string::npos || a == b)
          return false;
        l.name = t.substr(0, a);
        l.lo = atoi(t.c_str() + a + 1);
        l.hi = atoi(t.c_str() + b + 1);
        e.loops.push_back(l);
      }
      size_t p = q + 2;
      if (!parse(line, p, e.l) || !parse(line, p, e.r))
        return false;
      m.eqs.push_back(e);
    }
  }
  return true;
}

// Every name is declared and used with a meaning, which a workload from which
// lines were removed may not do.
inline bool known(const Model &m, const Eq &e, const Node &n) {
  if (isNum(n.op))
    return n.k.empty();
  if (operators().count(n.op)) {
    if (n.op == "/" && n.k.size() == 2 && isNum(n.k[1].op) && atof(n.k[1].op.c_str()) == 0)
      return false;
    for (auto &c : n.k)
      if (!known(m, e, c))
        return false;
    return true;
  }
  for (auto &l : e.loops)
    if (l.name == n.op)
      return n.k.empty();
  const Var *v = m.find(n.op);
  if (!v || n.k.size() > v->dims.size())
    return false;
  for (auto &c : n.k)
    if (!known(m, e, c))
      return false;
  return true;
}
inline int rankOf(const Model &m, const Node &n) {
  if (n.op == "der" || n.op == "neg")
    return rankOf(m, n.k[0]);
  if (n.op == "{")
    return 1;
  if (n.op == "sum")
    return 0;
  if (operators().count(n.op)) {
    int r = 0;
    for (auto &c : n.k)
      r = std::max(r, rankOf(m, c));
    return r;
  }
  if (const Var *v = m.find(n.op)) {
    int r = (int)v->dims.size() - (int)n.k.size();
    for (auto &c : n.k)
      if (c.op == ":")
        ++r;
    return r;
  }
  return 0;
}
inline std::vector<int> shapeOf(const Model &m, const Node &n) {
  if (n.op == "der" || n.op == "neg")
    return shapeOf(m, n.k[0]);
  if (n.op == "{")
    return {(int)n.k.size()};
  if (n.op == "sum")
    return {};
  if (operators().count(n.op)) {
    std::vector<int> best;
    for (auto &c : n.k) {
      auto s = shapeOf(m, c);
      if (s.size() > best.size())
        best = s;
    }
    return best;
  }
  if (const Var *v = m.find(n.op)) {
    std::vector<int> r;
    for (size_t i = 0; i < v->dims.size(); ++i)
      if (i >= n.k.size())
        r.push_back(v->dims[i]);
      else if (n.k[i].op == ":")
        r.push_back(atoi(n.k[i].k[1].op.c_str()) - atoi(n.k[i].k[0].op.c_str()) + 1);
    return r;
  }
  return {};
}

// ---- evaluation, one scalar at a time
using Key = std::pair<std::string, std::vector<int>>; // "der(z)" for derivatives
using Values = std::map<Key, double>;
struct Eval {
  const Model &m;
  const Values &vals;
  std::set<Key> *seen = nullptr;       // records the scalars
  std::map<std::string, int> loops;
  bool bad = false;
  double ref(const Node &n, const std::vector<int> &idx, bool der) {
    const Var *v = m.find(n.op);
    std::vector<int> at;
    size_t used = 0;
    for (size_t i = 0; i < v->dims.size(); ++i) {
      int s;
      if (i >= n.k.size())
        s = used < idx.size() ? idx[used++] + 1 : -1;
      else if (n.k[i].op == ":")
        s = used < idx.size() ? idx[used++] + atoi(n.k[i].k[0].op.c_str()) : -1;
      else
        s = (int)std::lround(at_(n.k[i]));
      if (s < 1 || s > v->dims[i]) {
        bad = true;
        return 0;
      }
      at.push_back(s);
    }
    Key k{der ? "der(" + v->name + ")" : v->name, at};
    if (seen)
      seen->insert(k);
    auto f = vals.find(k);
    return f == vals.end() ? NAN : f->second;
  }
  double at_(const Node &n) { return at(n, {}); }
  double at(const Node &n, const std::vector<int> &idx) {
    if (isNum(n.op))
      return atof(n.op.c_str());
    auto sub = [&](int i) { return at(n.k[i], rankOf(m, n.k[i]) ? idx : std::vector<int>()); };
    if (operators().count(n.op)) {
      const std::string &o = n.op;
      if (o == "der")
        return ref(n.k[0], idx, true);
      if (o == "{") {
        if (idx.empty() || idx[0] >= (int)n.k.size()) {
          bad = true;
          return 0;
        }
        return at(n.k[idx[0]], {});
      }
      if (o == "sum") {
        auto sh = shapeOf(m, n.k[0]);
        std::vector<int> i(sh.size(), 0);
        double s = 0;
        for (;;) {
          s += at(n.k[0], i);
          int d = (int)sh.size() - 1;
          while (d >= 0 && ++i[d] >= sh[d])
            i[d--] = 0;
          if (d < 0)
            break;
        }
        return s;
      }
      if (o == "neg")
        return -sub(0);
      if (o == "abs")
        return std::fabs(sub(0));
      if (o == "sin")
        return std::sin(sub(0));
      if (o == "cos")
        return std::cos(sub(0));
      if (o == "exp")
        return std::exp(sub(0));
      if (o == "if") {
        double c = sub(0), a = sub(1), b = sub(2);
        return std::isnan(c) ? NAN : c ? a : b;
      }
      double a = sub(0), b = sub(1);
      if (o == "+")
        return a + b;
      if (o == "-")
        return a - b;
      if (o == "*")
        return a * b;
      if (o == "/")
        return a / b;
      if (o == "min")
        return a < b ? a : b;
      if (o == "max")
        return a > b ? a : b;
      if (o == ">" || o == "<")
        return std::isnan(a) || std::isnan(b) ? NAN : o == ">" ? a > b : a < b;
      bad = true;
      return 0;
    }
    auto l = loops.find(n.op);
    if (l != loops.end())
      return l->second;
    return ref(n, idx, false);
  }
};

struct Scalar { // one scalar equation
  int eq;
  std::vector<int> loop, idx;
  std::set<Key> keys;
};
inline double residual(const Model &m, const Scalar &s, const Values &v, bool *bad = nullptr, std::set<Key> *seen = nullptr) {
  const Eq &e = m.eqs[s.eq];
  Eval ev{m, v, seen, {}};
  for (size_t i = 0; i < e.loops.size(); ++i)
    ev.loops[e.loops[i].name] = s.loop[i];
  double a = ev.at(e.l, rankOf(m, e.l) ? s.idx : std::vector<int>());
  double b = ev.at(e.r, rankOf(m, e.r) ? s.idx : std::vector<int>());
  if (bad)
    *bad = ev.bad;
  return a - b;
}
inline double magnitude(const Model &m, const Scalar &s, const Values &v) {
  double g = 1;
  for (auto &k : s.keys) {
    auto f = v.find(k);
    if (f != v.end() && !std::isnan(f->second))
      g = std::max(g, std::fabs(f->second));
  }
  return g;
}

// The scalar equations of a model; false when one has no meaning.
inline bool expand(const Model &m, std::vector<Scalar> &out) {
  for (size_t q = 0; q < m.eqs.size(); ++q) {
    const Eq &e = m.eqs[q];
    if (!known(m, e, e.l) || !known(m, e, e.r))
      return false;
    auto sl = shapeOf(m, e.l), sr = shapeOf(m, e.r);
    if (sl != sr)
      return false;
    std::vector<int> at;
    for (auto &l : e.loops) {
      if (l.lo > l.hi)
        return false;
      at.push_back(l.lo);
    }
    for (;;) {
      std::vector<int> idx(sl.size(), 0);
      for (;;) {
        Scalar s{(int)q, at, idx, {}};
        bool bad = false;
        residual(m, s, {}, &bad, &s.keys);
        if (bad)
          return false;
        out.push_back(s);
        int d = (int)sl.size() - 1;
        while (d >= 0 && ++idx[d] >= sl[d])
          idx[d--] = 0;
        if (d < 0)
          break;
      }
      int d = (int)e.loops.size() - 1;
      while (d >= 0 && ++at[d] > e.loops[d].hi) {
        at[d] = e.loops[d].lo;
        --d;
      }
      if (d < 0)
        break;
    }
  }
  return true;
}
inline std::vector<std::vector<int>> points(const std::vector<int> &dims) {
  std::vector<std::vector<int>> r;
  std::vector<int> i(dims.size(), 1);
  for (;;) {
    r.push_back(i);
    int d = (int)dims.size() - 1;
    while (d >= 0 && ++i[d] > dims[d])
      i[d--] = 1;
    if (d < 0)
      return r;
  }
}

// Solves the unknowns one at a time from the equations in which they are the
// only one left.  Returns whether that determined them all; `order` tells the
// unknown of each equation.
inline bool substitute(const Model &m, const std::vector<Scalar> &eqs, std::set<Key> unknown, Values &vals, std::map<int, Key> &order) {
  std::vector<char> done(eqs.size(), 0);
  bool progress = true;
  if (eqs.size() != unknown.size())
    return false;
  while (progress && !unknown.empty()) {
    progress = false;
    for (size_t i = 0; i < eqs.size(); ++i) {
      if (done[i])
        continue;
      const Key *only = nullptr;
      int n = 0;
      for (auto &k : eqs[i].keys)
        if (unknown.count(k)) {
          only = &k;
          ++n;
        }
      if (n == 0)
        return false; // a check on known values: redundant or inconsistent
      if (n > 1)
        continue;
      double r[5], at[5] = {0, 1, 2, 5, 10};
      for (int t = 0; t < 5; ++t) {
        vals[*only] = at[t];
        r[t] = residual(m, eqs[i], vals);
      }
      double a = r[2] - r[1];
      if (std::fabs(a) > 1e-3 && std::fabs(r[1] - r[0] - a) < 1e-6 * (1 + std::fabs(r[0])))
        vals[*only] = -r[0] / a;
      else { // A + B / (x + C), with the unknown in a denominator
        double best = NAN;
        for (double c : {0.0, 9.0, -9.0}) {
          double y[5], bb, aa;
          for (int t = 0; t < 5; ++t)
            y[t] = 1 / (at[t] + c);
          bb = (r[2] - r[1]) / (y[2] - y[1]);
          aa = r[1] - bb * y[1];
          bool fits = std::fabs(bb) > 1e-3 && std::fabs(aa) > 1e-3 && std::fabs(bb) < 1e6;
          for (int t = 3; t < 5; ++t)
            fits = fits && std::fabs(aa + bb * y[t] - r[t]) < 1e-7 * (1 + std::fabs(bb));
          if (fits)
            best = -bb / aa - c;
        }
        if (!(std::fabs(best) < 1e4))
          return false;
        vals[*only] = best;
      }
      if (!(std::fabs(vals[*only]) < 1e6))
        return false;
      order[(int)i] = *only;
      unknown.erase(*only);
      done[i] = 1;
      progress = true;
    }
  }
  return unknown.empty();
}

// How often the expression mentions the scalar at this point, and whether that
// is only below operations with an inverse.
inline void mentions(const Model &m, Eval &ev, const Node &n, const std::vector<int> &idx, const Key &key, int &count, bool &invertible, bool path = true) {
  static const std::set<std::string> inv = {"+", "-", "*", "/", "neg"};
  std::set<Key> seen;
  if (isNum(n.op))
    return;
  if (!operators().count(n.op) || n.op == "der") {
    std::set<Key> *old = ev.seen;
    ev.seen = &seen;
    ev.at(n, idx);
    ev.seen = old;
    if (seen.count(key)) {
      ++count;
      if (!path)
        invertible = false;
    }
    return;
  }
  // Operations on whole arrays are left to a solver.
  bool whole = rankOf(m, n) > 0;
  for (size_t i = 0; i < n.k.size(); ++i) {
    bool p = path && !whole && inv.count(n.op);
    if (n.op == "{" && (int)i != (idx.empty() ? -1 : idx[0]))
      continue;
    if (n.op == "sum") {
      ev.seen = &seen;
      ev.at(n, idx);
      ev.seen = nullptr;
      if (seen.count(key)) {
        ++count;
        invertible = false;
      }
      return;
    }
    mentions(m, ev, n.k[i], n.op != "{" && rankOf(m, n.k[i]) ? idx : std::vector<int>(), key, count, invertible, p);
  }
}

// Whether the equations, as they are written, can be ordered: no cycle among
// them, loops which depend on themselves in one direction only, and unknowns
// which can be isolated.
inline bool ordered(const Model &m, const std::vector<Scalar> &eqs, const std::map<int, Key> &order, bool *backward = nullptr) {
  std::map<Key, int> by;
  for (auto &o : order)
    by[o.second] = o.first;
  std::map<int, std::set<int>> edges;
  std::map<int, std::vector<int>> dir; // per equation and dimension: bit 0 forward, bit 1 backward
  for (auto &o : order) {
    const Scalar &s = eqs[o.first];
    const Eq &e = m.eqs[s.eq];
    int count = 0;
    bool invertible = true;
    Values none;
    Eval ev{m, none, nullptr, {}};
    for (size_t i = 0; i < e.loops.size(); ++i)
      ev.loops[e.loops[i].name] = s.loop[i];
    mentions(m, ev, e.l, rankOf(m, e.l) ? s.idx : std::vector<int>(), o.second, count, invertible);
    mentions(m, ev, e.r, rankOf(m, e.r) ? s.idx : std::vector<int>(), o.second, count, invertible);
    if (count != 1 || !invertible)
      return false;
    for (auto &k : s.keys) {
      auto b = by.find(k);
      if (b == by.end() || b->second == o.first)
        continue;
      const Scalar &t = eqs[b->second];
      if (t.eq != s.eq) {
        edges[s.eq].insert(t.eq);
        continue;
      }
      std::vector<int> a = s.loop, c = t.loop;
      a.insert(a.end(), s.idx.begin(), s.idx.end());
      c.insert(c.end(), t.idx.begin(), t.idx.end());
      auto &d = dir[s.eq];
      d.resize(a.size(), 0);
      for (size_t i = 0; i < a.size(); ++i)
        d[i] |= a[i] > c[i] ? 1 : a[i] < c[i] ? 2 : 0;
    }
  }
  for (auto &d : dir)
    for (int b : d.second) {
      if (b == 3)
        return false;
      if (b == 2 && backward)
        *backward = true;
    }
  std::map<int, int> state;
  std::function<bool(int)> visit = [&](int u) {
    state[u] = 1;
    for (int v : edges[u])
      if (state[v] == 1 || (state[v] == 0 && !visit(v)))
        return false;
    state[u] = 2;
    return true;
  };
  for (auto &e : edges)
    if (state[e.first] == 0 && !visit(e.first))
      return false;
  return true;
}

// ---- text
inline std::string text(const Node &n) {
  if (isNum(n.op))
    return n.op[0] == '-' ? "(" + n.op + ")" : n.op;
  if (n.op == "neg")
    return "(-" + text(n.k[0]) + ")";
  if (n.op == "if")
    return "(if " + text(n.k[0]) + " then " + text(n.k[1]) + " else " + text(n.k[2]) + ")";
  if (n.op == "{" || n.op == "min" || n.op == "max" || n.op == "abs" || n.op == "sin" || n.op == "cos" || n.op == "exp" || n.op == "sum" || n.op == "der") {
    std::string r = n.op == "{" ? "{" : n.op + "(";
    for (size_t i = 0; i < n.k.size(); ++i)
      r += (i ? ", " : "") + text(n.k[i]);
    return r + (n.op == "{" ? "}" : ")");
  }
  if (n.op == ":")
    return text(n.k[0]) + ":" + text(n.k[1]);
  if (operators().count(n.op))
    return "(" + text(n.k[0]) + " " + n.op + " " + text(n.k[1]) + ")";
  if (n.k.empty())
    return n.op;
  std::string r = n.op + "[";
  for (size_t i = 0; i < n.k.size(); ++i)
    r += (i ? "," : "") + text(n.k[i]);
  return r + "]";
}
inline std::string text(const Model &m) {
  std::string o = "model M\n", t;
  char b[64];
  for (auto &v : m.vars) {
    t = "  ";
    if (v.kind == "par")
      t += "parameter ";
    if (v.kind == "out")
      t += "output ";
    t += "Real";
    if (!v.dims.empty()) {
      t += "[";
      for (size_t i = 0; i < v.dims.size(); ++i)
        t += (i ? "," : "") + std::to_string(v.dims[i]);
      t += "]";
    }
    t += " " + v.name;
    snprintf(b, sizeof b, "%.10g", v.value);
    if (v.kind == "state")
      t += std::string("(") + (v.dims.empty() ? "" : "each ") + "start = " + b + ", " + (v.dims.empty() ? "" : "each ") + "fixed = true)";
    if (v.kind == "istate" && v.value != 0) // only a guess
      t += std::string("(") + (v.dims.empty() ? "" : "each ") + "start = " + b + ")";
    if (v.kind == "par") {
      t += " = ";
      if (v.dims.empty())
        t += b;
      else {
        t += "{";
        for (int i = 0; i < v.dims[0]; ++i) {
          snprintf(b, sizeof b, "%.10g", v.value + i);
          t += (i ? ", " : "") + std::string(b);
        }
        t += "}";
      }
    }
    o += t + ";\n";
  }
  for (int pass = 0; pass < 2; ++pass) {
    bool head = false;
    for (auto &e : m.eqs) {
      if (e.initial != (pass == 1))
        continue;
      if (!head)
        o += pass ? "initial equation\n" : "equation\n";
      head = true;
      std::string ind = "  ";
      for (auto &l : e.loops) {
        o += ind + "for " + l.name + " in " + std::to_string(l.lo) + ":" + std::to_string(l.hi) + " loop\n";
        ind += "  ";
      }
      o += ind + text(e.l) + " = " + text(e.r) + ";\n";
      for (size_t i = 0; i < e.loops.size(); ++i) {
        ind.resize(ind.size() - 2);
        o += ind + "end for;\n";
      }
    }
  }
  return o + "end M;\n";
}

// ---- generation
struct Gen {
  sim::Rng &r;
  Model m;
  std::vector<std::string> ready; // what may be read freely
  bool refusable = false;
  bool chance(int n) { return r.below(n) == 0; }
  Node lit() {
    static const double c[] = {1, 2, 3, -1, -2, 0.5, 4, 1.5, -0.5, 7};
    return num(c[r.below(10)]);
  }
  // A subscript within 1..n.
  Node sub(int n, const std::vector<Loop> &loops) {
    if (!loops.empty() && !chance(4)) {
      const Loop &l = loops[r.below(loops.size())];
      std::vector<int> offs;
      for (int o = -4; o <= 4; ++o)
        if (l.lo + o >= 1 && l.hi + o <= n)
          offs.push_back(o);
      if (chance(4) && l.hi <= 3 * n) { // c - i
        for (int c = 1; c <= n + l.hi; ++c)
          if (c - l.hi >= 1 && c - l.lo <= n && chance(2))
            return Node("-", {num(c), Node(l.name)});
      }
      if (chance(8)) // 2 * i + c
        for (int c = -4; c <= 4; ++c)
          if (2 * l.lo + c >= 1 && 2 * l.hi + c <= n && chance(2))
            return c ? Node("+", {Node("*", {num(2), Node(l.name)}), num(c)}) : Node("*", {num(2), Node(l.name)});
      if (!offs.empty()) {
        int o = offs[r.below(offs.size())];
        if (o == 0)
          return chance(8) ? Node(chance(2) ? "+" : "-", {Node(l.name), num(0)}) : chance(12) ? Node("*", {num(1), Node(l.name)}) : Node(l.name);
        return o > 0 ? Node("+", {Node(l.name), num(o)}) : Node("-", {Node(l.name), num(-o)});
      }
    }
    return num(1 + (int)r.below(n));
  }
  Node leaf(const std::vector<Loop> &loops) {
    if (ready.empty() || chance(5)) {
      if (!loops.empty() && chance(3))
        return Node(loops[r.below(loops.size())].name);
      return lit();
    }
    const Var &v = *m.find(ready[r.below(ready.size())]);
    Node n(v.name);
    for (int d : v.dims)
      n.k.push_back(sub(d, loops));
    return n;
  }
  Node expr(const std::vector<Loop> &loops, int depth) {
    if (depth <= 0 || chance(3))
      return leaf(loops);
    switch (r.below(12)) {
    case 0:
      return Node("neg", {expr(loops, depth - 1)});
    case 1:
      return Node("/", {expr(loops, depth - 1), num(2)});
    case 2:
      return Node(chance(2) ? "min" : "max", {expr(loops, depth - 1), expr(loops, depth - 1)});
    case 3:
      return Node(chance(2) ? "sin" : "abs", {expr(loops, depth - 1)});
    case 4:
      return Node("if", {Node(chance(2) ? ">" : "<", {leaf(loops), lit()}), expr(loops, depth - 1), expr(loops, depth - 1)});
    case 5:
    case 6:
      return Node("*", {lit(), expr(loops, depth - 1)});
    case 7:
    case 8:
      return Node("-", {expr(loops, depth - 1), expr(loops, depth - 1)});
    default:
      return Node("+", {expr(loops, depth - 1), expr(loops, depth - 1)});
    }
  }
  // An equation which defines `target` as `value`, written in some other way.
  Eq define(std::vector<Loop> loops, Node target, Node value, bool array = false) {
    Eq e;
    e.loops = loops;
    Node l = std::move(target), rr = std::move(value);
    int n = (int)r.below(4);
    for (int i = 0; i < n; ++i) {
      Node c = array ? num(2) : expr(loops, 1);
      static const double f[] = {2, -1, 4, 0.5, -2};
      double k = f[r.below(5)];
      switch (r.below(array ? 3 : 7)) {
      case 1:
        if (!array && i == 0 && chance(4)) { // in a denominator
          Node far = num(chance(2) ? 9 : -9);
          l = Node("/", {num(k), l});
          rr = Node("/", {num(k), Node("+", {rr, far})});
          if (chance(2))
            l.k[1] = Node("+", {l.k[1], far});
          break;
        }
        l = Node("/", {l, num(k)});
        rr = Node("/", {rr, num(k)});
        break;
      case 0:
        l = Node("*", chance(2) || array ? std::vector<Node>{num(k), l} : std::vector<Node>{l, num(k)});
        rr = Node("*", {num(k), rr});
        break;
      case 2:
        l = Node("neg", {l});
        rr = Node("neg", {rr});
        break;
      case 3:
        l = Node("+", chance(2) ? std::vector<Node>{l, c} : std::vector<Node>{c, l});
        rr = Node("+", {rr, c});
        break;
      case 4:
        l = Node("-", {l, c});
        rr = Node("-", {rr, c});
        break;
      case 5:
        l = Node("-", {c, l});
        rr = Node("-", {c, rr});
        break;
      default:
        l = Node("+", {l, c});
        rr = Node("+", {c, rr});
      }
    }
    if (chance(3))
      std::swap(l, rr);
    e.l = std::move(l);
    e.r = std::move(rr);
    return e;
  }
  Node target(const std::string &name, std::vector<Node> subs, bool der) {
    Node n(name, std::move(subs));
    return der ? Node("der", {n}) : n;
  }
  static std::vector<Loop> pick(const char *names, std::vector<std::pair<int, int>> b) {
    std::vector<Loop> l;
    for (size_t i = 0; i < b.size(); ++i)
      l.push_back({std::string(1, names[i]), b[i].first, b[i].second});
    return l;
  }
  // An index which runs over lo..hi, as the loop may be shifted.
  Node shifted(Loop &l) {
    int s = chance(3) ? (int)r.range(-2, 3) : 0;
    if (l.lo - s < 1 && s > 0)
      s = 0;
    l.lo -= s;
    l.hi -= s;
    if (chance(12)) { // backwards
      int c = l.lo + s + l.hi + s;
      Node n("-", {num(c - s), Node(l.name)});
      return n;
    }
    if (s == 0)
      return Node(l.name);
    return s > 0 ? Node("+", {Node(l.name), num(s)}) : Node("-", {Node(l.name), num(-s)});
  }
  void defineAll(const Var &v, bool der) {
    const std::string &x = v.name;
    auto add = [&](Eq e) { m.eqs.push_back(std::move(e)); };
    if (v.dims.empty()) {
      add(define({}, target(x, {}, der), expr({}, 2)));
      return;
    }
    if (v.dims.size() == 1) {
      int n = v.dims[0];
      if (n > 1 && chance(8)) { // even and odd elements
        for (int odd = 0; odd < 2; ++odd) {
          auto l = pick("i", {{1, odd ? (n + 1) / 2 : n / 2}});
          Node s = Node("*", {num(2), Node("i")});
          if (odd)
            s = Node("-", {s, num(1)});
          add(define(l, target(x, {s}, der), expr(l, 2)));
        }
        return;
      }
      switch (r.below(der ? 3 : 7)) {
      case 0: { // one loop, or two
        int cut = n > 1 && chance(2) ? 1 + (int)r.below(n - 1) : n;
        for (int part = 0; part < 2; ++part) {
          int lo = part ? cut + 1 : 1, hi = part ? n : cut;
          if (lo > hi)
            continue;
          auto l = pick("i", {{lo, hi}});
          Node s = shifted(l[0]);
          add(define(l, target(x, {s}, der), expr(l, 2)));
        }
        break;
      }
      case 1: // each by itself
        for (int i = 1; i <= n; ++i)
          add(define({}, target(x, {num(i)}, der), expr({}, 1)));
        break;
      case 2: { // as a whole
        Node v2 = Node("{");
        std::vector<std::string> same;
        for (auto &q : ready)
          if (m.find(q)->dims == v.dims)
            same.push_back(q);
        if (!same.empty() && !chance(3)) {
          Node a = Node(same[r.below(same.size())]), b = Node(same[r.below(same.size())]);
          v2 = Node(chance(2) ? "+" : "-", {chance(2) ? Node("*", {lit(), a}) : a, b});
        } else
          for (int i = 0; i < n; ++i)
            v2.k.push_back(expr({}, 1));
        add(define({}, target(x, {}, der), v2, true));
        break;
      }
      case 3:
      case 4: { // recurrence
        bool back = chance(2);
        int step = n > 2 && chance(4) ? 2 : 1;
        for (int i = 0; i < std::min(step, n); ++i)
          add(define({}, target(x, {num(back ? n - i : 1 + i)}, false), expr({}, 2)));
        if (n <= step)
          break;
        int lo = back ? 1 : 1 + step, hi = back ? n - step : n;
        auto l = pick("i", {{lo, hi}});
        int s = chance(2) ? 0 : back ? 0 : step; // x[i+step] = x[i]
        if (s) {
          l[0].lo -= s;
          l[0].hi -= s;
        }
        auto ix = [&](int o) { return o == 0 ? Node("i") : o > 0 ? Node("+", {Node("i"), num(o)}) : Node("-", {Node("i"), num(-o)}); };
        Node prev = target(x, {ix(s + (back ? step : -step))}, false);
        Node val = Node("+", {chance(2) ? Node("*", {num(chance(2) ? 0.5 : -1), prev}) : prev, expr(l, 1)});
        add(define(l, target(x, {ix(s)}, false), val));
        break;
      }
      case 5: { // boundary in the middle, both ways
        int k = 1 + (int)r.below(n);
        add(define({}, target(x, {num(k)}, false), expr({}, 1)));
        if (k < n) {
          auto l = pick("i", {{k + 1, n}});
          add(define(l, target(x, {Node("i")}, false), Node("+", {target(x, {Node("-", {Node("i"), num(1)})}, false), expr(l, 1)})));
        }
        if (k > 1) {
          auto l = pick("i", {{1, k - 1}});
          add(define(l, target(x, {Node("i")}, false), Node("-", {expr(l, 1), target(x, {Node("+", {Node("i"), num(1)})}, false)})));
        }
        break;
      }
      default: { // all from one
        int k = 1 + (int)r.below(n);
        add(define({}, target(x, {num(k)}, false), expr({}, 1)));
        for (int part = 0; part < 2; ++part) {
          int lo = part ? k + 1 : 1, hi = part ? n : k - 1;
          if (lo > hi)
            continue;
          auto l = pick("i", {{lo, hi}});
          add(define(l, target(x, {Node("i")}, false), Node("+", {target(x, {num(k)}, false), expr(l, 1)})));
        }
      }
      }
      return;
    }
    if (v.dims.size() == 3)
      return define3(v, der);
    int a = v.dims[0], b = v.dims[1];
    switch (r.below(der ? 2 : 4)) {
    case 0: {
      auto l = pick("ij", {{1, a}, {1, b}});
      if (chance(3))
        std::swap(l[0], l[1]);
      std::vector<Node> s;
      Loop &li = l[0].name == "i" ? l[0] : l[1], &lj = l[0].name == "i" ? l[1] : l[0];
      s.push_back(shifted(li));
      s.push_back(shifted(lj));
      add(define(l, target(x, s, der), expr(l, 2)));
      break;
    }
    case 1: // row by row
      for (int i = 1; i <= a; ++i) {
        auto l = pick("j", {{1, b}});
        add(define(l, target(x, {num(i), Node("j")}, der), expr(l, 1)));
      }
      break;
    case 2: { // recurrence over the rows
      bool back = chance(2);
      auto l = pick("j", {{1, b}});
      add(define(l, target(x, {num(back ? a : 1), Node("j")}, false), expr(l, 1)));
      if (a < 2)
        break;
      auto l2 = pick("ij", {{back ? 1 : 2, back ? a - 1 : a}, {1, b}});
      add(define(l2, target(x, {Node("i"), Node("j")}, false),
                 Node("+", {target(x, {Node(back ? "+" : "-", {Node("i"), num(1)}), chance(3) ? sub(b, {{"j", 1, b}}) : Node("j")}, false), expr(l2, 1)})));
      break;
    }
    default: { // recurrence in both directions
      auto l = pick("j", {{1, b}});
      add(define(l, target(x, {num(1), Node("j")}, false), expr(l, 1)));
      if (a < 2)
        break;
      auto l1 = pick("i", {{2, a}});
      add(define(l1, target(x, {Node("i"), num(1)}, false), expr(l1, 1)));
      if (b < 2)
        break;
      auto l2 = pick("ij", {{2, a}, {2, b}});
      add(define(l2, target(x, {Node("i"), Node("j")}, false),
                 Node("+", {target(x, {Node("-", {Node("i"), num(1)}), Node("j")}, false), target(x, {Node("i"), Node("-", {Node("j"), num(1)})}, false)})));
    }
    }
  }
  // Equations among whose unknowns there is no order.
  Node bent(Node n) { // small where it depends on the unknown
    switch (r.below(8)) {
    case 0:
      return Node("sin", {Node("/", {n, num(4)})});
    case 1:
      return Node("*", {num(0.25), Node("cos", {n})});
    case 2:
      return Node("/", {n, num(-4)});
    case 3:
      return Node("neg", {Node("*", {n, num(0.25)})});
    default:
      return Node("*", {num(0.25), n});
    }
  }
  Node smooth(const std::vector<Loop> &l) {
    switch (r.below(4)) {
    case 0:
      return Node("+", {leaf(l), leaf(l)});
    case 1:
      return Node("*", {lit(), leaf(l)});
    default:
      return leaf(l);
    }
  }
  bool crossed = false; // a loop through different elements of its arrays
  void coupled(const Var &v, const Var &w) {
    std::vector<Loop> l;
    std::vector<Node> s;
    bool whole = !v.dims.empty() && chance(4);
    for (size_t i = 0; i < v.dims.size() && !whole; ++i) {
      l.push_back({std::string(1, "ijk"[i]), 1, v.dims[i]});
      s.push_back(Node(l.back().name));
    }
    Node a(v.name, s), b(w.name, s);
    if (whole) {
      Node c("{");
      Node one = Node("*", {num(0.5), b});
      std::vector<std::string> same;
      for (auto &q : ready)
        if (m.find(q)->dims == v.dims)
          same.push_back(q);
      if (!same.empty())
        one = Node("+", {one, Node(same[r.below(same.size())])});
      m.eqs.push_back(define({}, a, one, true));
      Node two = same.empty() ? Node("*", {num(-0.5), a}) : Node("-", {Node(same[r.below(same.size())]), a});
      if (v.dims.size() == 1 && chance(2)) {
        for (int i = 0; i < v.dims[0]; ++i)
          c.k.push_back(leaf({}));
        two = Node("-", {c, a});
      }
      m.eqs.push_back(define({}, b, two, true));
      return;
    }
    // Where the first reads the other one may be only a part.
    size_t cut = 0;
    if (v.dims.size() == 1 && v.dims[0] > 1 && chance(3))
      cut = 1 + r.below(v.dims[0] - 1);
    if (cut) {
      auto l1 = l;
      l1[0].hi = (int)cut;
      m.eqs.push_back(define(l1, a, Node("+", {bent(b), smooth(l1)})));
      l1 = l;
      l1[0].lo = (int)cut + 1;
      m.eqs.push_back(define(l1, a, smooth(l1)));
    } else
      m.eqs.push_back(define(l, a, Node("+", {bent(b), smooth(l)})));
    Node other = a;
    if (v.dims.size() == 1 && chance(3)) { // not the same element
      crossed = true;
      other.k[0] = chance(2) ? Node("-", {num(v.dims[0] + 1), s[0]}) : num(1 + (int)r.below(v.dims[0]));
    }
    if (chance(3))
      m.eqs.push_back(define(l, Node("-", {Node("+", {b, bent(other)}), bent(b)}), smooth(l)));
    else
      m.eqs.push_back(define(l, b, Node("-", {smooth(l), bent(other)})));
  }
  void neighbours(const Var &v) {
    int n = v.dims[0];
    Node i("i");
    auto at = [&](int o) { return Node(v.name, {o == 0 ? i : Node(o > 0 ? "+" : "-", {i, num(std::abs(o))})}); };
    int kind = (int)r.below(3);
    auto l = pick("i", {{2, n - 1}});
    if (kind == 2) { // a ring
      auto l1 = pick("i", {{2, n}});
      m.eqs.push_back(define(l1, at(0), Node("+", {bent(at(-1)), smooth(l1)})));
      m.eqs.push_back(define({}, Node(v.name, {num(1)}), Node("+", {bent(Node(v.name, {num(n)})), smooth({})})));
      return;
    }
    m.eqs.push_back(define({}, Node(v.name, {num(1)}), smooth({})));
    m.eqs.push_back(define({}, Node(v.name, {num(n)}), kind ? Node("+", {bent(Node(v.name, {num(n - 1)})), smooth({})}) : smooth({})));
    Node sum = Node("+", {bent(at(-1)), bent(at(1))});
    m.eqs.push_back(define(l, at(0), Node("+", {sum, smooth(l)})));
  }
  void mutual(const Var &v, const Var &w) {
    int n = v.dims[0], step = n > 3 && chance(3) ? 2 : 1;
    bool back = chance(2);
    auto el = [&](const Var &x, int o) { return Node(x.name, {o == 0 ? Node("i") : Node(o > 0 ? "+" : "-", {Node("i"), num(std::abs(o))})}); };
    for (int k = 1; k <= step; ++k)
      m.eqs.push_back(define({}, Node(v.name, {num(back ? n + 1 - k : k)}), expr({}, 1)));
    auto l = pick("i", {{back ? 1 : 1 + step, back ? n - step : n}});
    m.eqs.push_back(define(l, el(v, 0), Node("+", {el(w, back ? step : -step), expr(l, 1)})));
    // The other one, as a whole or in parts.
    int cut = chance(2) ? n : 1 + (int)r.below(n);
    for (int part = 0; part < 2; ++part) {
      int lo = part ? cut + 1 : 1, hi = part ? n : cut;
      if (lo > hi)
        continue;
      auto l2 = pick("i", {{lo, hi}});
      m.eqs.push_back(define(l2, el(w, 0), Node(chance(2) ? "+" : "-", {el(v, 0), expr(l2, 1)})));
    }
  }
  void steady(const Var &v) {
    std::vector<Loop> l;
    std::vector<Node> s;
    for (size_t i = 0; i < v.dims.size(); ++i) {
      l.push_back({std::string(1, "ijk"[i]), 1, v.dims[i]});
      s.push_back(Node(l.back().name));
    }
    Eq e;
    e.loops = l;
    e.l = target(v.name, s, true);
    e.r = num(0);
    m.eqs.push_back(e);
  }
  void define3(const Var &v, bool der) {
    auto l = pick("ijk", {{1, v.dims[0]}, {1, v.dims[1]}, {1, v.dims[2]}});
    std::vector<Node> s;
    if (der || chance(2)) {
      for (auto &x : l)
        s.push_back(shifted(x));
      for (size_t i = 3; i > 1; --i)
        std::swap(l[i - 1], l[r.below(i)]);
      m.eqs.push_back(define(l, target(v.name, s, der), expr(l, 2)));
      return;
    }
    // plane by plane, each from the one before
    size_t d = r.below(3);
    bool back = chance(2);
    int n = v.dims[d];
    auto l0 = l;
    l0.erase(l0.begin() + d);
    for (auto &x : l)
      s.push_back(Node(x.name));
    auto first = s, prev = s;
    first[d] = num(back ? n : 1);
    m.eqs.push_back(define(l0, target(v.name, first, false), expr(l0, 1)));
    if (n < 2)
      return;
    back ? --l[d].hi : ++l[d].lo;
    prev[d] = Node(back ? "+" : "-", {prev[d], num(1)});
    m.eqs.push_back(define(l, target(v.name, s, false), Node("+", {target(v.name, prev, false), expr(l, 1)})));
  }
  Model operator()() {
    int np = (int)r.below(3), ns = (int)r.below(3), nv = 1 + (int)r.below(5);
    bool outs = chance(4);
    for (int i = 0; i < np; ++i) {
      Var v{"p" + std::to_string(i), "par", {}, (double)(1 + r.below(6)) / 2};
      if (chance(3))
        v.dims = {1 + (int)r.below(4)};
      m.vars.push_back(v);
      ready.push_back(v.name);
    }
    auto dims = [&]() {
      std::vector<int> d;
      int k = (int)r.below(5);
      if (k >= 2)
        d.push_back(1 + (int)r.below(chance(8) ? 12 : 5));
      if (k >= 4)
        d.push_back(1 + (int)r.below(3));
      if (k >= 4 && chance(4))
        d.push_back(1 + (int)r.below(3));
      return d;
    };
    for (int i = 0; i < ns; ++i) {
      Var v{"z" + std::to_string(i), chance(5) ? "istate" : "state", dims(), (double)r.range(-4, 4) / 2};
      m.vars.push_back(v);
      ready.push_back(v.name);
    }
    for (int i = 0; i < nv; ++i) {
      Var v{"x" + std::to_string(i), outs && chance(2) ? "out" : "var", dims(), 0};
      int size = 1; // loops are solved numerically: keep them small
      for (int d : v.dims)
        size *= d;
      m.vars.push_back(v);
      if (chance(7) && i + 1 < nv && size <= 8) { // an algebraic loop
        Var w{"x" + std::to_string(++i), outs && chance(2) ? "out" : "var", v.dims, 0};
        m.vars.push_back(w);
        coupled(v, w);
        ready.push_back(w.name);
      } else if (chance(12) && v.dims.size() == 1 && v.dims[0] > 2 && size <= 8)
        neighbours(v);
      else if (chance(10) && v.dims.size() == 1 && v.dims[0] > 1 && i + 1 < nv) { // two arrays which feed each other
        Var w{"x" + std::to_string(++i), outs && chance(2) ? "out" : "var", v.dims, 0};
        m.vars.push_back(w);
        mutual(v, w);
        ready.push_back(w.name);
      } else
        defineAll(m.vars.back(), false);
      ready.push_back(v.name);
    }
    for (auto &v : std::vector<Var>(m.vars))
      if (v.kind == "state" || v.kind == "istate")
        defineAll(v, true);
    // Initial equations, in terms of states with a fixed value and parameters.
    {
      size_t had = m.eqs.size();
      auto all = ready;
      ready.clear();
      for (auto &n : all)
        if (m.find(n)->kind == "state" || m.find(n)->kind == "par")
          ready.push_back(n);
      for (auto &v : std::vector<Var>(m.vars))
        if (v.kind == "istate") {
          if (chance(6)) // a steady state
            steady(v);
          else
            defineAll(v, false);
          ready.push_back(v.name);
        }
      ready = all;
      for (size_t i = had; i < m.eqs.size(); ++i)
        m.eqs[i].initial = true;
    }
    for (size_t i = m.eqs.size(); i > 1; --i)
      std::swap(m.eqs[i - 1], m.eqs[r.below(i)]);
    for (size_t i = m.vars.size(); i > 1; --i)
      if (chance(2))
        std::swap(m.vars[i - 1], m.vars[r.below(i)]);
    // Faults: what makes a model have no solution.
    if (chance(12) && !m.eqs.empty()) {
      size_t i = r.below(m.eqs.size());
      if (chance(2))
        m.eqs.erase(m.eqs.begin() + i);
      else {
        Eq copy = m.eqs[i];
        m.eqs[r.below(m.eqs.size())] = copy;
      }
    }
    return m;
  }
};
} // namespace mdl
#endif
