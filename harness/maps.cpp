// Concurrent clients sharing access functions, index sets and an MLIRContext:
// every derived function and every forward / backward image must be the one of
// the expressions the functions were built from.
#include "../sim/simpool.h"
#include "marco/Modeling/AccessFunction.h"
#include "marco/Modeling/AccessFunctionRotoTranslation.h"
#include "marco/Modeling/DimensionAccess.h"
#include "marco/Modeling/DimensionAccessAdd.h"
#include "marco/Modeling/DimensionAccessConstant.h"
#include "marco/Modeling/DimensionAccessDimension.h"
#include "marco/Modeling/DimensionAccessDiv.h"
#include "marco/Modeling/DimensionAccessIndices.h"
#include "marco/Modeling/DimensionAccessMul.h"
#include "marco/Modeling/DimensionAccessRange.h"
#include "marco/Modeling/DimensionAccessSub.h"
#include "mlir/IR/AffineExpr.h"
#include "mlir/IR/AffineMap.h"
#include "system.h"
#include "llvm/Support/raw_ostream.h"
#include <array>
#include <memory>
#include <optional>

using namespace marco::modeling;
using sys::Box;
using sys::Pt;
using PS = std::set<Pt>;

enum { P_AFFINE, P_SETVALUED, P_DEPENDENT, P_INVERTED, P_INVMAP, P_COMBINED, P_CONST, P_NOTINV, P_PARTIAL };
const char *const harnessProbes[] = {
    "affine_functions",        "set_valued_functions", "dependent_iteration_spaces",
    "inverted_functions",      "backward_images",      "combined_functions",
    "constant_functions",      "non_invertible",       "backward_images_strictly_inside_the_parent",
    nullptr};
const char *const harnessFaults[] = {nullptr};

static mlir::MLIRContext *gCtx;
void harnessBoot(const char *) {
  gCtx = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
}
void harnessConfig(sim::Config &c, sim::Rng &, const char *) {
  c.maxEvents = 60000000ull;
}

namespace {
// ---- expressions ----------------------------------------------------------
struct Ex {
  char k; // c d + - * / r s(pace) p(dependent space)
  int64_t a = 0, b = 0;
  std::shared_ptr<Ex> l, r;
};
using E = std::shared_ptr<Ex>;
constexpr int kSpaces = 2, kFuns = 5, kSets = 4;

bool parseEx(std::istringstream &in, E &out, int dims) {
  std::string t;
  if (!(in >> t) || t.size() != 1)
    return false;
  out = std::make_shared<Ex>();
  out->k = t[0];
  switch (t[0]) {
  case 'c':
    return bool(in >> out->a) && out->a >= -64 && out->a <= 64;
  case 'd':
    return bool(in >> out->a) && out->a >= 0 && out->a < dims;
  case 'r':
    return bool(in >> out->a >> out->b) && out->a < out->b && out->b - out->a <= 8 && out->a >= -64 && out->b <= 64;
  case 's':
  case 'p':
    return bool(in >> out->a >> out->b) && out->a >= 0 && out->a < kSpaces && out->b >= 0 && out->b < 2;
  case '+':
  case '-':
  case '*':
  case '/':
    return parseEx(in, out->l, dims) && parseEx(in, out->r, dims);
  }
  return false;
}

struct Fun {
  bool present = false, asMap = false;
  int dims = 1;
  std::vector<E> res;
};
struct Op {
  int client, op, f, g, s, t;
};
struct Load {
  int clients = 2;
  std::array<Fun, kFuns> f;
  std::array<std::vector<Box>, kSets> s;
  std::array<std::vector<Box>, kSpaces> sp; // two-dimensional
  std::vector<Op> ops;
};

bool parseLoad(const std::string &w, Load &l) {
  std::istringstream in(w);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string t;
    s >> t;
    if (t == "O") {
      std::string k;
      int64_t v;
      s >> k >> v;
      if (k == "clients")
        l.clients = (int)v;
    } else if (t == "F") {
      int id, form, dims, n;
      if (!(s >> id >> form >> dims >> n) || id < 0 || id >= kFuns || dims < 0 || dims > 4 || n < 0 || n > 4)
        continue;
      Fun f;
      f.present = true;
      f.asMap = form;
      f.dims = dims;
      bool ok = true;
      for (int i = 0; i < n && ok; ++i) {
        E e;
        ok = parseEx(s, e, dims);
        f.res.push_back(e);
      }
      if (ok)
        l.f[id] = f;
    } else if (t == "S" || t == "X") {
      int k;
      s >> k;
      Box b;
      int64_t lo, hi;
      while (s >> lo >> hi)
        b.r.push_back({lo, hi});
      if (k < 0 || k >= (t == "S" ? kSets : kSpaces) || b.r.empty() || b.r.size() > 4)
        continue;
      bool ok = true;
      for (auto &r : b.r)
        ok &= r.first < r.second && r.first >= -64 && r.second <= 64 && r.second - r.first <= 24;
      auto &dst = t == "S" ? l.s[k] : l.sp[k];
      if (!dst.empty() && dst[0].r.size() != b.r.size())
        ok = false;
      if (t == "X" && b.r.size() != 2)
        ok = false;
      if (ok && b.size() <= 600)
        dst.push_back(b);
    } else if (t == "C") {
      Op o;
      if (s >> o.client >> o.op >> o.f >> o.g >> o.s >> o.t)
        if (o.f >= 0 && o.f < kFuns && o.g >= 0 && o.g < kFuns && o.s >= 0 && o.s < kSets && o.t >= 0 && o.t < kSets)
          l.ops.push_back(o);
    }
  }
  return l.clients >= 1 && l.clients <= 5;
}

// ---- reference semantics --------------------------------------------------
PS pointsOf(const std::vector<Box> &bs) {
  PS s;
  for (auto &b : bs)
    sys::forEach(b, [&](const Pt &p) { s.insert(p); });
  return s;
}

struct Ref {
  std::array<PS, kSpaces> spaces;
};
using Env = std::array<Pt, kSpaces>;

// Values of an expression; nullopt: outside the defined domain.
std::optional<std::set<int64_t>> evalEx(const Ref &R, const E &e, const Pt &p, const Env &env) {
  switch (e->k) {
  case 'c':
    return std::set<int64_t>{e->a};
  case 'd':
    return std::set<int64_t>{p[e->a]};
  case 'r': {
    std::set<int64_t> s;
    for (int64_t v = e->a; v < e->b; ++v)
      s.insert(v);
    return s;
  }
  case 's': {
    std::set<int64_t> s;
    for (auto &q : R.spaces[e->a])
      s.insert(q[e->b]);
    return s;
  }
  case 'p':
    return std::set<int64_t>{env[e->a][e->b]};
  }
  auto l = evalEx(R, e->l, p, env), r = evalEx(R, e->r, p, env);
  if (!l || !r)
    return std::nullopt;
  std::set<int64_t> s;
  for (int64_t a : *l)
    for (int64_t b : *r) {
      if (e->k == '/' && (a < 0 || b <= 0))
        return std::nullopt;
      s.insert(e->k == '+' ? a + b : e->k == '-' ? a - b : e->k == '*' ? a * b : a / b);
    }
  return s;
}

void depSpaces(const E &e, std::set<int> &out) {
  if (e->k == 'p')
    out.insert((int)e->a);
  if (e->l)
    depSpaces(e->l, out);
  if (e->r)
    depSpaces(e->r, out);
}
bool setValued(const E &e) {
  return e->k == 'r' || e->k == 's' || e->k == 'p' || (e->l && (setValued(e->l) || setValued(e->r)));
}
bool setValued(const Fun &f) {
  for (auto &e : f.res)
    if (setValued(e))
      return true;
  return false;
}
bool dependent(const Fun &f) {
  std::set<int> s;
  for (auto &e : f.res)
    depSpaces(e, s);
  return !s.empty();
}
// Simple: every operation keeps one side constant, no division.
bool affine(const E &e) {
  auto konst = [](auto &self, const E &x) -> bool {
    return x->k == 'c' || ((x->k == '+' || x->k == '-' || x->k == '*') && self(self, x->l) && self(self, x->r));
  };
  if (e->k == 'c' || e->k == 'd')
    return true;
  if (e->k == '+' || e->k == '-')
    return affine(e->l) && affine(e->r);
  if (e->k == '*')
    return affine(e->l) && affine(e->r) && (konst(konst, e->l) || konst(konst, e->r));
  return false;
}
bool affine(const Fun &f) {
  for (auto &e : f.res)
    if (!affine(e))
      return false;
  return true;
}

std::optional<PS> evalFun(const Ref &R, const Fun &f, const Pt &p) {
  PS out;
  if (f.res.empty())
    return out;
  std::set<int> dep;
  for (auto &e : f.res)
    depSpaces(e, dep);
  std::vector<int> ds(dep.begin(), dep.end());
  for (int d : ds)
    if (R.spaces[d].empty())
      return std::nullopt;
  Env env;
  bool bad = false;
  int assignments = 0;
  auto rec = [&](auto &self, size_t i) -> void {
    if (bad)
      return;
    if (i < ds.size()) {
      for (auto &q : R.spaces[ds[i]]) {
        env[ds[i]] = q;
        self(self, i + 1);
      }
      return;
    }
    std::vector<Pt> cur{{}};
    if (++assignments > 16) {
      bad = true;
      return;
    }
    for (auto &e : f.res) {
      auto v = evalEx(R, e, p, env);
      if (!v || v->empty()) {
        bad = true;
        return;
      }
      std::vector<Pt> next;
      for (auto &c : cur)
        for (int64_t x : *v) {
          next.push_back(c);
          next.back().push_back(x);
        }
      cur = std::move(next);
      if (cur.size() > 60) {
        bad = true;
        return;
      }
    }
    out.insert(cur.begin(), cur.end());
  };
  rec(rec, 0);
  if (bad)
    return std::nullopt;
  return out;
}
std::optional<PS> evalFun(const Ref &R, const Fun &f, const PS &ps) {
  PS out;
  for (auto &p : ps) {
    auto v = evalFun(R, f, p);
    if (!v)
      return std::nullopt;
    out.insert(v->begin(), v->end());
  }
  return out;
}

E subst(const E &e, const std::vector<E> &by) {
  if (e->k == 'd')
    return by[e->a];
  if (!e->l)
    return e;
  auto n = std::make_shared<Ex>(*e);
  n->l = subst(e->l, by);
  n->r = subst(e->r, by);
  return n;
}
std::string show(const E &e) {
  switch (e->k) {
  case 'c':
    return std::to_string(e->a);
  case 'd':
    return "d" + std::to_string(e->a);
  case 'r':
    return "[" + std::to_string(e->a) + "," + std::to_string(e->b) + ")";
  case 's':
  case 'p':
    return std::string(1, e->k) + std::to_string(e->a) + "." + std::to_string(e->b);
  }
  return "(" + show(e->l) + " " + e->k + " " + show(e->r) + ")";
}
std::string show(const Fun &f) {
  std::string s = "(" + std::to_string(f.dims) + " dims) -> (";
  for (auto &e : f.res)
    s += show(e) + ", ";
  return s + ")";
}
std::string show(const Pt &p) {
  std::string s = "(";
  for (auto x : p)
    s += std::to_string(x) + ",";
  return s + ")";
}
std::string show(const PS &ps) {
  std::string s = "{";
  int n = 0;
  for (auto &p : ps) {
    if (++n > 24) {
      s += "...";
      break;
    }
    s += show(p);
  }
  return s + "}";
}

// ---- real objects ---------------------------------------------------------
MultidimensionalRange mr(const Box &b) {
  llvm::SmallVector<Range, 3> r;
  for (auto &x : b.r)
    r.emplace_back(x.first, x.second);
  return MultidimensionalRange(r);
}
Point pt(const Pt &p) {
  llvm::SmallVector<Point::data_type> c(p.begin(), p.end());
  return Point(c);
}
PS pointsOf(const IndexSet &s) {
  PS r;
  for (Point p : s) {
    Pt q;
    for (size_t i = 0; i < p.rank(); ++i)
      q.push_back(p[i]);
    r.insert(q);
  }
  return r;
}
IndexSet toSet(const PS &ps) {
  llvm::SmallVector<Point> v;
  for (auto &p : ps)
    v.push_back(pt(p));
  return IndexSet(v);
}

using Spaces = std::array<std::shared_ptr<IndexSet>, kSpaces>;

std::unique_ptr<DimensionAccess> toAccess(mlir::MLIRContext *c, const E &e, const Spaces &sp) {
  switch (e->k) {
  case 'c':
    return std::make_unique<DimensionAccessConstant>(c, e->a);
  case 'd':
    return std::make_unique<DimensionAccessDimension>(c, e->a);
  case 'r':
    return std::make_unique<DimensionAccessRange>(c, Range(e->a, e->b));
  case 's':
    return std::make_unique<DimensionAccessIndices>(c, sp[e->a], e->b, llvm::SetVector<uint64_t>());
  case 'p': {
    llvm::SetVector<uint64_t> deps;
    deps.insert(1 - e->b);
    return std::make_unique<DimensionAccessIndices>(c, sp[e->a], e->b, deps);
  }
  }
  auto l = toAccess(c, e->l, sp), r = toAccess(c, e->r, sp);
  switch (e->k) {
  case '+':
    return *l + *r;
  case '-':
    return *l - *r;
  case '*':
    return *l * *r;
  default:
    return *l / *r;
  }
}
mlir::AffineExpr toAffine(mlir::MLIRContext *c, const E &e) {
  switch (e->k) {
  case 'c':
    return mlir::getAffineConstantExpr(e->a, c);
  case 'd':
    return mlir::getAffineDimExpr((unsigned)e->a, c);
  case '+':
    return toAffine(c, e->l) + toAffine(c, e->r);
  case '-':
    return toAffine(c, e->l) - toAffine(c, e->r);
  default:
    return toAffine(c, e->l) * toAffine(c, e->r);
  }
}
std::unique_ptr<AccessFunction> toFunction(mlir::MLIRContext *c, const Fun &f, const Spaces &sp) {
  if (f.asMap && affine(f)) {
    llvm::SmallVector<mlir::AffineExpr> ex;
    for (auto &e : f.res)
      ex.push_back(toAffine(c, e));
    return AccessFunction::build(mlir::AffineMap::get(f.dims, 0, ex, c));
  }
  llvm::SmallVector<std::unique_ptr<DimensionAccess>> r;
  for (auto &e : f.res)
    r.push_back(toAccess(c, e, sp));
  return AccessFunction::build(c, f.dims, r);
}

struct World {
  Load l;
  Ref ref;
  mlir::MLIRContext *ctx;
  Spaces spaces;
  std::array<std::unique_ptr<AccessFunction>, kFuns> f;
  std::array<IndexSet, kSets> s;
  std::array<PS, kSets> ms;
};
struct Client {
  World *w;
  int id;
};

#define INSTR_OFF() sim::Pause pause__

[[noreturn]] void fail(const char *cls, int client, size_t op, const std::string &m) {
  sim::violation(cls, "client %d, operation %zu: %s", client, op, m.c_str());
}

void compare(const char *what, int client, size_t op, const std::string &ctx, const PS &got, const PS &want) {
  if (got != want)
    fail("wrong-image", client, op,
         std::string(what) + " " + ctx + ": got " + show(got) + ", expected " + show(want));
}

// All images of `fn` over `pts` must be those of `f`.
void checkImages(const char *what, World &w, const AccessFunction &fn, const Fun &f, const PS &pts, int client,
                 size_t op) {
  int n = 0;
  for (const Pt &p : pts) {
    std::optional<PS> want;
    Point q = pt({0});
    {
      INSTR_OFF();
      if ((int)p.size() != f.dims || ++n > 40)
        return;
      want = evalFun(w.ref, f, p);
      if (!want)
        continue;
      q = pt(p);
    }
    IndexSet img = fn.map(q);
    INSTR_OFF();
    compare(what, client, op, show(f) + " at " + show(p), pointsOf(img), *want);
  }
}

PS headOf(const PS &ps, int n) {
  PS r;
  for (auto &p : ps)
    r.insert(Pt(p.begin(), p.begin() + std::min<size_t>(n, p.size())));
  return r;
}

bool identityOn(const Ref &R, const Fun &f, const PS &ps) {
  for (auto &p : ps) {
    auto v = evalFun(R, f, p);
    if (!v || v->size() != 1 || *v->begin() != p)
      return false;
  }
  return true;
}

void clientMain(void *arg) {
  sim::instrument(true);
  auto *c = static_cast<Client *>(arg);
  World &w = *c->w;
  for (size_t i = 0; i < w.l.ops.size(); ++i) {
    const Op &o = w.l.ops[i];
    if (o.client != c->id)
      continue;
    const Fun &F = w.l.f[o.f], &G = w.l.f[o.g];
    const PS &S = w.ms[o.s];
    int srank = -1;
    {
      INSTR_OFF();
      if (!F.present)
        continue;
      srank = S.empty() ? -1 : (int)S.begin()->size();
    }
    const AccessFunction &fn = *w.f[o.f];
    switch (o.op) {
    case 0: // images of points
      checkImages("map of a point", w, fn, F, S, c->id, i);
      break;
    case 1: { // image of a set
      if (srank != F.dims)
        break;
      std::optional<PS> want;
      {
        INSTR_OFF();
        want = evalFun(w.ref, F, S);
      }
      if (!want)
        break;
      IndexSet img = fn.map(w.s[o.s]);
      INSTR_OFF();
      compare("map of a set", c->id, i, show(F) + " of " + show(S), pointsOf(img), *want);
      break;
    }
    case 2:   // backward image of a set
    case 3: { // backward image of (part of) the forward image
      if (srank != F.dims || F.res.empty())
        break;
      PS acc, want, may;
      IndexSet accessed;
      bool undef = false;
      {
        INSTR_OFF();
        auto img = evalFun(w.ref, F, S);
        if (!img)
          undef = true;
        else if (o.op == 2) {
          acc = w.ms[o.t];
          if (!acc.empty() && acc.begin()->size() != F.res.size())
            undef = true;
        } else {
          acc = *img;
          int k = 0;
          for (auto it = acc.begin(); it != acc.end();)
            it = ((k++ * 7 + o.t) % 3 == 0 && o.t) ? acc.erase(it) : std::next(it);
        }
        if (!undef) {
          for (auto &p : S) {
            auto v = evalFun(w.ref, F, p);
            bool in = true, touches = false;
            for (auto &q : *v)
              if (acc.count(q))
                touches = true;
              else
                in = false;
            if (in)
              want.insert(p);
            if (touches)
              may.insert(p);
          }
          accessed = toSet(acc);
          sim::probe(P_INVMAP);
          if (!want.empty() && want.size() < S.size())
            sim::probe(P_PARTIAL);
        }
      }
      if (undef)
        break;
      IndexSet back = fn.inverseMap(accessed, w.s[o.s]);
      INSTR_OFF();
      // Exact within the parent set; when several elements are accessed at
      // once, a partial overlap may or may not count. Functions with an inverse
      // are allowed to answer regardless of the parent set.
      PS got = pointsOf(back), in;
      for (auto &p : got) {
        if (S.count(p)) {
          if (!may.count(p))
            in.insert(p);
          continue;
        }
        std::optional<PS> v;
        if (!setValued(F))
          v = evalFun(w.ref, F, p);
        if (v && !acc.count(*v->begin()))
          in.insert(p);
      }
      for (auto &p : want)
        if (!got.count(p))
          in.insert(p);
      if (!in.empty())
        fail("wrong-image", c->id, i,
             "inverseMap " + show(F) + " of " + show(acc) + " within " + show(S) + ": got " + show(got) +
                 ", expected " + show(want));
      break;
    }
    case 4: { // composition
      if (!G.present || G.dims > (int)F.res.size() || F.res.empty())
        break;
      Fun H;
      {
        INSTR_OFF();
        H.dims = F.dims;
        for (auto &e : G.res)
          H.res.push_back(subst(e, F.res));
        // Composition is only defined through the images of single points.
        if (dependent(F) || dependent(G))
          break;
        sim::probe(P_COMBINED);
      }
      auto h = fn.combine(*w.f[o.g]);
      {
        INSTR_OFF();
        if (!h)
          fail("no-composition", c->id, i, show(F) + " with " + show(G));
        if (h->getNumOfDims() != (uint64_t)F.dims || h->getNumOfResults() != G.res.size())
          fail("wrong-composition", c->id, i, show(F) + " with " + show(G) + ": wrong arity");
      }
      // A value of the first function used several times may or may not be
      // the same value at each use.
      int n = 0;
      for (const Pt &p : S) {
        std::optional<PS> want, least;
        Point q = pt({0});
        {
          INSTR_OFF();
          if ((int)p.size() != F.dims || ++n > 40)
            break;
          want = evalFun(w.ref, H, p);
          least = evalFun(w.ref, F, p);
          if (least)
            least = evalFun(w.ref, G, headOf(*least, G.dims));
          if (!want || !least)
            continue;
          q = pt(p);
        }
        IndexSet img = h->map(q);
        INSTR_OFF();
        PS got = pointsOf(img);
        if (!std::includes(got.begin(), got.end(), least->begin(), least->end()) ||
            !std::includes(want->begin(), want->end(), got.begin(), got.end()))
          compare("composition", c->id, i, show(F) + " with " + show(G) + " at " + show(p), got, *least);
      }
      break;
    }
    case 5: { // inverse
      auto inv = fn.inverse();
      bool canInvert = fn.isInvertible();
      bool mustInvert = false;
      {
        INSTR_OFF();
        if (canInvert != (inv != nullptr))
          fail("wrong-inverse", c->id, i, show(F) + ": isInvertible() and inverse() disagree");
        // a permutation of the dimensions with offsets
        std::set<int64_t> used;
        mustInvert = F.dims > 0 && (int)F.res.size() == F.dims;
        for (auto &e : F.res) {
          if (e->k == 'd')
            used.insert(e->a);
          else if ((e->k == '+' || e->k == '-') && e->l->k == 'd' && e->r->k == 'c')
            used.insert(e->l->a);
          else
            mustInvert = false;
        }
        mustInvert &= (int)used.size() == F.dims;
        if (mustInvert && !inv)
          fail("wrong-inverse", c->id, i, show(F) + " is a bijection but is not inverted");
        if (inv && F.dims == 0 && F.res.empty())
          break;
        sim::probe(inv ? P_INVERTED : P_NOTINV);
      }
      if (!inv || srank != F.dims)
        break;
      int n = 0;
      for (const Pt &p : S) {
        PS img;
        Point q = pt({0});
        {
          INSTR_OFF();
          if (++n > 20)
            break;
          auto v = evalFun(w.ref, F, p);
          if (!v)
            continue;
          img = *v;
          if (img.size() != 1)
            fail("wrong-inverse", c->id, i, show(F) + " is not single valued but has an inverse");
          q = pt(*img.begin());
        }
        IndexSet back = inv->map(q);
        {
          INSTR_OFF();
          compare("inverse", c->id, i, "of " + show(F) + " at " + show(*img.begin()), pointsOf(back), PS{p});
          q = pt(p);
        }
        // ... and on the other side
        IndexSet there = inv->map(q);
        for (Point x : there) {
          IndexSet again = fn.map(x);
          INSTR_OFF();
          compare("function after its inverse", c->id, i, "of " + show(F) + " at " + show(p), pointsOf(again), PS{p});
        }
      }
      break;
    }
    case 6: { // copies and equality
      auto copy = fn.clone();
      bool eqCopy = *copy == fn, neCopy = *copy != fn;
      bool eqOther = false;
      if (G.present)
        eqOther = fn == *w.f[o.g];
      bool eqBack = G.present && *w.f[o.g] == fn;
      {
        INSTR_OFF();
        if (!eqCopy || neCopy)
          fail("wrong-equality", c->id, i, show(F) + " differs from its copy");
        if (eqOther != eqBack)
          fail("wrong-equality", c->id, i, show(F) + " / " + show(G) + ": equality is not symmetric");
        if (eqOther) {
          bool same = F.dims == G.dims && F.res.size() == G.res.size();
          for (auto &p : S)
            if (same && (int)p.size() == F.dims) {
              auto a = evalFun(w.ref, F, p), b = evalFun(w.ref, G, p);
              if (a && b && *a != *b)
                same = false;
            }
          if (!same)
            fail("wrong-equality", c->id, i, show(F) + " and " + show(G) + " are said to be equal");
        }
      }
      checkImages("copy", w, *copy, F, S, c->id, i);
      break;
    }
    case 7: { // additional dimensions
      uint64_t req = F.dims + o.t;
      auto g = fn.getWithGivenDimensions(req);
      Fun H;
      {
        INSTR_OFF();
        H = F;
        H.dims = F.dims + o.t;
        if (!g || g->getNumOfDims() != (uint64_t)H.dims || g->getNumOfResults() != F.res.size())
          fail("wrong-dimensions", c->id, i, show(F) + " extended to " + std::to_string(req) + " dimensions");
      }
      checkImages("function with additional dimensions", w, *g, H, S, c->id, i);
      break;
    }
    case 8: { // predicates and affine form
      bool isAff = fn.isAffine(), isId = fn.isIdentity(), isConst = fn.isConstant();
      uint64_t nd = fn.getNumOfDims(), nr = fn.getNumOfResults();
      mlir::AffineMap m;
      if (isAff)
        m = fn.getAffineMap();
      INSTR_OFF();
      if (nd != (uint64_t)F.dims || nr != F.res.size())
        fail("wrong-arity", c->id, i, show(F));
      if (!isAff && affine(F))
        fail("wrong-predicate", c->id, i, show(F) + " is not recognised as affine");
      if (srank != F.dims)
        break;
      bool idHere = F.dims == (int)F.res.size() && identityOn(w.ref, F, S);
      if (isId && !idHere && evalFun(w.ref, F, S))
        fail("wrong-predicate", c->id, i, show(F) + " is said to be the identity");
      bool plainId = F.dims == (int)F.res.size() && F.dims > 0;
      for (size_t k = 0; k < F.res.size(); ++k)
        plainId &= F.res[k]->k == 'd' && F.res[k]->a == (int64_t)k;
      if (plainId && !isId)
        fail("wrong-predicate", c->id, i, show(F) + " is not recognised as the identity");
      if (isConst) {
        sim::probe(P_CONST);
        std::optional<PS> first;
        for (auto &p : S) {
          auto v = evalFun(w.ref, F, p);
          if (!v)
            continue;
          if (first && *v != *first)
            fail("wrong-predicate", c->id, i, show(F) + " is said to be constant");
          first = v;
        }
      }
      if (isAff) {
        int n = 0;
        for (auto &p : S) {
          if (++n > 20)
            break;
          auto v = evalFun(w.ref, F, p);
          if (!v || F.res.empty())
            continue;
          auto r = m.compose(llvm::ArrayRef<int64_t>(p.data(), p.size()));
          compare("affine form", c->id, i, show(F) + " at " + show(p), PS{Pt(r.begin(), r.end())}, *v);
        }
      }
      break;
    }
    case 9: { // the same function built again by this client
      auto g = toFunction(w.ctx, F, w.spaces);
      bool eq = *g == fn && fn == *g;
      {
        INSTR_OFF();
        if (!eq)
          fail("wrong-equality", c->id, i, show(F) + " built twice is not equal to itself");
      }
      checkImages("function built by a client", w, *g, F, S, c->id, i);
      break;
    }
    case 10: { // printing must not disturb anything
      std::string text;
      llvm::raw_string_ostream os(text);
      os << fn;
      INSTR_OFF();
      if (os.str().empty())
        fail("empty-text", c->id, i, show(F));
      break;
    }
    }
  }
  sim::instrument(false);
}
} // namespace

std::string harnessGenerate(sim::Rng &r, const char *) {
  std::string s;
  int clients = 1 + (int)r.below(4);
  s += "O clients " + std::to_string(clients) + "\n";
  auto num = [](int64_t v) { return std::to_string(v); };
  int baseRank = 1 + (int)r.below(3);
  int kind[kFuns];
  int ranks[kFuns], nres[kFuns];
  // iteration spaces
  for (int k = 0; k < kSpaces; ++k) {
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; ++i) {
      int64_t a = r.range(0, 4), b = r.range(0, 4);
      s += "X " + num(k) + " " + num(a) + " " + num(a + r.range(1, 2)) + " " + num(b) + " " + num(b + r.range(1, 2)) + "\n";
    }
  }
  auto konst = [&]() { return "c " + num(r.range(-3, 6)); };
  auto leaf = [&](int dims, int level) -> std::string {
    uint64_t x = r.below(level ? 12 : 8);
    if (x < 6 && dims > 0)
      return "d " + num(r.below(dims));
    if (x < 8)
      return konst();
    if (x < 10) {
      int64_t a = r.range(0, 4);
      return "r " + num(a) + " " + num(a + r.range(1, 3));
    }
    return std::string(level > 1 && r.below(2) ? "p " : "s ") + num(r.below(kSpaces)) + " " + num(r.below(2));
  };
  std::function<std::string(int, int, int)> ex = [&](int dims, int level, int depth) -> std::string {
    if (depth == 0 || r.below(3) == 0)
      return leaf(dims, level);
    uint64_t x = r.below(10);
    if (x < 4)
      return "+ " + ex(dims, level, depth - 1) + " " + ex(dims, level, depth - 1);
    if (x < 6)
      return "- " + ex(dims, level, depth - 1) + " " + ex(dims, level, depth - 1);
    if (x < 8)
      return "* " + ex(dims, level, depth - 1) + " " + (r.below(4) ? "c " + num(r.range(-2, 3)) : ex(dims, level, depth - 1));
    return "/ " + ex(dims, level, depth - 1) + " c " + num(r.range(1, 3));
  };
  for (int k = 0; k < kFuns; ++k) {
    kind[k] = (int)r.below(8);
    ranks[k] = r.below(3) ? baseRank : (int)r.below(4);
    nres[k] = r.below(3) ? baseRank : (int)r.below(4);
    int form = (int)r.below(2);
    std::string body;
    if (kind[k] <= 1) { // permutation with offsets
      ranks[k] = nres[k] = baseRank;
      std::vector<int> perm;
      for (int d = 0; d < baseRank; ++d)
        perm.push_back(d);
      for (int d = baseRank - 1; d > 0; --d)
        std::swap(perm[d], perm[r.below(d + 1)]);
      for (int d = 0; d < baseRank; ++d)
        body += r.below(3) ? " + d " + num(perm[d]) + " c " + num(r.range(-3, 3)) : " d " + num(perm[d]);
    } else if (kind[k] <= 3) { // roto-translation, possibly partial or repeated
      for (int d = 0; d < nres[k]; ++d)
        body += ranks[k] == 0 || r.below(4) == 0 ? " " + konst()
                : r.below(2) ? " + d " + num(r.below(ranks[k])) + " c " + num(r.range(-3, 3))
                             : " d " + num(r.below(ranks[k]));
    } else if (kind[k] == 4) { // constants
      bool ranges = r.below(2);
      for (int d = 0; d < nres[k]; ++d)
        if (ranges && r.below(2)) {
          int64_t a = r.range(0, 4);
          body += " r " + num(a) + " " + num(a + r.range(1, 3));
        } else
          body += " " + konst();
    } else {
      int level = kind[k] == 5 ? 0 : kind[k] == 6 ? 1 : 2;
      for (int d = 0; d < nres[k]; ++d)
        body += " " + ex(ranks[k], level, 1 + (int)r.below(3));
      form = 0;
    }
    s += "F " + num(k) + " " + num(form) + " " + num(ranks[k]) + " " + num(nres[k]) + body + "\n";
  }
  for (int k = 0; k < kSets; ++k) {
    int rank = k < 2 || r.below(2) ? baseRank : 1 + (int)r.below(3);
    if (k == 2 && r.below(2))
      rank = ranks[r.below(kFuns)];
    if (rank == 0)
      rank = 1;
    int n = r.below(8) ? 1 + (int)r.below(5) : 0;
    int64_t ext = rank == 1 ? 10 : rank == 2 ? 6 : 4;
    for (int i = 0; i < n; ++i) {
      s += "S " + num(k);
      for (int d = 0; d < rank; ++d) {
        int64_t lo = r.range(r.below(4) ? 0 : -3, ext);
        s += " " + num(lo) + " " + num(lo + 1 + r.below(rank == 3 ? 2 : 4));
      }
      s += "\n";
    }
  }
  int n = 6 + (int)r.below(30);
  static const int mix[] = {0, 1, 1, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 5, 5, 6, 7, 8, 9, 10};
  for (int i = 0; i < n; ++i)
    s += "C " + num(r.below(clients)) + " " + num(mix[r.below(20)]) + " " + num(r.below(kFuns)) + " " +
         num(r.below(kFuns)) + " " + num(r.below(kSets)) + " " + num(r.below(kSets)) + "\n";
  return s;
}

bool harnessExecute(const std::string &text, const char *) {
  sim::instrument(false);
  World w;
  if (!parseLoad(text, w.l))
    return false;
  for (int k = 0; k < kSpaces; ++k) {
    w.ref.spaces[k] = pointsOf(w.l.sp[k]);
    if (w.l.sp[k].empty())
      for (auto &f : w.l.f)
        for (auto &e : f.res) {
          auto uses = [&](auto &self, const E &x) -> bool {
            return ((x->k == 's' || x->k == 'p') && x->a == k) || (x->l && (self(self, x->l) || self(self, x->r)));
          };
          if (uses(uses, e))
            f.present = false;
        }
  }
  auto *pool = new sim::SimThreadPool(sim::config().workers);
  gCtx->setThreadPool(*pool);
  w.ctx = gCtx;
  sim::instrument(true);
  for (int k = 0; k < kSpaces; ++k) {
    w.spaces[k] = std::make_shared<IndexSet>();
    for (auto &b : w.l.sp[k])
      *w.spaces[k] += mr(b);
  }
  for (int k = 0; k < kSets; ++k) {
    for (auto &b : w.l.s[k])
      w.s[k] += mr(b);
    INSTR_OFF();
    w.ms[k] = pointsOf(w.l.s[k]);
  }
  for (int k = 0; k < kFuns; ++k)
    if (w.l.f[k].present) {
      w.f[k] = toFunction(gCtx, w.l.f[k], w.spaces);
      INSTR_OFF();
      if (affine(w.l.f[k]))
        sim::probe(P_AFFINE);
      if (setValued(w.l.f[k]))
        sim::probe(P_SETVALUED);
      if (dependent(w.l.f[k]))
        sim::probe(P_DEPENDENT);
    }
  sim::instrument(false);
  std::vector<Client> cs(w.l.clients);
  std::vector<int> ids;
  for (int i = 0; i < w.l.clients; ++i) {
    cs[i] = {&w, i};
    ids.push_back(sim::spawn(clientMain, &cs[i], "client"));
  }
  for (int id : ids)
    sim::join(id);
  sim::instrument(true);
  for (int k = 0; k < kFuns; ++k)
    if (w.l.f[k].present)
      checkImages("shared function after the clients ended", w, *w.f[k], w.l.f[k], w.ms[0], -1, k);
  sim::instrument(false);
  snprintf(sim::result().extra, sizeof(sim::result().extra), "clients=%d ops=%zu", w.l.clients, w.l.ops.size());
  return true;
}
