// Concurrent clients sharing index sets: every result, in every interleaving,
// must be the one of a set of integer points.
#include "../sim/simpool.h"
#include "system.h"
#include "llvm/Support/raw_ostream.h"
#include <array>

using namespace marco::modeling;
using sys::Box;
using sys::Pt;
using PS = std::set<Pt>;

enum { P_LARGE, P_EMPTIED, P_SMALLTREE, P_SELF, P_SHARED, P_COPY, P_TRUE, P_FALSE };
const char *const harnessProbes[] = {
    "sets_with_more_than_16_ranges", "sets_emptied_by_removal",
    "custom_tree_fanout",            "operations_on_itself",
    "shared_operand_read",           "copies_of_shared_sets",
    "predicate_true",                "predicate_false",
    nullptr};
const char *const harnessFaults[] = {nullptr};

void harnessBoot(const char *) {}
void harnessConfig(sim::Config &c, sim::Rng &, const char *) {
  c.maxEvents = 60000000ull;
}

namespace {
constexpr int kShared = 3, kRegs = 4;

struct Op {
  int client, op, dst, a, b;
  std::vector<int64_t> arg;
};
struct Load {
  int rank = 2, clients = 2, tree = 0;
  std::array<std::vector<Box>, kShared> shared;
  std::array<int, kShared> ctor{};
  std::vector<Op> ops;
};

std::string boxStr(const Box &b) {
  std::string s;
  for (auto &r : b.r)
    s += " " + std::to_string(r.first) + " " + std::to_string(r.second);
  return s;
}

bool parseLoad(const std::string &w, Load &l) {
  std::istringstream in(w);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string t;
    s >> t;
    if (t == "O") {
      std::string k;
      int64_t v;
      s >> k >> v;
      if (k == "rank")
        l.rank = (int)v;
      else if (k == "clients")
        l.clients = (int)v;
      else if (k == "tree")
        l.tree = (int)v;
    } else if (t == "T") {
      int k, c;
      if (s >> k >> c && k >= 0 && k < kShared)
        l.ctor[k] = c;
    } else if (t == "S") {
      int k;
      s >> k;
      Box b;
      int64_t lo, hi;
      while (s >> lo >> hi)
        b.r.push_back({lo, hi});
      if (k < 0 || k >= kShared || (int)b.r.size() != l.rank)
        continue;
      bool ok = true;
      for (auto &r : b.r)
        ok &= r.first < r.second && r.first >= -64 && r.second <= 64 &&
              r.second - r.first <= 32;
      if (ok && b.size() <= 4096)
        l.shared[k].push_back(b);
    } else if (t == "C") {
      Op o;
      s >> o.client >> o.op >> o.dst >> o.a >> o.b;
      int64_t v;
      while (s >> v)
        o.arg.push_back(v);
      l.ops.push_back(o);
    }
  }
  return l.rank >= 1 && l.rank <= 4 && l.clients >= 1 && l.clients <= 5;
}

PS pointsOf(const Box &b) {
  PS s;
  sys::forEach(b, [&](const Pt &p) { s.insert(p); });
  return s;
}
MultidimensionalRange mr(const Box &b) {
  llvm::SmallVector<Range, 3> r;
  for (auto &x : b.r)
    r.emplace_back(x.first, x.second);
  return MultidimensionalRange(r);
}
Point pt(const Pt &p) {
  llvm::SmallVector<Point::data_type> c(p.begin(), p.end());
  return Point(c);
}

struct World {
  Load l;
  std::array<IndexSet, kShared> s;
  std::array<PS, kShared> ms;
};
struct Client {
  World *w;
  int id;
};

struct Regs {
  std::array<IndexSet, kRegs> r;
  std::array<PS, kRegs> m;
};

#define INSTR_OFF() sim::Pause pause__
// Checks one set completely against its model.
void check(const IndexSet &s, const PS &m, int client, size_t opIdx,
           const char *what) {
  std::vector<Pt> got;
  size_t size, ranges = 0;
  bool emp;
  std::vector<Box> boxes;
  {
    for (Point p : s) {
      INSTR_OFF();
      Pt q;
      for (size_t i = 0; i < p.rank(); ++i)
        q.push_back(p[i]);
      got.push_back(q);
      if (got.size() > m.size() + 64)
        sim::violation("set-content",
                       "client %d, operation %zu (%s): the set enumerates "
                       "more points than it has",
                       client, opIdx, what);
    }
    size = s.size();
    emp = s.empty();
    for (auto it = s.rangesBegin(), e = s.rangesEnd(); it != e; ++it)
      ++ranges;
  }
  INSTR_OFF();
  if (ranges > 16)
    sim::probe(P_LARGE);
  PS gs(got.begin(), got.end());
  if (gs.size() != got.size())
    sim::violation("set-duplicate",
                   "client %d, operation %zu (%s): %zu points enumerated, "
                   "%zu of them distinct",
                   client, opIdx, what, got.size(), gs.size());
  if (gs != m) {
    for (auto &p : gs)
      if (!m.count(p))
        sim::violation("set-content",
                       "client %d, operation %zu (%s): %s must not be in the "
                       "set",
                       client, opIdx, what, sys::str(p).c_str());
    for (auto &p : m)
      if (!gs.count(p))
        sim::violation("set-content",
                       "client %d, operation %zu (%s): %s is missing from "
                       "the set",
                       client, opIdx, what, sys::str(p).c_str());
  }
  if (size != m.size())
    sim::violation("set-size",
                   "client %d, operation %zu (%s): size() is %zu, %zu points",
                   client, opIdx, what, size, m.size());
  if (emp != m.empty())
    sim::violation("set-size",
                   "client %d, operation %zu (%s): empty() is %d, %zu points",
                   client, opIdx, what, emp, m.size());
}

void predicate(bool got, bool want, int client, size_t i, const char *what) {
  INSTR_OFF();
  sim::probe(want ? P_TRUE : P_FALSE);
  if (got != want)
    sim::violation("set-predicate",
                   "client %d, operation %zu: %s is %d, expected %d", client,
                   i, what, got, want);
}

void clientMain(void *a) {
  Client *c = (Client *)a;
  World &w = *c->w;
  Regs *regs;
  {
    INSTR_OFF();
    regs = new Regs;
    if (w.l.tree) {
      static const size_t mm[4][2] = {{4, 16}, {1, 2}, {2, 4}, {2, 6}};
      for (auto &r : regs->r)
        r = IndexSet(mm[w.l.tree & 3][0], mm[w.l.tree & 3][1]);
    }
  }
  sim::instrument(true);
  for (size_t i = 0; i < w.l.ops.size(); ++i) {
    const Op &o = w.l.ops[i];
    if (o.client % w.l.clients != c->id)
      continue;
    int dst = std::abs(o.dst) % kRegs;
    int ai = std::abs(o.a) % (kRegs + kShared),
        bi = std::abs(o.b) % (kRegs + kShared);
    IndexSet &R = regs->r[dst];
    PS &M = regs->m[dst];
    const IndexSet &A = ai < kRegs ? regs->r[ai] : w.s[ai - kRegs];
    const IndexSet &B = bi < kRegs ? regs->r[bi] : w.s[bi - kRegs];
    const PS *MA, *MB;
    Box box;
    Pt point;
    std::vector<Box> boxes;
    {
      INSTR_OFF();
      MA = ai < kRegs ? &regs->m[ai] : &w.ms[ai - kRegs];
      MB = bi < kRegs ? &regs->m[bi] : &w.ms[bi - kRegs];
      if (ai >= kRegs || bi >= kRegs)
        sim::probe(P_SHARED);
      size_t n = o.arg.size() / (2 * w.l.rank);
      for (size_t k = 0; k < std::max<size_t>(n, 1); ++k) {
        Box b;
        for (int d = 0; d < w.l.rank; ++d) {
          size_t at = k * 2 * w.l.rank + 2 * d;
          int64_t lo = at < o.arg.size() ? o.arg[at] : 0;
          int64_t hi = at + 1 < o.arg.size() ? o.arg[at + 1] : lo + 1;
          lo = std::max<int64_t>(-64, std::min<int64_t>(lo, 63));
          if (hi <= lo)
            hi = lo + 1;
          if (hi - lo > 16)
            hi = lo + 16;
          b.r.push_back({lo, hi});
        }
        boxes.push_back(b);
      }
      box = boxes[0];
      for (auto &r : box.r)
        point.push_back(r.first);
    }
    auto setModel = [&](PS n) {
      INSTR_OFF();
      if (!M.empty() && n.empty())
        sim::probe(P_EMPTIED);
      M = std::move(n);
    };
    auto uni = [&](const PS &x, const PS &y) {
      PS r = x;
      r.insert(y.begin(), y.end());
      return r;
    };
    auto sub = [&](const PS &x, const PS &y) {
      PS r;
      for (auto &p : x)
        if (!y.count(p))
          r.insert(p);
      return r;
    };
    auto inter = [&](const PS &x, const PS &y) {
      PS r;
      for (auto &p : x)
        if (y.count(p))
          r.insert(p);
      return r;
    };
    PS expect;
    const char *name = "?";
    switch (o.op) {
    case 0:
      name = "+= range";
      R += mr(box);
      { INSTR_OFF(); expect = uni(M, pointsOf(box)); }
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    case 1:
      name = "-= range";
      R -= mr(box);
      { INSTR_OFF(); expect = sub(M, pointsOf(box)); }
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    case 2:
      name = "+= point";
      R += pt(point);
      { INSTR_OFF(); expect = uni(M, PS{point}); }
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    case 3:
      name = "-= point";
      R -= pt(point);
      { INSTR_OFF(); expect = sub(M, PS{point}); }
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    case 4:
      name = "+= set";
      if (&R == &A)
        break; // growing a set while iterating on it is not meaningful
      R += A;
      { INSTR_OFF(); expect = uni(M, *MA); }
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    case 5:
      name = "-= set";
      if (&R == &A)
        break;
      R -= A;
      { INSTR_OFF(); expect = sub(M, *MA); }
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    case 6:
      name = "a + b";
      {
        if (&A == &B)
          break;
        IndexSet t = A + B;
        { INSTR_OFF(); expect = uni(*MA, *MB); }
        R = std::move(t);
      }
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    case 7:
      name = "a - b";
      {
        IndexSet t = A - B;
        { INSTR_OFF(); expect = sub(*MA, *MB); }
        R = t;
      }
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    case 8:
      name = "a intersect b";
      {
        IndexSet t = A.intersect(B);
        { INSTR_OFF(); expect = inter(*MA, *MB); }
        R = std::move(t);
      }
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    case 9:
      name = "a intersect range";
      {
        IndexSet t = A.intersect(mr(box));
        { INSTR_OFF(); expect = inter(*MA, pointsOf(box)); }
        R = std::move(t);
      }
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    case 10:
      name = "complement";
      {
        IndexSet t = A.complement(mr(box));
        { INSTR_OFF(); expect = sub(pointsOf(box), *MA); }
        R = std::move(t);
      }
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    case 11:
      name = "from ranges";
      {
        llvm::SmallVector<MultidimensionalRange> v;
        for (auto &b : boxes)
          v.push_back(mr(b));
        IndexSet t(v);
        {
          INSTR_OFF();
          for (auto &b : boxes)
            expect = uni(expect, pointsOf(b));
        }
        R = std::move(t);
      }
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    case 12: {
      bool g1 = A.contains(mr(box)), g2 = A.contains(pt(point)),
           g3 = A.overlaps(mr(box));
      bool w1, w2, w3;
      {
        INSTR_OFF();
        PS bp = pointsOf(box);
        w1 = inter(bp, *MA).size() == bp.size();
        w2 = MA->count(point);
        w3 = !inter(bp, *MA).empty();
      }
      predicate(g1, w1, c->id, i, "contains(range)");
      predicate(g2, w2, c->id, i, "contains(point)");
      predicate(g3, w3, c->id, i, "overlaps(range)");
      break;
    }
    case 13: {
      bool g1 = A.contains(B), g2 = A.overlaps(B);
      bool w1, w2, we, both;
      {
        INSTR_OFF();
        w1 = inter(*MB, *MA).size() == MB->size();
        w2 = !inter(*MB, *MA).empty();
        we = *MA == *MB;
        both = !MA->empty() && !MB->empty();
      }
      predicate(g1, w1, c->id, i, "contains(set)");
      predicate(g2, w2, c->id, i, "overlaps(set)");
      if (both) {
        bool ge = A == B, gn = A != B;
        predicate(ge, we, c->id, i, "operator==");
        predicate(gn, !we, c->id, i, "operator!=");
        if (we) {
          bool h = hash_value(A) == hash_value(B);
          predicate(h, true, c->id, i, "equality of the hashes of equal sets");
        }
        int ab = A.compare(B), ba = B.compare(A);
        predicate((ab < 0) == (ba > 0) && (ab == 0) == (ba == 0), true, c->id,
                  i, "antisymmetry of compare()");
      }
      break;
    }
    case 14: {
      name = "compact ranges";
      llvm::SmallVector<MultidimensionalRange> v;
      A.getCompactRanges(v);
      {
        INSTR_OFF();
        PS seen;
        size_t n = 0;
        for (auto &r : v) {
          Box b;
          for (unsigned d = 0; d < r.rank(); ++d)
            b.r.push_back({r[d].getBegin(), r[d].getEnd()});
          n += b.size();
          if (n > MA->size())
            break;
          for (auto &p : pointsOf(b))
            seen.insert(p);
        }
        if (seen != *MA || n != MA->size())
          sim::violation("set-content",
                         "client %d, operation %zu: the compact ranges do not "
                         "cover the points of the set exactly once",
                         c->id, i);
      }
      break;
    }
    case 15: {
      name = "dimensions";
      if (w.l.rank < 2 || MA->empty())
        break;
      int k = 1 + (int)(std::abs(o.dst) % (w.l.rank - 1));
      IndexSet f = A.takeFirstDimensions(k), t = A.takeLastDimensions(k),
               df = A.dropFirstDimensions(k), dl = A.dropLastDimensions(k);
      llvm::BitVector bv(w.l.rank);
      llvm::SmallBitVector sbv(w.l.rank);
      for (int d = 0; d < w.l.rank; ++d)
        if (d == 0 || ((o.b >> d) & 1)) {
          bv.set((d + k) % w.l.rank);
          sbv.set((d + k) % w.l.rank);
        }
      IndexSet sl = A.slice(bv), td = A.takeDimensions(sbv);
      PS pf, ptl, pdf, pdl, psl;
      {
        INSTR_OFF();
        for (auto &p : *MA) {
          pf.insert(Pt(p.begin(), p.begin() + k));
          ptl.insert(Pt(p.end() - k, p.end()));
          pdf.insert(Pt(p.begin() + k, p.end()));
          pdl.insert(Pt(p.begin(), p.end() - k));
          Pt q;
          for (int d = 0; d < w.l.rank; ++d)
            if (bv[d])
              q.push_back(p[d]);
          psl.insert(q);
        }
      }
      check(f, pf, c->id, i, "takeFirstDimensions");
      check(t, ptl, c->id, i, "takeLastDimensions");
      check(df, pdf, c->id, i, "dropFirstDimensions");
      check(dl, pdl, c->id, i, "dropLastDimensions");
      check(sl, psl, c->id, i, "slice");
      check(td, psl, c->id, i, "takeDimensions");
      break;
    }
    case 16: {
      name = "append/prepend";
      if (MA->empty() || MB->empty() || MA->size() * MB->size() > 400)
        break;
      IndexSet ap = A.append(B), pp = A.prepend(B);
      PS ma, mp;
      {
        INSTR_OFF();
        for (auto &p : *MA)
          for (auto &q : *MB) {
            Pt x = p, y = q;
            x.insert(x.end(), q.begin(), q.end());
            y.insert(y.end(), p.begin(), p.end());
            ma.insert(x);
            mp.insert(y);
          }
      }
      check(ap, ma, c->id, i, "append");
      check(pp, mp, c->id, i, "prepend");
      break;
    }
    case 17: {
      name = "copy";
      IndexSet t(A);
      { INSTR_OFF(); expect = *MA; sim::probe(P_COPY); }
      R = t;
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      // the copy must be independent of the original
      t -= mr(box);
      { INSTR_OFF(); expect = sub(M, pointsOf(box)); }
      check(t, expect, c->id, i, "modified copy");
      check(R, M, c->id, i, "original of a modified copy");
      break;
    }
    case 18:
      name = "clear";
      R.clear();
      setModel(PS());
      check(R, M, c->id, i, name);
      break;
    case 19: {
      name = "from points";
      llvm::SmallVector<Point> v;
      {
        INSTR_OFF();
        for (auto &b : boxes)
          sys::forEach(b, [&](const Pt &p) {
            if (v.size() < 40)
              expect.insert(p), v.push_back(pt(p));
          });
      }
      IndexSet t(v);
      R = std::move(t);
      setModel(std::move(expect));
      check(R, M, c->id, i, name);
      break;
    }
    case 20: {
      name = "-= itself";
      R -= R;
      { INSTR_OFF(); sim::probe(P_SELF); }
      setModel(PS());
      check(R, M, c->id, i, name);
      break;
    }
    }
  }
  delete regs;
  sim::instrument(false);
}
} // namespace

std::string harnessGenerate(sim::Rng &r, const char *) {
  std::string s;
  int rank = 1 + (int)r.below(3);
  int clients = 1 + (int)r.below(4);
  int64_t ext = rank == 1 ? 40 : rank == 2 ? 12 : 6;
  if (r.below(3) == 0)
    ext = 4;
  int64_t org = r.below(4) ? 0 : -r.range(1, 5);
  s += "O rank " + std::to_string(rank) + "\nO clients " +
       std::to_string(clients) + "\n";
  if (r.below(3) == 0) {
    s += "O tree " + std::to_string(1 + r.below(3)) + "\n";
    sim::probe(P_SMALLTREE);
  }
  int64_t maxLen = 1 + r.below(r.below(2) ? 3 : 6);
  auto box = [&]() {
    Box b;
    for (int d = 0; d < rank; ++d) {
      int64_t lo = org + (int64_t)r.below(ext);
      b.r.push_back({lo, lo + 1 + (int64_t)r.below(maxLen)});
    }
    return b;
  };
  for (int k = 0; k < kShared; ++k) {
    s += "T " + std::to_string(k) + " " + std::to_string(r.below(2)) + "\n";
    int n = (int)r.below(r.below(2) ? 6 : 50);
    bool sparse = r.below(2);
    for (int i = 0; i < n; ++i) {
      Box b = box();
      if (sparse)
        for (auto &x : b.r)
          x.second = x.first + 1;
      s += "S " + std::to_string(k) + boxStr(b) + "\n";
    }
  }
  int n = 5 + (int)r.below(r.below(3) ? 25 : 80);
  static const int mix1[] = {0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12,
                             12, 13, 13, 14, 15, 16, 17, 18, 19, 20};
  static const int mix2[] = {0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 5, 17};
  bool heavy = r.below(3) == 0;
  for (int i = 0; i < n; ++i) {
    int op = heavy ? mix2[r.below(14)] : mix1[r.below(26)];
    s += "C " + std::to_string(r.below(clients)) + " " + std::to_string(op) +
         " " + std::to_string(r.below(heavy ? 1 : kRegs)) + " " +
         std::to_string(r.below(kRegs + kShared)) + " " +
         std::to_string(r.below(kRegs + kShared));
    int nb = op == 11 || op == 19 ? 1 + (int)r.below(6) : 1;
    for (int k = 0; k < nb; ++k)
      s += boxStr(box());
    s += "\n";
  }
  return s;
}

bool harnessExecute(const std::string &text, const char *) {
  sim::instrument(false);
  World w;
  if (!parseLoad(text, w.l))
    return false;
  std::vector<Client> cs(w.l.clients);
  sim::instrument(true);
  for (int k = 0; k < kShared; ++k) {
    if (w.l.ctor[k]) {
      llvm::SmallVector<MultidimensionalRange> v;
      for (auto &b : w.l.shared[k])
        v.push_back(mr(b));
      w.s[k] = IndexSet(v);
    } else
      for (auto &b : w.l.shared[k])
        w.s[k] += mr(b);
    {
      INSTR_OFF();
      for (auto &b : w.l.shared[k])
        for (auto &p : pointsOf(b))
          w.ms[k].insert(p);
    }
    check(w.s[k], w.ms[k], -1, k, "construction of a shared set");
  }
  sim::instrument(false);
  std::vector<int> ids;
  for (int i = 0; i < w.l.clients; ++i) {
    cs[i] = {&w, i};
    ids.push_back(sim::spawn(clientMain, &cs[i], "client"));
  }
  for (int id : ids)
    sim::join(id);
  sim::instrument(true);
  for (int k = 0; k < kShared; ++k)
    check(w.s[k], w.ms[k], -1, k, "shared set after the clients ended");
  sim::instrument(false);
  snprintf(sim::result().extra, sizeof(sim::result().extra),
           "rank=%d clients=%d ops=%zu shared=%zu/%zu/%zu", w.l.rank,
           w.l.clients, w.l.ops.size(), w.ms[0].size(), w.ms[1].size(),
           w.ms[2].size());
  return true;
}
