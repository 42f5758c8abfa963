// Variable filters (which variables a simulation has to print) read back from a
// faulty store and queried by concurrent clients. The reference below is an
// independent reading of the filter's language.
#include "marco/VariableFilter/VariableFilter.h"
#include "text.h"
#include <map>
#include <memory>
#include <set>

using marco::VariableFilter;

enum { P_ACCEPT, P_REJECT, P_GREY, P_REGEX, P_BOUNDS, P_DER, P_HIDDEN, P_VISIBLE };
const char *const harnessProbes[] = {"filters_accepted", "filters_rejected",     "outside_of_the_subset", "regex_queries",
                                     "bounded_queries",  "derivative_queries",   "hidden_answers",        "visible_answers", nullptr};
const char *const harnessFaults[] = {VERIF_TEXT_FAULTS, nullptr};

static std::map<int, int> *gErrors; // by task
extern "C" void verifDiagnostic(int isError) {
  sim::instrument(false);
  if (isError)
    ++(*gErrors)[sim::self()];
  sim::instrument(true);
}

void harnessBoot(const char *) { llvm::errs(); }
void harnessConfig(sim::Config &c, sim::Rng &, const char *) { c.maxEvents = 20000000ull; }

namespace {
enum Verdict { ACCEPT, REJECT, GREY };
bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
bool digit(char c) { return c >= '0' && c <= '9'; }

// ---- regular expressions: the part of the language all dialects agree upon
struct Regex {
  Verdict verdict = ACCEPT;
  explicit Regex(const std::string &s) : s(s) {
    if (s.empty()) {
      verdict = REJECT;
      return;
    }
    size_t end = s.size();
    if (s[0] == '^')
      begin = true, ++p;
    if (end > p && s[end - 1] == '$' && !(end > 1 && s[end - 2] == '\\'))
      finish = true, --end;
    limit = end;
    // An anchor binds to one alternative only.
    if ((begin || finish) && s.find('|') != std::string::npos) {
      verdict = GREY;
      return;
    }
    if (p == end)
      return; // only anchors
    root = alt(0);
    if (verdict == ACCEPT && p != limit)
      verdict = GREY;
  }
  bool search(const std::string &t) const {
    for (size_t i = 0; i <= t.size(); ++i) {
      if (begin && i)
        break;
      std::set<size_t> ends{i};
      if (root >= 0)
        ends = run(root, t, ends);
      for (size_t e : ends)
        if (!finish || e == t.size())
          return true;
    }
    return false;
  }

private:
  struct Node {
    enum K { SEQ, ALT, STAR, PLUS, OPT, SET } k;
    std::vector<int> kids;
    std::set<char> chars;
    bool negated = false;
  };
  std::string s;
  size_t p = 0, limit = 0;
  bool begin = false, finish = false;
  int root = -1;
  std::vector<Node> nodes;
  int add(Node n) {
    nodes.push_back(std::move(n));
    return (int)nodes.size() - 1;
  }
  int alt(int depth) {
    Node n{Node::ALT};
    for (;;) {
      n.kids.push_back(seq(depth));
      if (verdict != ACCEPT)
        return -1;
      if (p < limit && s[p] == '|')
        ++p;
      else
        break;
    }
    return add(n);
  }
  int seq(int depth) {
    Node n{Node::SEQ};
    while (p < limit && s[p] != '|' && s[p] != ')') {
      int a = atom(depth);
      if (verdict != ACCEPT)
        return -1;
      if (p < limit && (s[p] == '*' || s[p] == '+' || s[p] == '?')) {
        Node q{s[p] == '*' ? Node::STAR : s[p] == '+' ? Node::PLUS : Node::OPT};
        q.kids.push_back(a);
        a = add(q);
        ++p;
        if (p < limit && strchr("*+?{", s[p]))
          verdict = GREY;
      }
      n.kids.push_back(a);
    }
    if (n.kids.empty() && verdict == ACCEPT)
      verdict = p >= limit && depth ? REJECT : GREY; // an empty alternative
    return add(n);
  }
  int atom(int depth) {
    char c = s[p];
    Node n{Node::SET};
    if (c == '(') {
      ++p;
      int a = alt(depth + 1);
      if (verdict == ACCEPT && (p >= limit || s[p] != ')'))
        verdict = finish ? GREY : REJECT;
      ++p;
      return a;
    }
    if (c == '.') {
      ++p;
      n.negated = true;
      return add(n);
    }
    if (c == '[') {
      ++p;
      if (p < limit && s[p] == '^')
        n.negated = true, ++p;
      bool any = false;
      while (p < limit && s[p] != ']') {
        if (!letter(s[p]) && !digit(s[p]) && s[p] != '.' && !(s[p] == '_'))
          return verdict = GREY, -1;
        if (p + 2 < limit && s[p + 1] == '-' && s[p + 2] != ']') {
          char a = s[p], b = s[p + 2];
          if (a > b || !((a >= 'a' && b <= 'z') || (a >= 'A' && b <= 'Z') || (digit(a) && digit(b))))
            return verdict = GREY, -1;
          for (char x = a; x <= b; ++x)
            n.chars.insert(x);
          p += 3;
        } else
          n.chars.insert(s[p++]);
        any = true;
      }
      if (p >= limit)
        return verdict = !finish ? REJECT : GREY, -1;
      if (!any)
        return verdict = GREY, -1;
      ++p;
      return add(n);
    }
    if (c == '\\') {
      if (p + 1 >= limit || !strchr(".()[]*+?|^$\\", s[p + 1]))
        return verdict = GREY, -1;
      n.chars.insert(s[p + 1]);
      p += 2;
      return add(n);
    }
    if (letter(c) || digit(c) || (c && strchr(" ,;:=-!@#%&~<>'\"", c))) {
      n.chars.insert(c);
      ++p;
      return add(n);
    }
    return verdict = GREY, -1;
  }
  std::set<size_t> run(int i, const std::string &t, std::set<size_t> at) const {
    const Node &n = nodes[i];
    switch (n.k) {
    case Node::SEQ:
      for (int k : n.kids)
        at = run(k, t, at);
      return at;
    case Node::ALT: {
      std::set<size_t> r;
      for (int k : n.kids) {
        auto x = run(k, t, at);
        r.insert(x.begin(), x.end());
      }
      return r;
    }
    case Node::OPT: {
      auto x = run(n.kids[0], t, at);
      at.insert(x.begin(), x.end());
      return at;
    }
    case Node::STAR:
    case Node::PLUS: {
      std::set<size_t> r;
      if (n.k == Node::STAR)
        r = at;
      std::set<size_t> last = at;
      for (;;) {
        last = run(n.kids[0], t, last);
        size_t before = r.size();
        r.insert(last.begin(), last.end());
        if (r.size() == before)
          return r;
      }
    }
    case Node::SET: {
      std::set<size_t> r;
      for (size_t a : at)
        if (a < t.size() && (n.chars.count(t[a]) != 0) != n.negated)
          r.insert(a + 1);
      return r;
    }
    }
    return at;
  }
};

// ---- the language of the filters
struct Bounds {
  long lo, hi; // -1: none
};
struct Entry {
  std::string name;
  std::vector<Bounds> ranges;
};
struct Reference {
  Verdict verdict = ACCEPT;
  std::vector<Entry> variables;
  std::set<std::string> derivatives;
  std::vector<Regex> regexes;
  bool enabled = false;

  explicit Reference(const std::string &text) : t(text) {
    bool separated = true;
    for (;;) {
      next();
      if (verdict != ACCEPT || kind == 'E')
        return;
      if (kind == ';') {
        separated = true;
        continue;
      }
      if (!separated)
        lenient = true; // elements side by side
      separated = false;
      element();
      if (verdict == ACCEPT && lenient)
        verdict = GREY;
      if (verdict != ACCEPT)
        return;
    }
  }

private:
  std::string t;
  size_t p = 0;
  char kind = 0; // i: identifier, n: integer, r: regex, d: der, E: end, or the symbol
  std::string word;
  long value = 0;
  bool lenient = false;
  void fail() {
    if (verdict == ACCEPT)
      verdict = lenient ? GREY : REJECT;
  }
  void grey() {
    if (verdict == ACCEPT)
      verdict = GREY;
  }
  void next() {
    while (p < t.size() && (t[p] == ' ' || (t[p] >= 9 && t[p] <= 13)))
      ++p;
    word.clear();
    if (p >= t.size())
      return (void)(kind = 'E');
    char c = t[p];
    if (letter(c)) {
      while (p < t.size() && (letter(t[p]) || digit(t[p]) || t[p] == '.'))
        word += t[p++];
      kind = word == "der" ? 'd' : 'i';
    } else if (digit(c)) {
      while (p < t.size() && digit(t[p]))
        word += t[p++];
      size_t z = word.find_first_not_of('0');
      std::string sig = z == std::string::npos ? "0" : word.substr(z);
      if (sig.size() > 18)
        return grey();
      value = strtol(sig.c_str(), nullptr, 10);
      kind = 'n';
    } else if (c == '/') {
      ++p;
      while (p < t.size() && t[p] != '/' && t[p])
        word += t[p++];
      if (p >= t.size() || !t[p])
        return fail();
      ++p;
      kind = 'r';
    } else if (!c)
      return grey(); // what follows a terminator
    else if (strchr("()[],;:$", c))
      kind = c, ++p;
    else
      fail();
  }
  bool expect(char k) {
    if (verdict == ACCEPT && kind != k)
      fail();
    return verdict == ACCEPT;
  }
  bool index(long &v) {
    next();
    if (verdict != ACCEPT)
      return false;
    if (kind == '$')
      v = -1;
    else if (kind == 'n')
      v = value;
    else
      fail();
    return verdict == ACCEPT;
  }
  void element() {
    if (kind == 'r') {
      Regex r(word);
      if (r.verdict == REJECT)
        return fail();
      if (r.verdict == GREY)
        return grey();
      regexes.push_back(r);
      enabled = true;
      return;
    }
    if (kind == 'd') {
      next();
      if (!expect('('))
        return;
      next();
      if (!expect('i'))
        return;
      std::string n = word;
      next();
      if (!expect(')'))
        return;
      derivatives.insert(n);
      enabled = true;
      return;
    }
    if (!expect('i'))
      return;
    Entry e;
    e.name = word;
    size_t back = p;
    bool wasLenient = lenient;
    next();
    if (verdict == ACCEPT && kind == '[') {
      do {
        Bounds b;
        if (!index(b.lo))
          return;
        next();
        if (!expect(':') || !index(b.hi))
          return;
        e.ranges.push_back(b);
        next();
        if (verdict != ACCEPT)
          return;
      } while (kind == ',');
      if (!expect(']'))
        return;
    } else {
      // Not a part of this element: read it again.
      p = back;
      if (verdict == REJECT)
        verdict = ACCEPT;
      lenient = wasLenient;
    }
    variables.push_back(e);
    enabled = true;
  }
};

const char *const kVocabulary[] = {"(", ")", "[", "]", ",", ";", ":", "$", "der", "x", "y.z", "1", "99", "/", "/x/", "/a(/", "//", "-",
                                   "4294967295", "99999999999999999999", "[1:2]", "der(x)", "#", "\n", "\x01", "/[a/", "{", "=", "'", "x;"};
constexpr size_t kVocab = sizeof kVocabulary / sizeof *kVocabulary;

struct World {
  Load l;
  std::vector<std::pair<std::string, unsigned>> queries;
};
struct Client {
  World *w;
  int id;
};

std::string show(const std::vector<std::string> &v) {
  std::string s;
  for (auto &x : v)
    s += x + " ";
  return s;
}
std::string bounds(long lo, long hi) {
  return (lo < 0 ? std::string("$") : std::to_string(lo)) + ":" + (hi < 0 ? std::string("$") : std::to_string(hi));
}
std::vector<std::string> shown(const std::vector<VariableFilter::Filter> &fs) {
  std::vector<std::string> r;
  for (auto &f : fs) {
    std::string s = f.isVisible() ? "visible[" : "hidden[";
    for (auto &g : f.getRanges())
      s += bounds(g.hasLowerBound() ? g.getLowerBound() : -1, g.hasUpperBound() ? g.getUpperBound() : -1) + ",";
    r.push_back(s + "]");
  }
  std::sort(r.begin(), r.end());
  return r;
}
void examine(const World &w, const std::string &text, const char *what, int id, int variant) {
  Reference ref(text);
  std::string source = escape(text);
  (*gErrors)[sim::self()] = 0;
  sim::instrument(true);
  std::optional<VariableFilter> vf = VariableFilter::fromString(text);
  sim::instrument(false);
  int errors = (*gErrors)[sim::self()];
  if (!vf && !errors)
    sim::violation("silent-failure", "client %d, %s %d: filter refused without an error: %s", id, what, variant, source.c_str());
  if (vf && errors)
    sim::violation("spurious-diagnostic", "client %d, %s %d: filter built, yet an error was reported: %s", id, what, variant, source.c_str());
  if (ref.verdict == ACCEPT && !vf)
    sim::violation("rejected-valid", "client %d, %s %d: valid filter refused: %s", id, what, variant, source.c_str());
  if (ref.verdict == REJECT && vf)
    sim::violation("accepted-invalid", "client %d, %s %d: invalid filter accepted: %s", id, what, variant, source.c_str());
  sim::probe(ref.verdict == ACCEPT ? P_ACCEPT : ref.verdict == REJECT ? P_REJECT : P_GREY);
  if (!vf)
    return;
  if (ref.verdict == ACCEPT && vf->isEnabled() != ref.enabled)
    sim::violation("wrong-filter", "client %d, %s %d: enabled=%d, expected %d: %s", id, what, variant, vf->isEnabled(), ref.enabled, source.c_str());
  for (auto &q : w.queries) {
    sim::instrument(true);
    auto a = vf->getVariableInfo(q.first, q.second);
    auto d = vf->getVariableDerInfo(q.first, q.second);
    sim::instrument(false);
    if (ref.verdict != ACCEPT)
      continue;
    bool regex = false, regexDer = false;
    for (auto &r : ref.regexes) {
      regex |= r.search(q.first);
      regexDer |= r.search("der(" + q.first + ")");
    }
    std::string all;
    for (unsigned i = 0; i < q.second; ++i)
      all += "$:$,";
    std::vector<std::string> want;
    for (auto &e : ref.variables)
      if (e.name == q.first) {
        std::string s = "visible[";
        for (unsigned i = 0; i < q.second; ++i)
          s += (i < e.ranges.size() ? bounds(e.ranges[i].lo, e.ranges[i].hi) : std::string("$:$")) + ",";
        want.push_back(s + "]");
        sim::probe(P_BOUNDS);
      }
    if (want.empty())
      want.push_back((!ref.enabled || regex ? "visible[" : "hidden[") + all + "]");
    std::sort(want.begin(), want.end());
    auto got = shown(a);
    if (got != want)
      sim::violation("wrong-filter", "client %d, %s %d: variable '%s' of rank %u: expected %s, got %s; filter: %s", id, what, variant,
                     q.first.c_str(), q.second, show(want).c_str(), show(got).c_str(), source.c_str());
    sim::probe(want[0][0] == 'h' ? P_HIDDEN : P_VISIBLE);
    if (!ref.regexes.empty())
      sim::probe(P_REGEX);
    if (ref.enabled) {
      bool visible = regexDer || ref.derivatives.count(q.first);
      std::vector<std::string> wd{(visible ? "visible[" : "hidden[") + all + "]"};
      auto gd = shown(d);
      if (gd != wd)
        sim::violation("wrong-filter", "client %d, %s %d: derivative of '%s', rank %u: expected %s, got %s; filter: %s", id, what, variant,
                       q.first.c_str(), q.second, show(wd).c_str(), show(gd).c_str(), source.c_str());
      sim::probe(P_DER);
    }
  }
}
void clientMain(void *arg) {
  sim::instrument(false);
  auto *c = (Client *)arg;
  Load &l = c->w->l;
  if (c->id == 0 || l.clients > 1)
    examine(*c->w, damaged(l, -1, kVocabulary, kVocab), "intact filter", c->id, -1);
  for (int v = 0; v < l.variants; ++v) {
    if (v % l.clients != c->id)
      continue;
    for (auto &f : l.faults)
      if (f.variant == v)
        ++sim::result().faults[faultKind(f.kind)];
    examine(*c->w, damaged(l, v, kVocabulary, kVocab), "damaged filter", c->id, v);
  }
}

struct Gen {
  sim::Rng &r;
  std::vector<std::string> t;
  explicit Gen(sim::Rng &r) : r(r) {}
  bool p(int n) { return r.below(n) == 0; }
  void k(const std::string &s) { t.push_back(s); }
  std::string name() {
    static const char *n[] = {"x", "y", "z", "x.y", "a.b.c", "_t", "x1", "x12", "der1", "der.x", "derx", "T", "X", "xx", "long_name.of.a.variable"};
    return n[p(2) ? r.below(4) : r.below(sizeof n / sizeof *n)];
  }
  std::string index() {
    if (p(3))
      return "$";
    if (p(8)) {
      static const char *n[] = {"2147483647", "2147483648", "4294967295", "4294967297", "999999999999999999", "007", "0"};
      return n[r.below(7)];
    }
    return std::to_string(r.below(p(2) ? 4 : 100));
  }
  std::string regex(int depth) {
    std::string s;
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; ++i) {
      switch (r.below(depth > 0 ? 9 : 7)) {
      case 0:
        s += ".";
        break;
      case 1:
        s += p(2) ? "[a-z]" : p(2) ? "[^x]" : p(2) ? "[xyz.]" : "[0-9A-Z_]";
        break;
      case 2:
        s += p(2) ? "\\." : p(2) ? "\\(" : p(2) ? "\\)" : "der";
        break;
      case 7:
      case 8:
        s += "(" + regex(depth - 1) + (p(2) ? "|" + regex(depth - 1) : "") + ")";
        break;
      default: {
        std::string w = name();
        s += p(2) ? w.substr(0, 1) : w;
      }
      }
      if (p(3))
        s += p(2) ? "*" : p(2) ? "+" : "?";
    }
    return s;
  }
  void element() {
    switch (r.below(5)) {
    case 0: {
      std::string s = regex(2);
      if (p(4))
        s = "^" + s;
      if (p(4))
        s += "$";
      if (p(12))
        s += "|" + regex(1);
      if (p(25))
        s.clear();
      k("/" + s + "/");
      break;
    }
    case 1:
      k("der");
      k("(");
      k(name());
      k(")");
      break;
    case 2:
      k(name());
      break;
    default:
      k(name());
      k("[");
      do {
        k(index());
        k(":");
        k(index());
      } while (p(2) && (k(","), true));
      k("]");
    }
  }
};
} // namespace

std::string harnessGenerate(sim::Rng &r, const char *) {
  Gen g(r);
  int n = (int)r.below(r.below(3) ? 5 : 14);
  for (int i = 0; i < n; ++i) {
    if (i && !g.p(30))
      for (int k = g.p(8) ? 2 : 1; k > 0; --k)
        g.k(";");
    g.element();
  }
  if (g.p(4))
    g.k(";");
  std::string s = "O clients " + std::to_string(1 + r.below(3)) + "\n";
  size_t bytes = 1;
  std::string last;
  for (auto &t : g.t) {
    std::string x = t;
    auto word = [](char c) { return letter(c) || digit(c) || c == '.'; };
    if (g.p(5) || (!last.empty() && word(last.back()) && word(x[0])))
      x = (g.p(2) ? " " : g.p(2) ? "\n" : "\t ") + x;
    s += "T " + escape(x) + "\n";
    bytes += x.size();
    last = t;
  }
  for (int i = 0, e = 2 + (int)r.below(6); i < e; ++i)
    s += "Q " + g.name() + " " + std::to_string(r.below(4)) + "\n";
  s += drawFaults(r, g.t.size(), bytes, kVocab);
  return s;
}

bool harnessExecute(const std::string &text, const char *) {
  sim::instrument(false);
  World w;
  if (!parseLoad(text, w.l))
    return false;
  std::map<int, int> errors;
  gErrors = &errors;
  for (auto &q : w.l.queries) {
    char name[64];
    unsigned rank = 0;
    if (sscanf(q.c_str(), " %63s %u", name, &rank) == 2 && rank < 8)
      w.queries.push_back({name, rank});
  }
  std::vector<Client> cs(w.l.clients);
  std::vector<int> ids;
  for (int i = 0; i < w.l.clients; ++i) {
    cs[i] = {&w, i};
    ids.push_back(sim::spawn(clientMain, &cs[i], "client"));
  }
  for (int id : ids)
    sim::join(id);
  snprintf(sim::result().extra, sizeof(sim::result().extra), "clients=%d tokens=%zu variants=%d", w.l.clients, w.l.toks.size(), w.l.variants);
  return true;
}
