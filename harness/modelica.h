// Reference reading of Base Modelica sources: an independent lexer and parser
// deciding whether a text is a program, and which one. Used as an oracle; it
// shares no code with the parser under test.
#ifndef VERIF_MODELICA_H
#define VERIF_MODELICA_H
#include <algorithm>
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <string>
#include <vector>

namespace mo {
enum Kind { T_ID, T_KW, T_INT, T_REAL, T_STR, T_SYM, T_BAD, T_EOF };
struct Tok {
  Kind k = T_EOF;
  std::string s; // identifier, keyword, symbol, string contents
  long long i = 0;
  double d = 0;
  size_t pos = 0, end = 0; // offsets of the first character, and past the last
  bool huge = false; // integers that do not fit
};

inline const std::set<std::string> &keywords() {
  static const std::set<std::string> *k = new std::set<std::string>{
      "algorithm", "and",       "annotation", "block",     "break",     "class",     "connect",
      "connector", "constant",  "constrainedby", "der",    "discrete",  "each",      "else",
      "elseif",    "elsewhen",  "encapsulated", "end",     "enumeration", "equation", "expandable",
      "extends",   "external",  "false",      "final",     "flow",      "for",       "function",
      "if",        "import",    "impure",     "in",        "initial",   "inner",     "input",
      "loop",      "model",     "not",        "operator",  "or",        "outer",     "output",
      "package",   "parameter", "partial",    "protected", "public",    "pure",      "record",
      "redeclare", "replaceable", "return",   "stream",    "then",      "true",      "type",
      "when",      "while",     "within"};
  return *k;
}
inline bool nondigit(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline char escaped(char c) {
  switch (c) {
  case 'a': return 7;
  case 'b': return 8;
  case 'f': return 12;
  case 'n': return 10;
  case 'r': return 13;
  case 't': return 9;
  case 'v': return 11;
  default: return c;
  }
}

// Splits a text into tokens. The last one is T_EOF, or T_BAD when the
// remaining characters are no token at all.
inline std::vector<Tok> lex(const std::string &t) {
  std::vector<Tok> r;
  size_t i = 0, n = t.size();
  auto at = [&](size_t p) -> int { return p < n ? (unsigned char)t[p] : -1; };
  auto bad = [&](size_t p) {
    Tok k;
    k.k = T_BAD;
    k.pos = p;
    r.push_back(k);
  };
  for (;;) {
    while (i < n && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13)))
      ++i;
    Tok k;
    k.pos = i;
    if (i >= n) {
      r.push_back(k);
      return r;
    }
    char c = t[i];
    if (c == '/' && at(i + 1) == '/') {
      while (i < n && t[i] != '\n' && t[i] != '\0')
        ++i;
      if (i < n && t[i] == '\0') {
        bad(i);
        return r;
      }
      continue;
    }
    if (c == '/' && at(i + 1) == '*') {
      size_t b = i;
      i += 2;
      while (i + 1 < n && !(t[i] == '*' && t[i + 1] == '/') && t[i] != '\0')
        ++i;
      if (i + 1 >= n || t[i] == '\0') {
        bad(b);
        return r;
      }
      i += 2;
      continue;
    }
    if (nondigit(c) || (c == '$' && at(i + 1) >= 0 && nondigit(t[i + 1]))) {
      size_t b = i++;
      while (i < n && (nondigit(t[i]) || digit(t[i])))
        ++i;
      k.s = t.substr(b, i - b);
      k.k = keywords().count(k.s) ? T_KW : T_ID;
      k.end = i;
      r.push_back(k);
      continue;
    }
    if (c == '\'' || c == '"') {
      size_t b = i++;
      bool closed = false;
      while (i < n) {
        if (t[i] == '\0')
          break;
        if (t[i] == c) {
          ++i;
          closed = true;
          break;
        }
        if (t[i] == '\\') {
          if (i + 1 >= n || t[i + 1] == '\0')
            break;
          k.s += escaped(t[i + 1]);
          i += 2;
          continue;
        }
        k.s += t[i++];
      }
      if (!closed) {
        bad(b);
        return r;
      }
      k.k = c == '"' ? T_STR : T_ID;
      k.end = i;
      r.push_back(k);
      continue;
    }
    if (digit(c)) {
      size_t b = i;
      bool real = false;
      while (i < n && digit(t[i]))
        ++i;
      if (at(i) == '.') {
        real = true;
        ++i;
        while (i < n && digit(t[i]))
          ++i;
      }
      if (at(i) == 'e' || at(i) == 'E') {
        size_t j = i + 1;
        if (at(j) == '+' || at(j) == '-')
          ++j;
        if (j >= n || !digit(t[j])) {
          bad(b);
          return r;
        }
        while (j < n && digit(t[j]))
          ++j;
        real = true;
        i = j;
      }
      std::string num = t.substr(b, i - b);
      k.k = real ? T_REAL : T_INT;
      if (real) {
        k.d = strtod(num.c_str(), nullptr);
        // Values near the limits of the machine numbers depend on how they are
        // computed.
        double m = k.d < 0 ? -k.d : k.d;
        bool zero = num.substr(0, num.find_first_of("eE")).find_first_of("123456789") == std::string::npos;
        k.huge = !zero && (!(m > 1e-250) || !(m < 1e250) || num.size() > 60);
      } else {
        size_t z = num.find_first_not_of('0');
        std::string sig = z == std::string::npos ? "0" : num.substr(z);
        k.huge = sig.size() > 18;
        k.i = k.huge ? 0 : strtoll(sig.c_str(), nullptr, 10);
      }
      k.end = i;
      r.push_back(k);
      continue;
    }
    static const char *two[] = {".+", ".-", ".*", "./", ".^", "==", "<>", "<=", ">=", ":="};
    k.k = T_SYM;
    for (const char *s : two)
      if (c == s[0] && at(i + 1) == s[1])
        k.s = s;
    if (k.s.empty() && strchr("+-*/^.<>,;:()[]{}=", c) && c)
      k.s = std::string(1, c);
    if (k.s.empty()) {
      bad(i);
      return r;
    }
    i += k.s.size();
    k.end = i;
    r.push_back(k);
  }
}

// The verdict about a text. GREY: outside of the supported subset of the
// language, or a matter of leniency: nothing is claimed about acceptance.
enum Verdict { ACCEPT, REJECT, GREY };

class Reference {
public:
  Verdict verdict = ACCEPT;
  std::string tree;
  size_t errorPos = 0;

  explicit Reference(const std::string &text) : t(lex(text)) {
    for (size_t i = 0; i < text.size(); ++i)
      if (text[i] == '\n')
        newlines.push_back(i);
    std::string r = "(root";
    while (ok() && t[p].k != T_EOF)
      r += " " + klass();
    tree = r + ")";
  }

private:
  std::vector<Tok> t;
  size_t p = 0;
  std::vector<size_t> newlines;

  // Lines and columns are counted from one.
  std::string place(size_t offset) const {
    size_t l = std::lower_bound(newlines.begin(), newlines.end(), offset) - newlines.begin();
    size_t column = l ? offset - newlines[l - 1] : offset + 1;
    return std::to_string(l + 1) + ":" + std::to_string(column);
  }
  std::string span(const Tok &k) const { return "@" + place(k.pos) + "-" + place(k.end - 1); }

  bool ok() const { return verdict == ACCEPT; }
  const Tok &la(int k = 0) const { return t[p + k < t.size() ? p + k : t.size() - 1]; }
  void fail() {
    if (!ok())
      return;
    static const std::set<std::string> unsupported{
        "block", "connector", "type", "operator", "encapsulated", "partial", "import", "extends", "redeclare",
        "replaceable", "inner", "outer", "flow", "stream", "connect", "within", "enumeration", "constrainedby",
        "expandable", "pure", "impure"};
    verdict = la().k == T_KW && unsupported.count(la().s) ? GREY : REJECT;
    errorPos = la().pos;
  }
  void grey() {
    if (ok())
      verdict = GREY;
  }
  bool is(const char *s) const { return (la().k == T_KW || la().k == T_SYM) && la().s == s; }
  bool isAt(int k, const char *s) const { return (la(k).k == T_KW || la(k).k == T_SYM) && la(k).s == s; }
  void shift() {
    if (p + 1 < t.size())
      ++p;
  }
  bool acc(const char *s) {
    if (!ok() || !is(s))
      return false;
    shift();
    return true;
  }
  void expect(const char *s) {
    if (ok() && !acc(s))
      fail();
  }
  std::string id() {
    if (!ok())
      return "";
    if (la().k != T_ID) {
      fail();
      return "";
    }
    std::string s = la().s;
    shift();
    return quote(s);
  }
  void comment() {
    if (ok() && la().k == T_STR)
      shift();
  }

public:
  static std::string quote(const std::string &s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
      if (c < 33 || c > 126 || c == '"' || c == '\\' || c == '(' || c == ')') {
        snprintf(b, sizeof(b), "\\%02x", c);
        r += b;
      } else {
        r += (char)c;
      }
    }
    return r + "\"";
  }
  static std::string real(double d) {
    char b[64];
    snprintf(b, sizeof(b), "R%.17g", d);
    return b;
  }

private:
  // ---- classes
  std::string klass() {
    std::string kind;
    bool pure = true;
    if (acc("operator")) {
      if (acc("record"))
        kind = "record";
      else {
        expect("function");
        kind = "function";
      }
    } else if (acc("model"))
      kind = "model";
    else if (acc("record"))
      kind = "record";
    else if (acc("package"))
      kind = "package";
    else if (acc("function"))
      kind = "function";
    else if (is("pure") || is("impure")) {
      pure = is("pure");
      shift();
      acc("operator");
      expect("function");
      kind = "function";
    } else {
      expect("class");
      kind = "model";
    }
    std::string name = id();
    if (ok() && is("=") && kind != "function")
      return fail(), "";
    if (acc("=")) {
      expect("der");
      expect("(");
      std::string r = "(der " + name + " " + expr();
      while (acc(","))
        r += " " + expr();
      expect(")");
      comment();
      expect(";");
      return r + ")";
    }
    comment();
    std::string vars, eqs, algs, inner, ext, ann;
    elements(true, vars, inner);
    while (ok()) {
      if (acc("public"))
        elements(true, vars, inner);
      else if (acc("protected"))
        elements(false, vars, inner);
      else if (is("equation") || (is("initial") && isAt(1, "equation")))
        eqs += " " + equationSection();
      else if (is("algorithm") || (is("initial") && isAt(1, "algorithm")))
        algs += " " + algorithmSection();
      else
        break;
    }
    if (acc("external")) {
      ext = "(external";
      if (la().k == T_STR) {
        ext += " " + quote(la().s);
        shift();
      } else {
        ext += " " + quote("C");
      }
      if (la().k == T_ID || is("."))
        ext += " " + externalCall();
      if (ok() && !is(";"))
        ext += " " + annotation();
      expect(";");
      ext += ")";
    }
    if (ok() && is("annotation")) {
      ann = annotation();
      expect(";");
    }
    expect("end");
    std::string e = id();
    if (ok() && e != name)
      return fail(), "";
    expect(";");
    if (kind == "function")
      kind += pure ? " pure" : " impure";
    return "(" + kind + " " + name + " (vars" + vars + ") (eqs" + eqs + ") (algs" + algs + ") (inner" + inner + ")" +
           (ext.empty() ? "" : " " + ext) + (ann.empty() ? "" : " " + ann) + ")";
  }
  bool classStart() const {
    return is("class") || is("function") || is("model") || is("package") || is("record");
  }
  void elements(bool pub, std::string &vars, std::string &inner) {
    while (ok()) {
      if (classStart()) {
        inner += " " + klass();
        continue;
      }
      if (is("public") || is("protected") || is("equation") || is("initial") || is("algorithm") || is("external") ||
          is("annotation") || is("end"))
        return;
      vars += " " + element(pub);
      if (ok() && (is(",") || is("[") || is(":=") || is("if")))
        return grey(); // several components, dimensions after the name, conditions
      expect(";");
    }
  }
  std::string element(bool pub) {
    acc("final");
    std::string var = "none", io = "none";
    if (is("discrete") || is("parameter") || is("constant")) {
      var = la().s;
      shift();
    }
    if (is("input") || is("output")) {
      io = la().s;
      shift();
    }
    bool global = acc(".");
    bool builtin = false;
    std::string type;
    if (ok() && la().k == T_ID) {
      std::string n = la().s;
      builtin = n == "Real" || n == "Integer" || n == "Boolean" || n == "String";
      if (builtin && (global || isAt(1, ".")))
        grey();
      type = builtin ? "(" + n : std::string("(type") + (global ? " ." : "") + " " + quote(n);
      shift();
    } else {
      fail();
    }
    while (!builtin && acc("."))
      type += " " + id();
    std::string dims;
    if (acc("[")) {
      do {
        if (acc(":"))
          dims += " :";
        else if (la().k == T_INT && (isAt(1, ",") || isAt(1, "]"))) {
          if (la().huge)
            grey();
          dims += " #" + std::to_string(la().i);
          shift();
        } else
          dims += " " + expr();
      } while (acc(","));
      expect("]");
    }
    type += dims + ")";
    Tok first = la();
    std::string name = id();
    if (ok())
      name += span(first);
    std::string mod;
    if (ok() && (is("(") || is("=")))
      mod = modification();
    comment();
    if (ok() && is("annotation"))
      annotation();
    return "(var " + name + " " + type + " " + var + " " + io + (pub ? " public" : " protected") +
           (mod.empty() ? "" : " " + mod) + ")";
  }
  std::string modification() {
    if (acc("=") || acc(":="))
      return "(mod " + expr() + ")";
    std::string r = "(mod " + classModification();
    if (acc("="))
      r += " " + expr();
    return r + ")";
  }
  std::string classModification() {
    expect("(");
    if (ok() && is(")")) {
      shift();
      return "(args)";
    }
    std::string r = "(args";
    do {
      if (is("redeclare") || is("replaceable"))
        return grey(), "";
      bool each = acc("each"), final = acc("final");
      if (is("replaceable"))
        return grey(), "";
      r += std::string(" (el") + (each ? " each" : "") + (final ? " final" : "") + " " + id();
      if (ok() && is("."))
        return grey(), "";
      if (ok() && (is("(") || is("=") || is(":=")))
        r += " " + modification();
      r += ")";
      if (ok() && la().k == T_STR)
        return grey(), "";
    } while (acc(","));
    expect(")");
    return r + ")";
  }
  std::string annotation() {
    expect("annotation");
    return "(annotation " + classModification() + ")";
  }
  std::string externalCall() {
    std::string r = "(call";
    if (!(la().k == T_ID && isAt(1, "("))) {
      r += " (to " + reference() + ")";
      expect("=");
    }
    r += " " + id();
    expect("(");
    if (ok() && !is(")")) {
      do {
        r += " " + expr();
      } while (acc(","));
    }
    expect(")");
    return r + ")";
  }

  // ---- equations
  std::string equationSection() {
    std::string r = acc("initial") ? "(initial" : "(normal";
    expect("equation");
    while (ok() && !is("public") && !is("protected") && !is("initial") && !is("equation") && !is("algorithm") &&
           !is("external") && !is("annotation") && !is("end"))
      r += " " + equation(true);
    return r + ")";
  }
  std::string equation(bool section) {
    std::string r;
    bool structured = is("if") || is("for") || is("when");
    if (ok() && is("initial"))
      return section ? (fail(), "") : (grey(), "");
    if (is("if"))
      r = ifEquation();
    else if (is("for")) {
      shift();
      r = "(for " + forIndices();
      expect("loop");
      while (ok() && !is("end"))
        r += " " + equation(false);
      expect("end");
      expect("for");
      r += ")";
    } else if (is("when")) {
      shift();
      r = "(when (" + expr();
      expect("then");
      while (ok() && !is("elsewhen") && !is("end")) {
        if (is("else"))
          return grey(), "";
        r += " " + equation(false);
      }
      r += ")";
      while (acc("elsewhen")) {
        r += " (" + expr();
        expect("then");
        while (ok() && !is("elsewhen") && !is("end")) {
          if (is("else"))
            return grey(), "";
          r += " " + equation(false);
        }
        r += ")";
      }
      expect("end");
      expect("when");
      r += ")";
    } else {
      r = "(eq " + expr();
      if (ok() && !is("=") && r.size() > 9 && r.compare(4, 5, "(call") == 0)
        return grey(), ""; // calls used as equations
      expect("=");
      r += " " + expr() + ")";
    }
    if (ok() && structured && la().k == T_STR)
      return grey(), ""; // comments of structured equations
    comment();
    if (ok() && is("annotation"))
      return grey(), "";
    expect(";");
    return r;
  }
  std::string ifEquation() {
    expect("if");
    std::string r = "(if (" + expr();
    expect("then");
    while (ok() && !is("elseif") && !is("else") && !is("end"))
      r += " " + equation(false);
    r += ")";
    while (acc("elseif")) {
      r += " (" + expr();
      expect("then");
      while (ok() && !is("elseif") && !is("else") && !is("end"))
        r += " " + equation(false);
      r += ")";
    }
    if (acc("else")) {
      std::string e;
      while (ok() && !is("end"))
        e += " " + equation(false);
      if (!e.empty())
        r += " (else" + e + ")";
    }
    expect("end");
    expect("if");
    return r + ")";
  }

  // ---- statements
  std::string algorithmSection() {
    std::string r = acc("initial") ? "(initial" : "(normal";
    expect("algorithm");
    while (ok() && !is("public") && !is("protected") && !is("initial") && !is("equation") && !is("algorithm") &&
           !is("external") && !is("annotation") && !is("end"))
      r += " " + statement();
    return r + ")";
  }
  std::string block(const char *a, const char *b, const char *c) {
    std::string r = "(do";
    while (ok() && !is(a) && !is(b) && !is(c))
      r += " " + statement();
    return r + ")";
  }
  std::string statement() {
    std::string r;
    if (acc("if")) {
      r = "(if (" + expr();
      expect("then");
      r += " " + block("elseif", "else", "end") + ")";
      while (acc("elseif")) {
        r += " (" + expr();
        expect("then");
        r += " " + block("elseif", "else", "end") + ")";
      }
      if (acc("else"))
        r += " (else " + block("end", "end", "end") + ")";
      expect("end");
      expect("if");
      r += ")";
    } else if (acc("for")) {
      r = "(for " + forIndices();
      expect("loop");
      r += " " + block("end", "end", "end");
      expect("end");
      expect("for");
      r += ")";
    } else if (acc("while")) {
      r = "(while " + expr();
      expect("loop");
      r += " " + block("end", "end", "end");
      expect("end");
      expect("while");
      r += ")";
    } else if (acc("when")) {
      r = "(when " + expr();
      expect("then");
      r += " " + block("elsewhen", "end", "end");
      if (is("elsewhen"))
        return grey(), "";
      expect("end");
      expect("when");
      r += ")";
    } else if (acc("break")) {
      r = "(break)";
    } else if (acc("return")) {
      r = "(return)";
    } else if (acc("(")) {
      r = "(assign (tuple" + outputs() + ")";
      expect(")");
      expect(":=");
      r += " (call " + reference() + callArgs() + "))";
    } else {
      std::string c = reference();
      if (is("("))
        r = "(callst (call " + c + callArgs() + "))";
      else {
        expect(":=");
        r = "(assign (tuple " + c + ") " + expr() + ")";
      }
    }
    if (ok() && la().k == T_STR)
      return grey(), ""; // comments of statements
    if (ok() && is("annotation"))
      return grey(), "";
    expect(";");
    return r;
  }

  // ---- expressions
  std::string forIndices() {
    std::string r = "(";
    bool first = true;
    do {
      r += std::string(first ? "" : " ") + "(index " + id();
      first = false;
      if (acc("in"))
        r += " " + expr();
      r += ")";
    } while (acc(","));
    return r + ")";
  }
  std::string expr() {
    if (!ok())
      return "";
    if (acc("if")) {
      std::string r = "(ifelse " + expr();
      expect("then");
      r += " " + expr();
      if (ok() && is("elseif"))
        return grey(), "";
      expect("else");
      return r + " " + expr() + ")";
    }
    std::string a = logical();
    if (!acc(":"))
      return a;
    std::string r = "(range " + a + " " + logical();
    if (acc(":"))
      r += " " + logical();
    return r + ")";
  }
  std::string logical() {
    std::string a = logicalTerm();
    if (!ok() || !is("or"))
      return a;
    while (acc("or"))
      a += " " + logicalTerm();
    return "(lor " + a + ")";
  }
  std::string logicalTerm() {
    std::string a = logicalFactor();
    if (!ok() || !is("and"))
      return a;
    while (acc("and"))
      a += " " + logicalFactor();
    return "(land " + a + ")";
  }
  std::string logicalFactor() {
    if (acc("not"))
      return "(lnot " + relation() + ")";
    return relation();
  }
  std::string relation() {
    static const char *ops[][2] = {{">=", "greaterEqual"}, {">", "greater"}, {"<=", "lessEqual"},
                                   {"<", "less"},          {"==", "equal"},  {"<>", "different"}};
    std::string a = arithmetic();
    for (auto &o : ops)
      if (acc(o[0]))
        return std::string("(") + o[1] + " " + a + " " + arithmetic() + ")";
    return a;
  }
  std::string arithmetic() {
    if (ok() && (is(".+") || is(".-")))
      return grey(), "";
    bool neg = false;
    if (acc("-"))
      neg = true;
    else
      acc("+");
    std::string a = term();
    if (neg)
      a = "(negate " + a + ")";
    for (;;) {
      if (acc("+"))
        a = "(add " + a + " " + term() + ")";
      else if (acc(".+"))
        a = "(addEW " + a + " " + term() + ")";
      else if (acc("-"))
        a = "(subtract " + a + " " + term() + ")";
      else if (acc(".-"))
        a = "(subtractEW " + a + " " + term() + ")";
      else
        return a;
    }
  }
  std::string term() {
    std::string a = factor();
    for (;;) {
      if (acc("*"))
        a = "(multiply " + a + " " + factor() + ")";
      else if (acc(".*"))
        a = "(multiplyEW " + a + " " + factor() + ")";
      else if (acc("/"))
        a = "(divide " + a + " " + factor() + ")";
      else if (acc("./"))
        a = "(divideEW " + a + " " + factor() + ")";
      else
        return a;
    }
  }
  std::string factor() {
    std::string a = primary();
    bool again = false;
    while (ok() && (is("^") || is(".^"))) {
      if (again)
        return grey(), ""; // not associative in Modelica
      again = true;
      bool ew = is(".^");
      shift();
      a = std::string(ew ? "(powerOfEW " : "(powerOf ") + a + " " + primary() + ")";
    }
    return a;
  }
  // A possibly empty list of possibly omitted expressions, up to ')'.
  std::string outputs(int *count = nullptr) {
    std::string r;
    int n = 0;
    bool missing = true; // no expression since the last comma
    while (ok() && !is(")")) {
      if (is(",")) {
        shift();
        if (missing) {
          r += " _";
          ++n;
        }
        missing = true;
        if (ok() && is(")"))
          grey(); // trailing omitted output
        continue;
      }
      if (!missing)
        return fail(), "";
      r += " " + expr();
      ++n;
      missing = false;
    }
    if (count)
      *count = n;
    return r;
  }
  std::string primary() {
    if (!ok())
      return "";
    std::string r;
    switch (la().k) {
    case T_INT:
      if (la().huge)
        return grey(), "";
      r = "I" + std::to_string(la().i) + span(la());
      shift();
      return r;
    case T_REAL:
      if (la().huge)
        return grey(), "";
      r = real(la().d) + span(la());
      shift();
      return r;
    case T_STR:
      r = "S" + quote(la().s) + span(la());
      shift();
      return r;
    default:
      break;
    }
    if (is("true") || is("false")) {
      r = (is("true") ? "Btrue" : "Bfalse") + span(la());
      shift();
      return r;
    }
    if (is("(")) {
      Tok open = la();
      shift();
      int n = 0;
      std::string o = outputs(&n);
      Tok close = la();
      expect(")");
      if (n == 1 && o == " _")
        return grey(), "";
      r = n == 1 ? o.substr(1) : "(tuple" + o + ")";
      // A parenthesized literal spans the parentheses.
      if (ok() && n == 1 && r[0] != '(')
        r = r.substr(0, r.rfind('@')) + "@" + place(open.pos) + "-" + place(close.pos);
    } else if (acc("{")) {
      std::string a = expr();
      if (acc("for"))
        r = "(generator " + a + " " + forIndices() + ")";
      else {
        while (acc(","))
          a += " " + expr();
        r = "(array " + a + ")";
      }
      expect("}");
    } else if (acc("der")) {
      r = "(call (ref (\"der\"@" + place(t[p - 1].pos) + "))" + callArgs() + ")";
    } else if (la().k == T_ID || is(".")) {
      r = reference();
      if (ok() && is("("))
        r = "(call " + r + callArgs() + ")";
      else
        return r;
    } else if (is("[") || is("end") || is("initial") || is("pure")) {
      return grey(), ""; // matrices, end, initial(), pure(...)
    } else {
      return fail(), "";
    }
    if (ok() && is("["))
      r = "(subscription " + r + subscripts() + ")";
    return r;
  }
  std::string reference() {
    if (!ok())
      return "";
    std::string r = "(ref";
    if (acc("."))
      r += " .";
    do {
      Tok first = la();
      r += " (" + id();
      if (ok())
        r += "@" + place(first.pos);
      if (ok() && is("["))
        r += subscripts();
      r += ")";
    } while (acc("."));
    return r + ")";
  }
  std::string subscripts() {
    expect("[");
    std::string r;
    do {
      if (acc(":"))
        r += " (sub)";
      else
        r += " (sub " + expr() + ")";
    } while (acc(","));
    expect("]");
    return r;
  }
  std::string callArgs() {
    expect("(");
    std::string r;
    if (ok() && is(")")) {
      shift();
      return r;
    }
    bool named = false, first = true;
    do {
      if (la().k == T_ID && isAt(1, "="))
        named = true;
      if (named) {
        r += " (named " + id();
        expect("=");
        r += " (arg " + expr() + "))";
      } else {
        if (is("function"))
          return grey(), "";
        std::string e = expr();
        if (first && acc("for")) {
          r += " (reduce " + e + " " + forIndices() + ")";
          break;
        }
        r += " (arg " + e + ")";
      }
      first = false;
    } while (acc(","));
    expect(")");
    return r;
  }
};

// Compares two trees; reals may differ by a few units in the last place.
inline bool same(const std::string &a, const std::string &b) {
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    bool start = i == 0 || a[i - 1] == ' ' || a[i - 1] == '(';
    if (start && a[i] == 'R' && b[j] == 'R' && i + 1 < a.size() && (digit(a[i + 1]) || a[i + 1] == '-' || a[i + 1] == 'i' || a[i + 1] == 'n')) {
      char *ea, *eb;
      double x = strtod(a.c_str() + i + 1, &ea), y = strtod(b.c_str() + j + 1, &eb);
      double m = (x < 0 ? -x : x) > (y < 0 ? -y : y) ? (x < 0 ? -x : x) : (y < 0 ? -y : y);
      double df = x > y ? x - y : y - x;
      if (!(x == y || df <= m * 1e-14 || m < 1e-300))
        return false;
      i = ea - a.c_str();
      j = eb - b.c_str();
      continue;
    }
    if (a[i] != b[j])
      return false;
    ++i;
    ++j;
  }
  return i == a.size() && j == b.size();
}
} // namespace mo
#endif
