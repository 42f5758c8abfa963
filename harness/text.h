// Texts read back from a faulty store: the workloads of the harnesses whose
// input is a text, and the damage the store (or who edits it) does.
#ifndef VERIF_TEXT_H
#define VERIF_TEXT_H
#include "../sim/harness.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

enum { FK_TRUNC = sim::F_USER, FK_ZERO, FK_FLIP, FK_DROP, FK_DUP, FK_STALE, FK_EDIT };
#define VERIF_TEXT_FAULTS "truncated_file", "zeroed_block", "flipped_bit", "lost_write", "repeated_block", "stale_block", "edited_token"

namespace {
// ---- workloads
struct Fault {
  int variant;
  std::string kind;
  uint64_t a, b, c;
};
struct Load {
  std::vector<std::string> toks;
  std::vector<Fault> faults;
  std::vector<std::string> queries; // what the harness asks about the text
  int clients = 1;
  int variants = 0;
};
std::string escape(const std::string &s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c == '\\')
      r += "\\\\";
    else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r;
}
std::string unescape(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\\' || i + 1 >= s.size()) {
      r += s[i];
      continue;
    }
    ++i;
    if (s[i] == 'n')
      r += '\n';
    else if (s[i] == 'x' && i + 2 < s.size()) {
      r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else
      r += s[i];
  }
  return r;
}
bool parseLoad(const std::string &text, Load &l) {
  size_t p = 0;
  while (p < text.size()) {
    size_t e = text.find('\n', p);
    if (e == std::string::npos)
      e = text.size();
    std::string line = text.substr(p, e - p);
    p = e + 1;
    if (line.size() > 1 && line[0] == 'T' && line[1] == ' ')
      l.toks.push_back(unescape(line.substr(2)));
    else if (line[0] == 'F') {
      Fault f;
      char kind[16];
      unsigned long long a = 0, b = 0, c = 0;
      if (sscanf(line.c_str(), "F %d %15s %llu %llu %llu", &f.variant, kind, &a, &b, &c) < 2)
        return false;
      f.kind = kind;
      f.a = a, f.b = b, f.c = c;
      if (f.variant < 0 || f.variant > 60)
        return false;
      l.variants = std::max(l.variants, f.variant + 1);
      l.faults.push_back(f);
    } else if (line[0] == 'Q')
      l.queries.push_back(line.substr(1));
    else if (line[0] == 'O')
      sscanf(line.c_str(), "O clients %d", &l.clients);
  }
  l.clients = std::max(1, std::min(l.clients, 4));
  return true;
}
std::string damaged(const Load &l, int variant, const char *const *kVocabulary, size_t kVocab) {
  std::vector<std::string> toks = l.toks;
  // Edits first, then the storage.
  for (auto &f : l.faults) {
    if (f.variant != variant || f.kind[0] != 't' || f.kind == "trunc" || toks.empty())
      continue;
    size_t i = f.a % toks.size(), j = f.b % toks.size();
    if (f.kind == "tdrop")
      toks.erase(toks.begin() + i);
    else if (f.kind == "tdup")
      toks.insert(toks.begin() + i, toks[i]);
    else if (f.kind == "tswap")
      std::swap(toks[i], toks[j]);
    else if (f.kind == "tmove") {
      std::string t = toks[i];
      toks.erase(toks.begin() + i);
      toks.insert(toks.begin() + std::min(j, toks.size()), t);
    } else if (f.kind == "tins")
      toks.insert(toks.begin() + i, std::string(" ") + kVocabulary[f.b % kVocab] + " ");
    else if (f.kind == "trep")
      toks[i] = std::string(" ") + kVocabulary[f.b % kVocab] + " ";
    else if (f.kind == "tcut")
      toks.erase(toks.begin() + i, toks.begin() + std::min(toks.size(), i + 1 + (size_t)(f.b % 12)));
    else if (f.kind == "tend")
      toks.resize(i);
    else
      continue;
  }
  std::string t;
  for (auto &x : toks)
    t += x;
  for (auto &f : l.faults) {
    if (f.variant != variant || t.empty())
      continue;
    size_t at = f.a % t.size(), len = std::min<size_t>(f.b, t.size() - at);
    if (f.kind == "trunc")
      t.resize(at);
    else if (f.kind == "zero")
      std::fill(t.begin() + at, t.begin() + at + len, '\0');
    else if (f.kind == "flip")
      t[at] ^= (char)(1u << (f.b & 7));
    else if (f.kind == "drop")
      t.erase(at, len);
    else if (f.kind == "dup")
      t.insert(at, t.substr(at, len));
    else if (f.kind == "stale") {
      size_t from = f.c % t.size();
      std::string s = t.substr(from, len);
      t.replace(at, std::min(s.size(), t.size() - at), s);
    }
  }
  return t;
}
int faultKind(const std::string &k) {
  return k == "trunc" ? FK_TRUNC : k == "zero" ? FK_ZERO : k == "flip" ? FK_FLIP : k == "drop" ? FK_DROP
         : k == "dup" ? FK_DUP : k == "stale" ? FK_STALE : FK_EDIT;
}

// Draws faults for a text of so many tokens and bytes.
std::string drawFaults(sim::Rng &r, size_t tokens, size_t bytes, size_t vocab) {
  auto num = [](uint64_t v) { return std::to_string(v); };
  std::string s;
  int n = 4 + (int)r.below(12);
  static const char *kinds[] = {"trunc", "trunc", "zero",  "flip",  "flip",  "drop", "dup",  "stale", "tdrop", "tdrop",
                                "tdup",  "tswap", "tmove", "tins",  "tins",  "tins", "trep", "trep",  "tcut",  "tend"};
  for (int v = 0; v < n; ++v)
    for (int m = r.below(4) ? 1 : 2 + (int)r.below(2); m > 0; --m) {
      std::string kind = kinds[r.below(sizeof kinds / sizeof *kinds)];
      uint64_t span = !tokens ? 1 : tokens;
      uint64_t a = kind[0] == 't' && kind != "trunc" ? r.below(span) : r.below(bytes), b, c = r.below(bytes);
      if (kind == "tswap" || kind == "tmove")
        b = r.below(2) ? r.below(span) : a + 1;
      else if (kind[0] == 't')
        b = r.below(vocab * 4);
      else if (kind == "flip")
        b = r.below(8);
      else
        b = 1 + r.below(r.below(2) ? 4 : 64);
      if (kind == "zero" && r.below(2))
        b = bytes; // to the end of the file
      s += "F " + num(v) + " " + kind + " " + num(a) + " " + num(b) + " " + num(c) + "\n";
    }
  return s;
}
} // namespace
#endif
