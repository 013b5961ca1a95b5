// Source texts that need not be programs: mutated programs, token soup, bytes,
// deep nesting.
#pragma once
#include "lang.h"
namespace texts {
using namespace pbt;
using namespace lang;

static const char *const toks[] = {
    "function", "end", "if", "else", "while", "for", "to", "var", "const", "return", "none", "and",
    "or", "not", "import", "(", ")", "[", "]", ",", ".", "=", "==", "<", ">", "<=", ">=", "+", "-",
    "*", "/", "%", "+=", "-=", "*=", "/=", "\n", "\n", "\n", "\n", "x", "y", "f", "main", "out",
    "vout", "0", "1", "2147483648", "1.5", "0.", ".5", "\"s\"", "\"", "#c", "@", "!", "$", "\r",
    "\t", "x.y", "a[0]", "f(", "f()", "= [", "1 / 0", "\x80", "and=", "1x", "x1", "999999999999999999999"};
static const size_t ntoks = sizeof(toks) / sizeof(toks[0]);

static std::string soup(Src &s) {
  std::string t;
  const int n = 1 + int(s.below(60));
  if (s.chance(1, 2))
    t += "function main()\n";
  for (int i = 0; i < n; ++i) {
    t += toks[s.below(uint32_t(ntoks))];
    if (!s.chance(1, 6))
      t += " ";
  }
  if (s.chance(1, 2))
    t += "\nend\n";
  return t;
}

static std::string bytes(Src &s) {
  std::string t;
  const int n = 1 + int(s.below(120));
  for (int i = 0; i < n; ++i)
    t += char(1 + s.below(255));
  return t;
}

// phrases nested deep inside each other
static std::string nested(Src &s) {
  static const char *const open[] = {"(", "[", "-", "not ", "f(", "a[", "((", "1+(", "x and (", "- -"};
  static const char *const close[] = {")", "]", "", "", ")", "]", "))", ")", ")", ""};
  const int n = 1 + int(s.below(400));
  std::string a, b;
  const bool same = s.chance(1, 2);
  uint32_t k = s.below(10);
  for (int i = 0; i < n; ++i) {
    if (!same)
      k = s.below(10);
    a += open[k];
    b = close[k] + b;
  }
  if (s.chance(1, 4))
    b = b.substr(0, s.below(uint32_t(b.size() + 1)));
  if (s.chance(1, 3)) {
    // statements
    static const char *const so[] = {"if (1)\n", "while (0)\n", "for (x = 0 to 1)\n", "if (0)\nelse\n"};
    std::string t = "function main()\nvar x\nvar a\n";
    for (int i = 0; i < n; ++i)
      t += so[s.below(4)];
    for (int i = 0; i < n - int(s.below(2)); ++i)
      t += "end\n";
    return t + "end\n";
  }
  return "var a = 1\nfunction f(x)\nreturn " + a + "1" + b + "\nend\n";
}

static std::vector<std::string> split(const std::string &t) {
  std::vector<std::string> v;
  std::string w;
  auto kind = [](char ch) {
    if ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_')
      return 1;
    if (ch == ' ')
      return 2;
    return 0;
  };
  int last = -1;
  for (char ch : t) {
    const int k = kind(ch);
    if (!w.empty() && (k == 0 || k != last)) {
      v.push_back(w);
      w.clear();
    }
    w += ch;
    last = k;
  }
  if (!w.empty())
    v.push_back(w);
  return v;
}

static std::string mutated(Src &s) {
  GenOpts o;
  o.max_funcs = 3;
  o.stmts = 5;
  o.builtins = false;
  o.wild = 3;
  Gen g(s, o);
  g.program("main");
  Style st;
  st.src = &s;
  st.vary_lines = s.chance(1, 2);
  st.comments = s.chance(1, 3);
  st.no_final_eol = s.chance(1, 6);
  std::string t = print(g.p, st);
  const int n = int(s.weighted({1, 8, 4, 3, 2, 1}));
  for (int i = 0; i < n && !t.empty(); ++i) {
    switch (s.below(7)) {
    case 0: { // one character
      const size_t at = s.below(uint32_t(t.size()));
      switch (s.below(3)) {
      case 0: t.erase(at, 1); break;
      case 1: t[at] = char(1 + s.below(255)); break;
      default: t.insert(at, 1, char(1 + s.below(127))); break;
      }
      break;
    }
    case 1: // truncate
      t = t.substr(0, s.below(uint32_t(t.size())));
      break;
    case 2:
    case 3: { // tokens
      auto v = split(t);
      const size_t at = s.below(uint32_t(v.size()));
      switch (s.below(5)) {
      case 0: v.erase(v.begin() + long(at)); break;
      case 1: v.insert(v.begin() + long(at), v[s.below(uint32_t(v.size()))]); break;
      case 2: v[at] = toks[s.below(uint32_t(ntoks))]; break;
      case 3: std::swap(v[at], v[s.below(uint32_t(v.size()))]); break;
      default: v.insert(v.begin() + long(at), toks[s.below(uint32_t(ntoks))]); break;
      }
      t.clear();
      for (auto &w : v)
        t += w;
      break;
    }
    default: { // lines
      std::vector<std::string> l;
      std::string w;
      for (char ch : t) {
        w += ch;
        if (ch == '\n') {
          l.push_back(w);
          w.clear();
        }
      }
      if (!w.empty())
        l.push_back(w);
      const size_t at = s.below(uint32_t(l.size()));
      switch (s.below(4)) {
      case 0: l.erase(l.begin() + long(at)); break;
      case 1: l.insert(l.begin() + long(at), l[s.below(uint32_t(l.size()))]); break;
      case 2: std::swap(l[at], l[s.below(uint32_t(l.size()))]); break;
      default:
        if (!l[at].empty() && l[at].back() == '\n')
          l[at].pop_back();
        break;
      }
      t.clear();
      for (auto &x : l)
        t += x;
      break;
    }
    }
  }
  return t;
}

// a few lines that one phase or another rejects
inline std::string faults(pbt::Src &s) {
  static const char *const f[] = {"function broken(\n", "function q()\n return undefined_name\nend\n",
                                  "var z_ = 1 / 0\n", "function q()\n q(1)\nend\n", "\"open string\n",
                                  "function q()\n var a = (1 + \nend\n", "function q()\n if (1)\n",
                                  "const k_ = nothing_known\n", "function main()\nend\n", "import \"no such file\"\n",
                                  "function q()\n return [1, 2\nend\n", "function q()\n var v = 1\n var v = 2\nend\n",
                                  "function q(a, b\n", "var \n", "function q()\n for (i = 1 to\nend\n"};
  return f[s.below(15)];
}

} // namespace texts
