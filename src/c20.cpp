// C20: literals and names mean what is written, wherever they stand.
#include "api.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <set>
#include <unistd.h>
using namespace pbt;
using namespace lang;
using namespace nano;

struct Lit {
  enum K { Int, Flt, Str, None } k = Int;
  std::string text;            // as written
  std::vector<ref::Val> means; // what it may mean (one value, or a float's neighbours)
};

static std::string text_of(const ref::Val &v) {
  switch (v.t) {
  case ref::Val::Int: return fmt("%d", v.i);
  case ref::Val::Flt: return fmt("%f", double(v.f));
  case ref::Val::Str: return *v.s;
  default: return "none";
  }
}
static bool true_of(const ref::Val &v) {
  switch (v.t) {
  case ref::Val::Int: return v.i != 0;
  case ref::Val::Flt: return v.f != 0;
  case ref::Val::Str: return !v.s->empty();
  default: return false;
  }
}
static std::string dump_of(const ref::Val &v) {
  switch (v.t) {
  case ref::Val::Int: return fmt("%d", v.i);
  case ref::Val::Flt: return ref::flt_text(v.f);
  case ref::Val::Str: return ref::quote(*v.s);
  default: return "none";
  }
}

struct Prog20 {
  Src &s;
  std::string consts, globals, funcs, body;
  struct Want {
    std::vector<std::string> any; // one of these
    std::string about;
  };
  std::vector<Want> want;
  std::vector<std::pair<std::string, Lit>> vars; // every named thing and its value
  std::vector<std::pair<std::string, Lit>> fns;  // every function and what it gives
  std::vector<std::string> made;                 // every name so far
  std::set<std::string> names = {"main", "out", "vout", "id", "len", "x"};
  std::vector<std::string> strs;
  bool long_num = false, long_str = false, odd_bytes = false, many = false;
  explicit Prog20(Src &x) : s(x) {}

  std::string name() {
    static const char *const base[] = {
        "a", "A", "aA", "_", "__", "_1", "andy", "AND_", "ending", "end1", "End_", "elsewhere",
        "forty", "functional", "iffy", "imports", "nothing", "nonesuch", "None1", "order", "or_",
        "returned", "total", "to_", "variable", "VAR2", "whiles", "constant", "length", "e1", "x0",
        "E5", "f", "l1", "I", "O0", "init", "globals", "locals", "terminal"};
    std::string n;
    switch (s.weighted({6, 3, 2, 2})) {
    case 0: n = base[s.below(sizeof(base) / sizeof(*base))]; break;
    case 1: {
      const int k = 1 + int(s.below(8));
      for (int i = 0; i < k; ++i) {
        static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
        n += al[s.below(i ? 63 : 53)];
      }
      break;
    }
    case 2: // like another name but for its end or its case
      if (!made.empty()) {
        n = made[s.below(uint32_t(made.size()))];
        switch (s.below(4)) {
        case 3: n += std::string(1 + s.below(60), 'q'); break;
        case 0: n += char('a' + s.below(26)); break;
        case 1: n[n.size() - 1] = char(n[n.size() - 1] == 'b' ? 'c' : 'b'); break;
        default: {
          const size_t i = s.below(uint32_t(n.size()));
          if (isalpha((unsigned char)n[i]))
            n[i] = char(n[i] ^ 32);
        }
        }
        break;
      }
      // fall through
    default: n = std::string(20 + s.below(280), char('a' + s.below(26))); break;
    }
    static const std::set<std::string> kw = {"and", "const", "end", "else", "for", "function",
                                             "if", "import", "not", "none", "or", "return", "to",
                                             "var", "while"};
    while (true) {
      std::string low;
      for (char ch : n)
        low += char(tolower((unsigned char)ch));
      if (!kw.count(low) && !names.count(n) &&
          ref::Interp::sys_table().end() ==
              std::find_if(ref::Interp::sys_table().begin(), ref::Interp::sys_table().end(),
                           [&](const std::pair<std::string, int> &p) { return p.first == n; }))
        break;
      n += fmt("%u", unsigned(names.size()));
    }
    names.insert(n);
    made.push_back(n);
    return n;
  }

  Lit lit() {
    Lit l;
    switch (s.weighted({5, 5, 5, 1})) {
    case 0: {
      l.k = Lit::Int;
      uint32_t v;
      switch (s.below(4)) {
      case 0: v = s.below(20); break;
      case 1: v = 2147483647u - s.below(10); break;
      case 2: v = std::min(2147483647u, (1u << s.below(31)) + s.below(3) - 1); break;
      default: v = s.bits32() >> (1 + s.below(31)); break;
      }
      l.text = fmt("%u", v);
      if (s.chance(1, 8))
        l.text = std::string(1 + s.below(30), '0') + l.text;
      l.means = {ref::v_int(int32_t(v))};
      break;
    }
    case 1: {
      l.k = Lit::Flt;
      const int whole = s.chance(1, 4) ? 1 + int(s.below(45)) : 1 + int(s.below(7));
      const int frac = s.chance(1, 4) ? int(s.below(60)) : int(s.below(8));
      const bool zeros = s.chance(1, 3);
      for (int i = 0; i < whole; ++i)
        l.text += char('0' + (zeros ? 0 : s.below(10)));
      l.text += '.';
      for (int i = 0; i < frac; ++i)
        l.text += char('0' + (zeros && i < frac - 3 ? 0 : s.below(10)));
      const float f = strtof(l.text.c_str(), nullptr), g = float(strtod(l.text.c_str(), nullptr));
      l.means = {ref::v_flt(f)};
      if (g != f)
        l.means.push_back(ref::v_flt(g));
      if (whole + frac > 15) {
        long_num = true;
        l.means.push_back(ref::v_flt(std::nextafterf(f, 0.f)));
        l.means.push_back(ref::v_flt(std::nextafterf(f, INFINITY)));
      }
      break;
    }
    case 2: {
      l.k = Lit::Str;
      std::string t;
      if (!strs.empty() && s.chance(1, 3)) {
        t = strs[s.below(uint32_t(strs.size()))];
        if (s.chance(2, 3)) {
          if (s.chance(1, 3) && !t.empty())
            t[s.chance(1, 2) ? t.size() - 1 : s.below(uint32_t(t.size()))] = char('a' + s.below(26));
          else if (s.chance(1, 2))
            t += char('a' + s.below(3));
          else if (!t.empty())
            t.pop_back();
        }
      } else {
        static const char *const some[] = {"", " ", "#", "# no comment", "end", "var x = 1", "\\n",
                                           "\\", "'", "\t", "1", "1.5", "none", "main", "%d%s",
                                           "\r", "a\rb", "(", "]", "\xff", "\x80", "\x01"};
        switch (s.below(3)) {
        case 0: t = some[s.below(sizeof(some) / sizeof(*some))]; break;
        case 1: {
          const int n = int(s.below(s.chance(1, 20) ? 4000 : 20));
          const char ch = char('a' + s.below(26));
          t = std::string(size_t(n), ch);
          if (n > 1000)
            long_str = true;
          break;
        }
        default: {
          const int n = int(s.below(12));
          for (int i = 0; i < n; ++i) {
            char ch = char(1 + s.below(255));
            if (ch == '"' || ch == '\n')
              ch = '\\';
            if (ch < 32)
              odd_bytes = true;
            t += ch;
          }
        }
        }
      }
      strs.push_back(t);
      l.text = "\"" + t + "\"";
      l.means = {ref::v_str(t)};
      break;
    }
    default:
      l.k = Lit::None;
      l.text = "none";
      l.means = {ref::Val()};
    }
    return l;
  }

  template <class F> void expect(const Lit &l, const std::string &about, F f) {
    Want w;
    w.about = about;
    for (auto &m : l.means)
      w.any.push_back(f(m));
    want.push_back(w);
  }
  void shows(const Lit &l, const std::string &about) { expect(l, about, dump_of); }

  void item() {
    const Lit l = lit();
    const std::string &t = l.text;
    const std::string a = l.text.substr(0, 60);
    switch (s.below(16)) {
    case 0:
      body += "  out(" + t + ")\n";
      shows(l, a + " as an argument of a host function");
      break;
    case 1: {
      const std::string n = name();
      body += "  var " + n + " = " + t + "\n";
      body += "  out(" + n + ")\n";
      vars.push_back({n, l});
      shows(l, a + " as a variable's first value");
      break;
    }
    case 2: {
      const std::string n = name();
      globals += "var " + n + " = " + t + "\n";
      vars.push_back({n, l});
      break;
    }
    case 3: {
      if (l.k == Lit::None)
        return;
      const std::string n = name();
      consts += "const " + n + " = " + t + "\n";
      vars.push_back({n, l});
      body += "  out(" + n + ")\n";
      shows(l, a + " as a constant");
      break;
    }
    case 4:
      body += "  out([0, " + t + ", 1][1])\n";
      shows(l, a + " as an element");
      break;
    case 5:
      body += "  out(id(" + t + "))\n";
      shows(l, a + " as an argument");
      break;
    case 6: {
      const std::string n = name();
      funcs += "function " + n + "()\n  return " + t + "\nend\n";
      body += "  out(" + n + "())\n";
      shows(l, a + " as a result");
      fns.push_back({n, l});
      if (s.chance(1, 3)) {
        // an argument and a local with names of their own
        const std::string f = name(), x = name(), y = name();
        funcs += "function " + f + "(" + x + ", " + y + ")\n  return [" + y + ", " + x + "]\nend\n";
        body += "  out(" + f + "(" + t + ", 1)[1])\n";
        shows(l, a + " through an argument named " + x.substr(0, 40));
      }
      break;
    }
    case 7: {
      const std::string n = name();
      body += "  var " + n + "\n  " + n + " = " + t + "\n";
      vars.push_back({n, l});
      break;
    }
    case 8:
      body += "  if (" + t + ")\n    out(1)\n  else\n    out(0)\n  end\n";
      expect(l, a + " as a condition", [](const ref::Val &v) { return fmt("%d", int(true_of(v))); });
      break;
    case 9: {
      // another spelling
      if (l.k == Lit::Str || l.k == Lit::None)
        return;
      body += "  out(" + t + " == 0" + t + ")\n";
      want.push_back({{"1"}, a + " compared with another spelling"});
      break;
    }
    case 10:
      body += "  out(\"<\" + " + t + " + \">\")\n";
      expect(l, a + " as text",
             [](const ref::Val &v) { return ref::quote("<" + text_of(v) + ">"); });
      break;
    case 11:
      if (l.k != Lit::Int && l.k != Lit::Flt)
        return;
      body += "  out(-" + t + ")\n";
      expect(l, a + " negated", [](const ref::Val &v) {
        return v.t == ref::Val::Int ? fmt("%d", -v.i) : ref::flt_text(-v.f);
      });
      break;
    case 12: {
      body += "  out(- 2147483648)\n";
      want.push_back({{"-2147483648"}, "the least integer"});
      break;
    }
    case 13: {
      const std::string n = name();
      body += "  var " + n + " = [5, 6, 7]\n  " + n + "[1] = " + t + "\n  out(" + n + "[1])\n";
      shows(l, a + " as a new element");
      break;
    }
    case 14: {
      const std::string n = name();
      globals += "var " + n + " = [" + t + "]\n";
      body += "  out(" + n + "[0])\n";
      shows(l, a + " as an element of a global array");
      break;
    }
    default: {
      if (l.k != Lit::Str)
        return;
      body += "  out(len(" + t + "))\n";
      expect(l, a + " in length", [](const ref::Val &v) { return fmt("%zu", v.s->size()); });
    }
    }
  }
};

static void prop(Src &s, Case &c) {
  Prog20 g(s);
  const int n = s.chance(1, 30) ? 80 + int(s.below(200)) : 1 + int(s.below(24));
  for (int i = 0; i < n; ++i)
    g.item();
  // every name still means its own value
  for (auto &v : g.vars) {
    g.body += "  out(" + v.first + ")\n";
    g.shows(v.second, v.first.substr(0, 40) + " at the end");
  }
  for (auto &f : g.fns) {
    g.body += "  out(" + f.first + "())\n";
    g.shows(f.second, f.first.substr(0, 40) + " called at the end");
    if (s.chance(1, 3)) {
      g.body += "  out([0, " + f.first + "][1]())\n";
      g.shows(f.second, f.first.substr(0, 40) + " called as a value");
    }
  }
  std::string text = g.consts + g.globals;
  const std::string mainf = "function main()\n" + g.body + "end\n";
  text += "function id(x)\n  return x\nend\n" + g.funcs + mainf;
  const bool optimize = s.chance(1, 2), saved = s.chance(1, 4);
  c.show(text + fmt("# optimise %d, saved and loaded %d\n", optimize, saved));
  auto b = api::compile(text, optimize);
  if (!b.ok)
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);
  program_t loaded;
  program_t *p = b.prog.get();
  if (saved) {
    const std::string path = scratch() + fmt("/p%d", int(getpid()));
    if (!p->serial_save(path.c_str()))
      fail("the program is not saved");
    if (!loaded.serial_load(path.c_str()))
      fail("the saved program does not load");
    p = &loaded;
    api::resolve(*p);
  }
  auto r = api::run(*p, "main", api::How());
  for (size_t i = 0; i < g.want.size() && i < r.out.size(); ++i) {
    bool ok = false;
    for (auto &w : g.want[i].any)
      ok |= w == r.out[i];
    if (!ok)
      fail("%s: got %.100s, expected %.100s", vis(g.want[i].about).c_str(), r.out[i].c_str(),
           g.want[i].any[0].c_str());
  }
  if (!r.init_ok || r.error || r.timeout)
    fail("the program ends in error %s at line %d", api::err_text(r.error).c_str(), r.eline.line);
  if (r.out.size() != g.want.size())
    fail("%zu values shown, expected %zu", r.out.size(), g.want.size());
  if (g.long_num)
    c.label("a float of more than 15 digits");
  if (g.long_str)
    c.label("a string of more than 1000 bytes");
  if (g.odd_bytes)
    c.label("control characters in a string");
  if (saved)
    c.label("saved and loaded");
  c.label(n >= 80 ? "80 literals or more" : n >= 8 ? "8 literals or more" : "few literals");
  c.nontrivial = g.want.size() >= 5;
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C20";
  sp.rule = "Each case is a program made of generated literals (integers up to the largest with "
            "leading zeros, floats of up to a hundred digits, strings of any bytes, none) in every "
            "position a literal can stand, bound to names that resemble keywords and each other; "
            "each must read back as the value its spelling denotes. Non-trivial: at least five "
            "values compared.";
  sp.quick_cases = 250000;
  sp.thorough_cases = 5000000;
  sp.fn = prop;
  sp.assumptions = {"a float literal of more than 15 digits may be off by one unit in the last place",
                    "integer literals above 2147483647 are left out except in -2147483648"};
  return run(argc, argv, sp);
}
