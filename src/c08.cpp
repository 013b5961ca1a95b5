// C08: spelling does not matter: white space, comments, keyword case, redundant
// parentheses, blank lines, the names chosen and the order of functions leave the
// meaning of a program alone.
#include "api.h"
#include <map>
#include <set>
using namespace pbt;
using namespace lang;
using namespace nano;

typedef std::map<int, int> LineMap;

static void pair_blocks(const Block &a, const Block &b, LineMap &m) {
  for (size_t i = 0; i < a.size(); ++i) {
    m[a[i]->line] = b[i]->line;
    if (a[i]->k == Stmt::If || a[i]->k == Stmt::While || a[i]->k == Stmt::For) {
      pair_blocks(a[i]->body, b[i]->body, m);
      pair_blocks(a[i]->other, b[i]->other, m);
      m[a[i]->end_line] = b[i]->end_line;
      if (a[i]->has_else)
        m[a[i]->else_line] = b[i]->else_line;
    }
  }
}

static LineMap pair_lines(const Prog &a, const Prog &b) {
  LineMap m;
  for (size_t i = 0; i < a.funcs.size(); ++i) {
    m[a.funcs[i].line] = b.funcs[i].line;
    m[a.funcs[i].end_line] = b.funcs[i].end_line;
    pair_blocks(a.funcs[i].body, b.funcs[i].body, m);
  }
  for (size_t i = 0; i < a.globals.size(); ++i)
    m[a.globals[i].line] = b.globals[i].line;
  return m;
}

// ---- consistent renaming
struct Renamer {
  std::map<std::string, std::string> to;
  void ren(std::string &n) const {
    auto it = to.find(n);
    if (it != to.end())
      n = it->second;
  }
  void expr(const EP &e) const {
    if (!e)
      return;
    ren(e->name);
    for (auto &k : e->kids)
      expr(k);
  }
  void block(Block &b) const {
    for (auto &s : b) {
      ren(s->name);
      expr(s->e);
      expr(s->e2);
      block(s->body);
      block(s->other);
    }
  }
  void prog(Prog &p) const {
    for (auto &f : p.funcs) {
      ren(f.name);
      for (auto &a : f.args)
        ren(a);
      block(f.body);
    }
    for (auto &g : p.globals) {
      ren(g.name);
      expr(g.init);
    }
  }
};

static void names_of(const Block &b, std::set<std::string> &out) {
  for (auto &s : b) {
    if (s->k == Stmt::Decl)
      out.insert(s->name);
    names_of(s->body, out);
    names_of(s->other, out);
  }
}

static bool keyword(const std::string &n) {
  static const char *const kw[] = {"and", "const", "end", "else", "for", "function", "if", "import",
                                   "not", "none", "or", "return", "to", "var", "while"};
  for (auto k : kw)
    if (strcasecmp(k, n.c_str()) == 0)
      return true;
  return false;
}

static std::string new_name(Src &s) {
  static const char *const kw[] = {"and", "const", "end", "else", "for", "function", "if", "import",
                                   "not", "none", "or", "return", "to", "var", "while"};
  static const char first[] = "abcxyzABCXYZ_";
  static const char rest[] = "abcxyzABCXYZ_0123456789";
  std::string n;
  switch (s.below(5)) {
  case 0: // a keyword and something more
    n = kw[s.below(15)];
    for (auto &ch : n)
      if (s.chance(1, 4))
        ch = char(toupper(ch));
    n += rest[s.below(sizeof(rest) - 1)];
    break;
  case 1: // something and a keyword
    n += first[s.below(sizeof(first) - 1)];
    n += kw[s.below(15)];
    break;
  case 2: // the beginning of a keyword
    n = kw[s.below(15)];
    n.resize(1 + s.below(uint32_t(n.size())));
    break;
  default: break;
  }
  if (n.empty())
    n += first[s.below(sizeof(first) - 1)];
  const int more = s.chance(1, 20) ? 60 : int(s.below(5));
  for (int i = 0; i < more; ++i)
    n += rest[s.below(sizeof(rest) - 1)];
  return n;
}

static std::string shape(const api::Result &r, const LineMap *m) {
  std::string t = r.init_ok ? "" : "init failed; ";
  t += fmt("error %s ", api::err_text(r.error).c_str());
  if (r.error) {
    int l = r.eline.line;
    if (m) {
      auto it = m->find(l);
      l = it == m->end() ? -7 : it->second;
    }
    t += fmt("at line %d ", l);
  }
  t += fmt("finished %d ", int(r.finished));
  return t + "returned " + r.ret;
}

static void same_ids(const std::vector<identifier_t> &a, const std::vector<identifier_t> &b,
                     const char *what) {
  if (a.size() != b.size())
    fail("%s: %zu against %zu", what, a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i].name_ != b[i].name_ || a[i].offset_ != b[i].offset_)
      fail("%s %zu: %s@%d against %s@%d", what, i, a[i].name_.c_str(), a[i].offset_,
           b[i].name_.c_str(), b[i].offset_);
}

static void prop(Src &s, Case &c) {
  GenOpts o;
  o.stmts = 4;
  o.wild = s.chance(1, 4) ? 4 : 0;
  Gen g(s, o);
  g.program("main");
  const bool optimize = s.chance(1, 2);
  const bool rename = s.chance(1, 3);
  const bool reorder = s.chance(1, 4);
  Prog pa = clone(g.p), pb = clone(g.p);

  Renamer rn;
  std::string entry = "main";
  if (rename) {
    std::set<std::string> names, taken;
    for (auto &f : pb.funcs) {
      names.insert(f.name);
      for (auto &a : f.args)
        names.insert(a);
      names_of(f.body, names);
    }
    for (auto &x : pb.globals)
      names.insert(x.name);
    for (auto &t : ref::Interp::sys_table())
      taken.insert(t.first);
    for (auto &n : names) {
      std::string t = new_name(s);
      while (keyword(t) || taken.count(t))
        t += "q";
      taken.insert(t);
      rn.to[n] = t;
    }
    rn.prog(pb);
    entry = rn.to["main"];
  }
  if (reorder) {
    // move the functions about; the variables keep their order
    std::vector<int> pos;
    for (size_t i = 0; i < pb.items.size(); ++i)
      if (pb.items[i].kind == 1)
        pos.push_back(int(i));
    for (size_t i = pos.size(); i > 1; --i)
      std::swap(pb.items[size_t(pos[i - 1])], pb.items[size_t(pos[s.below(uint32_t(i))])]);
  }
  Style sa, sb;
  sb.src = &s;
  sb.vary_case = s.chance(1, 2);
  sb.vary_space = s.chance(2, 3);
  sb.vary_lines = s.chance(1, 2);
  sb.comments = s.chance(1, 2);
  sb.parens = s.chance(1, 2);
  sb.no_final_eol = s.chance(1, 4);
  const std::string ta = print(pa, sa), tb = print(pb, sb);
  c.show(ta + "---- against ----\n" + tb);
  auto a = api::compile(ta, optimize), b = api::compile(tb, optimize);
  if (!a.ok)
    fail("a valid program is rejected: %s (line %d)", a.err.error.c_str(), a.err.line.line);
  if (!b.ok)
    fail("the other spelling is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);
  const LineMap lm = pair_lines(pa, pb);
  if (!rename && !reorder) {
    program_t &x = *a.prog, &y = *b.prog;
    if (x.size() != y.size() || memcmp(x.data(), y.data(), x.size()) != 0)
      fail("the code differs (%zu and %zu bytes)", x.size(), y.size());
    if (x.strings() != y.strings())
      fail("the string table differs");
    same_ids(x.globals(), y.globals(), "global");
    if (x.functions().size() != y.functions().size())
      fail("%zu functions against %zu", x.functions().size(), y.functions().size());
    for (size_t i = 0; i < x.functions().size(); ++i) {
      auto &f = x.functions()[i], &h = y.functions()[i];
      if (f.name_ != h.name_ || f.code_start_ != h.code_start_ || f.code_end_ != h.code_end_)
        fail("function %zu: %s [%d,%d) against %s [%d,%d)", i, f.name_.c_str(), f.code_start_,
             f.code_end_, h.name_.c_str(), h.code_start_, h.code_end_);
      same_ids(f.args_, h.args_, "argument");
      same_ids(f.locals_, h.locals_, "local");
    }
    if (x.line_table().size() != y.line_table().size())
      fail("line tables of %zu and %zu entries", x.line_table().size(), y.line_table().size());
    for (auto &e : x.line_table()) {
      const line_t l = y.get_line(uint32_t(e.first));
      auto it = lm.find(e.second.line);
      const int want = it == lm.end() ? e.second.line : it->second;
      if (it == lm.end() && e.second.line > 0)
        fail("pc %d is said to be on line %d, where nothing is written", e.first, e.second.line);
      if (l.line != want || l.file != e.second.file)
        fail("pc %d is on line %d of the plain text, which is %d of the other; it says %d", e.first,
             e.second.line, want, l.line);
    }
    c.label("formatting: same code");
  } else {
    c.label(rename ? reorder ? "renamed and reordered" : "renamed" : "functions reordered");
  }
  // what happens when they run
  std::map<std::string, std::string> back;
  for (auto &r : rn.to)
    back[r.second] = r.first;
  for (auto &f : b.prog->functions())
    if (back.count(f.name_))
      f.name_ = back[f.name_];
  auto e = api::model(g.p, "main", nullptr); // only bounds the run
  api::How how;
  how.max_cycles = 60 * e.steps + 100000;
  auto ra = api::run(*a.prog, "main", how);
  auto rb = api::run(*b.prog, "main", how);
  const size_t n = std::max(ra.out.size(), rb.out.size());
  for (size_t i = 0; i < n; ++i) {
    const std::string x = i < ra.out.size() ? ra.out[i] : "(nothing)";
    const std::string y = i < rb.out.size() ? rb.out[i] : "(nothing)";
    if (x != y)
      fail("output %zu is %.200s in the plain spelling and %.200s in the other", i, x.c_str(),
           y.c_str());
  }
  if (shape(ra, &lm) != shape(rb, nullptr) || ra.timeout != rb.timeout)
    fail("plain: %.300s; other: %.300s", shape(ra, &lm).c_str(), shape(rb, nullptr).c_str());
  c.nontrivial = ta != tb && e.out.size() >= 1;
  if (ra.error)
    c.label("ends in a thread error");
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C08";
  sp.rule = "Each case is a generated program written twice: plainly, and with random white space, "
            "comments, blank lines, keyword case, redundant parentheses, a missing last line end, "
            "consistently renamed identifiers or functions in another order. Formatting alone must "
            "give the same code, tables and (moved) lines; every rewriting must give the same "
            "outputs, result, error and error line. Non-trivial: the two texts differ and the "
            "program shows at least one value.";
  sp.quick_cases = 240000;
  sp.thorough_cases = 4000000;
  sp.fn = prop;
  sp.assumptions = {"string conversion of a function value shows a code address and is excluded"};
  return run(argc, argv, sp);
}
