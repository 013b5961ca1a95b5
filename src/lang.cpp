#include "lang.h"
#include <algorithm>
#include <cstring>

using namespace pbt;

namespace lang {

const char *const op_text[] = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "and", "or"};

int op_prec(Op o) {
  switch (o) {
  case AND: case OR: return 1;
  case LT: case GT: case LEQ: case GEQ: case EQ: return 3;
  case ADD: case SUB: return 4;
  default: return 5;
  }
}

// ---------------------------------------------------------------- helpers
EP mk_int(int32_t v) {
  // negative values are spelled with a unary minus
  if (v < 0) {
    auto e = std::make_shared<Expr>(Expr::Neg);
    auto l = std::make_shared<Expr>(Expr::Int);
    l->i = int32_t(0u - uint32_t(v));
    l->text = std::to_string(0u - uint32_t(v));
    e->kids.push_back(l);
    return e;
  }
  auto e = std::make_shared<Expr>(Expr::Int);
  e->i = v;
  e->text = std::to_string(v);
  return e;
}
EP mk_flt(int eighths) {
  auto e = std::make_shared<Expr>(Expr::Flt);
  e->f = float(eighths) / 8.f;
  static const char *const frac[] = {"0", "125", "25", "375", "5", "625", "75", "875"};
  e->text = std::to_string(eighths / 8) + "." + frac[eighths % 8];
  return e;
}
EP mk_str(const std::string &s) {
  auto e = std::make_shared<Expr>(Expr::Str);
  e->text = s;
  return e;
}
EP mk_none() { return std::make_shared<Expr>(Expr::None); }
EP mk_var(const std::string &n) {
  auto e = std::make_shared<Expr>(Expr::Var);
  e->name = n;
  return e;
}
EP mk_bin(Op o, EP l, EP r) {
  auto e = std::make_shared<Expr>(Expr::Bin);
  e->op = o;
  e->kids = {l, r};
  return e;
}
EP mk_not(EP x) {
  auto e = std::make_shared<Expr>(Expr::Not);
  e->kids = {x};
  return e;
}
EP mk_neg(EP x) {
  auto e = std::make_shared<Expr>(Expr::Neg);
  e->kids = {x};
  return e;
}
EP mk_arr(std::vector<EP> v) {
  auto e = std::make_shared<Expr>(Expr::Arr);
  e->kids = v;
  return e;
}
EP mk_index(EP a, EP i) {
  auto e = std::make_shared<Expr>(Expr::Index);
  e->kids = {a, i};
  return e;
}
EP mk_call(EP callee, std::vector<EP> args) {
  auto e = std::make_shared<Expr>(Expr::Call);
  e->kids.push_back(callee);
  for (auto &a : args)
    e->kids.push_back(a);
  return e;
}
EP mk_callf(const std::string &f, std::vector<EP> args) { return mk_call(mk_var(f), args); }
EP mk_member(const std::string &n, const std::string &m) {
  auto e = std::make_shared<Expr>(Expr::Member);
  e->name = n;
  e->text = m;
  return e;
}
SP st_decl(const std::string &n, EP e) {
  auto s = std::make_shared<Stmt>(Stmt::Decl);
  s->name = n;
  s->e = e;
  return s;
}
SP st_assign(const std::string &n, EP e) {
  auto s = std::make_shared<Stmt>(Stmt::Assign);
  s->name = n;
  s->e = e;
  return s;
}
SP st_call(const std::string &f, std::vector<EP> args) {
  auto s = std::make_shared<Stmt>(Stmt::CallS);
  s->name = f;
  s->e = mk_callf(f, args);
  return s;
}
SP st_return(EP e) {
  auto s = std::make_shared<Stmt>(Stmt::Return);
  s->e = e;
  return s;
}
SP st_out(EP e) { return st_call("out", {e}); }

EP clone(const EP &e) {
  if (!e)
    return e;
  auto c = std::make_shared<Expr>(*e);
  for (auto &k : c->kids)
    k = clone(k);
  return c;
}
Block clone(const Block &b) {
  Block o;
  for (auto &s : b) {
    auto c = std::make_shared<Stmt>(*s);
    c->e = clone(s->e);
    c->e2 = clone(s->e2);
    c->body = clone(s->body);
    c->other = clone(s->other);
    o.push_back(c);
  }
  return o;
}
void widen(Prog &p, pbt::Src &s, int most) {
  Func &f = p.funcs[s.below(uint32_t(p.funcs.size()))];
  const int n = 2 + int(s.below(uint32_t(most)));
  Block b;
  for (int i = 0; i < n; ++i) {
    EP e;
    switch (s.below(4)) {
    case 0: break;
    case 1: e = mk_str(pbt::fmt("w%d", i)); break;
    case 2: e = i ? mk_arr({mk_var(pbt::fmt("wide_%d", i - 1)), mk_int(i)}) : mk_int(7); break;
    default: e = mk_int(i * 11); break;
    }
    b.push_back(st_decl(pbt::fmt("wide_%d", i), e));
  }
  for (int k = 1 + int(s.below(3)); k > 0; --k) {
    const std::string v = pbt::fmt("wide_%d", int(s.below(uint32_t(n))));
    if (s.chance(1, 2))
      b.push_back(st_assign(v, mk_int(k)));
    b.push_back(st_out(mk_var(v)));
  }
  // in front, or as far behind as the function's own block goes on
  size_t end = 0;
  while (end < f.body.size() && f.body[end]->k != Stmt::Return)
    ++end;
  const size_t at = s.chance(1, 2) ? 0 : s.below(uint32_t(end + 1));
  f.body.insert(f.body.begin() + long(at), b.begin(), b.end());
}

Prog clone(const Prog &p) {
  Prog q = p;
  for (auto &f : q.funcs)
    f.body = clone(f.body);
  for (auto &g : q.globals)
    g.init = clone(g.init);
  return q;
}

bool const_value(const Prog &p, const EP &e, int32_t &out) {
  switch (e->k) {
  case Expr::Int: out = e->i; return true;
  case Expr::Var: {
    const Global *g = p.find_global(e->name);
    return g && g->is_const && g->init && const_value(p, g->init, out);
  }
  case Expr::Neg:
    if (!const_value(p, e->kids[0], out))
      return false;
    out = int32_t(0u - uint32_t(out));
    return true;
  case Expr::Not:
    if (!const_value(p, e->kids[0], out))
      return false;
    out = !out;
    return true;
  case Expr::Bin: {
    int32_t a, b;
    if (!const_value(p, e->kids[0], a) || !const_value(p, e->kids[1], b))
      return false;
    switch (e->op) {
    case ADD: out = int32_t(uint32_t(a) + uint32_t(b)); break;
    case SUB: out = int32_t(uint32_t(a) - uint32_t(b)); break;
    case MUL: out = int32_t(uint32_t(a) * uint32_t(b)); break;
    case DIV:
      if (!b) return false;
      out = b == -1 ? int32_t(0u - uint32_t(a)) : a / b;
      break;
    case MOD:
      if (!b) return false;
      out = b == -1 ? 0 : a % b;
      break;
    case LT: out = a < b; break;
    case GT: out = a > b; break;
    case LEQ: out = a <= b; break;
    case GEQ: out = a >= b; break;
    case EQ: out = a == b; break;
    case AND: out = a && b; break;
    case OR: out = a || b; break;
    }
    return true;
  }
  default: return false;
  }
}

bool has_const_div_zero(const Prog &p, const EP &e) {
  if (!e)
    return false;
  for (auto &k : e->kids)
    if (has_const_div_zero(p, k))
      return true;
  if (e->k == Expr::Bin && (e->op == DIV || e->op == MOD)) {
    int32_t a, b;
    if (const_value(p, e->kids[1], b) && b == 0 && const_value(p, e->kids[0], a))
      return true;
  }
  return false;
}

std::string vis(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '\n')
      o += "\\n";
    else if (c < 32 || c >= 127)
      o += fmt("\\x%02x", c);
    else
      o += char(c);
  }
  return o;
}

// ---------------------------------------------------------------- printer
namespace {

struct Printer {
  const Style &st;
  std::string out;
  int line = 1;
  bool start_of_line = true;
  explicit Printer(const Style &s) : st(s) {}

  bool ch(uint32_t n, uint32_t d) { return st.src && st.src->chance(n, d); }

  // white space that may appear between two tokens
  std::string gap(bool need) {
    if (!(st.src && st.vary_space))
      return need ? " " : "";
    std::string g;
    static const char *const ws[] = {" ", "\t", "  ", "\r", " \t "};
    switch (st.src->below(need ? 3 : 5)) {
    case 0: g = need ? " " : ""; break;
    case 1: g = ws[st.src->below(5)]; break;
    case 2: g = std::string(ws[st.src->below(5)]) + ws[st.src->below(5)]; break;
    default: g = ""; break;
    }
    if (need && g.empty())
      g = " ";
    return g;
  }
  static bool word(char c) {
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' ||
           c == '.';
  }
  void kw(const char *k) {
    std::string t = k;
    if (st.src && st.vary_case) {
      const uint32_t how = st.src->below(4);
      for (size_t i = 0; i < t.size(); ++i)
        if (how == 1 || (how == 2 && i == 0) || (how == 3 && st.src->chance(1, 2)))
          t[i] = char(toupper(t[i]));
    }
    tok(t);
  }
  // the pretty form puts a space around tokens when `sp` asks for it
  void tok(const std::string &t, bool sp = true) {
    bool need = false;
    if (!out.empty() && out.back() != '\n') {
      const char a = out.back(), b = t[0];
      need = word(a) && word(b);
      // '=' '<' '>' followed by '=' would lex as one token
      if ((a == '=' || a == '<' || a == '>') && b == '=')
        need = true;
      std::string g = gap(need);
      if (g.empty() && sp && !(st.src && st.vary_space))
        g = " ";
      out += g;
    } else if (st.src && st.vary_space) {
      out += gap(false);
    }
    out += t;
  }
  void nl() {
    if (st.src && st.comments && st.src->chance(1, 4)) {
      static const char *const cm[] = {"# comment", "#", "# \"quoted", "#end", "# if (x) ) ] end",
                                       "### function", "#\xc3\xa9",
                                       "# a\rend", "#\tif\r(\r", "# =\\"};
      out += gap(false);
      if (st.src->chance(1, 3)) {
        // any first character, and any text behind it
        out += '#';
        for (int n = int(st.src->below(6)); n > 0; --n) {
          const char c = char(1 + st.src->below(255));
          out += st.src->chance(1, 2) ? "\"#=(.0a[-"[st.src->below(9)] : c == '\n' ? '~' : c;
        }
      } else
        out += cm[st.src->below(10)];
    }
    if (st.src && st.vary_space && st.src->chance(1, 8))
      out += "\r";
    out += "\n";
    ++line;
    if (st.src && st.vary_lines) {
      while (st.src->chance(1, 6)) {
        static const char *const bl[] = {"", "# a comment line", "  \t", "#end"};
        out += bl[st.src->below(4)];
        out += "\n";
        ++line;
      }
    }
  }
  void indent(int n) {
    if (!(st.src && st.vary_space))
      out += std::string(size_t(n) * 2, ' ');
  }

  static int prec(const EP &e) {
    switch (e->k) {
    case Expr::Bin: return op_prec(e->op);
    case Expr::Not: return 2;
    case Expr::Neg: return 6;
    default: return 7;
    }
  }
  void paren(const EP &e, bool need) {
    int n = need ? 1 : 0;
    if (st.parens && ch(1, 5))
      n += 1 + (ch(1, 4) ? 1 : 0);
    for (int i = 0; i < n; ++i)
      tok("(");
    expr(e);
    for (int i = 0; i < n; ++i)
      tok(")", false);
  }
  void expr(const EP &e) {
    switch (e->k) {
    case Expr::Int:
    case Expr::Flt: tok(e->text); break;
    case Expr::Str: tok("\"" + e->text + "\""); break;
    case Expr::None: kw("none"); break;
    case Expr::Var: tok(e->name); break;
    case Expr::Bin: {
      const int pr = op_prec(e->op);
      paren(e->kids[0], prec(e->kids[0]) < pr);
      if (e->op == AND || e->op == OR)
        kw(op_text[e->op]);
      else
        tok(op_text[e->op]);
      paren(e->kids[1], prec(e->kids[1]) <= pr);
      break;
    }
    case Expr::Not:
      kw("not");
      paren(e->kids[0], prec(e->kids[0]) < 2);
      break;
    case Expr::Neg:
      tok("-");
      paren(e->kids[0], prec(e->kids[0]) < 6);
      break;
    case Expr::Arr:
      tok("[");
      for (size_t i = 0; i < e->kids.size(); ++i) {
        if (i)
          tok(",", false);
        paren(e->kids[i], false);
      }
      tok("]", false);
      break;
    case Expr::Index:
      paren(e->kids[0], prec(e->kids[0]) < 7);
      tok("[", false);
      paren(e->kids[1], false);
      tok("]", false);
      break;
    case Expr::Call:
      paren(e->kids[0], prec(e->kids[0]) < 7);
      tok("(", false);
      for (size_t i = 1; i < e->kids.size(); ++i) {
        if (i > 1)
          tok(",", false);
        paren(e->kids[i], false);
      }
      tok(")", false);
      break;
    case Expr::Member:
      tok(e->name);
      tok(".", false);
      tok(e->text, false);
      break;
    }
  }
  void block(Block &b, int ind) {
    for (auto &s : b)
      stmt(*s, ind);
  }
  void stmt(Stmt &s, int ind) {
    indent(ind);
    s.line = line;
    switch (s.k) {
    case Stmt::Decl:
      kw("var");
      tok(s.name);
      if (s.e) {
        tok("=");
        paren(s.e, false);
      }
      break;
    case Stmt::Assign:
      tok(s.name);
      tok("=");
      paren(s.e, false);
      break;
    case Stmt::Compound:
      tok(s.name);
      tok(op_text[s.op]);
      tok("=", false);
      paren(s.e, false);
      break;
    case Stmt::ArrSet:
      tok(s.name);
      tok("[", false);
      paren(s.e2, false);
      tok("]", false);
      tok("=");
      paren(s.e, false);
      break;
    case Stmt::MemSet:
      tok(s.name);
      tok(".", false);
      tok(s.member, false);
      tok("=");
      paren(s.e, false);
      break;
    case Stmt::If:
      kw("if");
      tok("(");
      paren(s.e, false);
      tok(")", false);
      nl();
      block(s.body, ind + 1);
      if (s.has_else) {
        indent(ind);
        s.else_line = line;
        kw("else");
        nl();
        block(s.other, ind + 1);
      }
      indent(ind);
      s.end_line = line;
      kw("end");
      break;
    case Stmt::While:
      kw("while");
      tok("(");
      paren(s.e, false);
      tok(")", false);
      nl();
      block(s.body, ind + 1);
      indent(ind);
      s.end_line = line;
      kw("end");
      break;
    case Stmt::For:
      kw("for");
      tok("(");
      tok(s.name);
      tok("=");
      paren(s.e, false);
      kw("to");
      paren(s.e2, false);
      tok(")", false);
      nl();
      block(s.body, ind + 1);
      indent(ind);
      s.end_line = line;
      kw("end");
      break;
    case Stmt::Return:
      kw("return");
      if (s.e)
        paren(s.e, false);
      break;
    case Stmt::CallS: {
      tok(s.name);
      tok("(", false);
      for (size_t i = 1; i < s.e->kids.size(); ++i) {
        if (i > 1)
          tok(",", false);
        paren(s.e->kids[i], false);
      }
      tok(")", false);
      break;
    }
    }
    nl();
  }
};

} // namespace

std::string print(Prog &p, const Style &st, int file, const std::vector<std::string> &imports) {
  Printer pr(st);
  if (st.src && st.vary_lines)
    while (st.src->chance(1, 5)) {
      pr.out += "# leading\n";
      ++pr.line;
    }
  if (st.src && st.vary_lines && st.src->chance(1, 30)) {
    // line numbers of more than a byte, now and then of more than two
    static const int far[] = {120, 250, 505, 32760, 65530, 70000};
    const int n = far[st.src->weighted({2, 4, 3, 1, 2, 1})] + int(st.src->below(12));
    pr.out += std::string(size_t(n), '\n');
    pr.line += n;
  }
  for (auto &i : imports) {
    pr.kw("import");
    pr.tok("\"" + i + "\"");
    pr.nl();
  }
  for (auto &it : p.items) {
    if (it.kind == 0) {
      Global &g = p.globals[it.idx];
      if (g.file != file)
        continue;
      g.line = pr.line;
      pr.kw(g.is_const ? "const" : "var");
      pr.tok(g.name);
      if (g.init) {
        pr.tok("=");
        pr.paren(g.init, false);
      }
      pr.nl();
    } else {
      Func &f = p.funcs[it.idx];
      if (f.file != file)
        continue;
      f.line = pr.line;
      pr.kw("function");
      pr.tok(f.name);
      pr.tok("(", false);
      for (size_t i = 0; i < f.args.size(); ++i) {
        if (i)
          pr.tok(",", false);
        pr.tok(f.args[i]);
      }
      pr.tok(")", false);
      pr.nl();
      pr.block(f.body, 1);
      f.end_line = pr.line;
      pr.kw("end");
      pr.nl();
    }
  }
  if (st.no_final_eol)
    while (!pr.out.empty() && pr.out.back() == '\n')
      pr.out.pop_back();
  return pr.out;
}

std::vector<std::string> print_files(Prog &p, const Style &st, pbt::Src &s, std::string &all) {
  const int nf = s.chance(1, 3) ? 2 + int(s.below(2)) : 1;
  int at = 0;
  for (auto &it : p.items) {
    while (at + 1 < nf && s.chance(1, 3))
      ++at;
    (it.kind == 0 ? p.globals[size_t(it.idx)].file : p.funcs[size_t(it.idx)].file) = at;
  }
  std::vector<std::string> ts;
  for (int i = 0; i < nf; ++i) {
    std::string x = print(p, st, i);
    if (x.empty())
      x = "\n";
    ts.push_back(x);
    all += (i ? "---- next file\n" : "") + x;
  }
  return ts;
}

std::string show(const EP &e) {
  Style st;
  Printer p(st);
  p.expr(e);
  return p.out;
}

// ---------------------------------------------------------------- generator

std::string Gen::fresh() {
  static const char *const pool[] = {"a", "b", "c", "d", "x", "y", "z", "i", "j", "k", "n", "m",
                                     "tmp", "acc", "Val", "andy", "order", "to_x", "ifx", "end_",
                                     "fork", "nota", "vary", "_q", "A1", "x_2"};
  const uint32_t np = sizeof(pool) / sizeof(pool[0]);
  for (int tries = 0;; ++tries) {
    std::string n = pool[s.below(tries < 4 ? np : np)];
    if (tries >= 6)
      n += std::to_string(tries);
    bool used = false;
    for (auto &v : scope)
      used |= v.name == n;
    for (auto &g : globals)
      used |= g.name == n;
    for (auto &f : fns)
      used |= f.name == n;
    if (!used)
      return n;
  }
}

Ty Gen::rand_ty(bool arrays) {
  const bool ar = arrays && o.arrays;
  switch (s.weighted({8, o.floats ? 3 : 0, o.strings ? 4 : 0, ar ? 4 : 0,
                      ar && o.strings ? 2 : 0, ar ? 2 : 0, o.funcs_as_values ? 1 : 0})) {
  case 0: return Ty(Ty::I);
  case 1: return Ty(Ty::F);
  case 2: return Ty(Ty::S);
  case 3: return Ty(Ty::AI, 1 + int(s.below(5)));
  case 4: return Ty(Ty::AS, 1 + int(s.below(4)));
  case 5: return Ty(Ty::AA, 1 + int(s.below(3)));
  default: return Ty(Ty::FN, int(s.below(3)));
  }
}

std::vector<const VarInfo *> Gen::vars_of(const Ty &t, bool assignable) {
  std::vector<const VarInfo *> v;
  auto ok = [&](const VarInfo &x) {
    if (x.ty.k != t.k)
      return false;
    if (assignable && (x.ro || x.is_const))
      return false;
    switch (t.k) {
    case Ty::AI: case Ty::AS: case Ty::AA:
      return assignable ? x.ty.n <= t.n : x.ty.n >= t.n;
    case Ty::FN: return x.ty.n == t.n;
    default: return true;
    }
  };
  for (auto &x : scope)
    if (ok(x))
      v.push_back(&x);
  for (auto &x : globals)
    if (ok(x))
      v.push_back(&x);
  return v;
}

EP Gen::fix_div(EP e) {
  // keep clear of divisions the compiler rejects as constant divisions by zero
  int32_t a, b;
  if ((e->op == DIV || e->op == MOD) && const_value(p, e->kids[1], b) && b == 0 &&
      const_value(p, e->kids[0], a))
    e->kids[1] = mk_int(1 + int(s.below(9)));
  return e;
}

static int32_t pick_int(Src &s, bool big) {
  switch (s.weighted({10, 4, 3, big ? 2 : 0, big ? 1 : 0})) {
  case 0: return int32_t(s.below(5));
  case 1: return int32_t(s.below(100));
  case 2: return -int32_t(s.below(20));
  case 3: {
    static const int32_t edge[] = {2147483647, -2147483647 - 1, 65535, 65536, -65536, 1 << 30,
                                   255, 256, 127, 128, 46341, 16777217};
    return edge[s.below(12)];
  }
  default: return int32_t(s.bits32());
  }
}

static std::string pick_str(Src &s) {
  switch (s.weighted({8, 6, 4, 2, 1})) {
  case 4: {
    // long strings that differ in one place only, or in their length
    static const char *const stem[] = {"the quick brown fox ", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
                                       "0123456789abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQR"};
    std::string r = stem[s.below(3)];
    if (s.chance(1, 2))
      r[s.chance(2, 3) ? r.size() - 1 : s.below(uint32_t(r.size()))] = char('p' + s.below(3));
    else
      r.resize(r.size() - s.below(3));
    return r;
  }
  case 0: {
    static const char *const w[] = {"", "a", "hello", "x y", "0", "none", "#no comment", "end"};
    return w[s.below(8)];
  }
  case 1: {
    std::string r;
    const int n = int(s.below(6));
    for (int i = 0; i < n; ++i)
      r += char('a' + s.below(26));
    return r;
  }
  case 2: {
    std::string r;
    const int n = int(s.below(12));
    for (int i = 0; i < n; ++i) {
      char c = char(32 + s.below(95));
      r += c == '"' ? '\'' : c;
    }
    return r;
  }
  default: {
    std::string r;
    const int n = int(s.below(20));
    for (int i = 0; i < n; ++i) {
      int c = 1 + int(s.below(255));
      if (c == '"' || c == '\n')
        c = '\\';
      r += char(c);
    }
    return r;
  }
  }
}

EP Gen::index_for(const Ty &arr, int d) {
  // an index that is in range for an array of at least arr.n elements
  std::vector<const VarInfo *> small;
  for (auto &v : scope)
    if (v.ty.k == Ty::I && v.hi > 0 && v.hi <= arr.n)
      small.push_back(&v);
  switch (s.weighted({6, small.empty() ? 0 : 6, d > 0 && o.builtins ? 2 : 0})) {
  case 1: return mk_var(s.pick(small)->name);
  case 2: {
    int mask = arr.n >= 4 ? 3 : arr.n >= 2 ? 1 : 0;
    return mk_callf("bitand", {expr(Ty(Ty::I), d - 1), mk_int(mask)});
  }
  default: return mk_int(int(s.below(uint32_t(std::max(1, arr.n)))));
  }
}

EP Gen::const_tree(int d) {
  std::vector<const VarInfo *> cs;
  for (auto &g : globals)
    if (g.is_const && g.ty.k == Ty::I)
      cs.push_back(&g);
  switch (s.weighted({4, cs.empty() ? 0 : 3, d <= 0 ? 0 : 9, d <= 0 ? 0 : 2, d <= 0 ? 0 : 2})) {
  case 0: return mk_int(pick_int(s, o.big_ints));
  case 1: return mk_var(s.pick(cs)->name);
  case 2: {
    const Op op = Op(s.below(12));
    EP l = const_tree(d - 1);
    EP r = const_tree(d - 1);
    return fix_div(mk_bin(op, l, r));
  }
  case 3: return mk_neg(const_tree(d - 1));
  default: return mk_not(const_tree(d - 1));
  }
}

EP Gen::cond(int d) {
  if (o.const_bias && s.chance(uint32_t(o.const_bias), 100))
    return const_tree(2);
  switch (s.weighted({6, 2, 1, 1})) {
  case 0: {
    const Op ops[] = {LT, GT, LEQ, GEQ, EQ};
    return mk_bin(ops[s.below(5)], expr(Ty(Ty::I), d - 1), expr(Ty(Ty::I), d - 1));
  }
  case 1: return expr(Ty(Ty::I), d);
  case 2: return mk_not(any_expr(d - 1));
  default: return any_expr(d - 1);
  }
}

EP Gen::any_expr(int d) { return expr(rand_ty(), d); }

EP Gen::wild_expr(int d) {
  // no attention to types at all
  switch (s.weighted({3, 3, 2, 2, 2, 1, 1})) {
  case 0: return expr(rand_ty(), d);
  case 1: {
    const Op op = Op(s.below(12));
    return fix_div(mk_bin(op, any_expr(d - 1), any_expr(d - 1)));
  }
  case 2: return mk_index(any_expr(d - 1), any_expr(d - 1));
  case 3: return mk_neg(any_expr(d - 1));
  case 4: {
    std::vector<EP> args;
    const int n = int(s.below(3));
    for (int i = 0; i < n; ++i)
      args.push_back(any_expr(d - 1));
    // calling a value that may not be a function
    std::vector<std::string> names;
    for (auto &v : scope)
      if (v.ty.k != Ty::FN)
        names.push_back(v.name);
    if (names.empty())
      return mk_none();
    return mk_call(mk_var(s.pick(names)), args);
  }
  case 5: {
    std::vector<std::string> names;
    for (auto &v : scope)
      names.push_back(v.name);
    if (names.empty())
      return mk_none();
    return mk_member(s.pick(names), s.chance(1, 2) ? "length" : "size");
  }
  default: {
    static const char *const one[] = {"abs", "sin", "len", "chr", "round", "sqrt", "new_array"};
    static const char *const two[] = {"min", "max", "bitand"};
    if (!o.builtins)
      return mk_none();
    if (s.chance(1, 2)) {
      EP a = any_expr(d - 1);
      return mk_callf(one[s.below(6)], {a});
    }
    EP a = any_expr(d - 1), b = any_expr(d - 1);
    return mk_callf(two[s.below(3)], {a, b});
  }
  }
}

// operations that tempt one to simplify them
EP Gen::identity(const Ty &t, int d) {
  EP x;
  std::vector<std::string> names;
  if ((o.wild || o.const_bias) && s.chance(1, 3)) {
    // of a value of any type
    for (auto &v : scope)
      names.push_back(v.name);
    for (auto &v : globals)
      names.push_back(v.name);
  }
  const bool any = !names.empty();
  x = any ? mk_var(s.pick(names)) : expr(t, d - 1);
  static const Op ops[] = {ADD, SUB, MUL, DIV, MOD, AND, OR, EQ, LT, GEQ, LEQ, GT};
  if (any || t.k == Ty::I) {
    switch (s.weighted({8, 2, 2, 2, 1})) {
    case 0: {
      const Op op = ops[s.below(7)];
      const int32_t lit = op == DIV || op == MOD ? (s.chance(1, 3) ? -1 : 1 + int(s.below(2)))
                                                 : int32_t(s.below(3)) - (s.chance(1, 8) ? 3 : 0);
      EP l = s.chance(1, 8) && o.floats ? mk_flt(8) : mk_int(lit);
      if (s.chance(1, 3) && op != DIV && op != MOD)
        return mk_bin(op, l, x);
      return fix_div(mk_bin(op, x, l));
    }
    case 1: return mk_neg(mk_neg(x));
    case 2: return mk_not(mk_not(x));
    case 3: return mk_bin(ops[s.weighted({1, 3, 1, 0, 0, 1, 1, 3, 2, 2, 1, 1})], x, clone(x));
    default: return mk_not(mk_bin(ops[7 + s.below(5)], x, mk_int(int(s.below(2)))));
    }
  }
  switch (t.k) {
  case Ty::F: {
    const Op op = ops[s.below(4)];
    const int v = int(s.below(3));
    if (s.chance(1, 6))
      return mk_neg(mk_neg(x));
    if (s.chance(1, 3) && op != DIV)
      return mk_bin(op, mk_int(v), x);
    return mk_bin(op, x, op == DIV ? mk_int(1 + v) : mk_int(v));
  }
  case Ty::S:
    switch (s.below(4)) {
    case 0: return mk_bin(ADD, x, mk_str(""));
    case 1: return mk_bin(ADD, mk_str(""), x);
    case 2: return mk_bin(ADD, x, mk_int(0));
    default: return mk_bin(ADD, mk_int(0), x);
    }
  default: return x;
  }
}

// one operator inside the next, to one side or the other, many levels deep
EP Gen::deep_chain() {
  const int n = 5 + int(s.below(s.chance(1, 3) ? 40 : 12));
  EP e = expr(Ty(Ty::I), 0);
  const int side = int(s.below(3));
  for (int i = 0; i < n; ++i) {
    static const Op ops[] = {ADD, SUB, MUL, MOD, LT, GEQ, EQ, AND, OR};
    const Op op = ops[s.weighted({6, 6, 5, 1, 1, 1, 1, 1, 1})];
    EP x = op == MOD ? mk_int(2 + int(s.below(90))) : expr(Ty(Ty::I), 0);
    const bool right = op != MOD && (side == 0 || (side == 1 && s.chance(1, 2)));
    e = fix_div(right ? mk_bin(op, x, e) : mk_bin(op, e, x));
    if (s.chance(1, 20))
      e = s.chance(1, 2) ? mk_neg(e) : mk_not(e);
  }
  return e;
}

EP Gen::expr(const Ty &t, int d) {
  if (o.wild && d > 0 && s.chance(uint32_t(o.wild), 100))
    return wild_expr(d - 1);
  if (o.const_bias && t.k == Ty::I && s.chance(uint32_t(o.const_bias), 100))
    return const_tree(3);
  auto vs = vars_of(t, false);
  const bool leaf = d <= 0;
  // calls to generated functions that give this type
  std::vector<int> callable;
  if (!leaf && calls_left > 0)
    for (int i = fn_from(); i < int(fns.size()); ++i) {
      const Ty &r = fns[size_t(i)].ret;
      if (r.k == t.k && (t.k == Ty::FN ? r.n == t.n : r.n >= t.n))
        callable.push_back(i);
    }
  auto gen_call = [&]() {
    const FnInfo &f = fns[size_t(s.pick(callable))];
    --calls_left;
    std::vector<EP> args;
    for (auto &a : f.args)
      args.push_back(expr(a, d - 1));
    return mk_callf(f.name, args);
  };
  if (!leaf && o.out_in_expr && s.chance(1, 25))
    return mk_callf("out", {expr(t, d - 1)});
  if (!leaf && s.chance(1, 24))
    return identity(t, d);
  if (d > 1 && t.k == Ty::I && s.chance(1, 80))
    return deep_chain();
  if (o.waits && !in_init && t.k == Ty::I && s.chance(1, 16))
    return mk_callf("wait", {mk_int(int(s.below(3)))});

  switch (t.k) {
  case Ty::I: {
    std::vector<const VarInfo *> fnv, arrs, strs;
    for (auto &v : scope) {
      if (v.ty.k == Ty::FN)
        fnv.push_back(&v);
      if (v.ty.k == Ty::AI)
        arrs.push_back(&v);
      if (v.ty.k == Ty::S)
        strs.push_back(&v);
    }
    for (auto &v : globals) {
      if (v.ty.k == Ty::AI)
        arrs.push_back(&v);
    }
    switch (s.weighted({6, vs.empty() ? 0 : 10, leaf ? 0 : 10, leaf ? 0 : 3, leaf ? 0 : 2,
                        leaf ? 0 : 1, callable.empty() ? 0 : 4,
                        leaf || fnv.empty() || calls_left <= 0 ? 0 : 3,
                        arrs.empty() ? 0 : 4, leaf || !o.builtins ? 0 : 2, leaf ? 0 : 1,
                        leaf || !o.arrays ? 0 : 1,
                        leaf || !o.funcs_as_values || calls_left <= 0 ? 0 : 1})) {
    case 11: { // an element of what an expression gives
      const int n = 1 + int(s.below(3));
      EP a = expr(Ty(Ty::AI, n), d - 1);
      return mk_index(a, s.chance(1, 6) ? index_for(Ty(Ty::AI, n), d - 1) : mk_int(int(s.below(uint32_t(n)))));
    }
    case 12: { // a call of what an expression gives
      --calls_left;
      const int n = int(s.below(3));
      EP f = expr(Ty(Ty::FN, n), d - 1);
      if (o.arrays && s.chance(2, 3)) {
        const int k = int(s.below(2));
        EP other = expr(Ty(Ty::FN, n), 0);
        f = mk_index(k ? mk_arr({other, f}) : mk_arr({f, other}), mk_int(k));
      } else if (f->k == Expr::Var && vars_of(Ty(Ty::FN, n), false).empty()) {
        // a function named here is known to the compiler, which counts its arguments
        f = o.arrays ? mk_index(mk_arr({f}), mk_int(0)) : mk_var("vout");
      }
      std::vector<EP> args;
      for (int i = 0; i < n; ++i)
        args.push_back(expr(t, d - 1));
      return mk_call(f, args);
    }
    case 0: return mk_int(pick_int(s, o.big_ints));
    case 1: return mk_var(s.pick(vs)->name);
    case 2: {
      const Op ops[] = {ADD, SUB, MUL, DIV, MOD};
      const Op op = ops[s.weighted({5, 4, 3, 2, 2})];
      EP l = expr(t, d - 1);
      EP r;
      // divisors are mostly known not to be zero
      if ((op == DIV || op == MOD) && s.chance(7, 8))
        r = mk_int(s.chance(1, 6) ? -1 - int(s.below(4)) : 1 + int(s.below(9)));
      else
        r = expr(t, d - 1);
      return fix_div(mk_bin(op, l, r));
    }
    case 3: {
      const Op ops[] = {LT, GT, LEQ, GEQ, EQ};
      const Op op = ops[s.below(5)];
      Ty u(Ty::I);
      if (o.floats && s.chance(1, 4))
        u = Ty(Ty::F);
      else if (op == EQ && o.strings && s.chance(1, 3))
        u = Ty(Ty::S);
      if (op == EQ && s.chance(1, 8)) {
        EP x = any_expr(d - 1);
        return s.chance(1, 2) ? mk_bin(op, x, mk_none()) : mk_bin(op, mk_none(), x);
      }
      EP l = expr(u, d - 1);
      Ty u2 = u;
      if (u.k != Ty::S && o.floats && s.chance(1, 6))
        u2 = Ty(u.k == Ty::I ? Ty::F : Ty::I);
      return mk_bin(op, l, expr(u2, d - 1));
    }
    case 4: {
      const bool an = s.chance(1, 2);
      EP l = s.chance(1, 3) ? any_expr(d - 1) : cond(d - 1);
      EP r = s.chance(1, 3) ? any_expr(d - 1) : cond(d - 1);
      return mk_bin(an ? AND : OR, l, r);
    }
    case 5: {
      if (s.chance(1, 2))
        return mk_not(cond(d - 1));
      return mk_neg(expr(t, d - 1));
    }
    case 6: return gen_call();
    case 7: {
      const VarInfo *f = s.pick(fnv);
      --calls_left;
      std::vector<EP> args;
      for (int i = 0; i < f->ty.n; ++i)
        args.push_back(expr(Ty(Ty::I), d - 1));
      return mk_call(mk_var(f->name), args);
    }
    case 8: {
      const VarInfo *a = s.pick(arrs);
      if (s.chance(1, 4))
        return mk_member(a->name, "length");
      return mk_index(mk_var(a->name), index_for(a->ty, d - 1));
    }
    case 9:
      switch (s.below(4)) {
      case 0: return mk_callf("abs", {expr(t, d - 1)});
      case 1: {
        EP l = expr(t, d - 1);
        return mk_callf("bitand", {l, expr(t, d - 1)});
      }
      case 2: {
        Ty u(o.arrays && s.chance(1, 2) ? Ty::AI : Ty::S);
        if (u.k == Ty::S && !o.strings)
          return mk_int(3);
        if (u.k == Ty::AI)
          u.n = 1;
        return mk_callf("len", {expr(u, d - 1)});
      }
      default: return mk_callf("abs", {mk_int(pick_int(s, o.big_ints))});
      }
    default:
      if (o.strings) {
        // a character of a string known to be long enough
        std::string lit = "q" + pick_str(s);
        for (auto &c : lit)
          if (c == '"' || c == '\n')
            c = '.';
        return mk_index(mk_str(lit), mk_int(int(s.below(uint32_t(lit.size())))));
      }
      return mk_index(mk_arr({mk_int(4), mk_int(5)}), mk_int(int(s.below(2))));
    }
  }
  case Ty::F:
    switch (s.weighted({5, vs.empty() ? 0 : 8, leaf ? 0 : 6, leaf ? 0 : 2, leaf || !o.builtins ? 0 : 3,
                        callable.empty() ? 0 : 4})) {
    case 0: return mk_flt(int(s.below(s.chance(1, 4) ? 100000 : 64)));
    case 1: return mk_var(s.pick(vs)->name);
    case 2: {
      const Op ops[] = {ADD, SUB, MUL, DIV};
      const Op op = ops[s.below(4)];
      const int mix = int(s.below(3));
      EP l = expr(mix == 1 ? Ty(Ty::I) : t, d - 1);
      EP r = expr(mix == 2 ? Ty(Ty::I) : t, d - 1);
      return fix_div(mk_bin(op, l, r));
    }
    case 3: return mk_neg(expr(t, d - 1));
    case 4: {
      static const char *const one[] = {"sin", "cos", "tan", "sqrt", "round", "ceil", "floor"};
      const Ty u(s.chance(1, 3) ? Ty::I : Ty::F);
      if (s.chance(1, 3)) {
        EP l = expr(u, d - 1);
        return mk_callf(s.chance(1, 2) ? "min" : "max", {l, expr(t, d - 1)});
      }
      if (s.chance(1, 6))
        return mk_callf("abs", {expr(t, d - 1)});
      const char *f = one[s.below(7)];
      return mk_callf(f, {expr(u, d - 1)});
    }
    default: return gen_call();
    }
  case Ty::S: {
    std::vector<const VarInfo *> arrs;
    for (auto &v : scope)
      if (v.ty.k == Ty::AS)
        arrs.push_back(&v);
    switch (s.weighted({5, vs.empty() ? 0 : 8, leaf ? 0 : 6, leaf || !o.builtins ? 0 : 1,
                        callable.empty() ? 0 : 4, arrs.empty() ? 0 : 3})) {
    case 0: return mk_str(pick_str(s));
    case 1: return mk_var(s.pick(vs)->name);
    case 2: {
      Ty u(Ty::S);
      switch (s.below(5)) {
      case 0: u = Ty(Ty::I); break;
      case 1: if (o.floats) u = Ty(Ty::F); break;
      case 2:
        if (s.chance(1, 4)) {
          EP l = expr(t, d - 1);
          return s.chance(1, 2) ? mk_bin(ADD, l, mk_none()) : mk_bin(ADD, mk_none(), l);
        }
        if (o.fn_to_string && s.chance(1, 4)) {
          EP l = expr(t, d - 1);
          return mk_bin(ADD, l, expr(Ty(Ty::FN, 0), 0));
        }
        break;
      default: break;
      }
      EP l = expr(t, d - 1), r = expr(u, d - 1);
      return s.chance(1, 3) ? mk_bin(ADD, r, l) : mk_bin(ADD, l, r);
    }
    case 3:
      return mk_callf("chr", {s.chance(1, 4) ? expr(Ty(Ty::I), d - 1) : mk_int(1 + int(s.below(255)))});
    case 4: return gen_call();
    default: {
      const VarInfo *a = s.pick(arrs);
      return mk_index(mk_var(a->name), index_for(a->ty, d - 1));
    }
    }
  }
  case Ty::AI:
  case Ty::AS:
  case Ty::AA: {
    std::vector<const VarInfo *> nest;
    if (t.k == Ty::AI && t.n <= 1)
      for (auto &v : scope)
        if (v.ty.k == Ty::AA)
          nest.push_back(&v);
    switch (s.weighted({3, vs.empty() ? 0 : 10, callable.empty() ? 0 : 3, nest.empty() ? 0 : 3})) {
    case 1: return mk_var(s.pick(vs)->name);
    case 2: return gen_call();
    case 3: {
      const VarInfo *a = s.pick(nest);
      return mk_index(mk_var(a->name), index_for(a->ty, d - 1));
    }
    default: {
      const Ty el = t.k == Ty::AI ? Ty(Ty::I) : t.k == Ty::AS ? Ty(Ty::S) : Ty(Ty::AI, 1);
      const int n = std::max(1, t.n) + int(s.chance(1, 3) ? s.below(3) : 0);
      std::vector<EP> v;
      for (int i = 0; i < n; ++i)
        v.push_back(expr(el, std::min(d - 1, 1)));
      return mk_arr(v);
    }
    }
  }
  case Ty::FN: {
    std::vector<std::string> c;
    for (auto *v : vs)
      c.push_back(v->name);
    for (int i = fn_from(); i < int(fns.size()); ++i) {
      const FnInfo &f = fns[size_t(i)];
      if (f.ret.k != Ty::I || int(f.args.size()) != t.n)
        continue;
      bool all = true;
      for (auto &a : f.args)
        all &= a.k == Ty::I;
      if (all)
        c.push_back(f.name);
    }
    if (o.builtins) {
      if (t.n == 1)
        c.push_back("abs");
      if (t.n == 2)
        c.push_back("bitand");
      if (t.n == 1)
        c.push_back("out");
    }
    if (c.empty())
      c.push_back("vout"); // takes any number of arguments
    return mk_var(s.pick(c));
  }
  case Ty::X:
    return expr(rand_ty(), d);
  }
  return mk_int(0);
}

void Gen::block(Block &b, int depth, int n, const Ty &ret) {
  const size_t mark = scope.size();
  for (int i = 0; i < n; ++i) {
    SP st = stmt(depth, ret, b);
    if (st)
      b.push_back(st);
  }
  scope.resize(mark);
}

void Gen::churn_block(Block &b) {
  // grow a string, then allocate it over and over while other values live on
  const std::string big = fresh();
  scope.push_back({big, Ty(Ty::S), true, false, 0});
  const std::string it = fresh();
  scope.push_back({it, Ty(Ty::I), true, false, 0});
  b.push_back(st_decl(big, mk_str(s.chance(1, 2) ? "ab" : "wxyz")));
  b.push_back(st_decl(it, mk_int(0)));
  auto grow = std::make_shared<Stmt>(Stmt::For);
  grow->name = it;
  grow->e = mk_int(0);
  grow->e2 = mk_int(8 + int(s.below(3)));
  grow->body.push_back(st_assign(big, mk_bin(ADD, mk_var(big), mk_var(big))));
  b.push_back(grow);
  const std::string keep = fresh();
  // few elements, or very many
  const bool large = o.builtins && s.chance(1, 6);
  const int kn = large ? 100 + int(s.below(500)) : 2 + int(s.below(5));
  std::vector<EP> init;
  for (int i = 0; i < kn && !large; ++i)
    init.push_back(s.chance(1, 2) ? mk_none() : expr(rand_ty(), 1));
  scope.push_back({keep, Ty(Ty::X), true, false, 0});
  b.push_back(st_decl(keep, large ? mk_callf("new_array", {mk_int(kn)}) : mk_arr(init)));
  auto loop = std::make_shared<Stmt>(Stmt::For);
  loop->name = it;
  loop->e = mk_int(0);
  loop->e2 = mk_int(150 + int(s.below(400)));
  const size_t mark = scope.size();
  // the values that must survive
  const int kinds = 1 + int(s.below(3));
  for (int k = 0; k < kinds; ++k) {
    auto set = std::make_shared<Stmt>(Stmt::ArrSet);
    set->name = keep;
    set->e2 = mk_bin(MOD, mk_bin(ADD, mk_var(it), mk_int(int(s.below(4)))), mk_int(kn));
    const int kind = int(s.below(6));
    switch (large && (kind == 0 || kind == 4) ? 1 : kind) {
    case 0: set->e = mk_bin(ADD, mk_var(big), mk_var(it)); break;
    case 1: set->e = mk_arr({mk_var(it), mk_bin(ADD, mk_str("v"), mk_var(it)), mk_var(keep)}); break;
    case 2: set->e = mk_arr({mk_flt(int(s.below(99))), mk_arr({mk_var(it), mk_none()})}); break;
    case 3: set->e = mk_bin(ADD, mk_var(it), mk_flt(4)); break;
    case 4:
      set->e = mk_arr({mk_index(mk_var(keep), mk_int(int(s.below(uint32_t(kn))))), mk_var(it)});
      // chains grow: cut them now and then
      {
        auto iff = std::make_shared<Stmt>(Stmt::If);
        static const int cut[] = {7, 7, 40, 300};
        iff->e = mk_bin(EQ, mk_bin(MOD, mk_var(it), mk_int(cut[s.below(4)])), mk_int(0));
        for (int q = 0; q < kn; ++q) {
          auto z = std::make_shared<Stmt>(Stmt::ArrSet);
          z->name = keep;
          z->e2 = mk_int(q);
          z->e = mk_none();
          iff->body.push_back(z);
        }
        loop->body.push_back(iff);
      }
      break;
    default: set->e = mk_index(mk_var(keep), mk_int(int(s.below(uint32_t(kn))))); break;
    }
    loop->body.push_back(set);
  }
  const std::string t = fresh();
  scope.push_back({t, Ty(Ty::S), true, false, 0});
  loop->body.push_back(st_decl(t, mk_bin(ADD, mk_var(big), mk_var(it))));
  if (o.builtins && s.chance(1, 5)) {
    // something large that is soon garbage
    const std::string w = fresh();
    scope.push_back({w, Ty(Ty::X), true, false, 0});
    const int n = 500 + int(s.below(7000));
    loop->body.push_back(st_decl(w, mk_callf("new_array", {mk_int(n)})));
    auto set = std::make_shared<Stmt>(Stmt::ArrSet);
    set->name = w;
    set->e2 = mk_int(n - 1);
    set->e = mk_var(t);
    loop->body.push_back(set);
    if (s.chance(1, 2)) {
      auto k2 = std::make_shared<Stmt>(Stmt::ArrSet);
      k2->name = keep;
      k2->e2 = mk_int(0);
      k2->e = mk_index(mk_var(w), mk_int(n - 1));
      loop->body.push_back(k2);
    }
    loop->body.push_back(st_assign(w, mk_int(0)));
  }
  {
    auto iff = std::make_shared<Stmt>(Stmt::If);
    iff->e = mk_bin(EQ, mk_bin(MOD, mk_var(it), mk_int(97)), mk_int(int(s.below(97))));
    iff->body.push_back(st_out(mk_var(keep)));
    // something with the rest of the program's state
    const int sv = calls_left, lm = loop_mult;
    calls_left = 1;
    block(iff->body, 0, 1 + int(s.below(2)), Ty(Ty::X));
    calls_left = sv;
    loop_mult = lm;
    loop->body.push_back(iff);
  }
  scope.resize(mark);
  b.push_back(loop);
  b.push_back(st_out(mk_var(keep)));
}

SP Gen::stmt(int depth, const Ty &ret, Block &b) {
  const int ed = o.edepth;
  const bool nest = depth > 0;
  // arrays that can be written
  std::vector<const VarInfo *> arrs;
  for (auto &v : scope)
    if (v.ty.k == Ty::AI || v.ty.k == Ty::AS || v.ty.k == Ty::AA)
      arrs.push_back(&v);
  for (auto &v : globals)
    if (v.ty.k == Ty::AI || v.ty.k == Ty::AS || v.ty.k == Ty::AA)
      arrs.push_back(&v);
  std::vector<const VarInfo *> asg;
  for (auto &v : scope)
    if (!v.ro)
      asg.push_back(&v);
  for (auto &v : globals)
    if (!v.ro && !v.is_const)
      asg.push_back(&v);
  std::vector<int> callable;
  if (calls_left > 0)
    for (int i = cur + 1; i < int(fns.size()); ++i)
      callable.push_back(i);

  switch (s.weighted({8, 8, asg.empty() ? 0 : 7, asg.empty() ? 0 : 3, arrs.empty() ? 0 : 5,
                      nest ? 5 : 0, nest && loop_mult < 60 ? 2 : 0, nest && loop_mult < 60 ? 3 : 0,
                      1, callable.empty() ? 0 : 3, o.waits ? 4 : 0,
                      o.spawns && spawns_left > 0 && cur + 1 < int(fns.size()) ? 5 : 0})) {
  case 0: { // out
    if (s.chance(1, 6)) {
      std::vector<EP> a;
      const int n = int(s.below(4));
      for (int i = 0; i < n; ++i)
        a.push_back(any_expr(ed - 1));
      return st_call("vout", a);
    }
    return st_out(any_expr(ed));
  }
  case 1: { // declaration
    const Ty t = rand_ty();
    const std::string n = fresh();
    EP e;
    Ty vt = t;
    if (s.chance(1, 10)) {
      vt = Ty(Ty::X); // starts out as none
    } else {
      e = expr(t, ed);
    }
    scope.push_back({n, vt, false, false, 0});
    if (!e && s.chance(1, 2)) {
      // shown while it is none, then given something
      b.push_back(st_decl(n, e));
      b.push_back(st_out(mk_var(n)));
      return st_assign(n, any_expr(ed));
    }
    return st_decl(n, e);
  }
  case 2: { // assignment
    const VarInfo v = *s.pick(asg);
    return st_assign(v.name, expr(v.ty, ed));
  }
  case 3: { // compound assignment
    const VarInfo v = *s.pick(asg);
    auto st = std::make_shared<Stmt>(Stmt::Compound);
    st->name = v.name;
    switch (v.ty.k) {
    case Ty::I: {
      const Op ops[] = {ADD, SUB, MUL, DIV};
      st->op = ops[s.below(4)];
      st->e = st->op == DIV ? mk_int(1 + int(s.below(9))) : expr(v.ty, ed - 1);
      return st;
    }
    case Ty::F: {
      const Op ops[] = {ADD, SUB, MUL, DIV};
      st->op = ops[s.below(4)];
      st->e = expr(s.chance(1, 3) ? Ty(Ty::I) : v.ty, ed - 1);
      return st;
    }
    case Ty::S:
      st->op = ADD;
      st->e = expr(s.chance(1, 3) ? Ty(Ty::I) : v.ty, ed - 1);
      return st;
    default: return st_assign(v.name, expr(v.ty, ed));
    }
  }
  case 4: { // array element
    const VarInfo v = *s.pick(arrs);
    auto st = std::make_shared<Stmt>(Stmt::ArrSet);
    st->name = v.name;
    st->e2 = index_for(v.ty, 1);
    if (v.ty.k == Ty::AI)
      st->e = expr(Ty(Ty::I), ed - 1);
    else if (v.ty.k == Ty::AS)
      st->e = expr(Ty(Ty::S), ed - 1);
    else
      st->e = s.chance(1, 12) ? mk_var(v.name) // a cycle
                              : expr(Ty(Ty::AI, 1), ed - 1);
    return st;
  }
  case 5: { // if
    auto st = std::make_shared<Stmt>(Stmt::If);
    if (s.chance(1, 10))
      st->e = s.chance(1, 3)   ? mk_int(pick_int(s, o.big_ints))
              : s.chance(1, 3) ? mk_bin(SUB, mk_int(int(s.below(4))), mk_int(int(s.below(4))))
                               : mk_int(int(s.below(2)));
    else
      st->e = cond(ed);
    if (loop_mult < 60 && s.chance(1, 10)) {
      // a branch that is nothing but a loop
      const std::string n = fresh();
      const int lim = 1 + int(s.below(3));
      b.push_back(st_decl(n, mk_int(0)));
      scope.push_back({n, Ty(Ty::I), true, false, lim + 1});
      SP loop;
      loop_mult *= lim;
      if (s.chance(1, 2)) {
        loop = std::make_shared<Stmt>(Stmt::While);
        loop->e = mk_bin(LT, mk_var(n), mk_int(lim));
        block(loop->body, depth - 1, int(s.below(3)), ret);
        loop->body.push_back(st_assign(n, mk_bin(ADD, mk_var(n), mk_int(1))));
      } else {
        loop = std::make_shared<Stmt>(Stmt::For);
        loop->name = n;
        loop->e = mk_int(0);
        loop->e2 = mk_int(lim);
        block(loop->body, depth - 1, 1 + int(s.below(2)), ret);
      }
      loop_mult /= lim;
      const bool in_else = s.chance(1, 2);
      (in_else ? st->other : st->body).push_back(loop);
      st->has_else = in_else || s.chance(1, 2);
      if (st->has_else && s.chance(1, 2))
        block(in_else ? st->body : st->other, depth - 1, int(s.below(3)), ret);
      return st;
    }
    block(st->body, depth - 1, int(s.below(uint32_t(o.stmts))), ret);
    if (s.chance(1, 2)) {
      st->has_else = true;
      block(st->other, depth - 1, int(s.below(uint32_t(o.stmts))), ret);
    }
    return st;
  }
  case 6: { // while with a counter of its own
    const std::string n = fresh();
    if (s.chance(1, 12)) {
      auto st = std::make_shared<Stmt>(Stmt::While);
      if (s.chance(1, 2)) {
        // never entered
        switch (s.below(5)) {
        case 0: st->e = mk_bin(LT, mk_int(2), mk_int(1)); break;
        case 1: st->e = o.floats ? mk_flt(0) : mk_int(0); break;
        case 2: st->e = mk_none(); break;
        case 3: st->e = o.consts ? const_tree(1) : mk_int(0); break;
        default: st->e = mk_int(0); break;
        }
        int32_t v;
        if (const_value(p, st->e, v) && v != 0)
          st->e = mk_not(st->e);
        block(st->body, depth - 1, int(s.below(3)), ret);
        return st;
      }
      // left by a return, in the first or a later round
      switch (s.below(6)) {
      case 5: { // not zero, of either sign
        const int32_t v = int32_t(s.below(9));
        st->e = mk_bin(SUB, mk_int(v), mk_int(s.chance(1, 2) ? v + 1 + int32_t(s.below(4)) : v - 1));
        break;
      }
      case 0: {
        const int32_t v = s.chance(1, 3) ? pick_int(s, o.big_ints) : 1 + int(s.below(3));
        st->e = mk_int(v ? v : 1);
        break;
      }
      case 1: st->e = o.floats ? mk_flt(1 + int(s.below(12))) : mk_int(-1); break;
      case 2: st->e = o.strings ? mk_str(s.chance(1, 2) ? "" : "go") : mk_int(1); break;
      case 3: st->e = mk_bin(LT, mk_int(-1), mk_int(int(s.below(3)))); break;
      default: st->e = mk_int(-1 - int(s.below(3))); break;
      }
      const bool later = s.chance(1, 2);
      if (later) {
        scope.push_back({n, Ty(Ty::I), true, false, 0});
        b.push_back(st_decl(n, mk_int(0)));
      }
      auto back = ret.k == Ty::X && s.chance(1, 3) ? st_return(nullptr) : st_return(expr(ret, ed));
      const bool tail = s.chance(1, 2);
      if (tail)
        block(st->body, depth - 1, int(s.below(3)), ret);
      if (!later) {
        st->body.push_back(back);
      } else {
        st->body.push_back(st_assign(n, mk_bin(ADD, mk_var(n), mk_int(1))));
        auto iff = std::make_shared<Stmt>(Stmt::If);
        iff->e = mk_bin(GT, mk_var(n), mk_int(int(s.below(4))));
        iff->body.push_back(back);
        st->body.push_back(iff);
        if (!tail)
          block(st->body, 0, 1, ret);
      }
      return st;
    }
    const int lim = 1 + int(s.below(5));
    scope.push_back({n, Ty(Ty::I), true, false, lim + 1});
    b.push_back(st_decl(n, mk_int(0)));
    auto st = std::make_shared<Stmt>(Stmt::While);
    st->e = mk_bin(LT, mk_var(n), mk_int(lim));
    if (s.chance(1, 4))
      st->e = mk_bin(AND, st->e, cond(1));
    const size_t mark = scope.size();
    loop_mult *= lim;
    // the increment comes first, last or both ways
    const bool first = s.chance(1, 3);
    auto inc = std::make_shared<Stmt>(s.chance(1, 2) ? Stmt::Compound : Stmt::Assign);
    inc->name = n;
    inc->op = ADD;
    inc->e = inc->k == Stmt::Compound ? mk_int(1) : mk_bin(ADD, mk_var(n), mk_int(1));
    if (first)
      st->body.push_back(inc);
    block(st->body, depth - 1, int(s.below(uint32_t(o.stmts))), ret);
    if (!first)
      st->body.push_back(inc);
    loop_mult /= lim;
    scope.resize(mark);
    return st;
  }
  case 7: { // for
    const int lo = int(s.below(3)), hi = lo + int(s.below(5));
    auto st = std::make_shared<Stmt>(Stmt::For);
    const int lm = std::max(1, hi - lo);
    // sometimes the counter is a variable used for other things as well
    std::vector<std::string> ints;
    if (s.chance(1, 4)) {
      for (auto &v : scope)
        if (v.ty.k == Ty::I && !v.ro && !v.is_const)
          ints.push_back(v.name);
      for (auto &v : globals)
        if (v.ty.k == Ty::I && !v.ro && !v.is_const)
          ints.push_back(v.name);
    }
    const bool own = ints.empty();
    const std::string n = own ? fresh() : s.pick(ints);
    if (own) {
      scope.push_back({n, Ty(Ty::I), true, false, hi + 1});
      b.push_back(st_decl(n, s.chance(1, 3) ? nullptr : mk_int(0)));
    }
    st->name = n;
    st->e = mk_int(lo);
    st->e2 = mk_int(hi);
    // the start is evaluated once and the end in each round
    if (s.chance(1, 5))
      st->e = s.chance(1, 4) && o.floats ? mk_flt(int(s.below(20)))
                                         : mk_bin(MOD, expr(Ty(Ty::I), 2), mk_int(2 + int(s.below(3))));
    std::string bound;
    switch (s.weighted({12, 2, 2, o.floats ? 1 : 0, 1})) {
    case 1: { // a bound that changes
      bound = fresh();
      scope.push_back({bound, Ty(Ty::I), false, false, 0});
      b.push_back(st_decl(bound, mk_int(hi)));
      st->e2 = mk_var(bound);
      break;
    }
    case 2: st->e2 = mk_bin(MOD, expr(Ty(Ty::I), 2), mk_int(2 + int(s.below(5)))); break;
    case 3: st->e2 = mk_flt(int(s.below(uint32_t(8 * hi + 4)))); break;
    case 4: st->e2 = mk_callf("out", {mk_int(hi)}); break;
    default: break;
    }
    loop_mult *= lm;
    const size_t mark = scope.size();
    size_t at = 0;
    if (own)
      for (at = mark; at-- > 0;)
        if (scope[at].name == n)
          break;
    if (own)
      scope[at].hi = st->e->k == Expr::Int && st->e2->k == Expr::Int ? (hi > 0 ? hi : 1) : 0;
    block(st->body, depth - 1, int(s.below(uint32_t(o.stmts))), ret);
    if (s.chance(1, 8)) {
      // skip rounds, or cut the loop short
      auto up = std::make_shared<Stmt>(Stmt::Compound);
      up->name = bound.empty() || s.chance(1, 2) ? n : bound;
      up->op = up->name == n ? ADD : SUB;
      up->e = mk_int(1 + int(s.below(2)));
      st->body.push_back(up);
      if (own)
        scope[at].hi = 0;
    }
    scope.resize(mark);
    if (own)
      scope[at].hi = scope[at].hi ? hi + 1 : 0;
    loop_mult /= lm;
    return st;
  }
  case 8: { // return
    if (s.chance(2, 3))
      return st_out(any_expr(ed));
    if (ret.k == Ty::X && s.chance(1, 3))
      return st_return(nullptr);
    return st_return(expr(ret, ed));
  }
  case 9: { // call statement
    const FnInfo f = fns[size_t(s.pick(callable))];
    --calls_left;
    std::vector<EP> args;
    for (auto &a : f.args)
      args.push_back(expr(a, ed - 1));
    return st_call(f.name, args);
  }
  case 10:
    if (s.chance(1, 8))
      return st_call("wait", {expr(Ty(s.chance(1, 2) ? Ty::F : Ty::I), 1)});
    return st_call("wait", {mk_int(int(s.below(4)))});
  default: {
    --spawns_left;
    const int k = s.range(cur + 1, int(fns.size()) - 1);
    const FnInfo f = fns[size_t(k)];
    std::vector<EP> args;
    args.push_back(mk_var(f.name));
    for (auto &a : f.args)
      args.push_back(expr(a, ed - 1));
    // now and then the wrong number of arguments
    if (s.chance(1, 40))
      args.push_back(mk_int(1));
    return st_call("new_thread", args);
  }
  }
}

// every value computed in between is shown: when and how often shows then
static void show_parts(pbt::Src &s, EP &e, bool wrap) {
  if (!e)
    return;
  for (size_t i = 0; i < e->kids.size(); ++i) {
    if (e->k == Expr::Call && i == 0 && e->kids[0]->k == Expr::Var)
      continue;
    show_parts(s, e->kids[i], !(e->k == Expr::Call && i == 0));
  }
  if (wrap && (e->k == Expr::Int || e->k == Expr::Flt || e->k == Expr::Str || e->k == Expr::Bin ||
               e->k == Expr::Not || e->k == Expr::Neg) && s.chance(1, 4))
    e = mk_callf("out", {e});
}
static void show_parts(pbt::Src &s, Block &b) {
  for (auto &st : b) {
    const bool wait = st->k == Stmt::CallS && st->e && st->e->kids[0]->k == Expr::Var &&
                      st->e->kids[0]->name == "wait";
    if (!wait)
      show_parts(s, st->e, st->k != Stmt::CallS);
    show_parts(s, st->e2, true);
    show_parts(s, st->body);
    show_parts(s, st->other);
  }
}

void Gen::program(const std::string &entry) {
  const int nf = int(s.below(uint32_t(o.max_funcs + 1)));
  const int ng = int(s.below(uint32_t(o.max_globals + 1)));
  // signatures first: functions call only later ones, which bounds every run
  fns.push_back({entry, {}, Ty(Ty::X)});
  for (int i = 0; i < nf; ++i) {
    FnInfo f;
    f.name = o.prefix + "f" + std::to_string(i + 1);
    const int na = s.chance(1, 12) ? 4 + int(s.below(s.chance(1, 4) ? 14 : 5)) : int(s.below(4));
    const bool plain = s.chance(1, 2);
    for (int a = 0; a < na; ++a)
      f.args.push_back(plain ? Ty(Ty::I) : rand_ty());
    f.ret = plain ? Ty(Ty::I) : rand_ty();
    fns.push_back(f);
  }
  // globals
  in_init = true;
  cur = 0;
  for (int i = 0; i < ng; ++i) {
    Global g;
    g.name = o.prefix + "g" + std::to_string(i + 1);
    VarInfo v;
    v.name = g.name;
    if (o.consts && s.chance(1, 3)) {
      g.is_const = true;
      v.is_const = v.ro = true;
      switch (s.weighted({5, 2, o.floats ? 2 : 0, o.strings ? 2 : 0})) {
      case 0: g.init = mk_int(pick_int(s, o.big_ints)); v.ty = Ty(Ty::I); break;
      case 1: g.init = mk_bin(s.chance(1, 2) ? ADD : MUL, mk_int(int(s.below(9))),
                              mk_bin(SUB, mk_int(int(s.below(50))), mk_int(int(s.below(50)))));
        v.ty = Ty(Ty::I);
        break;
      case 2: g.init = mk_flt(int(s.below(400))); v.ty = Ty(Ty::F); break;
      default: g.init = mk_str(pick_str(s)); v.ty = Ty(Ty::S); break;
      }
    } else if (s.chance(1, 8)) {
      v.ty = Ty(Ty::X);
      if (s.chance(1, 2))
        g.init = mk_none();
    } else {
      v.ty = rand_ty();
      if (v.ty.k == Ty::FN)
        v.ty = Ty(Ty::I); // function values stay in locals: see bounds above
      calls_left = o.global_calls && s.chance(1, 4) ? 1 : 0;
      const bool oe = o.out_in_expr;
      g.init = expr(v.ty, 2);
      o.out_in_expr = oe;
    }
    p.globals.push_back(g);
    // initialisers run in order and may use the globals above them
    globals.push_back(v);
  }
  in_init = false;
  // bodies
  for (int i = 0; i < int(fns.size()); ++i) {
    cur = i;
    scope.clear();
    Func f;
    f.name = fns[size_t(i)].name;
    for (auto &t : fns[size_t(i)].args) {
      const std::string n = fresh();
      scope.push_back({n, t, false, false, 0});
      f.args.push_back(n);
    }
    calls_left = i == 0 ? 5 : 2;
    loop_mult = i == 0 ? 1 : 4;
    spawns_left = 3;
    // guarded recursion
    const bool rec = i > 0 && !f.args.empty() && fns[size_t(i)].args[0].k == Ty::I && s.chance(1, 4);
    if (rec) {
      auto st = std::make_shared<Stmt>(Stmt::If);
      scope[0].ro = true;
      EP n = mk_var(f.args[0]);
      st->e = mk_bin(OR, mk_bin(LEQ, n, mk_int(0)), mk_bin(GT, n, mk_int(4 + int(s.below(20)))));
      st->body.push_back(st_return(expr(fns[size_t(i)].ret, 1)));
      f.body.push_back(st);
    }
    if (i == 0 && o.churn && s.chance(2, 3))
      churn_block(f.body);
    const int n = i == 0 ? 2 + int(s.below(uint32_t(o.stmts) + 2)) : int(s.below(uint32_t(o.stmts)));
    {
      // the body shares the scope of the arguments
      for (int q = 0; q < n; ++q) {
        SP st = stmt(o.depth, fns[size_t(i)].ret, f.body);
        if (st)
          f.body.push_back(st);
      }
    }
    if (i == 0 && o.churn && s.chance(1, 2))
      churn_block(f.body);
    if (rec) {
      std::vector<EP> args;
      args.push_back(mk_bin(SUB, mk_var(f.args[0]), mk_int(1)));
      for (size_t a = 1; a < f.args.size(); ++a)
        args.push_back(expr(fns[size_t(i)].args[a], 1));
      EP call = mk_callf(f.name, args);
      if (fns[size_t(i)].ret.k == Ty::I && s.chance(1, 2))
        call = mk_bin(ADD, call, expr(Ty(Ty::I), 1));
      f.body.push_back(st_return(call));
    } else if (fns[size_t(i)].ret.k != Ty::X && !(fns[size_t(i)].ret.k == Ty::I && s.chance(1, 4))) {
      f.body.push_back(st_return(expr(fns[size_t(i)].ret, o.edepth)));
    } else if (i == 0 && s.chance(2, 3)) {
      // the entry shows the state it leaves behind
      for (auto &g : globals)
        if (s.chance(1, 2))
          f.body.push_back(st_out(mk_var(g.name)));
      if (s.chance(2, 3))
        f.body.push_back(st_return(any_expr(o.edepth)));
    }
    p.funcs.push_back(f);
  }
  if (o.out_in_expr && s.chance(1, 10))
    for (auto &f : p.funcs)
      show_parts(s, f.body);
  // source order
  std::vector<Item> fi, gi;
  for (int i = 0; i < int(p.globals.size()); ++i)
    gi.push_back({0, i});
  for (int i = 0; i < int(p.funcs.size()); ++i)
    fi.push_back({1, i});
  const bool mixed = o.free_order && s.chance(1, 2);
  if (!mixed) {
    p.items = gi;
    p.items.insert(p.items.end(), fi.begin(), fi.end());
  } else {
    // functions anywhere, globals keep their order as initialisers run in it
    size_t g = 0, f = 0;
    if (s.chance(1, 2))
      std::reverse(fi.begin(), fi.end());
    while (g < gi.size() || f < fi.size()) {
      if (f >= fi.size() || (g < gi.size() && s.chance(1, 2)))
        p.items.push_back(gi[g++]);
      else
        p.items.push_back(fi[f++]);
    }
  }
}

} // namespace lang
