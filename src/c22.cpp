// C22: the syntax tree the compiler reports is the structure of the source.
#include "api.h"
#include "/repo/source/lib_compiler/ast.h"
#include <set>
using namespace pbt;
using namespace lang;
using namespace nano;

// ---- free syntax: nothing is run, so anything the rules allow will do
struct Free {
  Src &s;
  Prog p;
  std::vector<std::string> vars;   // in scope
  std::vector<std::pair<std::string, int>> fns;
  int left = 60;                   // nodes
  int names = 0;

  EP expr(int d) {
    if (d <= 0 || --left <= 0)
      switch (s.below(6)) {
      case 0: return mk_int(int(s.below(10)));
      case 1: return mk_flt(int(s.below(40)));
      case 2: return mk_str(s.chance(1, 2) ? "" : "t e");
      case 3: return mk_none();
      default: return vars.empty() ? mk_int(1) : mk_var(s.pick(vars));
      }
    switch (s.weighted({10, 2, 2, 2, 2, 2, 1, 1})) {
    case 0: return mk_bin(Op(s.below(12)), expr(d - 1), expr(d - 1));
    case 1: return mk_not(expr(d - 1));
    case 2: return mk_neg(expr(d - 1));
    case 3: {
      std::vector<EP> v;
      for (int n = 1 + int(s.below(3)); n > 0; --n)
        v.push_back(expr(d - 1));
      return mk_arr(v);
    }
    case 4: return mk_index(expr(d - 1), expr(d - 1));
    case 5: return call(d);
    case 6: {
      // what is called may be any expression
      std::vector<EP> v;
      for (int n = int(s.below(3)); n > 0; --n)
        v.push_back(expr(d - 1));
      return mk_call(mk_index(expr(d - 1), expr(d - 1)), v);
    }
    default:
      return vars.empty() ? mk_none() : mk_member(s.pick(vars), s.chance(1, 2) ? "length" : "m");
    }
  }
  EP call(int d) {
    std::vector<EP> v;
    if (s.chance(1, 4)) {
      for (int n = int(s.below(4)); n > 0; --n)
        v.push_back(expr(d - 1));
      return mk_callf("vout", v);
    }
    const auto f = s.pick(fns);
    for (int n = f.second; n > 0; --n)
      v.push_back(expr(d - 1));
    return mk_callf(f.first, v);
  }
  SP stmt(int d) {
    const int k = s.weighted({4, 4, 2, 2, 1, 3, 2, 2, 2, 3});
    auto mk = [](Stmt::K kk) { return std::make_shared<Stmt>(kk); };
    const int ed = int(s.below(4));
    if ((k >= 5 && k <= 7 && d <= 0) || (k >= 1 && k <= 4 && vars.empty()) || (k == 7 && vars.empty()))
      return st_out(expr(ed));
    SP st;
    switch (k) {
    case 0: {
      st = st_decl(fmt("n%d", names++), s.chance(3, 4) ? expr(ed) : nullptr);
      vars.push_back(st->name);
      return st;
    }
    case 1: return st_assign(s.pick(vars), expr(ed));
    case 2: st = mk(Stmt::Compound); st->name = s.pick(vars); st->op = Op(s.below(4)); st->e = expr(ed); return st;
    case 3: st = mk(Stmt::ArrSet); st->name = s.pick(vars); st->e2 = expr(ed); st->e = expr(ed); return st;
    case 4: st = mk(Stmt::MemSet); st->name = s.pick(vars); st->member = "m"; st->e = expr(ed); return st;
    case 5:
      st = mk(Stmt::If);
      st->e = expr(ed);
      block(st->body, d - 1);
      if ((st->has_else = s.chance(1, 2)))
        block(st->other, d - 1);
      return st;
    case 6: st = mk(Stmt::While); st->e = expr(ed); block(st->body, d - 1); return st;
    case 7:
      st = mk(Stmt::For);
      st->name = s.pick(vars);
      st->e = expr(ed);
      st->e2 = expr(ed);
      block(st->body, d - 1);
      return st;
    case 8: return st_return(s.chance(2, 3) ? expr(ed) : nullptr);
    default: {
      st = mk(Stmt::CallS);
      st->e = call(ed);
      st->name = st->e->kids[0]->name;
      return st;
    }
    }
  }
  void block(Block &b, int d) {
    const auto keep = vars;
    for (int n = int(s.below(4)); n > 0 && left > 0; --n)
      b.push_back(stmt(d));
    vars = keep;
  }
  void program() {
    fns = {{"abs", 1}, {"min", 2}, {"out", 1}};
    const int nf = 1 + int(s.below(3));
    for (int i = 0; i < nf; ++i)
      fns.push_back({fmt("f%d", i), int(s.below(4))});
    std::vector<std::string> gs;
    for (int i = 0; i < nf; ++i) {
      for (int k = int(s.below(2)); k > 0; --k) {
        Global g;
        g.name = fmt("g%d", names++);
        vars = gs;
        left += 15;
        if (s.chance(1, 5)) {
          g.is_const = true;
          g.init = s.chance(1, 2) ? mk_int(int(s.below(9))) : s.chance(1, 2) ? mk_str("k") : mk_flt(int(s.below(30)));
        } else {
          g.init = s.chance(3, 4) ? expr(2) : nullptr;
          gs.push_back(g.name);
        }
        if (g.is_const)
          consts.push_back(g.name);
        p.globals.push_back(g);
        p.items.push_back(Item{0, int(p.globals.size()) - 1});
      }
      Func f;
      f.name = fmt("f%d", i);
      vars = gs;
      for (int k = 0; k < fns[size_t(3 + i)].second; ++k) {
        f.args.push_back(fmt("a%d_%d", i, k));
        vars.push_back(f.args.back());
      }
      left += 30;
      block(f.body, 3);
      p.funcs.push_back(f);
      p.items.push_back(Item{1, int(p.funcs.size()) - 1});
    }
  }
  std::vector<std::string> consts;
};

// ---- the tree there should be
struct Want {
  const Prog &p;
  std::string out;
  void line(int d, const std::string &t) {
    for (int i = 0; i < d; ++i)
      out += ".  ";
    out += t + "\n";
  }
  void expr(const EP &e, int d) {
    if (!e)
      return;
    switch (e->k) {
    case Expr::Int: line(d, fmt("ast_exp_lit_var_t {value: %d}", e->i)); break;
    case Expr::Flt: line(d, fmt("ast_exp_lit_var_t {value: %f}", double(e->f))); break;
    case Expr::Str: line(d, "ast_exp_lit_str_t {value: " + e->text + "}"); break;
    case Expr::None: line(d, "ast_exp_none_t"); break;
    case Expr::Var: {
      // constants stand for their value
      const Global *g = p.find_global(e->name);
      int32_t v;
      if (g && g->is_const && const_value(p, g->init, v))
        line(d, fmt("ast_exp_lit_var_t {value: %d}", v));
      else if (g && g->is_const)
        expr(g->init, d);
      else
        line(d, "ast_exp_ident_t {name: " + e->name + "}");
      break;
    }
    case Expr::Member: line(d, "ast_exp_member_t {name: " + e->name + "}"); break;
    case Expr::Bin:
      line(d, std::string("ast_exp_bin_op_t {op: ") + op_text[e->op] + "}");
      expr(e->kids[0], d + 1);
      expr(e->kids[1], d + 1);
      break;
    case Expr::Not:
    case Expr::Neg:
      line(d, "ast_exp_unary_op_t");
      expr(e->kids[0], d + 1);
      break;
    case Expr::Arr:
      line(d, "ast_exp_array_init_t");
      for (auto &k : e->kids)
        expr(k, d + 1);
      break;
    case Expr::Index:
      line(d, "ast_exp_deref_t");
      expr(e->kids[0], d + 1);
      expr(e->kids[1], d + 1);
      break;
    case Expr::Call:
      line(d, "ast_exp_call_t");
      for (size_t i = 1; i < e->kids.size(); ++i)
        expr(e->kids[i], d + 1);
      expr(e->kids[0], d + 1);
      break;
    }
  }
  void block(const Block &b, int d) {
    line(d, "ast_block_t");
    for (auto &s : b)
      stmt(*s, d + 1);
  }
  void stmt(const Stmt &s, int d) {
    switch (s.k) {
    case Stmt::Decl: line(d, "ast_decl_var_t {name: " + s.name + "}"); expr(s.e, d + 1); break;
    case Stmt::Assign: line(d, "ast_stmt_assign_var_t {name: " + s.name + "}"); expr(s.e, d + 1); break;
    case Stmt::Compound:
      line(d, "ast_stmt_assign_var_t {name: " + s.name + "}");
      line(d + 1, std::string("ast_exp_bin_op_t {op: ") + op_text[s.op] + "}");
      line(d + 2, "ast_exp_ident_t {name: " + s.name + "}");
      expr(s.e, d + 2);
      break;
    case Stmt::ArrSet: line(d, "ast_stmt_assign_array_t"); expr(s.e2, d + 1); expr(s.e, d + 1); break;
    case Stmt::MemSet: line(d, "ast_stmt_assign_member_t"); expr(s.e, d + 1); break;
    case Stmt::If:
      line(d, "ast_stmt_if_t");
      expr(s.e, d + 1);
      block(s.body, d + 1);
      if (s.has_else)
        block(s.other, d + 1);
      break;
    case Stmt::While: line(d, "ast_stmt_while_t"); expr(s.e, d + 1); block(s.body, d + 1); break;
    case Stmt::For:
      line(d, "ast_stmt_for_t {name=" + s.name + "}");
      expr(s.e, d + 1);
      expr(s.e2, d + 1);
      block(s.body, d + 1);
      break;
    case Stmt::Return: line(d, "ast_stmt_return_t"); expr(s.e, d + 1); break;
    case Stmt::CallS: line(d, "ast_stmt_call_t"); expr(s.e, d + 1); break;
    }
  }
  std::string item(const Item &it, bool folded) {
    out.clear();
    if (it.kind == 0) {
      const Global &g = p.globals[size_t(it.idx)];
      line(1, "ast_decl_var_t {name: " + g.name + "}");
      int32_t v;
      // the value of a constant expression is worked out at once
      if (folded && g.init && const_value(p, g.init, v))
        line(2, fmt("ast_exp_lit_var_t {value: %d}", v));
      else
        expr(g.init, 2);
    } else {
      const Func &f = p.funcs[size_t(it.idx)];
      line(1, "ast_decl_func_t {name: " + f.name + "}");
      for (auto &a : f.args)
        line(2, "ast_decl_var_t {name: " + a + "}");
      block(f.body, 2);
    }
    return out;
  }
};

// ---- reading a tree
struct Node {
  std::string text, kind;
  std::vector<Node> kids;
};
static std::vector<Node> read(const std::string &t) {
  Node root;
  std::vector<Node *> path{&root};
  size_t pos = 0;
  while (pos < t.size()) {
    const size_t e = t.find('\n', pos);
    if (e == std::string::npos)
      fail("the tree's last line is not complete");
    size_t d = 0;
    while (t.compare(pos, 3, ".  ") == 0)
      pos += 3, ++d;
    Node n;
    n.text = t.substr(pos, e - pos);
    n.kind = n.text.substr(0, n.text.find(' '));
    pos = e + 1;
    if (d + 1 > path.size())
      fail("a node of the tree has no parent: %s", n.text.c_str());
    path.resize(d + 1);
    path.back()->kids.push_back(n);
    path.push_back(&path.back()->kids.back());
  }
  return root.kids;
}
static bool is_expr(const Node &n) { return n.kind.compare(0, 8, "ast_exp_") == 0; }
static bool is_block(const Node &n) { return n.kind == "ast_block_t"; }
static bool is_stmt(const Node &n) {
  return n.kind.compare(0, 9, "ast_stmt_") == 0 || n.kind == "ast_decl_var_t" || is_block(n);
}
// the shape every tree has, optimised or not
static void shape(const Node &n) {
  const size_t k = n.kids.size();
  bool ok = true;
  auto exprs = [&](size_t from, size_t to) {
    for (size_t i = from; i < to && i < k; ++i)
      ok = ok && is_expr(n.kids[i]);
  };
  const std::string &t = n.kind;
  if (t == "ast_exp_bin_op_t" || t == "ast_exp_deref_t" || t == "ast_stmt_assign_array_t") {
    ok = k == 2;
    exprs(0, k);
  } else if (t == "ast_exp_unary_op_t" || t == "ast_stmt_assign_var_t" || t == "ast_stmt_assign_member_t") {
    ok = k == 1;
    exprs(0, k);
  } else if (t == "ast_exp_lit_var_t" || t == "ast_exp_lit_str_t" || t == "ast_exp_none_t" ||
             t == "ast_exp_ident_t" || t == "ast_exp_member_t")
    ok = k == 0;
  else if (t == "ast_exp_call_t" || t == "ast_exp_array_init_t") {
    ok = k >= 1;
    exprs(0, k);
  } else if (t == "ast_stmt_call_t")
    ok = k == 1 && n.kids[0].kind == "ast_exp_call_t";
  else if (t == "ast_stmt_if_t") {
    ok = k >= 1 && k <= 3;
    exprs(0, 1);
    for (size_t i = 1; i < k; ++i)
      ok = ok && is_block(n.kids[i]);
  } else if (t == "ast_stmt_while_t")
    ok = (k == 1 || k == 2) && is_expr(n.kids[0]) && (k < 2 || is_block(n.kids[1]));
  else if (t == "ast_stmt_for_t")
    ok = k == 3 && is_expr(n.kids[0]) && is_expr(n.kids[1]) && is_block(n.kids[2]);
  else if (t == "ast_stmt_return_t" || t == "ast_decl_var_t") {
    ok = k <= 1;
    exprs(0, k);
  } else if (is_block(n)) {
    for (auto &x : n.kids)
      ok = ok && is_stmt(x);
  } else if (t == "ast_decl_func_t") {
    for (size_t i = 0; i < k; ++i)
      ok = ok && (i + 1 == k ? is_block(n.kids[i]) : n.kids[i].kind == "ast_decl_var_t");
  } else
    fail("the tree has a node of no known kind: %s", n.text.c_str());
  if (!ok)
    fail("the tree has a node of the wrong shape: %s with %zu parts", n.text.c_str(), k);
  for (auto &x : n.kids)
    shape(x);
}

static std::string text_of(const Node &n, int d) {
  std::string r;
  for (int i = 0; i < d; ++i)
    r += ".  ";
  r += n.text + "\n";
  for (auto &k : n.kids)
    r += text_of(k, d + 1);
  return r;
}

static int count(const Node &n, const std::string &what) {
  int r = n.text == what;
  for (auto &k : n.kids)
    r += count(k, what);
  return r;
}

static void prop(Src &s, Case &c) {
  Prog p;
  const bool free = s.chance(2, 3);
  if (free) {
    Free f{s};
    f.program();
    p = f.p;
  } else {
    GenOpts o;
    o.fn_to_string = true;
    o.edepth = 4;
    o.wild = s.chance(1, 3) ? 10 : 0;
    Gen g(s, o);
    g.program("main");
    p = g.p;
  }
  Style st;
  st.src = &s;
  st.vary_lines = s.chance(1, 4);
  st.parens = s.chance(1, 4);
  st.vary_space = s.chance(1, 4);
  st.comments = s.chance(1, 6);
  std::string all;
  const std::vector<std::string> files = print_files(p, st, s, all);
  const bool optimize = s.chance(1, 3);
  c.show((optimize ? "# optimised\n" : "") + all);
  source_manager_t sources;
  for (auto &t : files)
    if (!sources.load_from_string(t.c_str()))
      throw Discard{"empty text"};
  program_t prog;
  nano_t nano(prog);
  nano.optimize = optimize;
  builtins_register(nano);
  nano.syscall_register("out", 1);
  nano.syscall_register("vout", -1);
  nano::error_t err;
  if (!nano.build(sources, err)) {
    if (free && err.error.find("zero") != std::string::npos)
      throw Discard{"constant division by zero"};
    fail("a valid program is rejected: %s (line %d)", err.error.c_str(), err.line.line);
  }
  auto dump = [&]() {
    char *mem = nullptr;
    size_t n = 0;
    FILE *f = open_memstream(&mem, &n);
    nano.ast().dump(f);
    fclose(f);
    std::string r(mem, n);
    ::free(mem);
    return r;
  };
  const std::string got = dump();
  if (dump() != got)
    fail("the tree is another when it is shown again");
  const std::vector<Node> top = read(got);
  if (top.size() != 1 || top[0].text != "ast_program_t")
    fail("the tree does not start with one program");
  for (auto &n : top[0].kids) {
    if (n.kind != "ast_decl_var_t" && n.kind != "ast_decl_func_t")
      fail("the program has a part that is no declaration: %s", n.text.c_str());
    shape(n);
  }
  // the declarations of the source, once each and in its order
  Want w{p};
  size_t at = 0, nodes = 0;
  for (auto &it : p.items) {
    const std::string name = it.kind ? "ast_decl_func_t {name: " + p.funcs[size_t(it.idx)].name + "}"
                                     : "ast_decl_var_t {name: " + p.globals[size_t(it.idx)].name + "}";
    while (at < top[0].kids.size() && top[0].kids[at].text != name)
      ++at;
    if (at == top[0].kids.size())
      fail("the tree does not show %s, or not in the source's order", name.c_str());
    const std::string want = w.item(it, true);
    nodes += size_t(std::count(want.begin(), want.end(), '\n'));
    if (!optimize) {
      const std::string g = text_of(top[0].kids[at], 1);
      if (g != want && g != w.item(it, false)) {
        size_t k = 0;
        while (k < g.size() && k < want.size() && g[k] == want[k])
          ++k;
        k = k ? g.rfind('\n', k - 1) : 0;
        k = k == std::string::npos ? 0 : k + (k > 0);
        fail("%s is shown as\n%.300s\nexpected\n%.300s", name.c_str(), g.substr(std::min(k, g.size())).c_str(),
             want.substr(std::min(k, want.size())).c_str());
      }
    }
    ++at;
  }
  // nothing else but host functions and the initialiser, which has an
  // assignment for each global with a value
  std::set<std::string> hosts;
  for (auto &x : prog.syscalls())
    hosts.insert("ast_decl_func_t {name: " + x.name_ + "}");
  size_t extra = 0;
  for (auto &n : top[0].kids) {
    if (hosts.count(n.text)) {
      if (!n.kids.empty())
        fail("host function with a body: %s", n.text.c_str());
      ++extra;
    } else if (n.text == "ast_decl_func_t {name: @init}") {
      ++extra;
      if (!optimize)
        for (auto &g : p.globals)
          if (!g.is_const) {
            const int k = count(n, "ast_stmt_assign_var_t {name: " + g.name + "}");
            if (k != (g.init ? 1 : 0))
              fail("the initialiser assigns '%s' %d times", g.name.c_str(), k);
          }
    }
  }
  if (extra + p.items.size() != top[0].kids.size())
    fail("the tree shows %zu declarations, the source has %zu and there are %zu others",
         top[0].kids.size(), p.items.size(), extra);
  c.label(free ? "free syntax" : "program");
  c.label(optimize ? "optimised" : "not optimised");
  c.nontrivial = nodes >= 20;
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C22";
  sp.rule = "Each case is a generated program, or free syntax that keeps the static rules, printed in "
            "one of several spellings with only the brackets its structure needs or more; the tree "
            "the compiler shows after a build must be the generated structure node for node when the "
            "optimiser is off, and a well formed tree with the same declarations when it is on. "
            "Non-trivial: at least 20 nodes.";
  sp.quick_cases = 80000;
  sp.thorough_cases = 3000000;
  sp.fn = prop;
  sp.assumptions = {"string literals without line breaks"};
  return run(argc, argv, sp);
}
