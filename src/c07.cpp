// C07: exactly the programs that break a static rule are rejected, at the line
// that breaks it.
#include "api.h"
#include <cstring>
#include <set>
using namespace pbt;
using namespace lang;
using namespace nano;

// lines that are no statement
static const char *const BROKEN[] = {
    "out ( 1 + abs ( 2 )", "out ( 1 + abs ( 2 ) ) )", "out ( 1 + )", "out ( \"text )", "out ( 1 2 )",
    "out 1", "var 1 = 2", "if 1", "out ( [ 1 , 2 )", "main + 2", ") out ( 1 )", "out ( , 1 )",
    "out ( 1 , )", "out ( 1 ) out ( 2 )", "if ( 1 ) out ( 1 )", "while ( 1 ) out ( 1 )", "while ( )",
    "while 1", "if ( )", "if ( 1", "for ( q = 0 10 )", "for ( 1 = 0 to 2 )", "for ( q = 0 to )",
    "for ( q to 2 )", "for q = 0 to 2", "for ( q = 0 to 2 ) out ( 1 )", "return )", "return 1 2",
    "return return", "var x y", "var = 1", "var x = ", "var", "var x = 1 var y = 2", "q [ 1 = 2",
    "q [ 1 ] 2", "q [ ] = 2", "q . 1 = 2", "q . m 2", "q . m = ", "q . = 2", "q =", "q = = 1", "q + 1",
    "q - = ", "q % = 2", "q == 1", "function f ( )", "const c = 1", "import \"x\"", "out ( not )",
    "out ( 1 not 2 )", "out ( - )", "out ( 1 == )", "out ( == 1 )", "out ( 1 + * 2 )", "[ 1 ]", "1",
    "\"s\"", "out ( [ ] )", "out ( [ 1 , ] )", "out ( 1 [ ) ", "out ( 1 [ ] )", "out ( ( ) )",
    "out ( ( 1 ) ", "none = 1", "var none", "var if = 1", "var to = 1", "q", "- 1", "not 1", "( 1 )",
    "out ( 1.2.3 )", "out ( .5 )", "out ( 1 . m )", "out ( q . )", "out ( and 1 )", "out ( 1 or )",
    "out ( 1 = 2 )", "out ( 1 < = 2 )", "out ( if )", "out ( end )", "out ( 1 to 2 )", "out ( \"a\" \"b\" )",
    "out ( 1 abs ( 2 ) )", "q ( 1 ) = 2", "q [ 1 ] [ 2 ] = 3", "q [ 1 ] . m = 3", "q . m . n = 3",
};
static const int NUM_BROKEN = int(sizeof(BROKEN) / sizeof(BROKEN[0]));

// text that ends too soon: the fault is on the last line
static const char *const CUT[] = {
    "var", "var zz =", "var zz = 1 +", "var zz = (", "var zz = [ 1", "var zz = abs ( 2", "const", "const zz", "const zz =",
    "import", "function", "function zz", "function zz (", "function zz ( a", "function zz ( a ,", "function zz ( )",
    "function zz ( )\n  out ( 1 )", "function zz ( )\n  out ( 1", "function zz ( )\n  out (", "function zz ( )\n  out",
    "function zz ( )\n  if", "function zz ( )\n  if ( 1", "function zz ( )\n  if ( 1 )", "function zz ( )\n\n  var",
    "function zz ( )\n  if ( 1 )\n    out ( 2 )\n  end", "function zz ( )\n  if ( 1 )\n    out ( 2 )\n  else",
    "function zz ( )\n  while ( 1 )\n    out ( 2 )", "function zz ( )\n  return", "function zz ( )\n  return 1 +",
    "function zz ( )\n  for ( q = 0", "function zz ( a )\n  a", "function zz ( a )\n  a =", "function zz ( a )\n  a [ 1",
    "function zz ( a )\n  a [ 1 ]", "function zz ( a )\n  a .", "function zz ( a )\n  a +=", "function zz ( )\n  # end",
};
static const int NUM_CUT = int(sizeof(CUT) / sizeof(CUT[0]));

struct Site {
  Block *b;
  size_t at;
  std::vector<std::string> visible; // locals and arguments in scope here
  std::set<std::string> expired;    // declared earlier in this function, out of scope here
  bool after_return;                // behind a return of the function's own block
  int fn;
};

static void walk(Block &b, std::vector<std::string> &vis, std::set<std::string> &seen, bool top,
                 int fn, std::vector<Site> &out) {
  const size_t mark = vis.size();
  bool returned = false;
  for (size_t i = 0;; ++i) {
    Site s;
    s.b = &b;
    s.at = i;
    s.visible = vis;
    s.expired = seen;
    for (auto &v : vis)
      s.expired.erase(v);
    s.after_return = returned;
    s.fn = fn;
    out.push_back(s);
    if (i == b.size())
      break;
    Stmt &st = *b[i];
    if (top && st.k == Stmt::Return)
      returned = true;
    const size_t from = out.size();
    if (st.k == Stmt::If || st.k == Stmt::While || st.k == Stmt::For) {
      walk(st.body, vis, seen, false, fn, out);
      if (st.has_else)
        walk(st.other, vis, seen, false, fn, out);
    }
    for (size_t k = from; k < out.size(); ++k)
      out[k].after_return |= returned;
    if (st.k == Stmt::Decl) {
      vis.push_back(st.name);
      seen.insert(st.name);
    }
  }
  if (!top)
    vis.resize(mark);
}

static EP wrap(Src &s, EP e) {
  // somewhere inside an expression
  for (int n = int(s.below(s.chance(1, 20) ? 12 : 3)); n > 0; --n)
    switch (s.below(16)) {
    case 14:
    case 15: { // among many
      std::vector<EP> v;
      const size_t k = 1 + s.below(12), at = s.below(uint32_t(k));
      for (size_t i = 0; i < k; ++i)
        v.push_back(i == at ? e : mk_int(int32_t(i)));
      e = s.chance(1, 2) ? mk_arr(v) : s.chance(1, 2) ? mk_callf("vout", v) : mk_call(mk_index(mk_arr({mk_int(1)}), mk_int(0)), v);
      break;
    }
    case 12: e = mk_call(mk_callf("abs", {e}), {mk_int(1)}); break;
    case 13: e = mk_call(mk_callf("abs", {mk_int(1)}), {mk_int(2), e}); break;
    case 0: e = mk_bin(ADD, e, mk_int(1)); break;
    case 1: e = mk_bin(MUL, mk_int(2), e); break;
    case 6: e = mk_neg(e); break;
    case 7: e = mk_bin(Op(LT + s.below(7)), e, mk_int(3)); break;
    case 8: e = mk_bin(Op(LT + s.below(7)), mk_str("a"), e); break;
    case 9: e = mk_index(e, mk_int(0)); break;
    case 10: e = mk_call(mk_index(mk_arr({e}), mk_int(0)), {mk_int(1), mk_int(2)}); break;
    case 11: e = mk_call(mk_index(mk_arr({mk_int(1)}), mk_int(0)), {mk_int(1), e}); break;
    case 2: e = mk_arr({mk_int(1), e}); break;
    case 3: e = mk_callf("vout", {mk_int(0), e}); break;
    case 4: e = mk_not(e); break;
    default: e = mk_index(mk_arr({mk_int(1), mk_int(2)}), e); break;
    }
  return e;
}

// any valid expression at this point
static EP any_expr(Src &s, const Prog &p, const Site &at, int d = 2) {
  const int k = int(s.below(d > 0 ? 14 : 6));
  switch (k) {
  case 0: return mk_int(int32_t(s.below(9)));
  case 1: return mk_str("s");
  case 2: return mk_flt(12);
  case 3: return mk_none();
  case 4:
    if (!at.visible.empty())
      return mk_var(s.pick(at.visible));
    return mk_int(3);
  case 5:
    if (!p.globals.empty())
      return mk_var(s.pick(p.globals).name);
    return mk_int(4);
  case 6: return mk_arr({any_expr(s, p, at, d - 1)});
  case 7: return mk_bin(Op(s.below(3)), any_expr(s, p, at, d - 1), any_expr(s, p, at, d - 1));
  case 8: return mk_neg(any_expr(s, p, at, d - 1));
  case 9: return mk_not(any_expr(s, p, at, d - 1));
  case 10: return mk_callf("abs", {any_expr(s, p, at, d - 1)});
  case 11: return mk_index(any_expr(s, p, at, d - 1), any_expr(s, p, at, d - 1));
  case 12: {
    auto &f = s.pick(p.funcs);
    std::vector<EP> a;
    for (size_t i = 0; i < f.args.size(); ++i)
      a.push_back(any_expr(s, p, at, d - 1));
    return mk_callf(f.name, a);
  }
  default: return mk_bin(Op(5 + s.below(7)), any_expr(s, p, at, d - 1), any_expr(s, p, at, d - 1));
  }
}

// a statement that evaluates e
static SP use(Src &s, EP e, const std::string &fresh) {
  switch (s.below(7)) {
  case 0: return st_out(e);
  case 1: return st_decl(fresh, e);
  case 2: return st_return(e);
  case 3: {
    auto st = std::make_shared<Stmt>(Stmt::If);
    st->e = e;
    return st;
  }
  case 4: {
    auto st = std::make_shared<Stmt>(Stmt::While);
    st->e = e;
    return st;
  }
  case 5: return st_call("vout", {mk_int(1), e});
  default: return st_call("vout", {e, mk_int(1)});
  }
}

static void prop(Src &s, Case &c) {
  GenOpts o;
  o.max_funcs = 4;
  o.max_globals = 5;
  o.stmts = 5;
  o.edepth = 2;
  o.fn_to_string = true;
  Gen g(s, o);
  g.program("main");
  Prog &p = g.p;
  p.funcs.reserve(p.funcs.size() + 4); // sites point into them
  std::vector<Site> sites;
  for (size_t i = 0; i < p.funcs.size(); ++i) {
    std::vector<std::string> vis = p.funcs[i].args;
    std::set<std::string> seen(vis.begin(), vis.end());
    walk(p.funcs[i].body, vis, seen, true, int(i), sites);
  }
  Site at = s.pick(sites);
  std::vector<std::string> consts, vars;
  for (auto &x : p.globals)
    (x.is_const ? consts : vars).push_back(x.name);
  const std::string nope = s.chance(1, 2) ? "nope" : "outt";
  const std::string fresh = "fresh_q";
  const bool optimize = s.chance(1, 2);

  api::SysList hosts;  // more functions of the host
  SP st;               // the statement that breaks the rule
  SP wrapped;          // the statement it is part of
  std::string kind, name;
  Style style;
  style.src = &s;
  style.vary_lines = s.chance(1, 2);
  bool expect_reject = true;
  int line = 0;        // set below when it is not st's line
  bool exact = true;   // the line is known
  enum { in_stmt, second_global, second_func, text_edit, unbalanced, arg_twice, cut_short, joined, split, none_at_all } where = in_stmt;
  Global *gl = nullptr;
  Func *fl = nullptr;
  int edit = -1;

  switch (s.weighted({2, 3, 3, 2, 3, 2, 3, 3, 2, 2, 3, 2, 2, 3, 2, 2, 2, 2, 2, 2, 2, 8, 4, 4, 2, 4, 4, 4})) {
  case 0: { // nothing wrong
    kind = "valid";
    expect_reject = false;
    where = none_at_all;
    break;
  }
  case 1: { // unknown name in an expression
    kind = "unknown identifier";
    name = nope;
    EP e = mk_var(nope);
    switch (s.below(4)) {
    case 0: e = mk_index(e, mk_int(0)); break;
    case 1: e = mk_member(nope, "length"); break;
    case 2: e = mk_neg(e); break;
    default: break;
    }
    st = use(s, wrap(s, e), fresh);
    break;
  }
  case 2: { // a name whose scope has ended
    if (at.expired.empty())
      throw Discard{"no ended scope"};
    kind = "variable used outside its scope";
    std::vector<std::string> v(at.expired.begin(), at.expired.end());
    name = s.pick(v);
    if (s.chance(1, 2))
      st = use(s, wrap(s, mk_var(name)), fresh);
    else
      st = st_assign(name, mk_int(1));
    break;
  }
  case 3: { // local of another function
    std::vector<std::string> v;
    for (auto &x : sites)
      if (x.fn != at.fn)
        for (auto &n : x.visible)
          if (std::find(at.visible.begin(), at.visible.end(), n) == at.visible.end())
            v.push_back(n);
    // later in the same function it may be declared: fine, still unknown here
    if (v.empty())
      throw Discard{"no other locals"};
    kind = "local of another function";
    name = s.pick(v);
    st = use(s, wrap(s, mk_var(name)), fresh);
    break;
  }
  case 4: { // assignment to an unknown name
    kind = "assignment to unknown name";
    name = nope;
    switch (s.below(4)) {
    case 0: st = st_assign(nope, any_expr(s, p, at)); break;
    case 1:
      st = std::make_shared<Stmt>(Stmt::ArrSet);
      st->e = any_expr(s, p, at);
      st->e2 = any_expr(s, p, at);
      break;
    case 2:
      st = std::make_shared<Stmt>(Stmt::Compound);
      st->op = Op(s.below(4));
      st->e = any_expr(s, p, at);
      break;
    default:
      st = std::make_shared<Stmt>(Stmt::For);
      st->e = any_expr(s, p, at);
      st->e2 = any_expr(s, p, at);
      break;
    }
    st->name = nope;
    break;
  }
  case 5: { // member assignment to an unknown name
    kind = "member assignment to unknown name";
    name = nope;
    st = std::make_shared<Stmt>(Stmt::MemSet);
    st->name = nope;
    st->member = "m";
    st->e = any_expr(s, p, at);
    break;
  }
  case 6: { // declared twice
    std::vector<std::string> v = at.visible;
    if (v.empty())
      throw Discard{"nothing in scope"};
    kind = "local declared twice";
    name = s.pick(v);
    st = st_decl(name, s.chance(1, 2) ? mk_int(1) : nullptr);
    break;
  }
  case 7: { // local named like a global, function or argument above it
    kind = "local named like an earlier global or function";
    std::vector<std::string> v;
    for (auto &it : p.items) {
      if (it.kind == 1 && it.idx == at.fn)
        break;
      v.push_back(it.kind ? p.funcs[size_t(it.idx)].name : p.globals[size_t(it.idx)].name);
    }
    v.push_back(p.funcs[size_t(at.fn)].name);
    v.push_back("abs");
    name = s.pick(v);
    if (s.chance(1, 4)) { // an argument
      kind = "argument named like an earlier global or function";
      fl = &p.funcs[size_t(at.fn)];
      fl->args.insert(fl->args.begin() + long(s.below(uint32_t(fl->args.size()) + 1)), name);
      // callers must not be wrong too
      for (auto &f : p.funcs)
        f.body.clear();
      for (auto &x : p.globals)
        x.init = nullptr, x.is_const = false;
      where = arg_twice;
      break;
    }
    st = st_decl(name, mk_int(1));
    break;
  }
  case 8: { // two globals
    kind = "global declared twice";
    std::vector<std::string> v;
    for (auto &x : p.globals)
      v.push_back(x.name);
    for (auto &x : p.funcs)
      v.push_back(x.name);
    if (s.chance(1, 4))
      v = {"abs", "new_array", "vout"};
    name = s.pick(v);
    where = second_global;
    // a name with two meanings may break another rule first
    exact = p.find_global(name) && !p.find_global(name)->is_const;
    break;
  }
  case 9: { // two functions
    kind = "function declared twice";
    std::vector<std::string> v;
    for (auto &x : p.globals)
      v.push_back(x.name);
    for (auto &x : p.funcs)
      v.push_back(x.name);
    if (s.chance(1, 4))
      v = {"abs", "new_array", "vout"};
    name = s.pick(v);
    where = second_func;
    exact = p.find_func(name) != nullptr;
    break;
  }
  case 10: { // number of arguments
    kind = "wrong number of arguments";
    std::vector<std::pair<std::string, int>> v;
    for (auto &f : p.funcs)
      v.push_back({f.name, int(f.args.size())});
    v.push_back({"abs", 1});
    v.push_back({"min", 2});
    v.push_back({"out", 1});
    v.push_back({"new_array", 1});
    auto f = s.pick(v);
    int n = int(s.below(5));
    if (n == f.second)
      ++n;
    if (s.chance(1, 4)) {
      // a function, of the host or of the program, with many arguments
      const int k = int(s.below(s.chance(1, 2) ? 12 : 200));
      if (s.chance(1, 2)) {
        f = {"zz_host", k};
        hosts = {f};
      } else {
        Func z;
        z.name = "zz_many";
        for (int i = 0; i < k; ++i)
          z.args.push_back(fmt("zz_a%d", i));
        p.funcs.push_back(z);
        p.items.insert(p.items.begin() + long(s.below(uint32_t(p.items.size() + 1))), Item{1, int(p.funcs.size()) - 1});
        f = {"zz_many", k};
      }
      n = std::max(0, k - 2 + int(s.below(5)));
      if (s.chance(1, 3))
        n = int(s.below(uint32_t(k + 200)));
      kind = "number of arguments";
      expect_reject = n != k;
    }
    name = f.first;
    std::vector<EP> args;
    for (int i = 0; i < n; ++i)
      args.push_back(any_expr(s, p, at));
    if (s.chance(1, 2))
      st = st_call(name, args);
    else
      st = use(s, wrap(s, mk_callf(name, args)), fresh);
    break;
  }
  case 11: { // unknown function
    kind = "unknown function";
    name = nope;
    if (s.chance(1, 2))
      st = st_call(nope, {any_expr(s, p, at)});
    else
      st = use(s, wrap(s, mk_callf(nope, {any_expr(s, p, at)})), fresh);
    break;
  }
  case 12: { // a function is not a variable
    kind = "assignment to a function";
    name = s.chance(1, 3) ? std::string("abs") : s.pick(p.funcs).name;
    switch (s.below(4)) {
    case 0: st = st_assign(name, any_expr(s, p, at)); break;
    case 1:
      st = std::make_shared<Stmt>(Stmt::ArrSet);
      st->e = any_expr(s, p, at);
      st->e2 = any_expr(s, p, at);
      break;
    case 2:
      st = std::make_shared<Stmt>(Stmt::Compound);
      st->op = Op(s.below(4));
      st->e = any_expr(s, p, at);
      break;
    default:
      st = std::make_shared<Stmt>(Stmt::For);
      st->e = any_expr(s, p, at);
      st->e2 = any_expr(s, p, at);
      break;
    }
    st->name = name;
    break;
  }
  case 13: { // constants are read only
    if (consts.empty())
      throw Discard{"no constants"};
    kind = "assignment to a constant";
    name = s.pick(consts);
    switch (s.below(5)) {
    case 0: st = st_assign(name, any_expr(s, p, at)); break;
    case 1:
      st = std::make_shared<Stmt>(Stmt::ArrSet);
      st->e = any_expr(s, p, at);
      st->e2 = any_expr(s, p, at);
      break;
    case 2:
      st = std::make_shared<Stmt>(Stmt::Compound);
      st->op = Op(s.below(4));
      st->e = any_expr(s, p, at);
      break;
    case 3:
      st = std::make_shared<Stmt>(Stmt::MemSet);
      st->member = "m";
      st->e = any_expr(s, p, at);
      break;
    default:
      st = std::make_shared<Stmt>(Stmt::For);
      st->e = any_expr(s, p, at);
      st->e2 = any_expr(s, p, at);
      break;
    }
    st->name = name;
    break;
  }
  case 14: { // a constant without a value
    kind = "constant without a value";
    name = fresh;
    where = second_global;
    break;
  }
  case 15: { // constants divided by zero
    kind = "constant division by zero";
    if (at.after_return)
      throw Discard{"dead code"};
    EP zero = s.chance(1, 2) ? mk_int(0) : mk_bin(SUB, mk_int(3), mk_int(3));
    st = use(s, wrap(s, mk_bin(s.chance(1, 2) ? DIV : MOD, mk_int(1 + int(s.below(5))), zero)), fresh);
    expect_reject = optimize;
    break;
  }
  case 16: { // the same in a global
    kind = "global initialised with a constant division by zero";
    where = second_global;
    name = "";
    break;
  }
  case 17: { // two arguments of one name
    std::vector<size_t> v;
    for (size_t i = 0; i < p.funcs.size(); ++i)
      if (!p.funcs[i].args.empty())
        v.push_back(i);
    if (v.empty())
      throw Discard{"no arguments"};
    kind = "argument declared twice";
    fl = &p.funcs[s.pick(v)];
    name = s.pick(fl->args);
    fl->args.push_back(name);
    // callers must not be wrong too
    for (auto &f : p.funcs)
      f.body.clear();
    for (auto &x : p.globals)
      x.init = nullptr, x.is_const = false;
    where = arg_twice;
    break;
  }
  case 18: { // functions and constants have no members
    kind = "member of a function or constant";
    std::vector<std::string> v = consts;
    for (auto &f : p.funcs)
      v.push_back(f.name);
    v.push_back("abs");
    name = s.pick(v);
    st = use(s, wrap(s, mk_member(name, s.chance(1, 2) ? "length" : "m")), fresh);
    break;
  }
  case 19: { // a name may be used again once its scope has ended
    if (at.expired.empty())
      throw Discard{"no ended scope"};
    kind = "name declared again after its scope";
    expect_reject = false;
    std::vector<std::string> v(at.expired.begin(), at.expired.end());
    name = s.pick(v);
    st = std::make_shared<Stmt>(s.chance(1, 2) ? Stmt::If : Stmt::While);
    st->e = mk_int(0);
    st->body.push_back(st_decl(name, mk_int(1)));
    st->body.push_back(use(s, wrap(s, mk_var(name)), fresh));
    if (st->k == Stmt::If && s.chance(1, 2)) {
      st->has_else = true;
      st->other.push_back(st_decl(name, mk_int(2)));
      st->other.push_back(st_assign(name, mk_int(2)));
    }
    break;
  }
  case 20: { // unbalanced blocks
    kind = "unbalanced end";
    where = unbalanced;
    exact = false;
    break;
  }
  case 22: { // a variable has no meaning outside the block that declares it
    kind = "variable used around the block that declares it";
    name = fresh;
    const EP e = wrap(s, mk_var(fresh));
    SP decl = st_decl(fresh, s.chance(1, 2) ? mk_int(1) : nullptr);
    SP blk;
    switch (s.below(8)) {
    case 0: // the condition of its own loop or branch
    case 1:
      blk = st = std::make_shared<Stmt>(s.chance(1, 2) ? Stmt::If : Stmt::While);
      st->e = e;
      st->body.push_back(decl);
      break;
    case 2: // the condition, declared in the other branch
      blk = st = std::make_shared<Stmt>(Stmt::If);
      st->e = e;
      st->has_else = true;
      st->other.push_back(decl);
      break;
    case 3: { // else, declared in the first branch
      blk = std::make_shared<Stmt>(Stmt::If);
      blk->e = mk_int(1);
      blk->body.push_back(decl);
      blk->has_else = true;
      st = s.chance(1, 2) ? st_out(e) : st_assign(fresh, mk_int(1));
      blk->other.push_back(st);
      break;
    }
    case 4: { // behind the block
      blk = std::make_shared<Stmt>(s.chance(1, 2) ? Stmt::If : Stmt::While);
      blk->e = mk_int(0);
      blk->body.push_back(decl);
      if (s.chance(1, 2)) {
        // two deep
        SP in = std::make_shared<Stmt>(Stmt::If);
        in->e = mk_int(0);
        in->body = blk->body;
        blk->body = {in};
        blk->body.push_back(st_out(mk_int(3)));
      }
      st = s.chance(1, 2) ? st_out(e) : st_assign(fresh, mk_int(1));
      blk->body.push_back(st_out(mk_int(2)));
      at.b->insert(at.b->begin() + long(at.at), blk);
      ++at.at;
      blk = st;
      break;
    }
    case 5: // its own initialiser
      blk = st = st_decl(fresh, e);
      break;
    case 6: { // before its declaration
      st = s.chance(1, 2) ? st_out(e) : st_assign(fresh, mk_int(1));
      at.b->insert(at.b->begin() + long(at.at), decl);
      blk = st;
      break;
    }
    default: { // inside a block before the declaration
      blk = std::make_shared<Stmt>(s.chance(1, 2) ? Stmt::If : Stmt::While);
      blk->e = mk_int(0);
      st = s.chance(1, 2) ? st_out(e) : st_assign(fresh, mk_int(1));
      blk->body.push_back(st);
      at.b->insert(at.b->begin() + long(at.at), decl);
      break;
    }
    }
    wrapped = blk;
    break;
  }
  case 23: { // names may be used again where nothing clashes
    kind = "names reused in blocks side by side";
    expect_reject = false;
    const int n = 2 + int(s.below(3));
    SP outer = std::make_shared<Stmt>(Stmt::If);
    outer->e = mk_int(1);
    for (int i = 0; i < n; ++i) {
      SP b = std::make_shared<Stmt>(s.chance(1, 2) ? Stmt::If : Stmt::While);
      b->e = mk_int(0);
      b->body.push_back(st_decl(fresh, s.chance(1, 2) ? mk_int(i) : nullptr));
      b->body.push_back(s.chance(1, 2) ? st_out(wrap(s, mk_var(fresh))) : st_assign(fresh, mk_int(1)));
      if (b->k == Stmt::If && s.chance(1, 2)) {
        b->has_else = true;
        b->other.push_back(st_decl(fresh, mk_int(i)));
        b->other.push_back(st_out(mk_var(fresh)));
      }
      outer->body.push_back(b);
    }
    if (s.chance(1, 2)) {
      outer->body.push_back(st_decl(fresh, mk_int(5)));
      outer->body.push_back(st_out(mk_var(fresh)));
    }
    st = outer;
    wrapped = outer;
    break;
  }
  case 25: { // blocks inside blocks, each with a name of its own
    const int n = 1 + int(s.below(s.chance(1, 3) ? 24 : 10));
    const int mine = int(s.below(uint32_t(n))); // the block whose name is used again
    const bool twice = s.chance(1, 2);
    kind = twice ? "name of a surrounding block declared again" : "name of an ended inner block used";
    name = fmt("zd_%d", mine);
    // the uses stand in the innermost block, or behind the block that declares
    if (twice)
      st = st_decl(name, s.chance(1, 2) ? mk_int(1) : nullptr);
    else
      st = s.chance(1, 2) ? use(s, wrap(s, mk_var(name)), fresh) : st_assign(name, mk_int(1));
    SP in = twice ? st : st_out(mk_int(1));
    for (int k = n - 1; k >= 0; --k) {
      SP b = std::make_shared<Stmt>(s.chance(1, 3) ? Stmt::While : Stmt::If);
      b->e = mk_int(b->k == Stmt::If);
      Block body;
      if (k == mine || s.chance(1, 2))
        body.push_back(st_decl(fmt("zd_%d", k), mk_int(k)));
      body.push_back(in);
      if (!twice && k == mine - 1)
        body.push_back(st);
      if (b->k == Stmt::If && s.chance(1, 3)) {
        b->has_else = true;
        b->other = body;
      } else
        b->body = body;
      in = b;
    }
    if (!twice && mine == 0) {
      at.b->insert(at.b->begin() + long(at.at), in);
      ++at.at;
      in = st;
    }
    wrapped = in;
    break;
  }
  case 26: { // two statements on one line
    kind = "two lines joined";
    where = joined;
    style.vary_lines = false;
    break;
  }
  case 27: { // a statement on two lines
    kind = "a line split in two";
    where = split;
    style.vary_lines = false;
    exact = false;
    break;
  }
  case 24: { // the text ends too soon
    kind = "cut short";
    where = cut_short;
    edit = int(s.below(NUM_CUT));
    break;
  }
  default: // break the text of one statement
    kind = "syntax";
    where = text_edit;
    edit = int(s.below(NUM_BROKEN + 24));
    st = st_out(mk_bin(ADD, mk_int(1), mk_callf("abs", {mk_int(2)})));
    break;
  }

  // ---- build the text
  if (st) {
    // a statement behind it that declares `fresh` again would be a second fault
    SP it = wrapped ? wrapped : st;
    // deep inside other blocks, some of which declare names of their own
    for (int k = s.chance(1, 5) ? 1 + int(s.below(9)) : 0; k > 0; --k) {
      SP b = std::make_shared<Stmt>(s.chance(1, 3) ? Stmt::While : Stmt::If);
      b->e = mk_int(b->k == Stmt::If);
      Block in;
      if (s.chance(1, 2))
        in.push_back(st_decl(fmt("zw_%d", k), mk_int(k)));
      in.push_back(it);
      if (s.chance(1, 3))
        in.push_back(st_out(mk_int(k)));
      if (b->k == Stmt::If && s.chance(1, 2)) {
        b->has_else = true;
        b->other = in;
        b->body.push_back(st_out(mk_int(k)));
      } else
        b->body = in;
      it = b;
    }
    at.b->insert(at.b->begin() + long(at.at), it);
  }
  if (where == second_global) {
    Global x;
    x.name = name.empty() ? fresh : name;
    if (kind[0] == 'g' && kind[7] == 'i')
      x.init = mk_bin(s.chance(1, 2) ? DIV : MOD, mk_int(4), mk_int(0));
    else if (kind[0] == 'c')
      x.is_const = true;
    else
      x.init = s.chance(1, 2) ? mk_int(1) : nullptr;
    p.globals.push_back(x);
    Item it{0, int(p.globals.size()) - 1};
    // behind every other item: the second declaration is the wrong one
    p.items.push_back(it);
  }
  if (where == second_func) {
    Func f;
    f.name = name;
    f.body.push_back(st_out(mk_int(1)));
    p.funcs.push_back(f);
    p.items.push_back(Item{1, int(p.funcs.size()) - 1});
  }
  std::string text = print(p, style);
  if (st)
    line = st->line;
  if (where == second_global)
    line = p.globals.back().line;
  if (where == second_func)
    line = p.funcs.back().line;
  if (where == arg_twice)
    line = fl->line;
  if (where == unbalanced) {
    std::vector<size_t> ends;
    std::vector<int> lines;
    int ln = 1;
    for (size_t pos = 0; pos < text.size(); ++ln) {
      size_t e = text.find('\n', pos);
      if (e == std::string::npos)
        e = text.size();
      size_t a = pos;
      while (a < e && (text[a] == ' ' || text[a] == '\t'))
        ++a;
      if (text.compare(a, e - a, "end") == 0)
        ends.push_back(pos), lines.push_back(ln);
      pos = e + 1;
    }
    const size_t k = s.below(uint32_t(ends.size()));
    const bool add = s.chance(1, 2);
    line = lines[k];
    if (add)
      text.insert(ends[k], "end\n");
    else
      text.erase(ends[k], text.find('\n', ends[k]) + 1 - ends[k]);
    kind += add ? ", one too many" : ", one missing";
  }
  if (where == joined || where == split) {
    const Func &f = s.pick(p.funcs);
    if (f.end_line <= f.line)
      throw Discard{"no lines"};
    // statements end where their lines end
    line = f.line + int(s.below(uint32_t(f.end_line - f.line)));
    size_t pos = 0;
    for (int i = 1; i < line; ++i)
      pos = text.find('\n', pos) + 1;
    const size_t end = text.find('\n', pos);
    size_t end2 = text.find('\n', end + 1);
    if (end2 == std::string::npos)
      end2 = text.size();
    auto trim = [](std::string x) {
      while (!x.empty() && strchr(" \t\r", x.back()))
        x.pop_back();
      size_t i = 0;
      while (i < x.size() && strchr(" \t\r", x[i]))
        ++i;
      return x.substr(i);
    };
    const std::string a = trim(text.substr(pos, end - pos)), b = trim(text.substr(end + 1, end2 - end - 1));
    std::string low = a.substr(0, 6);
    for (auto &ch : low)
      ch = char(tolower(ch));
    if (low == "return" && (where == split || a.size() == 6))
      throw Discard{"a return may end there"};
    if (a.find('#') != std::string::npos || b.find('#') != std::string::npos)
      throw Discard{"comments"};
    if (where == joined) {
      if (a.empty() || b.empty())
        throw Discard{"blank line"};
      text.replace(end, 1, " ");
    } else {
      std::vector<size_t> at_;
      for (size_t i = 1; i + 1 < a.size(); ++i)
        if (a[i] == ' ')
          at_.push_back(i);
      if (at_.empty())
        throw Discard{"nothing to split"};
      const size_t k = s.pick(at_);
      const std::string l = trim(a.substr(0, k)), r = trim(a.substr(k));
      if (l.empty() || r.empty())
        throw Discard{"nothing to split"};
      text = text.substr(0, pos) + l + "\n" + r + text.substr(end);
    }
  }
  if (where == cut_short) {
    if (text.empty() || text.back() != '\n')
      text += "\n";
    text += CUT[edit];
    line = 1 + int(std::count(text.begin(), text.end(), '\n'));
    if (s.chance(1, 3))
      text += " # cut";
    kind += fmt(" %d", edit);
  }
  if (where == text_edit) {
    // find the statement's line
    size_t pos = 0;
    for (int i = 1; i < line; ++i)
      pos = text.find('\n', pos) + 1;
    const size_t end = text.find('\n', pos);
    std::string l = text.substr(pos, end - pos);
    if (edit < NUM_BROKEN) {
      l = BROKEN[edit];
    } else if (edit >= NUM_BROKEN + 12) {
      // a list of any length, or parentheses of any depth, with one thing wrong
      static const char *const el[] = {"1", "- 2", "\"t\"", "none", "1.5", "abs ( 3 )", "[ 4 ]", "( 5 )", "1 + 2", "not 6"};
      static const char *const open[] = {"vout (", "var zq = vout (", "var zq = [", "return [", "out ( [", "if ( vout ("};
      static const char *const close[] = {" )", " )", " ]", " ]", " ] )", " ) )\nend"};
      const int form = int(s.below(6));
      const int n = 1 + int(s.below(s.chance(1, 3) ? 30 : 8));
      const int wrong = int(s.below(4)), where_w = int(s.below(uint32_t(n)));
      l = open[form];
      if (s.chance(1, 3)) { // parentheses
        l = s.chance(1, 2) ? "out (" : "var zq =";
        const bool call = l[0] == 'o';
        for (int i = 0; i < n; ++i)
          l += s.chance(1, 4) ? " 2 + (" : s.chance(1, 4) ? " abs (" : " (";
        l += " 1";
        const int m = n + (s.chance(1, 2) ? 1 : -1);
        for (int i = 0; i < m; ++i)
          l += " )";
        if (call)
          l += " )";
      } else {
        for (int i = 0; i < n; ++i) {
          if (i)
            l += wrong == 0 && i == where_w ? " " : " ,";
          if (wrong == 1 && i == where_w)
            l += " ,";
          if (!(wrong == 2 && i == where_w))
            l += std::string(" ") + (wrong == 0 ? "x" : el[s.below(10)]);
        }
        // names, so that nothing joins the two that lack their comma
        if (wrong == 0 && where_w == 0)
          l += " x";
        if (wrong == 2 && n == 1 && (form < 2 || form == 5))
          l += " ,";
        if (wrong == 3)
          l += "\nout ( 1 )"; // never closed
        else
          l += close[form];
      }
    } else {
      // a character that is no part of the language
      std::string bad = "$@!^&?:;'~`{}|\\\x01\x07\x0b\x1f\x7f\x80\xa3\xe2\xff";
      const char ch = bad[s.below(uint32_t(bad.size()))];
      static const char *const rest[] = {"out ( 1 %c 2 )", "out ( %c )",   "%c out ( 1 )", "out ( 1 ) %c",
                                         "out%c ( 1 )",    "%cout ( 1 )", "%c",           "var %c = 1",
                                         "var a%c = 1",    "out ( 1%c )",  "out ( 1.%c )"};
      l = fmt(rest[s.below(11)], ch);
    }
    text = text.substr(0, pos) + l + text.substr(end);
    kind += fmt(" %d", edit);
  }
  c.show(fmt("# %s, line %d%s\n", kind.c_str(), line, optimize ? ", optimised" : "") + text);
  c.label(kind);
  auto b = api::compile(text, optimize, hosts);
  c.nontrivial = p.funcs.size() >= 2 || kind != "valid";
  if (!expect_reject) {
    if (!b.ok)
      fail("%s: rejected with '%s' (line %d)", kind.c_str(), b.err.error.c_str(), b.err.line.line);
    return;
  }
  if (b.ok)
    fail("%s: accepted", kind.c_str());
  if (b.err.error.empty())
    fail("%s: rejected without a message", kind.c_str());
  if (where == split && (b.err.line.file != 0 || b.err.line.line < line || b.err.line.line > line + 1))
    fail("%s: reported at file %d line %d, expected line %d or the next (%s)", kind.c_str(), b.err.line.file, b.err.line.line, line,
         b.err.error.c_str());
  if (exact && (b.err.line.file != 0 || b.err.line.line != line))
    fail("%s: reported at file %d line %d, expected line %d (%s)", kind.c_str(), b.err.line.file,
         b.err.line.line, line, b.err.error.c_str());
  if (exact && !name.empty() && b.err.error.find(name) == std::string::npos)
    fail("%s: the message does not name '%s': %s", kind.c_str(), name.c_str(), b.err.error.c_str());
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C07";
  sp.rule = "Each case is a generated valid program with at most one broken rule planted at a random "
            "point (unknown or out of scope names, double declarations, wrong argument counts, "
            "writes to constants and functions, constant division by zero, broken syntax). It must "
            "be rejected, at the line and with the name of the fault, and accepted when nothing is "
            "broken. Non-trivial: a fault was planted, or at least two functions.";
  sp.quick_cases = 600000;
  sp.thorough_cases = 10000000;
  sp.fn = prop;
  sp.assumptions = {"one fault per program: which of several faults is reported first is not fixed"};
  return run(argc, argv, sp);
}
