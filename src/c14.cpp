// C14: what the host and the program exchange - host functions, operation
// handlers, arguments, results, globals, resets - is what either side gave.
#include "api.h"
using namespace pbt;
using namespace lang;
using namespace nano;

// ---- what the host decides, by the look of the values only, so that the model
// and the vm side can share it
struct Rules {
  uint32_t salt = 0;
  bool members = false, elements = false, operators = false;
};
enum Give { refuse, give_left, give_right, give_int, give_str, give_none, give_error };
static const ref::Err g_err[] = {ref::bad_argument, ref::div_zero, ref::array_bounds, ref::type_operation,
                                 ref::member_access, ref::bad_num_args, ref::array_index};
struct Decision {
  Give g;
  int32_t n;
};
static Decision decide(const Rules &r, int freq, const std::string &what) {
  const uint64_t h = hash_str(what + fmt("/%u", r.salt));
  if (int(h % 16) >= freq)
    return {refuse, 0};
  if ((h >> 32) % 24 == 0)
    return {give_error, int32_t((h >> 16) % 7)};
  return {Give(1 + (h >> 8) % 5), int32_t((h >> 16) % 7)};
}

// one vm and its host state
struct Side {
  vm_t *vm = nullptr;
  std::vector<std::string> log;
  int counter = 0, flaky = 0;
  int errors = 0, finishes = 0;
  int cb_errors = 0; // failed call backs whose threads the vm may still hold
};
static std::vector<Side *> g_sides;
static Rules g_rules;
static Side &side(thread_t &t) {
  for (auto *s : g_sides)
    if (s->vm == &t.vm())
      return *s;
  return *g_sides[0];
}
static std::string d(thread_t &t, const value_t *v) { return api::dump(v, t.vm().program()); }

static void log(Side &s, const std::string &x) {
  if (s.log.size() < 60000)
    s.log.push_back(x);
}
static void sys_out(thread_t &t, int32_t) {
  value_t *v = t.get_stack().pop();
  log(side(t), d(t, v));
  t.get_stack().push(v);
}
static void sys_vout(thread_t &t, int32_t n) {
  std::vector<std::string> a;
  for (int i = 0; i < n; ++i)
    a.push_back(d(t, t.get_stack().pop()));
  std::string r = "(";
  for (size_t i = a.size(); i-- > 0;)
    r += a[i] + ";";
  log(side(t), r + ")");
  t.get_stack().push_int(n);
}
static void sys_s0(thread_t &t, int32_t n) {
  Side &s = side(t);
  log(s, fmt("s0/%d", n));
  t.get_stack().push_int(s.counter++);
}
static void sys_s1(thread_t &t, int32_t n) {
  value_t *a = t.get_stack().pop();
  log(side(t), fmt("s1/%d ", n) + d(t, a));
  t.get_stack().push(a);
}
static void sys_s2(thread_t &t, int32_t n) {
  value_t *b = t.get_stack().pop();
  value_t *a = t.get_stack().pop();
  log(side(t), fmt("s2/%d ", n) + d(t, a) + " " + d(t, b));
  t.get_stack().push(b);
}
static void sys_s3(thread_t &t, int32_t n) {
  value_t *c = t.get_stack().pop();
  value_t *b = t.get_stack().pop();
  value_t *a = t.get_stack().pop();
  log(side(t), fmt("s3/%d ", n) + d(t, a) + " " + d(t, b) + " " + d(t, c));
  value_t *r = t.gc().new_array(3);
  r->array()[0] = a;
  r->array()[1] = b;
  r->array()[2] = c;
  t.get_stack().push(r);
}
static void sys_sv(thread_t &t, int32_t n) {
  std::vector<value_t *> a(static_cast<size_t>(n));
  for (int i = n; i-- > 0;)
    a[size_t(i)] = t.get_stack().pop();
  std::string r = fmt("sv/%d", n);
  for (auto *x : a)
    r += " " + d(t, x);
  log(side(t), r);
  if (n == 0)
    t.get_stack().push_string("none given");
  else
    t.get_stack().push(a.back());
}
static void sys_serr(thread_t &t, int32_t n) {
  value_t *a = t.get_stack().pop();
  Side &s = side(t);
  log(s, fmt("serr/%d ", n) + d(t, a));
  if (++s.flaky % 3 == 0)
    t.raise_error(thread_error_t(api::err_code(g_err[s.flaky / 3 % 7])));
  t.get_stack().push(a);
}
static void sys_sbad(thread_t &t, int32_t n) {
  log(side(t), fmt("sbad/%d", n));
  t.raise_error(thread_error_t::e_bad_argument);
  t.get_stack().push_none();
}
static void sys_hlt(thread_t &t, int32_t n) {
  value_t *a = t.get_stack().pop();
  log(side(t), fmt("hlt/%d ", n) + d(t, a));
  t.halt();
  t.get_stack().push(a);
}

// a host function that calls back into the program
static void sys_cb(thread_t &t, int32_t n) {
  static const value_t none;
  std::vector<value_t *> a(static_cast<size_t>(n));
  for (int i = n; i-- > 0;)
    a[size_t(i)] = t.get_stack().pop();
  std::string r = fmt("cb/%d", n);
  for (auto *x : a)
    r += " " + d(t, x);
  Side &s = side(t);
  log(s, r);
  if (n == 0 || !a[0]->is_a<val_type_func>()) {
    t.get_stack().push_none();
    return;
  }
  const function_t *f = t.vm().program().function_find(a[0]->v);
  if (!f)
    fail("a function value names no function");
  std::vector<const value_t *> argv;
  for (size_t i = 1; i < a.size(); ++i)
    argv.push_back(a[i] ? a[i] : &none);
  value_t *ret = nullptr;
  thread_error_t err = thread_error_t::e_success;
  if (t.vm().call_once(*f, n - 1, argv.data(), ret, err))
    t.get_stack().push(ret);
  else {
    ++s.cb_errors;
    log(s, fmt("cb error %d", int(err)));
    t.get_stack().push_int(-1);
  }
}

static bool give(thread_t &t, const Decision &x, const value_t *l, const value_t *r) {
  switch (x.g) {
  case refuse: return false;
  case give_left: t.get_stack().push(const_cast<value_t *>(l)); break;
  case give_right: t.get_stack().push(const_cast<value_t *>(r)); break;
  case give_int: t.get_stack().push_int(x.n); break;
  case give_str: t.get_stack().push_string(fmt("h%d", x.n)); break;
  case give_none: t.get_stack().push_none(); break;
  case give_error:
    t.raise_error(thread_error_t(api::err_code(g_err[x.n])));
    if (x.n & 1)
      t.get_stack().push_none();
    break;
  }
  return true;
}
static bool took(thread_t &t, const Decision &x) {
  if (x.g == give_error)
    t.raise_error(thread_error_t(api::err_code(g_err[x.n])));
  return x.g != refuse;
}
static bool h_bin(thread_t &t, const char *op, const value_t *l, const value_t *r) {
  const std::string w = fmt("%s ", op) + d(t, l) + " " + d(t, r);
  log(side(t), w);
  return give(t, decide(g_rules, 12, w), l, r);
}
static bool h_add(thread_t &t, const value_t *l, const value_t *r) { return h_bin(t, "+", l, r); }
static bool h_sub(thread_t &t, const value_t *l, const value_t *r) { return h_bin(t, "-", l, r); }
static bool h_mul(thread_t &t, const value_t *l, const value_t *r) { return h_bin(t, "*", l, r); }
static bool h_div(thread_t &t, const value_t *l, const value_t *r) { return h_bin(t, "/", l, r); }
static bool h_eq(thread_t &t, const value_t *l, const value_t *r) { return h_bin(t, "==", l, r); }
static bool h_aget(thread_t &t, value_t *a, const value_t *i) {
  const std::string w = "get " + d(t, a) + " " + d(t, i);
  log(side(t), w);
  return give(t, decide(g_rules, 1, w), a, i);
}
static bool h_aset(thread_t &t, value_t *a, const value_t *i, value_t *v) {
  const std::string w = "set " + d(t, a) + " " + d(t, i) + " " + d(t, v);
  log(side(t), w);
  return took(t, decide(g_rules, 2, w));
}
static bool h_mget(thread_t &t, value_t *o, const std::string &m) {
  const std::string w = "member " + m + " " + d(t, o);
  log(side(t), w);
  return give(t, decide(g_rules, 13, w), o, o);
}
static bool h_mset(thread_t &t, value_t *o, value_t *v, const std::string &m) {
  const std::string w = "member set " + m + " " + d(t, o) + " " + d(t, v);
  log(side(t), w);
  return took(t, decide(g_rules, 13, w));
}
static bool h_error(thread_t &t) {
  Side &s = side(t);
  ++s.errors;
  log(s, fmt("on error %d", int(t.get_error())));
  return true;
}
static bool h_finish(thread_t &t) {
  Side &s = side(t);
  ++s.finishes;
  log(s, "on finish");
  return true;
}

// ---- the same on the model's side
struct Model {
  ref::Interp in;
  int counter = 0, flaky = 0;
  ref::Val given(const Decision &x, const ref::Val &l, const ref::Val &r) {
    switch (x.g) {
    case give_error: in.err(g_err[x.n]); return ref::Val();
    case give_left: return l;
    case give_right: return r;
    case give_int: return ref::v_int(x.n);
    case give_str: return ref::v_str(fmt("h%d", x.n));
    default: return ref::Val();
    }
  }
  bool took(const Decision &x) {
    if (x.g == give_error)
      in.err(g_err[x.n]);
    return x.g != refuse;
  }
  explicit Model(const Prog &p) : in(p) {
    in.host_arity = {{"s0", 0}, {"s1", 1}, {"s2", 2}, {"s3", 3}, {"sv", -1}, {"serr", 1}, {"hlt", 1}, {"sx", 1}, {"cb", -1}, {"sbad", 0}};
    in.host = [this](const std::string &n, std::vector<ref::Val> &a, ref::Val &o) {
      std::string r = fmt("%s/%zu", n.c_str(), a.size());
      for (auto &x : a)
        r += " " + in.dump(x);
      if (n != "sx")
        in.out.push_back(r);
      if (n == "s0") o = ref::v_int(counter++);
      else if (n == "s1" || n == "hlt") o = a[0];
      else if (n == "s2") o = a[1];
      else if (n == "s3") {
        o = in.new_arr(3);
        o.a->v = a;
      } else if (n == "sv") o = a.empty() ? ref::v_str("none given") : a.back();
      else if (n == "serr") {
        if (++flaky % 3 == 0)
          in.err(g_err[flaky / 3 % 7]);
        o = a[0];
      } else if (n == "cb") {
        if (a.empty() || a[0].t != ref::Val::Fn)
          return true;
        const Func *f = a[0].fn;
        ref::Err e = ref::ok;
        const ref::LinePos back = in.cur;
        if (f->args.size() != a.size() - 1)
          e = ref::bad_num_args;
        else {
          try {
            o = in.call(f, std::vector<ref::Val>(a.begin() + 1, a.end()));
          } catch (const ref::RtErr &x) {
            e = x.e;
            in.cur = back;
            in.out.push_back(fmt("on error %d", api::err_code(e)));
          }
          in.out.push_back("on finish");
        }
        if (e != ref::ok) {
          in.out.push_back(fmt("cb error %d", api::err_code(e)));
          o = ref::v_int(-1);
        }
      } else if (n == "sbad")
        in.err(ref::bad_argument);
      else
        in.err(ref::bad_syscall);
      return true;
    };
    if (g_rules.operators)
      in.bin_hook = [this](Op op, const ref::Val &l, const ref::Val &r, ref::Val &o) {
        const std::string w = fmt("%s ", op_text[op]) + in.dump(l) + " " + in.dump(r);
        in.out.push_back(w);
        const Decision x = decide(g_rules, 12, w);
        o = given(x, l, r);
        return x.g != refuse;
      };
    if (g_rules.elements) {
      in.index_hook = [this](const ref::Val &a, const ref::Val &i, ref::Val &o) {
        const std::string w = "get " + in.dump(a) + " " + in.dump(i);
        in.out.push_back(w);
        const Decision x = decide(g_rules, 1, w);
        o = given(x, a, i);
        return x.g != refuse;
      };
      in.set_hook = [this](const ref::Val &a, const ref::Val &i, const ref::Val &v) {
        const std::string w = "set " + in.dump(a) + " " + in.dump(i) + " " + in.dump(v);
        in.out.push_back(w);
        return took(decide(g_rules, 2, w));
      };
    }
    if (g_rules.members) {
      in.member_get = [this](const ref::Val &a, const std::string &m, ref::Val &o) {
        const std::string w = "member " + m + " " + in.dump(a);
        in.out.push_back(w);
        const Decision x = decide(g_rules, 13, w);
        o = given(x, a, a);
        return x.g != refuse;
      };
      in.member_set = [this](const ref::Val &a, const std::string &m, const ref::Val &v) {
        const std::string w = "member set " + m + " " + in.dump(a) + " " + in.dump(v);
        in.out.push_back(w);
        return took(decide(g_rules, 13, w));
      };
    }
  }
  void reset() {
    for (auto &g : in.globals)
      g.second = ref::Val();
  }
};

// ---- generation: work host functions and members into a program
struct Inject {
  Src &s;
  Gen &g;
  std::vector<std::string> gvars; // non constant globals
  int cur = 0;                    // function being worked on
  EP callback() {
    // only what comes later, so that calls end
    const size_t n = g.p.funcs.size();
    if (size_t(cur) + 1 >= n || s.chance(1, 16))
      return mk_callf("cb", {g.any_expr(0)});
    const Func &f = g.p.funcs[size_t(cur) + 1 + s.below(uint32_t(n - size_t(cur) - 1))];
    std::vector<EP> a = {mk_var(f.name)};
    size_t argc = f.args.size();
    if (s.chance(1, 12))
      argc += argc && s.chance(1, 2) ? size_t(-1) : 1;
    for (size_t i = 0; i < argc; ++i)
      a.push_back(g.any_expr(0));
    return mk_callf("cb", a);
  }
  std::string some_member() {
    static const char *const m[] = {"length", "size", "m", "a_member"};
    return m[s.below(4)];
  }
  EP wrap(EP e) {
    auto fn = [&](const char *n, std::vector<EP> a) {
      if (s.chance(1, 4))
        return mk_call(mk_index(mk_arr({mk_var(n)}), mk_int(0)), a);
      return mk_callf(n, a);
    };
    const EP any = g.any_expr(1);
    switch (s.weighted({4, 3, 3, 3, 1, 2, 1, 1, 2})) {
    case 0: return fn("s1", {e});
    case 1: return fn("s2", {any, e});
    case 2: return mk_index(fn("s3", {e, any, mk_callf("s0", {})}), mk_int(0));
    case 3: {
      std::vector<EP> a;
      for (int n = int(s.below(4)); n > 0; --n)
        a.push_back(g.any_expr(0));
      a.push_back(e);
      return fn("sv", a);
    }
    case 4: return fn("serr", {e});
    case 5: return fn("hlt", {e});
    case 7:
      // more arguments than the function takes
      return mk_call(mk_index(mk_arr({mk_var("s0"), mk_var("s2")}), mk_int(int(s.below(2)))), {e});
    case 8: return fn("s2", {callback(), e});
    default:
      if (s.chance(1, 4))
        return fn("sx", {e});
      return fn("s1", {e});
    }
  }
  void in(EP &e, int depth) {
    const uint32_t lo = e->k == Expr::Call ? 1 : 0;
    if (depth < 4)
      for (size_t i = lo; i < e->kids.size(); ++i)
        in(e->kids[i], depth + 1);
    if (s.chance(1, 12))
      e = wrap(e);
  }
  SP host_stmt() {
    switch (s.below(6)) {
    case 5: return st_out(callback());
    case 0: {
      if (gvars.empty())
        return st_out(mk_callf("s0", {}));
      auto st = std::make_shared<Stmt>(Stmt::MemSet);
      st->name = s.pick(gvars);
      st->member = some_member();
      st->e = g.any_expr(1);
      return st;
    }
    case 1: return gvars.empty() ? st_out(mk_int(1)) : st_out(mk_member(s.pick(gvars), some_member()));
    case 2: {
      static const Op ops[] = {ADD, SUB, MUL, DIV, EQ};
      return st_out(mk_bin(ops[s.below(5)], s.chance(1, 2) ? g.any_expr(1) : mk_arr({g.any_expr(0)}), g.any_expr(1)));
    }
    case 3: return st_call("sv", s.chance(1, 2) ? std::vector<EP>{} : std::vector<EP>{g.any_expr(1), mk_callf("s0", {})});
    default: return st_out(mk_callf("s2", {mk_callf("s0", {}), g.any_expr(2)}));
    }
  }
  void in(Block &b, int depth) {
    for (size_t i = 0; i < b.size(); ++i) {
      Stmt &st = *b[i];
      in(st.body, depth + 1);
      in(st.other, depth + 1);
      if (st.e && st.k != Stmt::CallS && s.chance(1, 2))
        in(st.e, 0);
      if (st.e && st.k == Stmt::CallS)
        for (size_t k = 1; k < st.e->kids.size(); ++k)
          in(st.e->kids[k], 1);
      if (st.e2 && st.k == Stmt::ArrSet && s.chance(1, 2))
        in(st.e2, 0);
    }
    if (s.chance(1, 3) && depth < 3)
      b.insert(b.begin() + s.below(uint32_t(b.size() + 1)), host_stmt());
  }
};

static const api::SysList EXTRA = {{"s0", 0}, {"s1", 1}, {"s2", 2}, {"s3", 3}, {"sv", -1}, {"serr", 1}, {"hlt", 1}, {"sx", 1}, {"cb", -1}, {"sbad", 0}};

static void prop(Src &s, Case &c) {
  GenOpts o;
  o.wild = s.chance(1, 4) ? 6 : 0;
  o.stmts = 4;
  o.depth = 2;
  o.edepth = 2;
  o.global_calls = s.chance(1, 2);
  Gen g(s, o);
  g.program("main");
  Prog &p = g.p;
  g.scope.clear();
  g.calls_left = 0;
  Inject inj{s, g, {}};
  for (auto &x : p.globals)
    if (!x.is_const)
      inj.gvars.push_back(x.name);
  for (auto &f : p.funcs) {
    inj.cur = int(&f - p.funcs.data());
    inj.in(f.body, 0);
  }
  if (s.chance(1, 4)) {
    // fails at once
    Func f;
    f.name = "zz_bad";
    if (s.chance(1, 3))
      f.args.push_back("x");
    f.body.push_back(s.chance(1, 2) ? st_call("sbad", {}) : st_return(mk_callf("sbad", {})));
    p.funcs.push_back(f);
    p.items.push_back(Item{1, int(p.funcs.size()) - 1});
  }
  g_rules = Rules();
  g_rules.salt = s.below(1000);
  g_rules.members = s.chance(1, 2);
  g_rules.elements = s.chance(1, 3);
  g_rules.operators = s.chance(1, 2);
  Style st;
  const std::string text = print(p, st);
  const bool optimize = s.chance(1, 2);
  c.show(text);
  auto b = api::compile(text, optimize, EXTRA);
  if (!b.ok) {
    if (b.err.error.find("divi") != std::string::npos)
      throw Discard{"constant division by zero"};
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);
  }
  program_t &prog = *b.prog;
  struct Bind {
    const char *n;
    nano_syscall_t f;
  };
  static const Bind binds[] = {{"out", sys_out}, {"vout", sys_vout}, {"s0", sys_s0}, {"s1", sys_s1}, {"s2", sys_s2},
                               {"s3", sys_s3}, {"sv", sys_sv}, {"serr", sys_serr}, {"hlt", sys_hlt}, {"cb", sys_cb}, {"sbad", sys_sbad}};
  for (auto &x : binds)
    prog.syscall_resolve(x.n, x.f);
  if (prog.syscall_resolve("no_such_function", sys_s1))
    fail("a host function the program does not know was resolved");

  // one or two vms on the same program
  const int nvm = s.chance(1, 4) ? 2 : 1;
  std::vector<std::unique_ptr<Side>> sides;
  std::vector<std::unique_ptr<vm_t>> vms;
  std::vector<std::unique_ptr<Model>> models;
  g_sides.clear();
  const std::string rules = fmt("# handlers:%s%s%s, salt %u\n", g_rules.members ? " members" : "", g_rules.elements ? " elements" : "",
                                g_rules.operators ? " operators" : "", g_rules.salt);
  for (int i = 0; i < nvm; ++i) {
    vms.emplace_back(new vm_t(prog));
    sides.emplace_back(new Side);
    sides.back()->vm = vms.back().get();
    g_sides.push_back(sides.back().get());
    handlers_t &h = vms.back()->handlers;
    h.on_thread_error = h_error;
    h.on_thread_finish = h_finish;
    if (g_rules.members)
      h.on_member_get = h_mget, h.on_member_set = h_mset;
    if (g_rules.elements)
      h.on_array_get = h_aget, h.on_array_set = h_aset;
    if (g_rules.operators)
      h.on_add = h_add, h.on_sub = h_sub, h.on_mul = h_mul, h.on_div = h_div, h.on_equals = h_eq;
    models.emplace_back(new Model(p));
    models.back()->in.fuel = 30000;
    models.back()->in.max_live = 60 * 1024;
    models.back()->in.fn_text = [&](const Func *f) {
      function_t *x = prog.function_find(f->name);
      return fmt("function@%d", x ? x->code_start_ : -1);
    };
  }
  std::string story;
  size_t handled = 0, calls_done = 0, resets = 0;

  auto check_log = [&](int k, const std::string &what) {
    auto &want = models[size_t(k)]->in.out;
    auto &got = sides[size_t(k)]->log;
    for (size_t i = 0; i < want.size() || i < got.size(); ++i)
      if (i >= want.size() || i >= got.size() || want[i] != got[i])
        fail("%s: exchange %zu with the host is %s, expected %s", what.c_str(), i, i < got.size() ? got[i].c_str() : "(missing)",
             i < want.size() ? want[i].c_str() : "(nothing)");
  };
  auto check_globals = [&](int k, const std::string &what) {
    const auto &vals = vms[size_t(k)]->globals();
    for (auto &gl : p.globals) {
      if (gl.is_const)
        continue;
      bool found = false;
      for (auto &id : prog.globals())
        if (id.name_ == gl.name) {
          found = true;
          if (id.offset_ < 0 || size_t(id.offset_) >= vals.size())
            fail("%s: global %s has no value", what.c_str(), gl.name.c_str());
          const std::string got = api::dump(vals[size_t(id.offset_)], prog);
          const std::string want = models[size_t(k)]->in.dump(models[size_t(k)]->in.globals[gl.name]);
          if (got != want)
            fail("%s: global %s is %s, expected %s", what.c_str(), gl.name.c_str(), got.c_str(), want.c_str());
        }
      if (!found)
        fail("global %s is not in the program", gl.name.c_str());
    }
  };
  std::vector<bool> inited(size_t(nvm), false);
  auto init = [&](int k) {
    story += fmt("vm%d.init ", k);
    c.show(text + rules + "# " + story);
    Model &m = *models[size_t(k)];
    bool werr = false;
    ref::Err e = ref::ok;
    try {
      m.in.cur = ref::LinePos{0, 0};
      m.in.run_init();
    } catch (const ref::RtErr &x) {
      werr = true;
      e = x.e;
    }
    if (werr)
      m.in.out.push_back(fmt("on error %d", api::err_code(e)));
    m.in.out.push_back("on finish");
    const bool ok = vms[size_t(k)]->call_init();
    if (ok == werr)
      fail("initialisation %s, expected %s", ok ? "succeeds" : "fails", werr ? "failure" : "success");
    check_log(k, "initialisation");
    if (werr)
      throw Discard{"initialisers fail"};
    check_globals(k, "initialisation");
    inited[size_t(k)] = true;
  };
  try {
    for (int k = 0; k < nvm; ++k)
      init(k);
    const int ops = 3 + int(s.below(6));
    for (int step = 0; step < ops; ++step) {
      const int k = nvm == 1 ? 0 : int(s.below(2));
      Model &m = *models[size_t(k)];
      Side &sd = *sides[size_t(k)];
      vm_t &vm = *vms[size_t(k)];
      const int what = s.weighted({8, 8, 2, 2});
      if (what == 3) {
        // start over, or initialise again
        if (s.chance(2, 3)) {
          story += fmt("vm%d.reset ", k);
          c.show(text + rules + "# " + story);
          vm.reset();
          if (!vm.thread().empty() || !vm.globals().empty() || vm.has_error() || !vm.finished())
            fail("a reset vm still holds threads or globals");
        }
        m.reset();
        init(k);
        ++resets;
        continue;
      }
      const Func &mf = step == 0 ? *p.find_func("main") : p.funcs[s.below(uint32_t(p.funcs.size()))];
      function_t *f = prog.function_find(mf.name);
      if (!f)
        fail("function '%s' is not in the compiled program", mf.name.c_str());
      if (f->num_args() != mf.args.size())
        fail("function '%s' takes %zu arguments, expected %zu", mf.name.c_str(), size_t(f->num_args()), mf.args.size());
      // arguments: numbers, none, and values of globals
      size_t argc = mf.args.size();
      if (what == 2)
        argc = s.chance(1, 2) || argc == 0 ? argc + 1 + s.below(2) : argc - 1;
      std::vector<ref::Val> margs;
      std::vector<value_t> vals(argc);
      std::vector<const value_t *> argv;
      std::string call = fmt("vm%d.%s(", k, mf.name.c_str());
      for (size_t a = 0; a < argc; ++a) {
        const int how = inj.gvars.empty() ? int(s.below(2)) : int(s.below(4));
        if (how == 1) {
          vals[a] = value_t();
          margs.push_back(ref::Val());
          argv.push_back(&vals[a]);
        } else if (how == 0) {
          const int v = s.range(-3, 12);
          vals[a] = value_t(v);
          margs.push_back(ref::v_int(v));
          argv.push_back(&vals[a]);
        } else {
          const std::string n = s.pick(inj.gvars);
          const ref::Val v = m.in.globals[n];
          margs.push_back(v);
          const value_t *x = nullptr;
          for (auto &id : prog.globals())
            if (id.name_ == n)
              x = vm.globals()[size_t(id.offset_)];
          argv.push_back(x ? x : &vals[a]);
        }
        call += m.in.dump(margs.back()) + ",";
      }
      call += ")";
      story += call + " ";
      c.show(text + rules + "# " + story);
      if (what == 2) {
        value_t *ret = nullptr;
        thread_error_t err = thread_error_t::e_success;
        if (s.chance(1, 2)) {
          if (vm.call_once(*f, int32_t(argc), argv.data(), ret, err) || err != thread_error_t::e_bad_num_args)
            fail("%s: a call with a wrong number of arguments gives error %s", call.c_str(), api::err_text(int(err)).c_str());
        } else if (vm.new_thread(*f, int32_t(argc), argv.data()))
          fail("%s: a thread was started with a wrong number of arguments", call.c_str());
        check_log(k, call);
        check_globals(k, call);
        continue;
      }
      // the model
      ref::Err want = ref::ok;
      std::string want_ret;
      const uint64_t steps0 = m.in.steps;
      try {
        m.in.cur = ref::LinePos{0, 0};
        want_ret = m.in.dump(m.in.call(&mf, margs));
      } catch (const ref::RtErr &e) {
        want = e.e;
      }
      if (want != ref::ok)
        m.in.out.push_back(fmt("on error %d", api::err_code(want)));
      m.in.out.push_back("on finish");
      const uint64_t limit = 60 * (m.in.steps - steps0) + 100000;
      // the vm
      int got = 0;
      std::string got_ret;
      if (what == 0) {
        value_t *ret = nullptr;
        thread_error_t err = thread_error_t::e_success;
        const bool okay = vm.call_once(*f, int32_t(argc), argv.data(), ret, err);
        got = int(err);
        if (okay != (got == 0))
          fail("%s: call_once gave %d with error %s", call.c_str(), int(okay), api::err_text(got).c_str());
        if (okay)
          got_ret = api::dump(ret, prog);
      } else {
        thread_t *t = vm.new_thread(*f, int32_t(argc), argv.data());
        if (!t)
          fail("%s: no thread could be created", call.c_str());
        if (&t->vm() != &vm)
          fail("%s: the thread belongs to another vm", call.c_str());
        static const int32_t qs[] = {1, 7, 50, 1000, 100000};
        const int32_t q = qs[s.below(5)];
        const bool by_vm = s.chance(1, 2);
        while (!t->finished() && t->get_cycle_count() < limit) {
          if (vm.finished())
            fail("%s: the vm says it has finished while a thread runs", call.c_str());
          const bool okay = by_vm ? vm.resume(uint32_t(q)) : t->resume(q);
          if (okay == t->has_error())
            fail("%s: running reported %s but the thread has %s", call.c_str(), okay ? "success" : "failure",
                 t->has_error() ? "an error" : "no error");
        }
        if (!t->finished())
          fail("%s: still running after %llu cycles", call.c_str(), (unsigned long long)limit);
        got = int(t->get_error());
        // a failed call back leaves its thread to the vm's next round
        if (sd.cb_errors == 0 ? vm.has_error() != (got != 0) : got && !vm.has_error())
          fail("%s: the vm reports %s", call.c_str(), got ? "no error" : "an error");
        if (!got)
          got_ret = api::dump(t->get_return_value(), prog);
      }
      if (got != api::err_code(want))
        fail("%s: ends with %s, expected %s", call.c_str(), api::err_text(got).c_str(), ref::err_name(want));
      if (!got && got_ret != want_ret)
        fail("%s: returns %s, expected %s", call.c_str(), got_ret.c_str(), want_ret.c_str());
      check_log(k, call);
      for (int j = 0; j < nvm; ++j)
        check_globals(j, call);
      while (!vm.thread().empty())
        vm.resume(1);
      sd.cb_errors = 0;
      ++calls_done;
      if (want != ref::ok)
        c.label(std::string("error ") + ref::err_name(want));
    }
  } catch (const ref::Limit &l) {
    throw Discard{l.why};
  }
  for (auto &x : sides)
    for (auto &l : x->log)
      handled += l.find("member") == 0 || l.find("get ") == 0 || l.find("set ") == 0 || l.find("s") == 0 || l.find("hlt") == 0 || l.find("cb") == 0;
  bool cb = false, cb_err = false;
  for (auto &x : sides)
    for (auto &l : x->log) {
      cb |= l.find("cb/") == 0;
      cb_err |= l.find("cb error") == 0;
    }
  if (cb)
    c.label("call back");
  if (cb_err)
    c.label("call back that fails");
  g_sides.clear();
  c.nontrivial = handled >= 3 && calls_done >= 2;
  if (resets)
    c.label("reset");
  if (nvm == 2)
    c.label("two vms");
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C14";
  sp.rule = "Each case is a generated program with host functions (fixed and variable arity, failing, "
            "halting, unresolved, calling back into the program), member accesses and operators on types that have none worked in, "
            "run on one or two vms under a generated history of initialisations, calls with numbers, "
            "none and values of globals, calls with wrong argument counts, threads run by quanta, "
            "resets and repeated initialisations, with a random set of operation handlers that accept or refuse. Every exchange "
            "with the host, result, error and global must be the model's. Non-trivial: three "
            "exchanges beyond plain output and two calls.";
  sp.quick_cases = 100000;
  sp.thorough_cases = 3000000;
  sp.fn = prop;
  sp.assumptions = {"host functions and handlers push exactly one result, as the built in ones do",
                    "live data stays below 60 KB"};
  return run(argc, argv, sp);
}
