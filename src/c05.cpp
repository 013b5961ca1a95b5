// C05: what goes wrong at run time ends its own thread, and says what and where.
#include "api.h"
#include "big.h"
using namespace pbt;
using namespace lang;
using namespace nano;

static int g_on_error, g_on_finish;
static bool on_error(thread_t &t) { ++g_on_error; return true; }
static thread_t *g_by; // another thread of the same vm
static bool g_by_ended;
static std::string g_by_ret;
static bool on_finish(thread_t &t) {
  if (&t == g_by) {
    g_by_ended = true;
    g_by_ret = t.has_error() ? "an error" : api::dump(t.get_return_value(), t.vm().program());
  } else
    ++g_on_finish;
  return true;
}

// an expression that fails when it is evaluated
static EP bad_expr(Src &s, Gen &g) {
  const EP any = g.any_expr(1);
  switch (s.below(26)) {
  case 22:
  case 23: { // a built in function given what it can not take
    static const struct {
      const char *name;
      int args;
    } all[] = {{"abs", 1}, {"min", 2}, {"max", 2}, {"bitand", 2}, {"sin", 1}, {"cos", 1}, {"tan", 1}, {"len", 1},
               {"chr", 1}, {"round", 1}, {"ceil", 1}, {"floor", 1}, {"sqrt", 1}, {"wait", 1}, {"new_array", 1}};
    auto &w = all[s.below(15)];
    const std::string n = w.name;
    std::vector<EP> odd = {mk_none(), mk_var("main"), mk_var("abs")};
    if (n != "len") {
      odd.push_back(mk_str("7"));
      odd.push_back(mk_arr({mk_int(1)}));
    } else
      odd.push_back(mk_int(1));
    if (n == "bitand" || n == "chr" || n == "len")
      odd.push_back(mk_flt(8));
    if (n == "new_array") {
      odd.push_back(mk_flt(1)); // less than one
      odd.push_back(mk_neg(mk_flt(20)));
    }
    std::vector<EP> a;
    for (int i = 0; i < w.args; ++i)
      a.push_back(mk_int(1));
    a[s.below(uint32_t(w.args))] = s.pick(odd);
    return s.chance(1, 2) ? mk_callf(n, a) : mk_call(mk_index(mk_arr({mk_var(n)}), mk_int(0)), a);
  }
  case 24: // a thread that can not be started
    switch (s.below(4)) {
    case 0: return mk_callf("new_thread", {mk_var("main"), any});
    case 1: return mk_callf("new_thread", {mk_var("main"), mk_int(1), any, mk_int(2)});
    case 2: return mk_callf("new_thread", {mk_var("abs"), mk_int(1)});
    default: return mk_callf("new_thread", {s.chance(1, 2) ? mk_str("main") : mk_none()});
    }
  case 18: { // just past the end of something long
    const int n = 1 + int(s.below(s.chance(1, 2) ? 20 : 320));
    std::string x;
    for (int i = 0; i < n; ++i)
      x += char('a' + i % 26);
    return mk_index(mk_str(x), mk_int(n + (s.chance(1, 4) ? int(s.below(300)) : 0)));
  }
  case 19: {
    const int n = 1 + int(s.below(s.chance(1, 2) ? 20 : 320));
    return mk_index(mk_callf("new_array", {mk_int(n)}), mk_int(n + (s.chance(1, 4) ? int(s.below(300)) : 0)));
  }
  case 20: {
    static const int32_t far[] = {65536, 65537, 256, 32768, 2147483647, -2147483647 - 1, -65536, -256};
    const EP i = mk_int(far[s.below(8)]);
    return mk_index(s.chance(1, 2) ? mk_str("abcd") : mk_arr({mk_int(1), mk_str("b")}), i);
  }
  case 0: return mk_bin(s.chance(1, 2) ? DIV : MOD, mk_callf("abs", {mk_int(7)}), mk_int(0));
  case 1: return mk_index(mk_arr({mk_int(1), mk_int(2)}), mk_int(2));
  case 2: return mk_index(mk_arr({mk_int(1), mk_int(2)}), mk_neg(mk_int(1)));
  case 3: return mk_index(mk_str("abc"), mk_int(3));
  case 4: return mk_index(mk_arr({mk_int(1)}), mk_flt(0));
  case 5: return mk_index(mk_none(), mk_int(0));
  case 6: return mk_index(mk_int(5), mk_int(0));
  case 7: return mk_bin(Op(s.weighted({1, 1, 1, 1, 1, 1, 1, 1, 1})), mk_arr({mk_int(1)}), any);
  case 8: return mk_bin(SUB, mk_str("a"), any);
  case 9: return mk_neg(s.chance(1, 2) ? mk_str("x") : mk_none());
  case 10: return mk_callf("len", {mk_int(4)});
  case 11: return mk_callf("new_array", {mk_int(-int(s.below(3)))});
  case 12: return mk_callf("sqrt", {mk_none()});
  case 13: return mk_bin(EQ, mk_arr({mk_int(1)}), mk_int(1));
  case 14: return mk_bin(LT, mk_none(), mk_int(1));
  case 15:
    return mk_call(mk_index(mk_arr({mk_var(s.chance(1, 2) ? "abs" : "main")}), mk_int(0)),
                   {mk_int(1), any});
  case 16: return mk_call(mk_index(mk_arr({mk_var("min")}), mk_int(0)), {any});
  case 17: return mk_call(mk_index(mk_arr({any}), mk_int(0)), {mk_int(1)});
  default: return mk_callf("chr", {mk_str("a")});
  }
}

// a statement that fails when it is executed, and what it needs in front
static Block bad_stmt(Src &s, Gen &g, int serial) {
  const std::string n = fmt("zz%d", serial);
  Block r;
  const int sz = 1 + int(s.below(3));
  std::vector<EP> el;
  for (int i = 0; i < sz; ++i)
    el.push_back(mk_int(i));
  auto set = std::make_shared<Stmt>(Stmt::ArrSet);
  set->name = n;
  set->e2 = mk_int(int(s.below(uint32_t(sz))));
  set->e = g.any_expr(1);
  switch (s.below(9)) {
  case 0: // one past the end
    r.push_back(st_decl(n, s.chance(1, 2) ? mk_callf("new_array", {mk_int(sz)}) : mk_arr(el)));
    set->e2 = mk_int(sz);
    r.push_back(set);
    return r;
  case 1:
    r.push_back(st_decl(n, mk_arr(el)));
    set->e2 = mk_int(-1 - int(s.below(3)));
    r.push_back(set);
    return r;
  case 2:
    r.push_back(st_decl(n, mk_arr(el)));
    set->e2 = s.chance(1, 3) ? mk_none() : s.chance(1, 2) ? mk_flt(0) : mk_str("0");
    r.push_back(set);
    return r;
  case 3:
    r.push_back(st_decl(n, s.chance(1, 3) ? mk_int(3) : s.chance(1, 2) ? mk_str("abcdef") : nullptr));
    r.push_back(set);
    return r;
  case 4: {
    r.push_back(st_decl(n, mk_arr(el)));
    auto m = std::make_shared<Stmt>(Stmt::MemSet);
    m->name = n;
    m->member = s.chance(1, 2) ? "length" : "x";
    m->e = mk_int(1);
    r.push_back(m);
    return r;
  }
  case 5: {
    r.push_back(st_decl(n, s.chance(1, 2) ? mk_str("a") : mk_none()));
    auto m = std::make_shared<Stmt>(Stmt::Compound);
    m->name = n;
    m->op = s.chance(1, 2) ? SUB : MUL;
    m->e = mk_int(2);
    r.push_back(m);
    return r;
  }
  case 6: { // a counter that can not be compared, or not be counted
    r.push_back(st_decl(n, nullptr));
    auto f = std::make_shared<Stmt>(Stmt::For);
    f->name = n;
    f->e = s.chance(1, 2) ? mk_str("a") : mk_int(0);
    f->e2 = f->e->k == Expr::Str || s.chance(1, 2) ? mk_none() : mk_int(3);
    if (f->e2->k == Expr::Int)
      f->body.push_back(st_assign(n, s.chance(1, 2) ? mk_none() : mk_arr({mk_int(1)})));
    else
      f->body.push_back(st_out(mk_int(1)));
    r.push_back(f);
    return r;
  }
  case 7: // the host function must not run when an argument fails
    r.push_back(st_call("vout", {mk_int(1), mk_str("b"), bad_expr(s, g)}));
    return r;
  default:
    r.push_back(st_decl(n, mk_int(5)));
    r.push_back(st_call(n, {mk_int(1)}));
    return r;
  }
}

static bool inject_stmt(Src &s, Gen &g, Block &b, int depth, int serial) {
  if (!b.empty() && depth < 4) {
    Stmt &st = *b[s.below(uint32_t(b.size()))];
    if (!st.body.empty() && s.chance(2, 3))
      return inject_stmt(s, g, s.chance(1, 2) && !st.other.empty() ? st.other : st.body, depth + 1, serial);
  }
  const Block x = bad_stmt(s, g, serial);
  b.insert(b.begin() + long(s.below(uint32_t(b.size()) + 1)), x.begin(), x.end());
  return true;
}

// replace some expression of the block
static bool inject(Src &s, Gen &g, Block &b, int depth) {
  if (b.empty())
    return false;
  Stmt &st = *b[s.below(uint32_t(b.size()))];
  if (!st.body.empty() && depth < 4 && s.chance(2, 3))
    return inject(s, g, s.chance(1, 2) && !st.other.empty() ? st.other : st.body, depth + 1);
  EP *at = st.e ? &st.e : nullptr;
  if (st.e2 && s.chance(1, 2))
    at = &st.e2;
  if (!at)
    return false;
  // go down to a random operand
  for (int k = 0; k < 5 && !(*at)->kids.empty(); ++k) {
    const bool call = (*at)->k == Expr::Call;
    if ((*at)->kids.size() < (call ? 2u : 1u))
      break;
    if (!(k == 0 && st.k == Stmt::CallS) && s.chance(1, 3))
      break;
    const uint32_t lo = call ? 1 : 0;
    at = &(*at)->kids[lo + s.below(uint32_t((*at)->kids.size()) - lo)];
  }
  if (at == &st.e && st.k == Stmt::CallS)
    return false; // a call statement stays a call
  *at = bad_expr(s, g);
  return true;
}

static void prop(Src &s, Case &c) {
  if (s.chance(1, 60)) { // a large program
    big::Fixed fx;
    fx.saved = 0;
    fx.fault = 1;
    big::prop(s, c, fx);
    c.label("blown up");
    return;
  }
  GenOpts o;
  o.wild = int(s.below(3)) * 6;
  o.max_funcs = 5;
  o.global_calls = false;
  Gen g(s, o);
  g.program("main");
  g.scope.clear();
  g.calls_left = 0;
  const int faults = int(s.below(3));
  for (int i = 0; i < faults; ++i) {
    Block &body = g.p.funcs[s.below(uint32_t(g.p.funcs.size()))].body;
    if (s.chance(1, 3))
      inject_stmt(s, g, body, 0, i);
    else
      inject(s, g, body, 0);
  }
  if (s.chance(1, 10)) { // a fault many calls down
    Func f;
    f.name = "zz_down";
    f.args = {"zz_n"};
    auto more = std::make_shared<Stmt>(Stmt::If);
    more->e = mk_bin(GT, mk_var("zz_n"), mk_int(0));
    const EP again = mk_callf("zz_down", {mk_bin(SUB, mk_var("zz_n"), mk_int(1))});
    if (s.chance(1, 2)) {
      more->body.push_back(st_decl("zz_r", again));
      more->body.push_back(st_return(mk_arr({mk_var("zz_r")})));
    } else
      more->body.push_back(st_return(again));
    f.body.push_back(more);
    f.body.push_back(st_out(mk_str("down")));
    f.body.push_back(st_out(bad_expr(s, g)));
    g.p.funcs.push_back(f);
    g.p.items.insert(g.p.items.begin() + long(s.below(uint32_t(g.p.items.size() + 1))), Item{1, int(g.p.funcs.size()) - 1});
    Block &m = const_cast<Func *>(g.p.find_func("main"))->body;
    m.insert(m.begin() + long(s.below(uint32_t(m.size() + 1))), st_out(mk_callf("zz_down", {mk_int(int(s.below(130)))})));
    c.label("a fault many calls down");
  }
  const int by_rounds = s.chance(1, 3) ? 20 + int(s.below(400)) : 0;
  if (by_rounds) {
    Func f;
    f.name = "zz_by";
    f.body.push_back(st_decl("i", mk_int(0)));
    f.body.push_back(st_decl("a", mk_arr({mk_int(0), mk_str("x")})));
    auto loop = std::make_shared<Stmt>(Stmt::While);
    loop->e = mk_bin(LT, mk_var("i"), mk_int(by_rounds));
    loop->body.push_back(st_assign("i", mk_bin(ADD, mk_var("i"), mk_int(1))));
    auto set = std::make_shared<Stmt>(Stmt::ArrSet);
    set->name = "a";
    set->e2 = mk_int(0);
    set->e = mk_bin(ADD, mk_str("n"), mk_var("i"));
    loop->body.push_back(set);
    f.body.push_back(loop);
    f.body.push_back(st_return(mk_var("a")));
    g.p.funcs.push_back(f);
    g.p.items.push_back(Item{1, int(g.p.funcs.size()) - 1});
  }
  Style st;
  st.src = &s;
  st.vary_lines = s.chance(1, 3);
  std::string text;
  const std::vector<std::string> files = print_files(g.p, st, s, text);
  c.show(text);
  const bool optimize = s.chance(1, 2);
  auto b = api::compile_many(files, optimize);
  if (!b.ok)
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);

  ref::Interp in(g.p);
  in.fuel = 60000;
  in.fn_text = [&](const Func *f) {
    function_t *x = b.prog->function_find(f->name);
    return fmt("function@%d", x ? x->code_start_ : -1);
  };
  api::Host host;
  api::g_host = &host;
  vm_t vm(*b.prog);
  vm.handlers.on_thread_error = on_error;
  vm.handlers.on_thread_finish = on_finish;
  std::string story;
  thread_t *spare = nullptr;
  int errs = 0, goods = 0;
  try {
    bool init_err = false;
    try {
      in.run_init();
    } catch (const ref::RtErr &) {
      init_err = true;
    }
    const bool init_ok = vm.call_init();
    if (init_ok == init_err)
      fail("running the initialisers gave %s, expected %s", init_ok ? "success" : "an error",
           init_err ? "an error" : "success");
    if (init_err)
      throw Discard{"initialisers fail"};
    // functions the host can call
    std::vector<size_t> can;
    for (size_t i = 0; i < g.fns.size(); ++i) {
      bool ints = true;
      for (auto &a : g.fns[i].args)
        ints &= a.k == Ty::I;
      if (ints)
        can.push_back(i);
    }
    const int calls = 2 + int(s.below(4));
    for (int k = 0; k < calls; ++k) {
      const FnInfo &fi = g.fns[k == 0 ? 0 : s.pick(can)];
      const Func *mf = g.p.find_func(fi.name);
      std::vector<ref::Val> margs;
      std::vector<value_t> vals;
      std::vector<const value_t *> argv;
      std::string call = fi.name + "(";
      for (size_t a = 0; a < fi.args.size(); ++a) {
        const int v = s.range(-3, 12);
        margs.push_back(ref::v_int(v));
        vals.push_back(value_t(v));
        call += fmt("%d,", v);
      }
      for (auto &v : vals)
        argv.push_back(&v);
      story += call + ") ";
      c.show(text + "# calls: " + story);
      // the model
      ref::Err want = ref::ok;
      ref::LinePos where{0, 0};
      std::string want_ret;
      const uint64_t steps0 = in.steps;
      try {
        in.cur = ref::LinePos{0, 0};
        want_ret = in.dump(in.call(mf, margs));
      } catch (const ref::RtErr &e) {
        want = e.e;
        where = ref::LinePos{e.file, e.line};
      }
      const uint64_t limit = 60 * (in.steps - steps0) + 100000;
      // the vm
      g_on_error = g_on_finish = 0;
      function_t *f = b.prog->function_find(fi.name);
      if (!f)
        fail("function '%s' is not in the compiled program", fi.name.c_str());
      int got = 0;
      std::string got_ret;
      line_t gline;
      const int mode = int(s.below(5));
      // another thread is under way in the same vm
      const int by = by_rounds && mode != 0 && !spare && s.chance(1, 2) ? 1 + int(s.below(2)) : 0;
      g_by = nullptr;
      g_by_ended = false;
      auto start_by = [&] {
        g_by = vm.new_thread(*b.prog->function_find("zz_by"), 0, nullptr);
        if (!g_by)
          fail("no thread could be created");
        story += "(beside another thread) ";
        if (s.chance(2, 3) && !g_by->resume(1 + int(s.below(100))))
          fail("a thread could not be run");
      };
      if (by == 1)
        start_by();
      bool handlers_run = true;
      if (mode == 0) {
        value_t *ret = nullptr;
        thread_error_t err = thread_error_t::e_success;
        const bool okay = vm.call_once(*f, int32_t(argv.size()), argv.data(), ret, err);
        got = int(err);
        if (okay != (got == 0))
          fail("%s: call_once gave %d with error %s", call.c_str(), int(okay),
               api::err_text(got).c_str());
        if (okay)
          got_ret = api::dump(ret, *b.prog);
        if (!vm.thread().empty())
          gline = vm.thread().front()->get_source_line();
      } else {
        thread_t *t = nullptr;
        if (spare && s.chance(1, 2)) {
          // a thread that has ended takes the next call
          t = spare;
          story += "(again) ";
          if (!t->prepare(*f, int32_t(argv.size()), argv.data()))
            fail("%s: an ended thread could not be prepared again", call.c_str());
        } else {
          t = vm.new_thread(*f, int32_t(argv.size()), argv.data());
        }
        if (!t)
          fail("%s: no thread could be created", call.c_str());
        if (by == 2)
          start_by();
        static const int32_t qs[] = {1, 7, 50, 1000, 100000};
        const int32_t q = qs[s.below(5)];
        while (!t->finished() && t->get_cycle_count() < limit) {
          bool okay;
          switch (mode) {
          case 1: okay = t->resume(q); break;
          case 2: okay = vm.resume(uint32_t(q)); break;
          case 3: okay = t->step_line(); handlers_run = false; break;
          default: okay = t->step_inst(); handlers_run = false; break;
          }
          if (okay == t->has_error())
            fail("%s: running reported %s but the thread has %s", call.c_str(),
                 okay ? "success" : "failure", t->has_error() ? "an error" : "no error");
        }
        if (!t->finished())
          fail("%s: still running after %llu cycles", call.c_str(), (unsigned long long)limit);
        got = int(t->get_error());
        if (got) {
          gline = t->get_source_line();
          // a finished thread stays finished
          if (t->resume(10) || t->step_inst() || t->step_line())
            fail("%s: a failed thread can be resumed", call.c_str());
          if (int(t->get_error()) != got)
            fail("%s: resuming a failed thread changed its error", call.c_str());
          if (!vm.has_error())
            fail("%s: the vm does not report the error", call.c_str());
        } else {
          got_ret = api::dump(t->get_return_value(), *b.prog);
        }
      }
      api::Expect e;
      e.error = want;
      e.efile = where.file;
      e.eline = where.line;
      e.ret = want_ret;
      e.out = in.out;
      api::Result r;
      r.init_ok = true;
      r.finished = true;
      r.error = got;
      r.eline = gline;
      r.ret = got_ret;
      r.out = host.out;
      api::compare(e, r, call.c_str());
      if (handlers_run) {
        if (g_on_finish != 1)
          fail("%s: the finish handler ran %d times", call.c_str(), g_on_finish);
        if (g_on_error != (want != ref::ok))
          fail("%s: the error handler ran %d times", call.c_str(), g_on_error);
      }
      const char *name = get_thread_error(thread_error_t(got));
      if (got && (!name || !*name))
        fail("error %d has no name", got);
      if (want != ref::ok) {
        ++errs;
        c.label(std::string("error ") + ref::err_name(want));
      } else {
        ++goods;
      }
      // the failed threads are dropped, the vm goes on
      spare = nullptr;
      if (mode != 0 && !by && !vm.thread().empty() && s.chance(1, 4))
        spare = vm.thread().front();
      while (!spare && !vm.thread().empty())
        vm.resume(by ? 1000 : 1);
      if (by && (!g_by_ended || g_by_ret != fmt("#0[\"n%d\", \"x\"]", by_rounds)))
        fail("%s: a thread beside it ended with %s", call.c_str(), g_by_ended ? g_by_ret.c_str() : "nothing");
      g_by = nullptr;
    }
  } catch (const ref::Limit &l) {
    throw Discard{l.why};
  }
  api::g_host = nullptr;
  c.nontrivial = errs >= 1;
  if (errs && goods)
    c.label("calls that work after or before one that fails");
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C05";
  sp.rule = "Each case is a generated program with up to two injected faulty expressions (and "
            "optionally type-blind ones), whose functions the host calls several times on one vm "
            "through call_once, resume, vm resume, line steps or instruction steps; outcome, error "
            "code, error line, outputs and the state seen by later calls must match the reference "
            "interpreter, and the vm must stay usable. One case in 60 is a large program as in C21. Non-trivial: at least one call ends in a "
            "thread error.";
  sp.quick_cases = 160000;
  sp.thorough_cases = 4000000;
  sp.fn = prop;
  sp.assumptions = {"runs stay within 60 call levels and far below the arena size"};
  sp.known.push_back({"new_array(1000000), which does not fit the vm's heap, ends the host process", [] {
    auto b = api::compile("function main()\nreturn len(new_array(1000000))\nend\n");
    api::How how;
    (void)api::run(*b.prog, "main", how);
  }});
  return run(argc, argv, sp);
}
