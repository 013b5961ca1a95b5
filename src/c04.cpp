// C04: threads, waits and quanta.
#include "api.h"
#include "sched.h"
using namespace pbt;
using namespace lang;
using namespace nano;

static std::string fn_addr(program_t &prog, const Func *f) {
  function_t *x = prog.function_find(f->name);
  return fmt("function@%d", x ? x->code_start_ : -1);
}

// a function that starts many threads, each of which shows values and waits
static void add_crowd(Src &s, Prog &p) {
  auto loop = [](const char *k, EP end, Block body) {
    auto w = std::make_shared<Stmt>(Stmt::While);
    w->e = mk_bin(LT, mk_var(k), end);
    w->body = body;
    w->body.push_back(st_assign(k, mk_bin(ADD, mk_var(k), mk_int(1))));
    return w;
  };
  Func w;
  w.name = "zz_one";
  w.args = {"zz_i", "zz_n"};
  w.body.push_back(st_decl("zz_k", mk_int(0)));
  w.body.push_back(loop("zz_k", mk_var("zz_n"),
                        {st_call("out", {mk_bin(ADD, mk_bin(MUL, mk_var("zz_i"), mk_int(100)), mk_var("zz_k"))}),
                         st_call("wait", {mk_bin(MOD, mk_var("zz_i"), mk_int(1 + int(s.below(4))))})}));
  if (s.chance(1, 3)) {
    // some of them fail
    auto st = std::make_shared<Stmt>(Stmt::If);
    st->e = mk_bin(EQ, mk_bin(MOD, mk_var("zz_i"), mk_int(7)), mk_int(3));
    st->body.push_back(st_call("out", {mk_bin(DIV, mk_int(1), mk_bin(SUB, mk_var("zz_k"), mk_var("zz_k")))}));
    w.body.push_back(st);
  }
  p.funcs.push_back(w);
  p.items.push_back(Item{1, int(p.funcs.size()) - 1});
  Func c;
  c.name = "zz_crowd";
  c.body.push_back(st_decl("zz_j", mk_int(0)));
  c.body.push_back(loop("zz_j", mk_int(20 + int(s.below(180))),
                        {st_call("new_thread", {mk_var("zz_one"), mk_var("zz_j"), mk_int(1 + int(s.below(4)))})}));
  p.funcs.push_back(c);
  p.items.push_back(Item{1, int(p.funcs.size()) - 1});
}

// threads that share globals, switched only where they wait
static void cooperative(Src &s, Case &c) {
  GenOpts o;
  o.waits = o.spawns = true;
  o.global_calls = false;
  o.max_funcs = 5;
  o.stmts = 6;
  o.depth = 2;
  o.edepth = 2;
  o.wild = s.chance(1, 3) ? 3 : 0;
  Gen g(s, o);
  g.program("main");
  const bool crowd = s.chance(1, 40);
  if (crowd)
    add_crowd(s, g.p);
  const std::string text = print(g.p, Style());
  c.show("# cooperative threads\n" + text);
  auto b = api::compile(text, s.chance(1, 2));
  if (!b.ok)
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);

  ref::Interp in(g.p);
  in.fn_text = [&](const Func *f) { return fn_addr(*b.prog, f); };
  ref::Sched sc(in);
  api::Host host;
  api::g_host = &host;
  vm_t vm(*b.prog);
  try {
    try {
      in.run_init();
    } catch (const ref::RtErr &) {
      throw Discard{"initialisers fail"};
    }
    if (!vm.call_init())
      fail("the initialisers failed");
    // several threads from the host too
    const int n = 1 + int(s.below(2));
    for (int i = 0; i < n; ++i) {
      sc.create(g.p.find_func("main"), {});
      if (!vm.new_thread(*b.prog->function_find("main"), 0, nullptr))
        fail("no thread could be created");
    }
    if (crowd) {
      sc.max_threads = 300;
      in.fuel = std::max<uint64_t>(in.fuel, 200000);
      sc.create(g.p.find_func("zz_crowd"), {});
      if (!vm.new_thread(*b.prog->function_find("zz_crowd"), 0, nullptr))
        fail("no thread could be created");
      c.label("dozens of threads");
    }
    int errors = 0, redone = 0;
    int again = s.chance(1, 4) ? 1 + int(s.below(3)) : 0;
    for (int round = 0; round < 300; ++round) {
      const bool want = sc.resume();
      const bool got = vm.resume(1000000);
      const size_t m = std::min(in.out.size(), host.out.size());
      for (size_t i = 0; i < m; ++i)
        if (in.out[i] != host.out[i])
          fail("round %d: output %zu is %.200s, expected %.200s", round, i, host.out[i].c_str(),
               in.out[i].c_str());
      if (in.out.size() != host.out.size())
        fail("round %d: %zu outputs, expected %zu (next: %.200s)", round, host.out.size(),
             in.out.size(), (host.out.size() > m ? host.out : in.out)[m].c_str());
      if (want != got)
        fail("round %d: resume gave %d, expected %d", round, int(got), int(want));
      if (sc.has_error() != vm.has_error())
        fail("round %d: has_error is %d, expected %d", round, int(vm.has_error()),
             int(sc.has_error()));
      if (sc.finished() != vm.finished())
        fail("round %d: finished is %d, expected %d", round, int(vm.finished()),
             int(sc.finished()));
      errors += !want;
      if (again && !sc.threads.empty() && s.chance(1, 2)) {
        // a thread of the vm, wherever it stands, is given main to run afresh
        --again;
        // note: the thread of the initialisers is the oldest and may still be there
        if (vm.thread().size() != sc.threads.size() && vm.thread().size() != sc.threads.size() + 1)
          fail("round %d: the vm holds %zu threads, expected %zu", round, vm.thread().size(),
               sc.threads.size());
        const size_t at = s.below(uint32_t(sc.threads.size()));
        ref::MThread *m = *std::next(sc.threads.begin(), long(at));
        thread_t *t = *std::next(vm.thread().begin(), long(at));
        sc.restart(m, g.p.find_func("main"));
        if (!t->prepare(*b.prog->function_find("main"), 0, nullptr))
          fail("round %d: thread %zu could not be prepared again", round, at);
        ++redone;
        c.show(text + fmt("# after round %d thread %zu (of %zu) runs main again\n", round, at,
                          sc.threads.size()));
      }
      if (sc.finished() && sc.threads.empty())
        break;
    }
    // every failed thread is reported with its own error
    if (errors)
      c.label("a thread failed");
    if (redone)
      c.label("a thread prepared again");
  } catch (const ref::Limit &l) {
    throw Discard{l.why};
  }
  api::g_host = nullptr;
  c.nontrivial = sc.all.size() >= 2 && sc.waits_done >= 1 && in.out.size() >= 2;
  c.label(sc.all.size() == 1 ? "1 thread" : sc.all.size() < 4 ? "2-3 threads" : "4+ threads");
  c.label(sc.waits_done ? "waits" : "no waits");
}

// threads with nothing in common, any quanta
static void isolated(Src &s, Case &c) {
  const int n = 2 + int(s.below(3));
  Prog all;
  std::vector<std::string> entries;
  for (int i = 0; i < n; ++i) {
    GenOpts o;
    o.prefix = std::string(1, char('p' + i));
    o.max_funcs = 2;
    o.max_globals = 3;
    o.waits = s.chance(1, 2);
    o.wild = s.chance(1, 3) ? 3 : 0;
    o.global_calls = false;
    Gen g(s, o);
    g.program(o.prefix + "main");
    entries.push_back(o.prefix + "main");
    const int fo = int(all.funcs.size()), go = int(all.globals.size());
    for (auto &f : g.p.funcs)
      all.funcs.push_back(f);
    for (auto &x : g.p.globals)
      all.globals.push_back(x);
    for (auto it : g.p.items) {
      it.idx += it.kind ? fo : go;
      all.items.push_back(it);
    }
  }
  const std::string text = print(all, Style());
  c.show("# isolated threads\n" + text);
  auto b = api::compile(text, s.chance(1, 2));
  if (!b.ok)
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);
  std::vector<api::Expect> exp;
  uint64_t steps = 0;
  size_t heads = 0;
  {
    ref::Interp in(all);
    in.fn_text = [&](const Func *f) { return fn_addr(*b.prog, f); };
    try {
      in.run_init();
    } catch (const ref::Limit &) {
      throw Discard{"limit"};
    } catch (const ref::RtErr &) {
      throw Discard{"initialisers fail"};
    }
    heads = in.out.size();
  }
  size_t shown = 0;
  for (auto &en : entries) {
    auto e = api::model(all, en, b.prog.get(), 20000);
    e.out.erase(e.out.begin(), e.out.begin() + long(heads));
    shown += e.out.size();
    steps += e.steps;
    exp.push_back(e);
  }
  api::ManyHow mh;
  mh.src = &s;
  mh.slices = true;
  mh.max_cycles = 60 * steps + 400000;
  auto m = api::run_many(*b.prog, entries, mh);
  if (!m.init_ok)
    fail("the initialisers failed");
  for (size_t i = 0; i < entries.size(); ++i) {
    m.t[i].init_ok = true;
    api::compare(exp[i], m.t[i], fmt("thread %s", entries[i].c_str()).c_str());
  }
  c.nontrivial = shown >= 2 && steps > 60;
  c.label("isolated threads");
}

static void prop(Src &s, Case &c) {
  if (s.chance(1, 3))
    isolated(s, c);
  else
    cooperative(s, c);
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C04";
  sp.rule = "Two kinds of case. Cooperative: a generated program whose functions start threads with "
            "arguments, share globals and wait; every vm round is compared with a model in which "
            "threads are coroutines that switch only at waits (outputs in order, rounds skipped, "
            "error and finished flags). Isolated: 2 to 4 threads with nothing in common run under "
            "random quanta, threads and step kinds; each must show what it shows alone, and no slice "
            "runs more instructions than asked for. "
            "Non-trivial: at least two threads, one wait and two outputs (cooperative), or two "
            "outputs and 60 steps (isolated).";
  sp.quick_cases = 200000;
  sp.thorough_cases = 2000000;
  sp.fn = prop;
  sp.assumptions = {"a quantum of 1000000 instructions is never used up by a generated thread",
                    "live data stays far below the arena size"};
  return run(argc, argv, sp);
}
