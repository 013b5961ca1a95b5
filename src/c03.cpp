// C03: when garbage is collected never shows.
#include "api.h"
using namespace pbt;
using namespace lang;

// merge b's items behind a's
static Prog join_progs(const Prog &a, const Prog &b) {
  Prog r = clone(a);
  const int fo = int(r.funcs.size()), go = int(r.globals.size());
  Prog q = clone(b);
  for (auto &f : q.funcs)
    r.funcs.push_back(f);
  for (auto &g : q.globals)
    r.globals.push_back(g);
  for (auto it : q.items) {
    it.idx += it.kind ? fo : go;
    r.items.push_back(it);
  }
  return r;
}

static void add_func(Prog &p, const std::string &n, const std::vector<std::string> &args, const Block &b) {
  Func f;
  f.name = n;
  f.args = args;
  f.body = b;
  p.funcs.push_back(f);
  p.items.push_back(Item{1, int(p.funcs.size()) - 1});
}

// something on the heap that shows which one it is
static EP thing(Src &s, int i) {
  switch (s.below(4)) {
  case 0: return mk_bin(ADD, mk_str("z"), mk_int(i));
  case 1: return mk_arr({mk_int(i), mk_bin(ADD, mk_str("e"), mk_int(i))});
  case 2: return mk_int(i);
  default: return mk_flt(i);
  }
}

// hold a lot on all sides while the entry runs; gives the new entry
static std::string surround(Prog &p, Src &s, Case &c, const std::string &entry) {
  Block before, after;
  std::string inner = entry;
  if (s.chance(1, 2)) { // globals
    const int n = 5 + int(s.below(s.chance(1, 3) ? 300 : 40));
    for (int i = 0; i < n; ++i) {
      Global g;
      g.name = fmt("zz_g%d", i);
      g.init = thing(s, i);
      p.globals.push_back(g);
      p.items.push_back(Item{0, int(p.globals.size()) - 1});
      after.push_back(st_out(mk_var(g.name)));
    }
    c.label("many globals");
  }
  if (s.chance(1, 2)) { // locals
    const int n = 5 + int(s.below(s.chance(1, 3) ? 200 : 40));
    for (int i = 0; i < n; ++i) {
      before.push_back(st_decl(fmt("zz_v%d", i), thing(s, i)));
      after.push_back(st_out(mk_var(fmt("zz_v%d", i))));
    }
    c.label("many locals");
  }
  if (s.chance(1, 3)) { // an array of many arrays
    const int n = 10 + int(s.below(s.chance(1, 2) ? 1400 : 200));
    before.push_back(st_decl("zz_w", mk_callf("new_array", {mk_int(n)})));
    before.push_back(st_decl("zz_i", mk_int(0)));
    auto loop = std::make_shared<Stmt>(Stmt::While);
    loop->e = mk_bin(LT, mk_var("zz_i"), mk_int(n));
    auto set = std::make_shared<Stmt>(Stmt::ArrSet);
    set->name = "zz_w";
    set->e2 = mk_var("zz_i");
    set->e = mk_arr({mk_var("zz_i")});
    loop->body = {set, st_assign("zz_i", mk_bin(ADD, mk_var("zz_i"), mk_int(1)))};
    before.push_back(loop);
    for (int i : {0, 1, n / 2, n - 2, n - 1, int(s.below(uint32_t(n)))})
      after.push_back(st_out(mk_index(mk_index(mk_var("zz_w"), mk_int(i)), mk_int(0))));
    c.label("array of many arrays");
  }
  if (s.chance(1, 3)) { // a large array of older ones
    const int n = 2 + int(s.below(s.chance(1, 2) ? 2500 : 60));
    const int k = int(s.below(uint32_t(n - 1)));
    before.push_back(st_decl("zz_o", mk_arr({mk_bin(ADD, mk_str("old"), mk_int(n)), mk_arr({mk_int(k)})})));
    before.push_back(st_decl("zz_b", mk_callf("new_array", {mk_int(n)})));
    auto set = [&](const std::string &a, int i, EP e) {
      auto st = std::make_shared<Stmt>(Stmt::ArrSet);
      st->name = a;
      st->e2 = mk_int(i);
      st->e = e;
      return st;
    };
    before.push_back(set("zz_b", k, mk_var("zz_o")));
    before.push_back(set("zz_b", n - 1, mk_arr({mk_int(1), mk_var("zz_o")})));
    if (s.chance(1, 2))
      before.push_back(st_assign("zz_o", mk_none()));
    after.push_back(st_out(mk_index(mk_var("zz_b"), mk_int(k))));
    after.push_back(st_decl("zz_p", mk_index(mk_var("zz_b"), mk_int(k))));
    after.push_back(set("zz_p", 0, mk_str("changed")));
    after.push_back(st_out(mk_index(mk_var("zz_b"), mk_int(n - 1))));
    c.label("large array of older arrays");
  }
  if (s.chance(1, 3)) { // calls
    const int n = 2 + int(s.below(s.chance(1, 3) ? 120 : 20));
    auto cond = std::make_shared<Stmt>(Stmt::If);
    cond->e = mk_bin(GT, mk_var("zz_n"), mk_int(0));
    cond->body = {st_assign("zz_r", mk_callf("zz_deep", {mk_bin(SUB, mk_var("zz_n"), mk_int(1)), mk_var("zz_a")}))};
    cond->has_else = true;
    cond->other = {st_assign("zz_r", mk_callf(inner, {}))};
    add_func(p, "zz_deep", {"zz_n", "zz_x"},
             {st_decl("zz_a", mk_arr({mk_bin(ADD, mk_str("d"), mk_var("zz_n")), mk_var("zz_n")})), st_decl("zz_r", nullptr), cond,
              st_out(mk_index(mk_var("zz_a"), mk_int(0))), st_out(mk_var("zz_x")), st_return(mk_var("zz_r"))});
    add_func(p, "zz_top", {}, {st_return(mk_callf("zz_deep", {mk_int(n), mk_bin(ADD, mk_str("top"), mk_int(n))}))});
    inner = "zz_top";
    c.label("many calls");
  }
  if (s.chance(1, 2)) { // fill the heap with garbage here and there
    auto loop = std::make_shared<Stmt>(Stmt::While);
    loop->e = mk_bin(LT, mk_var("zz_i"), mk_var("zz_n"));
    loop->body = {st_assign("zz_a", mk_callf("new_array", {mk_int(5000)})), st_assign("zz_i", mk_bin(ADD, mk_var("zz_i"), mk_int(1)))};
    add_func(p, "zz_fill", {"zz_n"}, {st_decl("zz_i", mk_int(0)), st_decl("zz_a", nullptr), loop, st_return(mk_int(0))});
    const int k = 1 + int(s.below(4));
    for (int i = 0; i < k; ++i) {
      Block &to = s.chance(1, 3) ? after : before;
      // near the end, where the large arrays are built
      const uint32_t n = uint32_t(to.size());
      const uint32_t back = s.below(s.chance(1, 2) ? std::min(n, 6u) + 1 : n + 1);
      to.insert(to.end() - long(back), st_call("zz_fill", {mk_int(5 + int(s.below(30)))}));
    }
    c.label("heap filled between");
  }
  Block b = before;
  b.push_back(st_decl("zz_res", mk_callf(inner, {})));
  b.insert(b.end(), after.begin(), after.end());
  b.push_back(st_return(mk_var("zz_res")));
  add_func(p, "zz_entry", {}, b);
  return "zz_entry";
}

// many small threads, each with data of its own that it keeps over waits
static void crowd(Prog &p, Src &s, Case &c, std::vector<std::string> &entries) {
  const int n = 8 + int(s.below(25));
  auto loop = std::make_shared<Stmt>(Stmt::While);
  loop->e = mk_bin(LT, mk_var("zz_k"), mk_int(1 + int(s.below(4))));
  auto set = std::make_shared<Stmt>(Stmt::ArrSet);
  set->name = "zz_a";
  set->e2 = mk_int(1);
  set->e = mk_arr({mk_index(mk_var("zz_a"), mk_int(0)), mk_bin(ADD, mk_str("k"), mk_var("zz_k"))});
  loop->body = {st_out(mk_var("zz_a")), set, st_call("wait", {mk_int(int(s.below(3)))}), st_out(mk_var("zz_s")),
                st_assign("zz_k", mk_bin(ADD, mk_var("zz_k"), mk_int(1)))};
  add_func(p, "zz_work", {"zz_s"},
           {st_decl("zz_a", mk_arr({mk_bin(ADD, mk_var("zz_s"), mk_str("!")), mk_arr({mk_int(1), mk_str("two")})})),
            st_decl("zz_k", mk_int(0)), loop, st_out(mk_var("zz_a")), st_return(mk_var("zz_a"))});
  for (int i = 0; i < n; ++i) {
    const std::string f = fmt("zz_w%d", i);
    add_func(p, f.c_str(), {}, {st_return(mk_callf("zz_work", {mk_bin(ADD, mk_str("w"), mk_int(i))}))});
    // the first to be created are the last in the list of the vm
    entries.insert(s.chance(1, 2) ? entries.begin() + 1 : entries.end(), f);
  }
  c.label("dozens of threads");
}

static void prop(Src &s, Case &c) {
  const int extra = int(s.weighted({3, 3, 1}));
  Prog all;
  std::vector<std::string> entries;
  for (int i = 0; i <= extra; ++i) {
    GenOpts o;
    o.prefix = i == 0 ? "" : std::string(1, char('p' + i));
    o.churn = i == 0 || s.chance(1, 3);
    o.max_funcs = 3;
    o.stmts = i == 0 ? 5 : 7;
    o.wild = s.chance(1, 5) ? 3 : 0;
    o.global_calls = true;
    o.waits = extra > 0 && s.chance(1, 2);
    Gen g(s, o);
    const std::string entry = o.prefix + "main";
    g.program(entry);
    entries.push_back(entry);
    all = i == 0 ? clone(g.p) : join_progs(all, g.p);
  }
  const bool wide = s.chance(1, 4);
  if (wide)
    entries[0] = surround(all, s, c, entries[0]);
  if (!wide && s.chance(1, 12))
    crowd(all, s, c, entries);
  const std::string text = print(all, Style());
  c.show(text);
  auto b = api::compile(text, true);
  if (!b.ok)
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);
  // what each entry does on its own
  std::vector<api::Expect> exp;
  uint64_t steps = 0, bytes = 0;
  size_t heads = 0;
  for (auto &en : entries) {
    auto e = api::model(all, en, b.prog.get(), 60000);
    if (e.init_err)
      throw Discard{"initialisers fail"};
    steps += e.steps;
    bytes += e.bytes;
    exp.push_back(e);
  }
  // the initialisers show their output once, before any thread
  {
    ref::Interp in(all);
    in.fn_text = [&](const Func *f) {
      auto *x = b.prog->function_find(f->name);
      return fmt("function@%d", x ? x->code_start_ : -1);
    };
    try {
      in.run_init();
    } catch (const ref::Limit &) {
      throw Discard{"limit"};
    }
    heads = in.out.size();
  }
  for (auto &e : exp)
    e.out.erase(e.out.begin(), e.out.begin() + long(heads));
  // 1. only the entry thread, collected as the vm sees fit
  api::How how;
  how.max_cycles = 60 * steps + 100000;
  {
    auto r = api::run(*b.prog, entries[0], how);
    r.out.erase(r.out.begin(), r.out.begin() + long(std::min(heads, r.out.size())));
    api::compare(exp[0], r, "run in one go");
  }
  // 2. a random schedule with collections at arbitrary instructions
  const int rounds = 1 + int(s.below(2));
  for (int k = 0; k < rounds; ++k) {
    api::ManyHow mh;
    mh.src = &s;
    mh.use_vm_resume = s.chance(1, 2);
    mh.max_cycles = 60 * steps + 400000;
    auto m = api::run_many(*b.prog, entries, mh);
    if (!m.init_ok)
      fail("the initialisers failed");
    for (size_t i = 0; i < entries.size(); ++i) {
      m.t[i].init_ok = true;
      api::compare(exp[i], m.t[i], fmt("interleaved run, %s", entries[i].c_str()).c_str());
    }
  }
  // 3. a collection before every single instruction
  if (steps < (wide ? 1500u : 9000u) || s.chance(1, wide ? 40 : 6)) {
    how.mode = api::by_inst;
    auto r = api::run(*b.prog, entries[0], how);
    r.out.erase(r.out.begin(), r.out.begin() + long(std::min(heads, r.out.size())));
    api::compare(exp[0], r, "collecting before every instruction");
    c.label("collected at every instruction");
  }
  c.nontrivial = steps > 200 && !exp[0].out.empty();
  c.label(fmt("%d threads", extra + 1));
  c.label(bytes > (1u << 20) ? "allocates more than 1 MB" : bytes > (1u << 18) ? "allocates 256 KB to 1 MB" : "allocates little");
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C03";
  sp.rule = "Each case is a generated program whose entry allocates strings, arrays (shared, nested, "
            "cyclic) and numbers in loops, next to up to two more entries that hold live data (now and "
            "then up to thirty small ones); it "
            "is run in one go, under a random interleaving of threads, quanta and step kinds (each "
            "instruction step forces a collection) and with a collection before every instruction; "
            "every run must show what the reference interpreter, which never collects, shows. "
            "Non-trivial: more than 200 interpreter steps and at least one value shown.";
  sp.quick_cases = 12000;
  sp.thorough_cases = 200000;
  sp.fn = prop;
  sp.assumptions = {"live data stays below 120 KB, far from the 1 MB arena: exhausting the arena is a "
                    "recorded limitation"};
  return run(argc, argv, sp);
}
