// C18: what a build gives depends on its sources, registered functions and options
// alone - not on what the compiler, program or source manager did before.
#include "api.h"
#include "texts.h"
using namespace pbt;
using namespace lang;
using namespace nano;

static std::string image(program_t &p) {
  std::string r = fmt("code %zu:", p.size());
  r.append((const char *)p.data(), p.size());
  for (auto &x : p.strings())
    r += fmt("\nstring %zu ", x.size()) + x;
  for (auto &f : p.functions()) {
    r += fmt("\nfunction %s %d %d", f.name().c_str(), f.code_start_, f.code_end_);
    for (auto &a : f.args_)
      r += fmt(" arg %s %d", a.name_.c_str(), a.offset_);
    for (auto &a : f.locals_)
      r += fmt(" local %s %d", a.name_.c_str(), a.offset_);
  }
  for (auto &g : p.globals())
    r += fmt("\nglobal %s %d", g.name_.c_str(), g.offset_);
  for (auto &x : p.syscalls())
    r += fmt("\nhost %s %d", x.name_.c_str(), x.num_args_);
  for (auto &l : p.line_table())
    r += fmt("\nline %d %d %d", l.first, l.second.file, l.second.line);
  return r;
}
static std::string outcome(bool ok, const nano::error_t &e, program_t &p) {
  if (!ok)
    return fmt("rejected at file %d line %d: %s", e.line.file, e.line.line, e.error.c_str());
  return "accepted " + image(p);
}

struct Unit {
  std::vector<std::string> texts;
  api::SysList fns;
  bool optimize = true;
  std::string fresh; // what a compiler of its own makes of it
  bool ok = false;
};
static void enrol(nano_t &n, const Unit &u, bool set = true) {
  builtins_register(n);
  for (auto &f : u.fns)
    n.syscall_register(f.first, f.second);
  if (set)
    n.optimize = u.optimize;
}
static void load(source_manager_t &sm, const Unit &u) {
  for (auto &t : u.texts)
    if (!sm.load_from_string(t.c_str()))
      fail("source text of %zu bytes was not loaded", t.size());
}

static void prop(Src &s, Case &c) {
  // ---- a few things to compile
  const int nu = 2 + int(s.below(3));
  std::vector<Unit> units;
  std::string shown;
  int good = 0, bad = 0;
  for (int i = 0; i < nu; ++i) {
    Unit u;
    u.fns = {{"out", 1}, {"vout", -1}};
    if (s.chance(1, 3))
      u.fns.push_back({"extra", int(s.below(4)) - 1});
    if (s.chance(1, 4))
      std::swap(u.fns[0], u.fns[1]);
    u.optimize = s.chance(1, 2);
    switch (s.weighted({4, 4, 2, 1})) {
    case 0:
    case 1: {
      GenOpts o;
      o.max_funcs = 3;
      o.const_bias = s.chance(1, 3) ? 20 : 0;
      Gen g(s, o);
      g.program("main");
      Style st;
      const int files = 1 + int(s.below(2));
      for (auto &f : g.p.funcs)
        f.file = int(s.below(uint32_t(files)));
      for (int k = 0; k < files; ++k) {
        std::string t = print(g.p, st, k);
        if (t.empty())
          t = "# nothing\n";
        u.texts.push_back(t);
      }
      break;
    }
    case 2: u.texts.push_back(texts::mutated(s)); break;
    default: u.texts.push_back(s.chance(1, 2) ? texts::soup(s) : texts::nested(s)); break;
    }
    // errors in every phase
    if (s.chance(1, 3)) {
      static const char *const faults[] = {"function broken(\n", "function q()\n return undefined_name\nend\n",
                                           "var z_ = 1 / 0\n", "function q()\n q(1)\nend\n", "\"open string\n",
                                           "function q()\n var a = (1 + \nend\n", "function q()\n if (1)\n",
                                           "const k_ = nothing_known\n", "function main()\nend\n", "import \"no such file\"\n",
                                           "function q()\n return [1, 2\nend\n", "function q()\n var v = 1\n var v = 2\nend\n"};
      std::string &t = u.texts[s.below(uint32_t(u.texts.size()))];
      t = s.chance(1, 2) ? faults[s.below(12)] + t : t + "\n" + faults[s.below(12)];
    }
    for (auto &t : u.texts)
      if (t.empty())
        t = "#\n";
    for (size_t k = 0; k < u.texts.size(); ++k)
      shown += fmt("# ---- unit %d, text %zu, %s, %zu host functions\n", i, k, u.optimize ? "optimised" : "not optimised", u.fns.size()) + u.texts[k] + "\n";
    units.push_back(u);
  }
  c.show(shown);
  for (auto &u : units) {
    program_t p;
    source_manager_t sm;
    load(sm, u);
    nano_t n(p);
    enrol(n, u);
    nano::error_t e;
    u.ok = n.build(sm, e);
    u.fresh = outcome(u.ok, e, p);
    (u.ok ? good : bad)++;
  }
  // ---- a history of builds on shared objects
  struct Station {
    std::unique_ptr<program_t> prog;
    std::unique_ptr<nano_t> comp;
    int opt = -1;  // what the host last asked of this compiler
    int fill = -1; // unit whose program it holds, -1 none
  };
  std::vector<Station> st(1 + s.below(2));
  for (auto &x : st) {
    x.prog.reset(new program_t);
    x.comp.reset(new nano_t(*x.prog));
  }
  std::vector<std::unique_ptr<source_manager_t>> kept(units.size());
  std::vector<std::unique_ptr<char[]>> noise;
  nano::error_t err;
  err.error = "left over";
  err.line = line_t{7, 7};
  std::string story;
  std::vector<bool> used(st.size(), false);
  int rebuilt = 0, after_failure = 0;
  bool failed_last = false;
  const int steps = 3 + int(s.below(6));
  for (int i = 0; i < steps; ++i) {
    const size_t k = s.below(uint32_t(st.size()));
    const size_t ui = s.below(uint32_t(units.size()));
    Unit &u = units[ui];
    Station &x = st[k];
    std::string how = fmt("compiler %zu: unit %zu", k, ui);
    if (s.chance(1, 4)) { // move the heap about
      for (int j = int(s.below(6)); j >= 0; --j)
        noise.emplace_back(new char[16u << s.below(8)]);
      if (s.chance(1, 2))
        noise.erase(noise.begin() + s.below(uint32_t(noise.size())));
    }
    switch (s.below(4)) {
    case 0: // another compiler on the same, emptied program
      x.comp.reset();
      x.prog->reset();
      x.comp.reset(new nano_t(*x.prog));
      x.opt = -1;
      how += ", new compiler on the emptied program";
      break;
    default:
      x.comp->reset();
      how += ", compiler reset";
    }
    used[k] = true;
    source_manager_t own, *sm = &own;
    if (s.chance(1, 2)) {
      if (!kept[ui]) {
        kept[ui].reset(new source_manager_t);
        load(*kept[ui], u);
      } else
        how += ", sources used before";
      sm = kept[ui].get();
    } else if (s.chance(1, 3)) {
      own.load_from_string("function other()\nend\n");
      own.clear();
      load(own, u);
      how += ", sources cleared before";
    } else
      load(own, u);
    story += how + "\n";
    c.show(shown + "# history:\n" + story);
    // the option stays as the host set it
    enrol(*x.comp, u, x.opt != int(u.optimize) || s.chance(1, 3));
    x.opt = u.optimize;
    const bool ok = x.comp->build(*sm, err);
    const std::string got = outcome(ok, err, *x.prog);
    if (got != u.fresh) {
      if (ok != u.ok || !ok)
        fail("%s: %.200s; a fresh compiler: %.200s", how.c_str(), ok ? "accepted" : got.c_str(), u.ok ? "accepted" : u.fresh.c_str());
      fail("%s: the program differs from that of a fresh compiler", how.c_str());
    }
    if (ok && (!err.error.empty()))
      fail("%s: accepted, yet the error says '%s'", how.c_str(), err.error.c_str());
    ++rebuilt;
    after_failure += failed_last;
    failed_last = !ok;
    x.fill = ok ? int(ui) : -1;
    // what the other one built is left alone
    for (auto &y : st)
      if (&y != &x && y.fill >= 0 && "accepted " + image(*y.prog) != units[size_t(y.fill)].fresh)
        fail("%s: the program of the other compiler has changed", how.c_str());
  }
  c.nontrivial = rebuilt >= 3 && good >= 1 && bad >= 1;
  if (after_failure) c.label("build after a failed build");
  c.label(fmt("%d accepted units", good));
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C18";
  sp.rule = "Each case is two to four sets of source texts (valid programs in one or two texts, mutated "
            "ones, faults of every compiler phase; different host functions and options) built in a "
            "generated history on one or two compilers that are reset in between or renewed on the same "
            "program, with new or used source managers and a shifting heap; every outcome (message and "
            "line, or every table of the program) must equal that of a fresh compiler. Non-trivial: at "
            "least three builds over accepted and rejected sets.";
  sp.quick_cases = 50000;
  sp.thorough_cases = 1500000;
  sp.fn = prop;
  sp.assumptions = {"host functions are registered again after a reset, as the embedding API asks"};
  return run(argc, argv, sp);
}
