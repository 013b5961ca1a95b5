// C19: what a debugger is told about a stopped or running thread - its calls, the
// arguments and variables of each and the globals, by name - is the program's state.
#include "api.h"
#include <set>
using namespace pbt;
using namespace lang;
using namespace nano;

struct Var {
  std::string name, value, text; // text: as shown, empty if not fixed
};
struct Fr {
  std::string fn;
  size_t args = 0;        // vars[0, args) are arguments
  std::vector<Var> vars;  // in scope
};
struct Snap {
  int line = 0;           // 0: taken at an output
  size_t outs = 0;
  size_t depth = 0;
  std::vector<Fr> frames; // innermost first, at most four
  std::vector<Var> globals;
};
static const size_t max_snaps = 300, max_frames = 4;

static std::string shown(const ref::Val &v) {
  switch (v.t) {
  case ref::Val::Int: return fmt("%d", v.i);
  case ref::Val::Flt: return v.f != v.f ? "" : fmt("%f", double(v.f)); // nan has two spellings
  case ref::Val::Str: return "\"" + *v.s + "\"";
  case ref::Val::None: return "none";
  default: return "";
  }
}

static Snap take(ref::Interp &in, int line) {
  Snap n;
  n.line = line;
  n.outs = in.out.size();
  for (auto *f = in.top; f; f = f->up) {
    ++n.depth;
    if (n.frames.size() >= max_frames)
      continue;
    Fr r;
    r.fn = f->fn ? f->fn->name : "@init";
    r.args = f->fn ? f->fn->args.size() : 0;
    for (auto &v : f->vars)
      r.vars.push_back({*v.name, in.dump(v.v), shown(v.v)});
    n.frames.push_back(r);
  }
  for (auto &g : in.globals)
    n.globals.push_back({g.first, in.dump(g.second), shown(g.second)});
  return n;
}

static std::string where; // for messages
static size_t compared;   // variables

// a place that holds the variable must be among those of its name
static void one(const Var &v, const std::vector<const value_t *> &places, const program_t &prog,
                const char *what, const std::string &fn) {
  ++compared;
  std::string seen;
  for (const value_t *x : places) {
    const std::string d = api::dump(x, prog);
    if (d == v.value) {
      const std::string t = x->to_string();
      if (!v.text.empty() && t != v.text)
        fail("%s: %s '%s' of %s is shown as %.100s, expected %.100s", where.c_str(), what,
             v.name.c_str(), fn.c_str(), vis(t).c_str(), vis(v.text).c_str());
      return;
    }
    seen += (seen.empty() ? "" : " or ") + d;
  }
  if (places.empty())
    fail("%s: %s '%s' of %s is not listed", where.c_str(), what, v.name.c_str(), fn.c_str());
  fail("%s: %s '%s' of %s reads %.150s, expected %.150s", where.c_str(), what, v.name.c_str(),
       fn.c_str(), seen.c_str(), v.value.c_str());
}

static void check(const Snap &n, thread_t &t, const program_t &prog, size_t k) {
  where = n.line ? fmt("stop %zu (line %d)", k, n.line) : fmt("at output %zu", n.outs);
  const auto &fs = t.frames();
  const value_stack_t &stack = const_cast<const thread_t &>(t).frames().empty()
                                   ? t.get_stack()
                                   : t.get_stack();
  size_t depth = 0;
  for (size_t i = fs.size(); i-- > 0;) {
    const frame_t &f = fs[i];
    const function_t *fn = prog.function_find(f.callee_);
    if (!fn)
      fail("%s: frame %zu is in no function", where.c_str(), depth);
    if (fn->code_start_ != f.callee_)
      fail("%s: frame %zu does not start at a function", where.c_str(), depth);
    if (depth < n.frames.size()) {
      const Fr &w = n.frames[depth];
      if (fn->name_ != w.fn)
        fail("%s: frame %zu is in '%s', expected '%s'", where.c_str(), depth, fn->name_.c_str(),
             w.fn.c_str());
      if (fn->args_.size() != w.args)
        fail("%s: '%s' lists %zu arguments, expected %zu", where.c_str(), w.fn.c_str(),
             fn->args_.size(), w.args);
      for (size_t j = 0; j < w.vars.size(); ++j) {
        std::vector<const value_t *> places;
        if (j < w.args) {
          if (fn->args_[j].name_ != w.vars[j].name)
            fail("%s: argument %zu of '%s' is listed as '%s', expected '%s'", where.c_str(), j,
                 w.fn.c_str(), fn->args_[j].name_.c_str(), w.vars[j].name.c_str());
          places.push_back(stack.get(f.sp_ + fn->args_[j].offset_));
        } else {
          for (auto &l : fn->locals_)
            if (l.name_ == w.vars[j].name)
              places.push_back(stack.get(f.sp_ + l.offset_));
        }
        one(w.vars[j], places, prog, j < w.args ? "argument" : "variable", w.fn);
      }
    }
    ++depth;
  }
  if (depth != n.depth)
    fail("%s: %zu calls are active, expected %zu", where.c_str(), depth, n.depth);
  // the program counter is in the innermost function
  const function_t *in = prog.function_find(t.get_pc());
  if (!in || (!n.frames.empty() && in->name_ != n.frames[0].fn))
    fail("%s: the thread is in '%s', expected '%s'", where.c_str(),
         in ? in->name_.c_str() : "no function", n.frames[0].fn.c_str());
  for (auto &g : n.globals) {
    std::vector<const value_t *> places;
    for (auto &x : prog.globals())
      if (x.name_ == g.name && size_t(x.offset_) < t.vm().globals().size())
        places.push_back(t.vm().globals()[size_t(x.offset_)]);
    one(g, places, prog, "global", "the program");
  }
}

static void prop(Src &s, Case &c) {
  GenOpts o;
  o.stmts = 5;
  o.max_globals = 5;
  o.wild = s.chance(1, 3) ? 4 : 0;
  Gen g(s, o);
  g.program("main");
  if (s.chance(1, 6))
    widen(g.p, s, 40);
  Style st;
  st.src = &s;
  st.vary_lines = s.chance(1, 2);
  std::string text;
  std::vector<std::string> files = print_files(g.p, st, s, text);
  // a call the thread of main did before, left where it stood or failed
  const int before = s.chance(1, 5) ? 1 + int(s.below(40)) : 0;
  const int depth = int(s.below(5));
  if (before)
    files.push_back("function zz_before(n)\n  if (n < 1)\n    return none - none\n  end\n"
                    "  return zz_before(n - 1)\nend\n");
  const bool by_line = s.chance(1, 2);
  const bool optimize = !by_line && s.chance(1, 2);
  c.show(text + (by_line ? "# by line\n" : optimize ? "# at outputs, optimised\n" : "# at outputs\n") +
         (before ? fmt("# after %d instructions of a failing call\n", before) : ""));
  auto b = api::compile_many(files, optimize);
  if (!b.ok)
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);
  std::set<int> header;
  for (auto &f : g.p.funcs)
    header.insert(f.file * 1000000 + f.line);

  // the states there should be
  std::vector<Snap> want;
  int last = -1;
  size_t init_snaps = 0;
  bool error = false;
  size_t steps = 0;
  {
    ref::Interp in(g.p);
    in.fuel = 20000;
    in.fn_text = [&](const Func *f) {
      function_t *x = b.prog->function_find(f->name);
      return fmt("function@%d", x ? x->code_start_ : -1);
    };
    if (!by_line)
      in.on_out = [&]() {
        if (want.size() < max_snaps)
          want.push_back(take(in, 0));
      };
    try {
      in.run_init();
      init_snaps = want.size();
      if (by_line) {
        in.want_lines = true;
        in.on_line = [&]() {
          const int l = in.cur.file * 1000000 + in.cur.line;
          if (header.count(l) || l == last || want.size() >= max_snaps)
            return;
          last = l;
          want.push_back(take(in, l));
        };
      }
      in.call(g.p.find_func("main"), {});
    } catch (const ref::RtErr &) {
      if (in.top == nullptr && in.lines.empty() && in.out.empty())
        ;
      error = true;
    } catch (const ref::Limit &l) {
      throw Discard{l.why};
    }
    steps = in.steps;
  }

  compared = 0;
  size_t k = 0, deepest = 0;
  api::Host host;
  api::g_host = &host;
  if (!by_line)
    host.on_out = [&](thread_t &t) {
      if (k < want.size()) {
        if (host.out.size() != want[k].outs)
          fail("%zu values shown, expected %zu", host.out.size(), want[k].outs);
        deepest = std::max(deepest, want[k].depth);
        check(want[k], t, *b.prog, k);
        ++k;
      } else if (want.size() < max_snaps)
        fail("more than %zu outputs", want.size());
    };
  vm_t vm(*b.prog);
  if (!vm.call_init()) {
    if (!error)
      fail("the initialisers fail");
    api::g_host = nullptr;
    throw Discard{"the initialisers fail"};
  }
  function_t *f = b.prog->function_find("main");
  thread_t *t = nullptr;
  if (before && f) {
    function_t *z = b.prog->function_find("zz_before");
    const value_t n(depth);
    const value_t *argv[] = {&n};
    t = z ? vm.new_thread(*z, 1, argv) : nullptr;
    if (!t)
      fail("no thread for zz_before");
    t->resume(before);
    if (!t->prepare(*f, 0, nullptr))
      fail("a used thread could not be prepared for main");
    c.label("a used thread");
  } else
    t = f ? vm.new_thread(*f, 0, nullptr) : nullptr;
  if (!t)
    fail("no thread for main");
  if (by_line) {
    int prev = -1;
    auto see = [&]() {
      const int l = t->get_source_line().file * 1000000 + t->get_source_line().line;
      if (header.count(l) || l == prev)
        return;
      prev = l;
      if (k >= want.size()) {
        if (want.size() < max_snaps)
          fail("a stop at line %d, expected none", l);
        return;
      }
      if (l != want[k].line)
        fail("stop %zu is at line %d, expected %d", k, l, want[k].line);
      deepest = std::max(deepest, want[k].depth);
      check(want[k], *t, *b.prog, k);
      ++k;
    };
    see();
    for (size_t i = 0; !t->finished() && k < max_snaps; ++i) {
      if (i > 60 * steps + 1000)
        fail("still stepping");
      t->step_line();
      if (!t->finished())
        see();
    }
  } else {
    static const int32_t qs[] = {1, 3, 20, 100000};
    const int32_t q = qs[s.below(4)];
    for (size_t i = 0; !t->finished() && k < max_snaps; ++i) {
      if (t->get_cycle_count() > 60 * steps + 100000)
        fail("still running");
      t->resume(q);
    }
  }
  api::g_host = nullptr;
  if (k != want.size())
    fail("%zu of %zu states seen", k, want.size());
  c.label(by_line ? "by line" : optimize ? "at outputs, optimised" : "at outputs");
  c.label(deepest >= 3 ? "three calls deep or more" : deepest == 2 ? "two calls deep" : "one call");
  if (init_snaps)
    c.label("initialisers observed");
  c.nontrivial = compared >= 20;
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C19";
  sp.rule = "Each case is a generated program in one to three files; at every line stop, or at every call of a host "
            "function (also optimised, also inside initialisers), the active calls from the "
            "frames, each argument and in-scope variable by name and slot, the globals and their "
            "texts must be those of a reference interpreter at that point. Non-trivial: at least "
            "twenty variables compared.";
  sp.quick_cases = 120000;
  sp.thorough_cases = 1500000;
  sp.fn = prop;
  sp.assumptions = {"line stops only without the optimiser, host calls with and without",
                    "the first 300 stops of a case and the four innermost calls of each"};
  return run(argc, argv, sp);
}
