// C10: stepping by source line visits the lines the program executes, in order,
// and stops on each before its effects.
#include "api.h"
#include <set>
using namespace pbt;
using namespace lang;
using namespace nano;

// a line of a file as one number
static int key(int file, int line) { return file * 1000000 + line; }
static int key(const line_t &l) { return key(l.file, l.line); }
static int key(const ref::LinePos &l) { return key(l.file, l.line); }
static std::string at(int k) {
  return k / 1000000 ? fmt("%d of file %d", k % 1000000, k / 1000000) : fmt("%d", k);
}

struct Stop {
  int line;
  size_t outs;
};

static void prop(Src &s, Case &c) {
  GenOpts o;
  o.stmts = 5;
  o.wild = s.chance(1, 3) ? 4 : 0;
  Gen g(s, o);
  g.program("main");
  Style st;
  st.src = &s;
  st.vary_lines = s.chance(1, 2);
  std::string text;
  const std::vector<std::string> files = print_files(g.p, st, s, text);
  const bool optimize = s.chance(1, 4);
  c.show(text);
  auto b = api::compile_many(files, optimize);
  if (!b.ok)
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);
  auto e = api::model(g.p, "main", b.prog.get(), 20000, true);
  if (e.init_err)
    throw Discard{"the initialisers fail"};
  std::set<int> header;
  for (auto &f : g.p.funcs)
    header.insert(key(f.file, f.line));

  // what should be seen
  std::vector<Stop> want;
  for (size_t i = 0; i < e.lines.size(); ++i) {
    if (header.count(key(e.lines[i])))
      continue;
    if (!want.empty() && want.back().line == key(e.lines[i]))
      continue;
    want.push_back({key(e.lines[i]), e.line_outs[i]});
  }

  // what is seen
  std::vector<Stop> got;
  api::Host host;
  api::g_host = &host;
  vm_t vm(*b.prog);
  if (!vm.call_init())
    fail("the initialisers fail");
  const size_t base = host.out.size();
  (void)base;
  function_t *f = b.prog->function_find("main");
  thread_t *t = f ? vm.new_thread(*f, 0, nullptr) : nullptr;
  if (!t)
    fail("no thread for main");
  auto see = [&]() {
    const line_t l = t->get_source_line();
    if (l.file < 0 || l.file >= int(files.size()) || l.line < 1)
      fail("stopped at file %d line %d, which is no place in the source", l.file, l.line);
    if (header.count(key(l)))
      return;
    if (!got.empty() && got.back().line == key(l))
      return;
    got.push_back({key(l), host.out.size()});
  };
  see();
  const size_t cap = 3 * want.size() + 200;
  size_t steps = 0;
  while (!t->finished()) {
    if (++steps > cap)
      fail("still stepping after %zu lines, expected %zu", steps, want.size());
    const line_t before = t->get_source_line();
    const bool ok = t->step_line();
    if (ok == t->has_error())
      fail("a line step reports %s but the thread %s an error", ok ? "success" : "failure",
           t->has_error() ? "has" : "does not have");
    if (t->finished())
      break;
    if (t->get_source_line() == before)
      fail("a line step started and ended on line %d", before.line);
    see();
  }
  if (t->step_line())
    fail("a finished thread can be stepped");
  const int error = int(t->get_error());
  const line_t eline = t->get_source_line();
  std::string ret = t->has_error() ? "" : api::dump(t->get_return_value(), *b.prog);
  std::vector<std::string> out = host.out;
  api::g_host = nullptr;

  // stepping does not change what the program does
  if (out != e.out)
    fail("stepping shows [%.200s], expected [%.200s]", api::join(out, 20).c_str(),
         api::join(e.out, 20).c_str());
  if (error != api::err_code(e.error))
    fail("stepping ends with error %s, expected %s", api::err_text(error).c_str(),
         api::err_text(api::err_code(e.error)).c_str());
  if (!error && ret != e.ret)
    fail("stepping returns %.200s, expected %.200s", ret.c_str(), e.ret.c_str());
  if (error && (eline.line != e.eline || eline.file != e.efile))
    fail("stepping ends in an error at line %s, expected %s", at(key(eline)).c_str(), at(key(e.efile, e.eline)).c_str());

  if (!optimize) {
    const size_t n = std::max(got.size(), want.size());
    for (size_t i = 0; i < n; ++i) {
      const int gl = i < got.size() ? got[i].line : -1, wl = i < want.size() ? want[i].line : -1;
      if (gl != wl)
        fail("stop %zu is at line %s, expected line %s (after line %s)", i, at(gl).c_str(), at(wl).c_str(),
             at(i ? want[i - 1].line : 0).c_str());
      if (got[i].outs != want[i].outs)
        fail("at stop %zu (line %d) %zu values have been shown, expected %zu", i, gl, got[i].outs,
             want[i].outs);
    }
  } else {
    // statements without code may be skipped, but none is visited out of turn
    size_t k = 0;
    for (size_t i = 0; i < got.size(); ++i) {
      while (k < want.size() && want[k].line != got[i].line)
        ++k;
      if (k == want.size())
        fail("optimised: stop %zu at line %d does not follow the order of execution", i,
             got[i].line);
    }
    // each value is shown from the line that shows it
    size_t gi = 0, wi = 0;
    for (size_t n = want.empty() ? 0 : want[0].outs; n < out.size() && !got.empty(); ++n) {
      while (gi + 1 < got.size() && got[gi + 1].outs <= n)
        ++gi;
      while (wi + 1 < want.size() && want[wi + 1].outs <= n)
        ++wi;
      if (got[gi].line != want[wi].line)
        fail("optimised: value %zu is shown from line %d, expected line %d", n, got[gi].line,
             want[wi].line);
    }
  }
  c.label(optimize ? "optimised" : "not optimised");
  c.label(e.depth >= 2 ? "calls" : "no calls");
  if (error)
    c.label("ends in a thread error");
  c.nontrivial = want.size() >= 6;
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C10";
  sp.rule = "Each case is a generated program (branches, loops, calls, recursion, run time errors) "
            "in one to three files stepped line by line from start to end; the stops and the number of values shown at "
            "each must be the lines a reference interpreter enters. Non-trivial: at least six "
            "stops.";
  sp.quick_cases = 300000;
  sp.thorough_cases = 4000000;
  sp.fn = prop;
  sp.assumptions = {"stops on a function's heading line are optional",
                    "with the optimiser on, lines may be skipped but not visited out of order"};
  return run(argc, argv, sp);
}
