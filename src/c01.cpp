#include "api.h"
#include "big.h"
using namespace pbt;
using namespace lang;

static void prop(Src &s, Case &c) {
  if (s.chance(1, 60)) { // a large program
    big::Fixed fx;
    fx.saved = 0;
    big::prop(s, c, fx);
    c.label("blown up");
    return;
  }
  GenOpts o;
  o.fn_to_string = true;
  switch (s.below(4)) {
  case 0: break;
  case 1: o.wild = 4; break;
  case 2: o.stmts = 8; o.depth = 4; o.edepth = 4; break;
  default: o.max_funcs = 6; o.max_globals = 6; o.edepth = 2; break;
  }
  const bool optimize = s.chance(1, 2);
  Gen g(s, o);
  g.program("main");
  Style st;
  st.src = &s;
  const uint32_t sty = s.below(4);
  st.vary_lines = sty == 1;
  st.parens = sty == 2;
  st.vary_space = sty == 3;
  const std::string text = print(g.p, st);
  c.show(std::string(optimize ? "# optimised\n" : "# not optimised\n") + text);
  auto b = api::compile(text, optimize);
  if (!b.ok)
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);
  auto e = api::model(g.p, "main", b.prog.get());
  api::How how;
  how.max_cycles = 50 * e.steps + 100000;
  if (s.chance(1, 8)) {
    const api::Mode modes[] = {api::by_vm_resume, api::by_line, api::mixed};
    how.mode = modes[s.below(3)];
    how.quantum = 1 + s.below(3000);
    how.src = &s;
    c.label("run in pieces");
  }
  auto r = api::run(*b.prog, "main", how);
  api::compare(e, r, "run");
  c.nontrivial = e.out.size() + (e.ret != "0") >= 2 && e.steps >= 30;
  c.label(e.error == ref::ok ? "no error" : std::string("error ") + ref::err_name(e.error));
  c.label(e.steps < 100 ? "steps<100" : e.steps < 1000 ? "steps<1000" : "steps>=1000");
  if (e.depth > 2) c.label("calls nested");
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C01";
  sp.rule = "Each case is a generated, terminating program (functions, recursion, loops, branches, "
            "arrays, strings, constants, global initialisers; optionally type-blind expressions), "
            "printed in one of four spellings and compiled with the optimiser on or off; outputs, "
            "return value, thread error and its line must be those of a reference interpreter. "
            "One case in 60 is a large program as in C21. Non-trivial: at least two values shown and 30 interpreter steps.";
  sp.quick_cases = 200000;
  sp.thorough_cases = 6000000;
  sp.fn = prop;
  sp.assumptions = {"runs stay within 40000 steps, 200 call levels and 120 KB of live data"};
  return run(argc, argv, sp);
}
