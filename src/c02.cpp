// C02: the optimiser never changes what a program does.
#include "api.h"
#include "big.h"
using namespace pbt;
using namespace lang;

static std::string shape(const api::Result &r) {
  std::string s = r.init_ok ? "" : "init failed; ";
  s += fmt("error %s ", api::err_text(r.error).c_str());
  if (r.error)
    s += fmt("at file %d line %d ", r.eline.file, r.eline.line);
  s += fmt("finished %d ", int(r.finished));
  return s + "returned " + r.ret;
}

static void prop(Src &s, Case &c) {
  if (s.chance(1, 60)) { // a large program
    big::Fixed fx;
    fx.saved = 0;
    fx.optimize = 1;
    fx.differ = true;
    big::prop(s, c, fx);
    c.label("blown up");
    return;
  }
  GenOpts o;
  o.const_bias = 10 + 15 * int(s.below(4));
  o.fn_to_string = false; // shows a code address, which optimisation may move
  switch (s.below(4)) {
  case 0: break;
  case 1: o.wild = 6; break;
  case 2: o.stmts = 8; o.depth = 4; o.edepth = 2; break;
  default: o.max_funcs = 6; o.max_globals = 6; o.wild = 2; break;
  }
  Gen g(s, o);
  g.program("main");
  Style st;
  st.src = &s;
  st.vary_lines = s.chance(1, 3);
  const std::string text = print(g.p, st);
  c.show(text);
  auto plain = api::compile(text, false);
  auto opt = api::compile(text, true);
  if (plain.ok != opt.ok)
    fail("compiles with the optimiser %s but not with it %s: %s (line %d)",
         plain.ok ? "off" : "on", plain.ok ? "on" : "off",
         (plain.ok ? opt : plain).err.error.c_str(), (plain.ok ? opt : plain).err.line.line);
  if (!plain.ok)
    fail("a valid program is rejected: %s (line %d)", plain.err.error.c_str(), plain.err.line.line);
  // the model only bounds the run: memory and steps
  auto e = api::model(g.p, "main", nullptr);
  api::How how;
  how.max_cycles = 60 * e.steps + 100000;
  auto a = api::run(*plain.prog, "main", how);
  auto b = api::run(*opt.prog, "main", how);
  const size_t n = std::max(a.out.size(), b.out.size());
  for (size_t i = 0; i < n; ++i) {
    const std::string x = i < a.out.size() ? a.out[i] : "(nothing)";
    const std::string y = i < b.out.size() ? b.out[i] : "(nothing)";
    if (x != y)
      fail("output %zu is %.200s when optimised and %.200s when not", i, y.c_str(), x.c_str());
  }
  if (shape(a) != shape(b) || a.timeout != b.timeout)
    fail("optimised: %.300s; not optimised: %.300s", shape(b).c_str(), shape(a).c_str());
  const bool differs = plain.prog->size() != opt.prog->size() ||
                       memcmp(plain.prog->data(), opt.prog->data(), opt.prog->size()) != 0;
  c.nontrivial = differs && e.out.size() >= 1;
  c.label(differs ? "code differs" : "code identical");
  c.label(a.error ? "ends in a thread error" : "no error");
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C02";
  sp.rule = "Each case is a generated, terminating program rich in constant expressions, constant "
            "conditions and statements after returns, compiled with the optimiser off and on and "
            "run; outputs, return value, thread error and its line must agree. One case in 60 is a large program as in C21. Non-trivial: the "
            "optimiser changed the emitted code and the program shows at least one value.";
  sp.quick_cases = 120000;
  sp.thorough_cases = 4000000;
  sp.fn = prop;
  sp.assumptions = {"string conversion of a function value shows a code address and is excluded",
                    "divisions of constants by zero are compile errors and are left to C07"};
  return run(argc, argv, sp);
}
