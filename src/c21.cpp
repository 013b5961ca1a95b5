// C21: size does not matter: programs with many or large parts do what small ones
// do.
#include "big.h"
using namespace pbt;

static void prop(Src &s, Case &c) {
  big::prop(s, c, big::Fixed());
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C21";
  sp.rule = "Each case is a small generated program blown up in one or two of 26 ways (lines, functions, "
            "globals, locals, statements within a branch or loop, arguments, elements, string bytes and "
            "string literals, constants, call depth, operators of one expression, iterations, calls, nested "
            "blocks, loops and expressions, terms of a condition, branches of a choice, function tables, "
            "initialisers, discarded results, threads, name length), by sizes up to thousands and often next to a power of two, "
            "optimised or not, saved and loaded or not. Outputs, result, error and its line must be those "
            "of the reference interpreter. Non-trivial: at least two values shown.";
  sp.quick_cases = 16000;
  sp.thorough_cases = 300000;
  sp.fn = prop;
  sp.assumptions = {"live data stays below 260 KB, calls below 800 levels"};
  return run(argc, argv, sp);
}
