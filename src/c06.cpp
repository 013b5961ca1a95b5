// C06: no source text can crash or hang the compiler; every rejection says where.
#include "api.h"
#include "texts.h"
using namespace pbt;
using namespace lang;
using namespace nano;
using namespace texts;

static void nop(thread_t &t, int32_t n) {
  for (int i = 0; i < n; ++i)
    t.get_stack().pop();
  t.get_stack().push_int(n);
}

static void prop(Src &s, Case &c) {
  std::string t;
  switch (s.weighted({10, 4, 1, 2})) {
  case 0: t = mutated(s); c.label("mutated program"); break;
  case 1: t = soup(s); c.label("token soup"); break;
  case 2: t = bytes(s); c.label("bytes"); break;
  default: t = nested(s); c.label("deep nesting"); break;
  }
  // the exact text matters: escape what cannot be read
  c.show(t);
  const bool optimize = s.chance(1, 2);
  if (t.empty())
    throw Discard{"empty"};
  int nl = 1;
  for (char ch : t)
    nl += ch == '\n';

  program_t prog;
  source_manager_t sources;
  if (!sources.load_from_string(t.c_str()))
    fail("source text of %zu bytes was not loaded", t.size());
  nano_t nano(prog);
  nano.optimize = optimize;
  nano.syscall_register("out", 1);
  nano.syscall_register("vout", -1);
  nano.syscall_register("abs", 1);
  nano::error_t err;
  const bool ok = nano.build(sources, err);
  if (!ok) {
    if (err.error.empty())
      fail("rejected without a message");
    if (err.line.file != 0 || err.line.line < 1 || err.line.line > nl)
      fail("rejected at file %d line %d of %d lines: %s", err.line.file, err.line.line, nl,
           err.error.c_str());
    // the message can be shown next to its line
    (void)sources.get_line(err.line);
    c.label("rejected");
    c.nontrivial = t.size() >= 8;
    return;
  }
  c.label("accepted");
  c.nontrivial = prog.functions().size() >= 2;
  // accepted programs run without harm
  for (auto &e : prog.syscalls())
    e.call_ = nop;
  std::vector<std::string> names;
  for (auto &f : prog.functions())
    names.push_back(f.name());
  for (auto &n : names) {
    const function_t *f = prog.function_find(n);
    if (!f)
      fail("function '%s' is listed but not found", n.c_str());
    vm_t vm(prog);
    if (n != "@init") {
      thread_t *ti = vm.new_thread(*prog.function_find("@init"), 0, nullptr);
      for (int i = 0; i < 1500 && ti && !ti->finished(); ++i)
        ti->step_inst();
      if (!ti || !ti->finished())
        continue;
    }
    std::vector<value_t> vals(size_t(f->num_args()), value_t(1));
    std::vector<const value_t *> argv;
    for (auto &v : vals)
      argv.push_back(&v);
    thread_t *th = vm.new_thread(*f, f->num_args(), argv.data());
    if (!th)
      fail("no thread for '%s'", n.c_str());
    for (int i = 0; i < 1500 && !th->finished(); ++i) {
      th->step_inst();
      // keep far away from filling the arena
      if (!th->finished() && th->get_stack().head() > 0) {
        const value_t *v = th->get_stack().peek();
        if (v && v->is_a<val_type_string>() && v->strlen() > 500)
          break;
      }
    }
    if (th->finished() && !th->has_error())
      (void)api::dump(th->get_return_value(), prog);
  }
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C06";
  sp.rule = "Each case is a source text: a generated program with up to five character, token or "
            "line mutations (truncation included), a sequence of random tokens, random bytes, or "
            "phrases nested up to 400 deep. Compiling under AddressSanitizer must end in success or "
            "in a non-empty message with a line of the text; the functions of accepted programs "
            "then run for a bounded number of instructions. Non-trivial: rejected text of at least "
            "8 bytes, or an accepted program with a function.";
  sp.quick_cases = 100000;
  sp.thorough_cases = 4000000;
  sp.fn = prop;
  sp.assumptions = {"texts of up to a few thousand bytes without NUL bytes",
                    "accepted programs run without the builtin functions and only until a string "
                    "exceeds 500 characters, as exhausting the arena is a recorded limitation"};
  sp.known.push_back({"source text nested 200000 parentheses deep overflows the native stack", [] {
    const std::string t = "function main()\nreturn " + std::string(200000, '(') + "1" +
                          std::string(200000, ')') + "\nend\n";
    (void)api::compile(t);
  }});
  return run(argc, argv, sp);
}
