// C11: a thread halts at a breakpoint each time execution comes to its line from
// another line, before the line does anything, and never otherwise.
#include "api.h"
#include <set>
using namespace pbt;
using namespace lang;
using namespace nano;

// a line of a file as one number
static int key(int file, int line) { return file * 1000000 + line; }
static int key(const line_t &l) { return key(l.file, l.line); }
static int key(const ref::LinePos &l) { return key(l.file, l.line); }
static std::string at(int k) {
  return k / 1000000 ? fmt("%d of file %d", k % 1000000, k / 1000000) : fmt("%d", k);
}

struct Stop {
  int line;
  size_t outs;
};

static void prop(Src &s, Case &c) {
  GenOpts o;
  o.stmts = 4;
  o.wild = s.chance(1, 4) ? 4 : 0;
  Gen g(s, o);
  g.program("main");
  Style st;
  st.src = &s;
  st.vary_lines = s.chance(1, 3);
  std::string text;
  const std::vector<std::string> files = print_files(g.p, st, s, text);
  std::string log = text + "# breakpoints\n";
  c.show(log);
  auto b = api::compile_many(files, false);
  if (!b.ok)
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);
  auto e = api::model(g.p, "main", b.prog.get(), 20000, true);
  if (e.init_err)
    throw Discard{"the initialisers fail"};
  if (e.self_entry)
    throw Discard{"a line calls itself"};
  std::set<int> header;
  for (auto &f : g.p.funcs)
    header.insert(key(f.file, f.line));
  std::vector<Stop> w;
  for (size_t i = 0; i < e.lines.size(); ++i)
    if (!header.count(key(e.lines[i])) && (w.empty() || w.back().line != key(e.lines[i])))
      w.push_back({key(e.lines[i]), e.line_outs[i]});
  if (w.empty())
    throw Discard{"nothing runs"};
  int lines = 0;
  for (char ch : text)
    lines += ch == '\n';

  api::Host host;
  api::g_host = &host;
  vm_t vm(*b.prog);
  if (!vm.call_init())
    fail("the initialisers fail");
  function_t *f = b.prog->function_find("main");
  thread_t *t = f ? vm.new_thread(*f, 0, nullptr) : nullptr;
  if (!t)
    fail("no thread for main");
  const bool whole_vm = s.chance(1, 3);
  if (s.chance(1, 6)) {
    // the thread has been used: it halted at, or began, main's first line and is then
    // given main afresh
    const line_t l = t->get_source_line();
    const size_t outs = host.out.size();
    t->breakpoint_add(l);
    if (s.chance(1, 2))
      t->resume(1000);
    else
      t->step_inst();
    host.out.resize(outs);
    t->breakpoint_remove(l);
    log += "begin, then prepare again\n";
    if (!t->prepare(*f, 0, nullptr))
      fail("a used thread could not be prepared again");
  }

  std::set<int> bp;
  size_t pos = 0;       // where in w the thread stands
  bool started = false; // w[pos] has begun
  const bool quanta = s.chance(1, 3);
  size_t halts = 0, changes = 0;
  auto next = [&](size_t from) {
    while (from < w.size() && !bp.count(w[from].line))
      ++from;
    return from;
  };
  auto pick_line = [&]() -> int {
    if (s.chance(4, 5))
      return w[s.below(uint32_t(w.size()))].line;
    int l = key(int(s.below(uint32_t(files.size() + 1))), 1 + int(s.below(uint32_t(lines + 3))));
    // the same line of another file
    if (s.chance(1, 2))
      l = key(int(s.below(uint32_t(files.size() + 1))), w[s.below(uint32_t(w.size()))].line % 1000000);
    while (header.count(l))
      ++l;
    return l;
  };
  auto change = [&]() {
    switch (s.weighted({5, 2, 1})) {
    case 0: {
      const int l = pick_line();
      log += fmt("add %s\n", at(l).c_str());
      t->breakpoint_add(line_t(l / 1000000, l % 1000000));
      bp.insert(l);
      break;
    }
    case 1: {
      int l = pick_line();
      if (!bp.empty() && s.chance(2, 3)) {
        auto it = bp.begin();
        std::advance(it, long(s.below(uint32_t(bp.size()))));
        l = *it;
      }
      log += fmt("remove %s\n", at(l).c_str());
      t->breakpoint_remove(line_t(l / 1000000, l % 1000000));
      bp.erase(l);
      break;
    }
    default:
      log += "clear\n";
      t->breakpoint_clear();
      bp.clear();
      break;
    }
    ++changes;
  };
  auto at_halt = [&](size_t i) {
    const line_t l = t->get_source_line();
    if (i >= w.size())
      fail("halted at line %d, expected to run to the end", l.line);
    if (key(l) != w[i].line)
      fail("halted at line %s, expected line %s (step %zu)", at(key(l)).c_str(), at(w[i].line).c_str(), i);
    if (host.out.size() != w[i].outs)
      fail("halted at line %d with %zu values shown, expected %zu", l.line, host.out.size(),
           w[i].outs);
  };
  const int first = 1 + int(s.below(4));
  for (int i = 0; i < first; ++i)
    change();

  if (!w.empty() && s.chance(1, 6)) {
    // many of the lines
    log += "add many lines\n";
    const uint32_t share = 1 + s.below(3);
    for (auto &x : w)
      if (!bp.count(x.line) && s.chance(share, 3)) {
        t->breakpoint_add(line_t(x.line / 1000000, x.line % 1000000));
        bp.insert(x.line);
      }
  }
  if (quanta) {
    // the thread runs in slices of any length, with changes at any instruction
    log += "in slices\n";
    c.show(log);
    // a second thread, taken one instruction at a time, says where each line begins
    std::vector<int> entry; // by number of instructions: the line entered, or 0
    {
      api::Host quiet;
      api::g_host = &quiet;
      vm_t vm2(*b.prog);
      thread_t *t2 = vm2.call_init() ? vm2.new_thread(*f, 0, nullptr) : nullptr;
      if (!t2)
        fail("no second thread for main");
      int last = 0;
      size_t got = 0;
      for (int last_w = 0;;) {
        const line_t l = t2->get_source_line();
        int in = 0;
        if (l != line_t{} && key(l) != last) {
          in = last = key(l);
          if (!header.count(in) && in != last_w) {
            last_w = in;
            if (got >= w.size() || w[got].line != in || w[got].outs != quiet.out.size())
              fail("step %zu is line %s, expected line %s", got, at(in).c_str(),
                   got < w.size() ? at(w[got].line).c_str() : "none");
            ++got;
          }
        }
        entry.push_back(in);
        if (entry.size() > size_t(60 * e.steps + 100000))
          fail("still running");
        t2->step_inst();
        if (t2->finished())
          break;
      }
      if (got != w.size())
        fail("only %zu of %zu lines are run", got, w.size());
      api::g_host = &host;
    }
    size_t stood = 0; // instructions run
    bool begun = false;
    const size_t busy = 200 + s.below(600);
    for (size_t ops = 0; !t->finished(); ++ops) {
      if (ops < busy && s.chance(1, 4)) {
        log += fmt("at %zu: ", stood);
        change();
        c.show(log);
        continue;
      }
      if (ops < busy && s.chance(1, 16)) {
        const bool one = s.chance(1, 2);
        log += one ? "step_inst\n" : "step_line\n";
        one ? t->step_inst() : t->step_line();
        stood = t->get_cycle_count();
        begun = true;
        continue;
      }
      static const int32_t qs[] = {1, 2, 3, 4, 7, 20, 111, 5000};
      const int32_t q = ops < busy ? qs[s.below(8)] : 5000;
      size_t h = begun ? stood + 1 : 0; // the next halt
      while (h < entry.size() && !(entry[h] && bp.count(entry[h])))
        ++h;
      log += fmt("resume %d\n", q);
      c.show(log);
      whole_vm ? vm.resume(uint32_t(q)) : t->resume(q);
      const size_t now = t->get_cycle_count();
      const size_t want = std::min(h, stood + size_t(q));
      begun = true;
      if (t->finished()) {
        if (h < entry.size())
          fail("ran to the end past the breakpoint at line %s, instruction %zu", at(entry[h]).c_str(), h);
        break;
      }
      if (now > entry.size())
        fail("still running");
      if (now != want && want >= entry.size())
        fail("stopped after %zu of %zu instructions, nothing to stop it", now, entry.size());
      if (now < want)
        fail("halted at line %s (instruction %zu), expected %s (instruction %zu)",
             at(key(t->get_source_line())).c_str(), now, h == want ? at(entry[h]).c_str() : "the end of the slice",
             want);
      if (now > want)
        fail("went past %s at instruction %zu to %zu",
             h == want ? ("the breakpoint at line " + at(entry[h])).c_str() : "the end of the slice", want, now);
      if (now == h) {
        ++halts;
        if (key(t->get_source_line()) != entry[h])
          fail("halted at line %d, expected %s", t->get_source_line().line, at(entry[h]).c_str());
      }
      stood = now;
    }
  } else {
    for (int ops = 0; !t->finished(); ++ops) {
      if (ops > 3000)
        throw Discard{"too many stops"};
      c.show(log);
      if (s.chance(1, 4)) {
        change();
        continue;
      }
      if (s.chance(1, 4)) {
        // one line on
        log += "step\n";
        c.show(log);
        if (!started && header.count(key(t->get_source_line()))) {
          // from the heading to the first line
        } else {
          ++pos;
        }
        started = true;
        do
          t->step_line();
        while (!t->finished() && header.count(key(t->get_source_line())));
        if (t->finished())
          break;
        at_halt(pos);
        continue;
      }
      log += "run\n";
      c.show(log);
      const size_t h = next(started ? pos + 1 : 0);
      const uint32_t q = uint32_t(60 * e.steps + 100000);
      const uint32_t before = t->get_cycle_count();
      whole_vm ? vm.resume(q) : t->resume(int32_t(q));
      if (t->finished()) {
        if (h < w.size())
          fail("ran to the end past the breakpoint at line %d (step %zu)", w[h].line, h);
        break;
      }
      if (t->get_cycle_count() - before >= q)
        fail("still running");
      at_halt(h);
      ++halts;
      pos = h;
      started = true;
    }
  }
  const int error = int(t->get_error());
  const std::string ret = error ? "" : api::dump(t->get_return_value(), *b.prog);
  const std::vector<std::string> out = host.out;
  api::g_host = nullptr;
  if (out != e.out || error != api::err_code(e.error) || (!error && ret != e.ret))
    fail("a run with breakpoints shows [%.200s], error %s, result %.100s; expected [%.200s], error "
         "%s, result %.100s",
         api::join(out, 20).c_str(), api::err_text(error).c_str(), ret.c_str(),
         api::join(e.out, 20).c_str(), api::err_text(api::err_code(e.error)).c_str(),
         e.ret.c_str());
  c.label(quanta ? "in slices" : "stop to stop");
  c.label(halts == 0 ? "no halt" : halts < 4 ? "1-3 halts" : "4 or more halts");
  c.nontrivial = halts >= 2;
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C11";
  sp.rule = "Each case is a generated program in one to three files run under a generated history of adding, removing and "
            "clearing breakpoints, running on and stepping; every halt (line and values shown so "
            "far) must be the next entry of a breakpoint line in the trace of a reference "
            "interpreter, and none may be missed. Non-trivial: at least two halts.";
  sp.quick_cases = 400000;
  sp.thorough_cases = 4000000;
  sp.fn = prop;
  sp.assumptions = {"code compiled without the optimiser",
                    "breakpoints on a function's heading line, and lines that call themselves, are "
                    "left out: whether the heading counts as a line is not fixed"};
  return run(argc, argv, sp);
}
