// C15: the code a compilation emits is well formed, the tables that go with it
// describe it, the disassembler shows it exactly, and running it keeps the stack
// discipline the code promises.
#include "api.h"
#include "texts.h"
#include "/repo/source/lib_common/instructions.h"
#include "/repo/source/lib_compiler/disassembler.h"
#include <map>
#include <set>
using namespace pbt;
using namespace lang;
using namespace nano;

static void nop(thread_t &t, int32_t n) {
  for (int i = 0; i < n; ++i)
    t.get_stack().pop();
  t.get_stack().push_int(n);
}

// ---- the instruction set, from its description in instructions.h
struct Ins {
  int op = 0, len = 0, nops = 0;
  int32_t a = 0, b = 0;
};
static int operands(int op) {
  switch (op) {
  case INS_CALL: case INS_SCALL: return 2;
  case INS_JMP: case INS_TJMP: case INS_FJMP: case INS_RET: case INS_ICALL: case INS_POP:
  case INS_NEW_INT: case INS_NEW_STR: case INS_NEW_ARY: case INS_NEW_FLT: case INS_NEW_FUNC:
  case INS_NEW_SCALL: case INS_LOCALS: case INS_GLOBALS: case INS_GETV: case INS_SETV:
  case INS_GETG: case INS_SETG: case INS_GETM: case INS_SETM: case INS_ARY_INIT: return 1;
  default: return 0;
  }
}
// values taken from and put on the stack
static void effect(const Ins &i, int &pops, int &pushes) {
  pops = 0;
  pushes = 0;
  switch (i.op) {
  case INS_ADD: case INS_SUB: case INS_MUL: case INS_DIV: case INS_MOD: case INS_AND: case INS_OR:
  case INS_LT: case INS_GT: case INS_LEQ: case INS_GEQ: case INS_EQ: case INS_DEREF:
    pops = 2; pushes = 1; break;
  case INS_NOT: case INS_NEG: case INS_GETM: pops = 1; pushes = 1; break;
  case INS_JMP: case INS_GLOBALS: break;
  case INS_TJMP: case INS_FJMP: case INS_SETV: case INS_SETG: pops = 1; break;
  case INS_CALL: case INS_SCALL: pops = i.a; pushes = 1; break;
  case INS_ICALL: pops = i.a + 1; pushes = 1; break;
  case INS_RET: pops = 1; break;
  case INS_POP: pops = i.a; break;
  case INS_NEW_INT: case INS_NEW_STR: case INS_NEW_ARY: case INS_NEW_NONE: case INS_NEW_FLT:
  case INS_NEW_FUNC: case INS_NEW_SCALL: case INS_GETV: case INS_GETG: pushes = 1; break;
  case INS_LOCALS: pushes = i.a; break;
  case INS_SETA: pops = 3; break;
  case INS_SETM: pops = 2; break;
  case INS_ARY_INIT: pops = i.a; pushes = 1; break;
  }
}

struct Code {
  std::map<int, Ins> at;
  std::map<int, int> depth; // of reachable instructions, values above the frame's base
};

static Code verify(program_t &p, const std::vector<int> &nl, Case &c) {
  Code k;
  const int size = int(p.size());
  const uint8_t *d = p.data();
  disassembler_t dis;
  // ---- a whole number of known instructions
  for (int pc = 0; pc < size;) {
    Ins i;
    i.op = d[pc];
    if (i.op >= __INS_COUNT__)
      fail("byte %d of the code is no instruction: %d", pc, i.op);
    i.nops = operands(i.op);
    i.len = 1 + 4 * i.nops;
    if (pc + i.len > size)
      fail("the last instruction, at %d, is cut off", pc);
    if (i.nops > 0) memcpy(&i.a, d + pc + 1, 4);
    if (i.nops > 1) memcpy(&i.b, d + pc + 5, 4);
    // ---- shown as it is
    uint8_t buf[16] = {0};
    memcpy(buf, d + pc, size_t(i.len));
    std::string text;
    const int n = dis.disasm(buf, text);
    std::string want = disassembler_t::get_mnemonic(instruction_e(i.op));
    if (i.nops > 0) want += fmt(" %d", i.a);
    if (i.nops > 1) want += fmt(" %d", i.b);
    if (n != i.len || text != want)
      fail("the disassembler shows '%s' (%d bytes) for '%s' (%d bytes)", text.c_str(), n,
           want.c_str(), i.len);
    if (ins_has_operand(instruction_e(i.op)) != (i.nops > 0))
      fail("ins_has_operand(%s) is wrong", want.c_str());
    k.at[pc] = i;
    pc += i.len;
  }
  // ---- functions partition the code
  std::map<int, const function_t *> starts;
  std::set<std::string> names;
  for (auto &f : p.functions()) {
    if (f.code_end_ <= f.code_start_)
      fail("function '%s' has no code [%d, %d)", f.name().c_str(), f.code_start_, f.code_end_);
    if (!starts.insert({f.code_start_, &f}).second)
      fail("two functions start at %d", f.code_start_);
    if (!names.insert(f.name()).second)
      fail("two functions are called '%s'", f.name().c_str());
  }
  int pos = 0;
  for (auto &f : starts) {
    if (f.first != pos)
      fail("code from %d to %d belongs to no function, or to two", pos, f.first);
    pos = f.second->code_end_;
    if (pos != size && !k.at.count(pos))
      fail("function '%s' ends inside an instruction", f.second->name().c_str());
  }
  if (pos != size)
    fail("the functions end at %d, the code at %d", pos, size);
  const function_t *init = p.function_find("@init");
  if (!init)
    fail("no @init function");
  // number of globals
  int nglobals = 0;
  for (auto &i : k.at)
    if (i.second.op == INS_GLOBALS) {
      if (i.first != init->code_start_)
        fail("INS_GLOBALS at %d is not the start of @init", i.first);
      nglobals = i.second.a;
    }
  std::set<int> goffs;
  for (auto &g : p.globals()) {
    if (g.offset_ < 0 || g.offset_ >= nglobals)
      fail("global '%s' has slot %d of %d", g.name_.c_str(), g.offset_, nglobals);
    if (!goffs.insert(g.offset_).second)
      fail("two globals have slot %d", g.offset_);
  }
  if (int(goffs.size()) != nglobals)
    fail("%zu globals are listed for %d slots", goffs.size(), nglobals);

  for (auto &fs : starts) {
    const function_t &f = *fs.second;
    const int nargs = f.num_args();
    for (int i = 0; i < nargs; ++i)
      if (f.args_[size_t(i)].offset_ != i - nargs)
        fail("argument %d of '%s' has offset %d", i, f.name().c_str(), f.args_[size_t(i)].offset_);
    int nlocals = 0;
    if (k.at[f.code_start_].op == INS_LOCALS)
      nlocals = k.at[f.code_start_].a;
    if (nlocals < 0)
      fail("'%s' reserves %d locals", f.name().c_str(), nlocals);
    for (auto &l : f.locals_)
      if (l.offset_ < 0 || l.offset_ >= nlocals)
        fail("local '%s' of '%s' has slot %d of %d", l.name_.c_str(), f.name().c_str(), l.offset_,
             nlocals);
    // ---- operands
    for (auto it = k.at.find(f.code_start_); it != k.at.end() && it->first < f.code_end_; ++it) {
      const Ins &i = it->second;
      const int pc = it->first;
      auto bad = [&](const char *why) {
        fail("'%s' at %d: %s %d %d: %s", f.name().c_str(), pc,
             disassembler_t::get_mnemonic(instruction_e(i.op)), i.a, i.b, why);
      };
      if (p.function_find(pc) != &f)
        bad("looked up by address it is in another function");
      switch (i.op) {
      case INS_JMP: case INS_TJMP: case INS_FJMP:
        if (!k.at.count(i.a) || i.a < f.code_start_ || i.a >= f.code_end_)
          bad("does not jump to an instruction of its function");
        break;
      case INS_CALL:
        if (!starts.count(i.b)) bad("does not call the start of a function");
        if (starts[i.b]->num_args() != i.a) bad("calls with a wrong number of arguments");
        if (starts[i.b] == init) bad("calls @init");
        break;
      case INS_NEW_FUNC:
        if (!starts.count(i.a)) bad("does not refer to the start of a function");
        break;
      case INS_SCALL:
        if (i.b < 0 || i.b >= int(p.syscalls().size())) bad("no such host function");
        if (i.a < 0) bad("negative number of arguments");
        if (p.syscalls()[size_t(i.b)].num_args_ >= 0 && p.syscalls()[size_t(i.b)].num_args_ != i.a)
          bad("calls with a wrong number of arguments");
        break;
      case INS_NEW_SCALL:
        if (i.a < 0 || i.a >= int(p.syscalls().size())) bad("no such host function");
        break;
      case INS_NEW_STR: case INS_GETM: case INS_SETM:
        if (i.a < 0 || i.a >= int(p.strings().size())) bad("no such string");
        break;
      case INS_GETV: case INS_SETV:
        if (i.a < -nargs || i.a >= nlocals) bad("no such local or argument");
        if (i.a >= 0) {
          bool listed = false;
          for (auto &l : f.locals_)
            listed = listed || l.offset_ == i.a;
          if (!listed) bad("no listed variable has this slot");
        }
        break;
      case INS_GETG: case INS_SETG:
        if (i.a < 0 || i.a >= nglobals) bad("no such global");
        break;
      case INS_ARY_INIT: case INS_NEW_ARY:
        if (i.a <= 0) bad("array without elements");
        break;
      case INS_POP: case INS_ICALL: case INS_RET:
        if (i.a < 0) bad("negative operand");
        break;
      case INS_LOCALS:
        if (pc != f.code_start_) bad("locals reserved inside a function");
        break;
      }
      if (i.op == INS_RET && i.a != nargs + nlocals)
        bad("does not drop the arguments and locals of its function");
    }
    // ---- stack depth on every path
    std::vector<std::pair<int, int>> work{{f.code_start_, 0}};
    while (!work.empty()) {
      auto w = work.back();
      work.pop_back();
      const int pc = w.first;
      auto seen = k.depth.find(pc);
      if (seen != k.depth.end()) {
        if (seen->second != w.second)
          fail("'%s': the stack holds %d or %d values at %d, depending on the path",
               f.name().c_str(), seen->second, w.second, pc);
        continue;
      }
      k.depth[pc] = w.second;
      const Ins &i = k.at[pc];
      int pops, pushes;
      effect(i, pops, pushes);
      const int base = i.op == INS_LOCALS ? 0 : nlocals;
      if (w.second - pops < base)
        fail("'%s': %s at %d takes %d values of %d", f.name().c_str(),
             disassembler_t::get_mnemonic(instruction_e(i.op)), pc, pops, w.second - base);
      const int after = w.second - pops + pushes;
      if (i.op == INS_RET) {
        if (after != nlocals)
          fail("'%s': return at %d leaves %d values behind", f.name().c_str(), pc, after - nlocals);
        continue;
      }
      if (i.op == INS_JMP || i.op == INS_TJMP || i.op == INS_FJMP)
        work.push_back({i.a, after});
      if (i.op == INS_JMP)
        continue;
      if (pc + i.len >= f.code_end_)
        fail("'%s': execution runs over the end of the function", f.name().c_str());
      work.push_back({pc + i.len, after});
    }
  }
  // ---- line table
  for (auto &l : p.line_table()) {
    if (!k.at.count(l.first))
      fail("the line table names address %d, which is no instruction", l.first);
    if (l.second.file < 0 || l.second.file >= int(nl.size()) || l.second.line < 1 ||
        l.second.line > nl[size_t(l.second.file)])
      fail("the line table gives file %d line %d, where there is nothing", l.second.file,
           l.second.line);
  }
  // ---- what can fail has a line
  for (auto &i : k.at) {
    switch (i.second.op) {
    case INS_ADD: case INS_SUB: case INS_MUL: case INS_DIV: case INS_MOD: case INS_LT: case INS_GT:
    case INS_LEQ: case INS_GEQ: case INS_EQ: case INS_NEG: case INS_DEREF: case INS_SETA:
    case INS_GETM: case INS_SETM: case INS_ICALL: case INS_SCALL: case INS_CALL:
      if (p.get_line(uint32_t(i.first)).line < 0)
        fail("%s at %d can fail but has no source line",
             disassembler_t::get_mnemonic(instruction_e(i.second.op)), i.first);
    }
  }
  // ---- the whole listing
  char *mem = nullptr;
  size_t msz = 0;
  FILE *fd = open_memstream(&mem, &msz);
  dis.dump(p, fd);
  fclose(fd);
  const std::string listing(mem, msz);
  free(mem);
  size_t q = 0;
  auto it = k.at.begin();
  std::string fn;
  int line = -1;
  while (q < listing.size()) {
    size_t e = listing.find('\n', q);
    if (e == std::string::npos)
      fail("the listing's last line is not complete");
    const std::string l = listing.substr(q, e - q);
    q = e + 1;
    if (l.empty())
      continue;
    if (l.compare(0, 12, "# function: ") == 0) {
      fn = l.substr(12);
      continue;
    }
    if (l.compare(0, 8, "# line: ") == 0) {
      line = atoi(l.c_str() + 8);
      continue;
    }
    if (it == k.at.end())
      fail("the listing shows more instructions than there are: %s", l.c_str());
    std::string text;
    dis.disasm(d + it->first, text);
    if (l != text)
      fail("the listing shows '%s' for '%s' at %d", l.c_str(), text.c_str(), it->first);
    if (fn != p.function_find(it->first)->name())
      fail("the listing shows %d in function '%s'", it->first, fn.c_str());
    if (line != p.get_line(uint32_t(it->first)).line)
      fail("the listing shows %d on line %d, it is on line %d", it->first, line,
           p.get_line(uint32_t(it->first)).line);
    ++it;
  }
  if (it != k.at.end())
    fail("the listing ends before address %d", it->first);
  return k;
}

static void prop(Src &s, Case &c) {
  std::vector<std::string> ts;
  const bool exact = s.chance(2, 3);
  const bool optimize = s.chance(1, 2);
  Prog model;
  if (exact) {
    GenOpts o;
    o.spawns = s.chance(1, 4);
    switch (s.below(4)) {
    case 0: break;
    case 1: o.wild = 12; break;
    case 2: o.stmts = 8; o.depth = 4; o.edepth = 4; break;
    default: o.max_funcs = 6; o.max_globals = 6; o.const_bias = 20; break;
    }
    Gen g(s, o);
    g.program("main");
    if (s.chance(1, 4))
      widen(g.p, s, 40);
    Style st;
    st.src = &s;
    st.vary_lines = s.chance(1, 3);
    st.parens = s.chance(1, 4);
    std::string unused;
    ts = print_files(g.p, st, s, unused);
    model = g.p;
  } else {
    ts.push_back(s.chance(4, 5) ? texts::mutated(s) : texts::nested(s));
  }
  std::vector<int> nl;
  std::string all;
  for (auto &t : ts) {
    if (t.empty())
      throw Discard{"empty"};
    int n = 1;
    for (char ch : t)
      n += ch == '\n';
    nl.push_back(n);
    if (!all.empty())
      all += "---- next file\n";
    all += t;
  }
  c.show((optimize ? "# optimised\n" : "# not optimised\n") + all);
  auto b = api::compile_many(ts, optimize);
  if (!b.ok) {
    if (exact)
      fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);
    c.label("mutated: rejected");
    throw Discard{"rejected"};
  }
  // what is said about each kind of instruction
  for (int op = 0; op < __INS_COUNT__; ++op) {
    const instruction_e e = instruction_e(op);
    const bool jumps = op == INS_JMP || op == INS_TJMP || op == INS_FJMP || op == INS_CALL ||
                       op == INS_ICALL || op == INS_RET;
    int pops, pushes;
    Ins i;
    i.op = op;
    effect(i, pops, pushes);
    const bool binary = pops == 2 && pushes == 1 && op != INS_DEREF;
    const bool unary = op == INS_NOT || op == INS_NEG;
    if (ins_has_operand(e) != (operands(op) > 0) || ins_will_branch(e) != jumps ||
        ins_is_binary_op(e) != binary || ins_is_unary_op(e) != unary)
      fail("the description of %s is wrong", disassembler_t::get_mnemonic(e));
  }
  program_t &p = *b.prog;
  Code k = verify(p, nl, c);
  c.label(ts.size() > 1 ? "program in several files" : exact ? "program" : "mutated: accepted");
  c.nontrivial = k.at.size() >= 20;
  if (exact) {
    // the tables list what the source declares
    if (p.functions().size() != model.funcs.size() + 1)
      fail("%zu functions are listed for %zu in the source", p.functions().size() - 1,
           model.funcs.size());
    for (auto &f : model.funcs) {
      const function_t *pf = p.function_find(f.name);
      if (!pf)
        fail("function '%s' is not listed", f.name.c_str());
      if (pf->args_.size() != f.args.size())
        fail("function '%s' is listed with %zu arguments", f.name.c_str(), pf->args_.size());
      for (size_t i = 0; i < f.args.size(); ++i)
        if (pf->args_[i].name_ != f.args[i])
          fail("argument %zu of '%s' is listed as '%s'", i, f.name.c_str(),
               pf->args_[i].name_.c_str());
    }
    // without the optimiser every variable of the source is there
    if (!optimize)
      for (auto &f : model.funcs) {
        std::multiset<std::string> want, have;
        std::vector<const Block *> work{&f.body};
        while (!work.empty()) {
          const Block *b = work.back();
          work.pop_back();
          for (auto &st : *b) {
            if (st->k == Stmt::Decl)
              want.insert(st->name);
            if (!st->body.empty())
              work.push_back(&st->body);
            if (!st->other.empty())
              work.push_back(&st->other);
          }
        }
        for (auto &l : p.function_find(f.name)->locals_)
          have.insert(l.name_);
        if (want != have)
          fail("'%s' lists %zu variables, its source declares %zu", f.name.c_str(), have.size(), want.size());
      }
    size_t n = 0;
    for (auto &g : model.globals)
      if (!g.is_const) {
        ++n;
        bool found = false;
        for (auto &pg : p.globals())
          found = found || pg.name_ == g.name;
        if (!found)
          fail("global '%s' is not listed", g.name.c_str());
      }
    if (n != p.globals().size())
      fail("%zu globals are listed for %zu in the source", p.globals().size(), n);
  }
  // ---- running keeps to the depths
  for (auto &e : p.syscalls())
    e.call_ = nop;
  vm_t vm(p);
  auto watch = [&](const function_t &f) {
    std::vector<value_t> vals(size_t(f.num_args()), value_t(1));
    std::vector<const value_t *> argv;
    for (auto &v : vals)
      argv.push_back(&v);
    thread_t *th = vm.new_thread(f, f.num_args(), argv.data());
    if (!th)
      fail("no thread for '%s'", f.name().c_str());
    for (int i = 0; i < 600 && !th->finished(); ++i) {
      const int pc = th->get_pc();
      auto dp = k.depth.find(pc);
      if (dp == k.depth.end())
        fail("the thread is at %d, which the code does not reach", pc);
      const frame_t &fr = th->frames().back();
      const int have = int(th->get_stack().head()) - fr.sp_;
      if (have != dp->second)
        fail("the stack holds %d values of the frame at %d, the code says %d", have, pc, dp->second);
      if (p.function_find(pc) != p.function_find(fr.callee_))
        fail("at %d the frame is that of another function", pc);
      th->step_inst();
      if (!th->finished() && th->get_stack().head() > 0) {
        const value_t *v = th->get_stack().peek();
        if (v && v->is_a<val_type_string>() && v->strlen() > 500)
          return false;
      }
    }
    if (th->finished() && !th->has_error() && th->get_stack().head() != 1)
      fail("a finished thread of '%s' has %d values on its stack", f.name().c_str(),
           int(th->get_stack().head()));
    return th->finished();
  };
  if (watch(*p.function_find("@init")))
    for (auto &f : p.functions())
      if (f.name() != "@init")
        watch(f);
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C15";
  sp.rule = "Each case is a generated program in one to three texts, or a mutated text that the compiler accepts, compiled "
            "with the optimiser on or off. A bytecode verifier of its own checks that the code is a "
            "partition into functions of whole instructions, jumps, calls and operands are in range, "
            "the stack depth is the same on every path, and that the function, global, line tables and "
            "the disassembler describe the code; then every function runs instruction by instruction "
            "with its stack depth compared with the verified one. Non-trivial: at least 20 instructions.";
  sp.quick_cases = 80000;
  sp.thorough_cases = 2000000;
  sp.fn = prop;
  sp.assumptions = {"texts of up to a few thousand bytes", "runs of at most 600 instructions"};
  return run(argc, argv, sp);
}
