// C12: every operator and built in function, on every combination of operand
// types and on extreme values, gives the documented result or the documented
// thread error.
#include "api.h"
#include <cmath>
#include <map>
using namespace pbt;
using namespace lang;
using namespace nano;

// ---- values
static EP lit(const std::string &text, int32_t v) {
  EP e = mk_int(0);
  e->i = v;
  e->text = text;
  return e;
}

static EP value(Src &s, int depth, std::string &kind) {
  switch (s.weighted({8, 6, 6, 2, 4, 2, 2})) {
  case 0: {
    kind = "int";
    switch (s.below(4)) {
    case 0: return mk_int(int(s.below(8)) - 3);
    case 1: {
      static const int32_t e[] = {2147483647, -2147483647 - 1, -2147483647, 65535, 65536, -65536,
                                  1 << 30, -(1 << 30), 255, 256, 127, 128, -128, 46341, -46341,
                                  16777216, 16777217, 1000000007, 10, 32};
      return mk_int(e[s.below(20)]);
    }
    case 2: return mk_int(int32_t(s.bits32()));
    default: return mk_int(int(s.below(300)));
    }
  }
  case 1: {
    kind = "float";
    switch (s.below(6)) {
    case 0: return mk_flt(int(s.below(64)));
    case 1: return mk_neg(mk_flt(int(s.below(64))));
    case 2: return mk_bin(MUL, mk_flt(8 * int(s.bits32() % 1000000)), mk_int(int32_t(s.bits32())));
    case 3: // very large, and infinite
    {
      EP e = mk_flt(8 * 1000000);
      const int n = 3 + int(s.below(5));
      for (int i = 0; i < n; ++i)
        e = mk_bin(MUL, e, mk_flt(8 * 1000000));
      return s.chance(1, 2) ? mk_neg(e) : e;
    }
    case 4: { // very small
      EP e = mk_flt(1);
      const int n = int(s.below(52));
      for (int i = 0; i < n; ++i)
        e = mk_bin(MUL, e, mk_flt(1));
      return e;
    }
    default: // not a number, minus zero
      return s.chance(1, 2) ? mk_bin(DIV, mk_flt(0), mk_flt(0)) : mk_neg(mk_flt(0));
    }
  }
  case 2: {
    kind = "string";
    switch (s.below(4)) {
    case 0: return mk_str("");
    case 1: {
      std::string r;
      for (int n = int(s.below(8)); n > 0; --n)
        r += char('a' + s.below(4));
      return mk_str(r);
    }
    case 2: {
      std::string r;
      for (int n = 1 + int(s.below(4)); n > 0; --n) {
        char ch = char(1 + s.below(255));
        if (ch == '"' || ch == '\n')
          ch = '~';
        r += ch;
      }
      return mk_str(r);
    }
    default: {
      // long, and alike but for one character
      static const uint32_t len[] = {254, 255, 256, 257, 511, 512, 1023, 1024, 2048, 300};
      const uint32_t n = s.chance(1, 2) ? s.below(300) : len[s.below(10)];
      std::string r(n, 'x');
      if (n && s.chance(2, 3))
        r[s.chance(1, 2) ? n - 1 : s.below(n)] = 'y';
      if (n && s.chance(1, 3))
        for (uint32_t k = 0; k < n; ++k) {
          const char ch = char(1 + (k * 37 + s.below(3)) % 255);
          r[k] = ch == '"' || ch == '\n' ? '~' : ch;
        }
      return mk_str(r);
    }
    }
  }
  case 3: kind = "none"; return mk_none();
  case 4: {
    kind = "array";
    std::vector<EP> v;
    const int n = 1 + int(s.below(4));
    std::string k;
    for (int i = 0; i < n; ++i)
      v.push_back(depth > 0 ? value(s, depth - 1, k) : mk_int(i));
    return mk_arr(v);
  }
  case 5: {
    kind = "function";
    static const char *const f[] = {"f0", "f1", "f2"};
    return mk_var(f[s.below(3)]);
  }
  default: {
    kind = "host function";
    static const char *const f[] = {"abs", "min", "out", "vout", "len"};
    return mk_var(f[s.below(5)]);
  }
  }
}

static void prop(Src &s, Case &c) {
  Prog p;
  auto add_fn = [&](const std::string &n, std::vector<std::string> args, Block body) {
    Func f;
    f.name = n;
    f.args = args;
    f.body = body;
    p.funcs.push_back(f);
    p.items.push_back(Item{1, int(p.funcs.size()) - 1});
  };
  add_fn("f0", {}, {st_return(mk_int(7))});
  add_fn("f1", {"a"}, {st_return(mk_arr({mk_var("a")}))});
  add_fn("f2", {"a", "b"}, {st_return(mk_bin(EQ, mk_var("a"), mk_var("b")))});

  const int nv = 3 + int(s.below(5));
  std::vector<EP> vals;
  std::vector<std::string> kinds;
  for (int i = 0; i < nv; ++i) {
    std::string k;
    EP e;
    if (i > 0 && kinds.back() == "string" && vals.back()->text.size() && s.chance(1, 3)) {
      // a string like the last one but for one character
      std::string r = vals.back()->text;
      k = "string";
      const uint32_t n = uint32_t(r.size());
      char &ch = r[s.chance(1, 2) ? n - 1 : s.below(n)];
      ch = ch == 'z' ? 'y' : 'z';
      e = mk_str(r);
    } else if (i > 0 && vals.back()->k == Expr::Int && s.chance(1, 4)) {
      k = "int";
      e = mk_int(int32_t(uint32_t(vals.back()->i) + (s.chance(1, 2) ? 1u : 0u)));
    } else
      e = value(s, 1, k);
    vals.push_back(e);
    kinds.push_back(k);
    Global g;
    g.name = fmt("v%d", i);
    g.init = e;
    p.globals.push_back(g);
    p.items.push_back(Item{0, i});
  }
  // an array that holds itself
  {
    Block b;
    for (int i = 0; i < nv; ++i)
      if (kinds[size_t(i)] == "array" && s.chance(1, 4)) {
        auto st = std::make_shared<Stmt>(Stmt::ArrSet);
        st->name = fmt("v%d", i);
        st->e2 = mk_int(0);
        st->e = mk_var(fmt("v%d", int(s.below(uint32_t(nv)))));
        b.push_back(st);
      }
    b.push_back(st_return(mk_int(0)));
    add_fn("tie", {}, b);
  }
  // operands reach an operator in different ways
  int used[2];
  auto operand = [&](int slot) -> EP {
    const int i = int(s.below(uint32_t(nv)));
    used[slot] = i;
    switch (s.below(4)) {
    case 0: return mk_var(fmt("v%d", i));
    case 1: return clone(vals[size_t(i)]);
    case 2: return mk_index(mk_arr({mk_int(1), mk_var(fmt("v%d", i))}), mk_int(1));
    default: return mk_var(fmt("v%d", i));
    }
  };
  const int nt = 16;
  std::vector<std::string> what;
  for (int t = 0; t < nt; ++t) {
    Block b;
    EP x = operand(0), y = operand(1);
    std::string kx = kinds[size_t(used[0])], ky = kinds[size_t(used[1])];
    // an operand in a local
    if (s.chance(1, 3)) {
      b.push_back(st_decl("l", x));
      x = mk_var("l");
    }
    const std::string gx = fmt("v%d", used[0]);
    std::string w;
    switch (s.weighted({24, 2, 2, 12, 6, 3, 3, 2, 3, 3, 2, 2})) {
    case 0: {
      const Op op = Op(s.below(12));
      w = fmt("%s %s %s", kx.c_str(), op_text[op], ky.c_str());
      EP e = mk_bin(op, x, y);
      if (has_const_div_zero(p, e))
        e = mk_bin(op, x, mk_callf("abs", {mk_int(3)}));
      b.push_back(st_return(e));
      break;
    }
    case 1: w = "not " + kx; b.push_back(st_return(mk_not(x))); break;
    case 2: w = "-" + kx; b.push_back(st_return(mk_neg(x))); break;
    case 3: {
      static const char *const one[] = {"abs", "sin", "cos", "tan", "len", "chr", "round", "ceil",
                                        "floor", "sqrt", "new_array", "wait"};
      const char *f = one[s.below(12)];
      w = fmt("%s(%s)", f, kx.c_str());
      // directly, or through a value
      EP callee = mk_var(f);
      if (s.chance(1, 4))
        callee = mk_index(mk_arr({callee}), mk_int(0));
      b.push_back(st_return(mk_call(callee, {x})));
      break;
    }
    case 4: {
      static const char *const two[] = {"min", "max", "bitand"};
      const char *f = two[s.below(3)];
      w = fmt("%s(%s, %s)", f, kx.c_str(), ky.c_str());
      b.push_back(st_return(mk_callf(f, {x, y})));
      break;
    }
    case 5: w = kx + "[" + ky + "]"; b.push_back(st_return(mk_index(x, y))); break;
    case 6: {
      w = kx + "[int]";
      int at = int(s.below(6)) - 1;
      if (kx == "string" && s.chance(1, 2)) {
        // near the end, or anywhere
        const int n = int(vals[size_t(used[0])]->text.size());
        at = s.chance(1, 2) ? n + 1 - int(s.below(4)) : int(s.below(uint32_t(n + 1)));
      }
      EP e = mk_index(x, mk_int(at));
      // what the element is worth: an int without sign
      if (s.chance(1, 3))
        e = mk_callf("chr", {e});
      b.push_back(st_return(e));
      break;
    }
    case 7: {
      w = kx + "(...)";
      std::vector<EP> args;
      for (int n = int(s.below(4)); n > 0; --n)
        args.push_back(operand(1));
      b.push_back(st_return(mk_call(mk_index(mk_arr({x}), mk_int(0)), args)));
      break;
    }
    case 8: { // truth
      w = "if " + kx;
      auto st = std::make_shared<Stmt>(Stmt::If);
      st->e = x;
      st->body.push_back(st_return(mk_str("yes")));
      st->has_else = true;
      st->other.push_back(st_return(mk_str("no")));
      b.push_back(st);
      break;
    }
    case 9: { // element assignment
      w = kx + "[" + ky + "] = ";
      auto st = std::make_shared<Stmt>(Stmt::ArrSet);
      st->name = gx;
      st->e2 = s.chance(1, 2) ? y : mk_int(int(s.below(6)) - 1);
      st->e = mk_int(t);
      b.push_back(st);
      b.push_back(st_return(mk_var(gx)));
      break;
    }
    case 10: { // compound assignment
      const Op op = Op(s.below(4));
      w = fmt("%s %s= %s", kx.c_str(), op_text[op], ky.c_str());
      b.push_back(st_decl("k", mk_var(gx)));
      auto st = std::make_shared<Stmt>(Stmt::Compound);
      st->name = "k";
      st->op = op;
      st->e = y;
      b.push_back(st);
      b.push_back(st_return(mk_arr({mk_var("k"), mk_var(gx)})));
      break;
    }
    default: { // length
      w = kx + ".length";
      b.push_back(st_return(mk_member(gx, s.chance(3, 4) ? "length" : "len")));
      break;
    }
    }
    what.push_back(w);
    add_fn(fmt("t%d", t), {}, b);
  }
  Style plain;
  const std::string text = print(p, plain);
  const bool optimize = s.chance(1, 2);
  c.show((optimize ? "# optimised\n" : "") + text);
  auto b = api::compile(text, optimize);
  if (!b.ok)
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);

  // the model
  ref::Interp in(p);
  in.fn_text = [&](const Func *f) {
    function_t *x = b.prog->function_find(f->name);
    return fmt("function@%d", x ? x->code_start_ : -1);
  };
  api::Host host;
  api::g_host = &host;
  vm_t vm(*b.prog);
  try {
    in.run_init();
  } catch (const ref::RtErr &) {
    throw Discard{"the initialisers fail"};
  } catch (const ref::Limit &l) {
    throw Discard{l.why};
  }
  if (!vm.call_init())
    fail("the initialisers fail");
  size_t compared = 0, errors = 0;
  auto both = [&](const std::string &fn, const std::string &w) {
    const Func *mf = p.find_func(fn);
    function_t *f = b.prog->function_find(fn);
    if (!f)
      fail("function %s is missing", fn.c_str());
    std::string want;
    int werr = 0;
    in.fuel = 10000;
    try {
      want = in.dump(in.call(mf, {}));
    } catch (const ref::RtErr &x) {
      werr = api::err_code(x.e);
    } catch (const ref::Limit &) {
      return;
    }
    value_t *ret = nullptr;
    thread_error_t err = thread_error_t::e_success;
    const bool ok = vm.call_once(*f, 0, nullptr, ret, err);
    if (ok != (int(err) == 0))
      fail("%s (%s): call_once reports %d with error %s", fn.c_str(), w.c_str(), int(ok),
           api::err_text(int(err)).c_str());
    if (int(err) != werr)
      fail("%s (%s): error %s, expected %s", fn.c_str(), w.c_str(), api::err_text(int(err)).c_str(),
           api::err_text(werr).c_str());
    ++compared;
    if (werr) {
      ++errors;
      c.label("error: " + w);
      return;
    }
    c.label("value: " + w);
    const std::string got = api::dump(ret, *b.prog);
    if (got != want)
      fail("%s (%s): %.200s, expected %.200s", fn.c_str(), w.c_str(), got.c_str(), want.c_str());
  };
  both("tie", "tie");
  for (int t = 0; t < nt; ++t)
    both(fmt("t%d", t), what[size_t(t)]);
  // none of it changed a value it should not
  for (int i = 0; i < nv; ++i) {
    auto it = in.globals.find(fmt("v%d", i));
    if (size_t(i) < vm.globals().size() && it != in.globals.end()) {
      const auto &ids = b.prog->globals();
      for (auto &id : ids)
        if (id.name_ == it->first && size_t(id.offset_) < vm.globals().size()) {
          const std::string got = api::dump(vm.globals()[size_t(id.offset_)], *b.prog);
          const std::string want = in.dump(it->second);
          if (got != want)
            fail("%s is now %.200s, expected %.200s", it->first.c_str(), got.c_str(), want.c_str());
        }
    }
  }
  if (host.out != in.out)
    fail("shown [%.200s], expected [%.200s]", api::join(host.out, 20).c_str(),
         api::join(in.out, 20).c_str());
  api::g_host = nullptr;
  c.nontrivial = compared >= 8 && errors >= 1;
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C12";
  sp.rule = "Each case is a program of 16 operations: an operator, built in function, index, call, "
            "condition or assignment on operands drawn from ints (extremes), floats (infinities, "
            "nan, minus zero, denormals), strings (any byte), none, arrays (nested, cyclic), "
            "functions and host functions, reached as globals, locals, literals or elements, with "
            "the optimiser on or off; each result or error must be the model's. Non-trivial: eight "
            "operations compared, at least one of them an error.";
  sp.quick_cases = 200000;
  sp.thorough_cases = 1000000;
  sp.fn = prop;
  sp.assumptions = {"min and max of nan and of zeros of opposite sign, and conversions of floats "
                    "beyond a million to array sizes and waits, are left out"};
  return run(argc, argv, sp);
}
