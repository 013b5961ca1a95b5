// Programs blown up in one or two ways, against the reference interpreter.
#pragma once
#include "api.h"
#include <algorithm>
#include <unistd.h>
namespace big {
using namespace pbt;
using namespace lang;
using namespace nano;

// a size up to max, often next to a power of two
static int size_of(Src &s, int max) {
  int n = 0;
  switch (s.below(4)) {
  case 3: n = 5 + int(s.below(100)); break;
  case 0: n = 100 + int(s.below(60)); break;
  case 1: {
    const int bits = 7 + int(s.below(11));
    n = (1 << bits) - 3 + int(s.below(7));
    break;
  }
  default: n = 100 + int(s.below(uint32_t(max))); break;
  }
  while (n > max)
    n = n / 2 + 1;
  return n;
}

static EP num(int v) { return mk_int(v); }
static EP var(const std::string &n) { return mk_var(n); }
static EP add(EP a, EP b) { return mk_bin(ADD, a, b); }
static std::string nm(const char *base, int i) { return fmt("zz_%s%d", base, i); }

struct Inflate {
  Src &s;
  Prog &p;
  Case &c;
  std::string what;
  int lines = 0; // blank lines before everything
  int column = 0;
  bool threads = false;
  long fuel = 100000;

  void add_func(const std::string &n, const std::vector<std::string> &args, const Block &b) {
    Func f;
    f.name = n;
    f.args = args;
    f.body = b;
    p.funcs.push_back(f);
    Item it{1, int(p.funcs.size()) - 1};
    if (at_front)
      p.items.insert(p.items.begin() + long(front++), it);
    else
      p.items.push_back(it);
  }
  // all new globals come first: the program's own may not refer to them
  void add_global(const std::string &n, EP init, bool is_const = false) {
    Global g;
    g.name = n;
    g.init = init;
    g.is_const = is_const;
    p.globals.push_back(g);
    p.items.insert(p.items.begin() + long(front++), Item{0, int(p.globals.size()) - 1});
  }
  bool at_front = false;
  size_t front = 0;
  int id = 0;

  SP if_(EP cond, Block b, bool has_else = false, Block o = {}) {
    auto st = std::make_shared<Stmt>(Stmt::If);
    st->e = cond;
    st->body = b;
    st->has_else = has_else;
    st->other = o;
    return st;
  }
  SP while_(EP cond, Block b) {
    auto st = std::make_shared<Stmt>(Stmt::While);
    st->e = cond;
    st->body = b;
    return st;
  }
  SP aset(const std::string &n, EP i, EP v) {
    auto st = std::make_shared<Stmt>(Stmt::ArrSet);
    st->name = n;
    st->e2 = i;
    st->e = v;
    return st;
  }
  std::vector<int> some(int n) {
    std::vector<int> v = {0, n / 2, n - 1};
    for (int k : {1, 126, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65535, 65536})
      if (k < n)
        v.push_back(k);
    v.push_back(int(s.below(uint32_t(n))));
    v.push_back(int(s.below(uint32_t(n))));
    return v;
  }

  Block make(int kind) {
    Block b;
    const int k = id++;
    const std::string t = fmt("%d_", k);
    auto N = [&](const char *base, int i) { return nm((t + base).c_str(), i); };
    auto note = [&](const char *w, int n) {
      what += fmt("%s x %d; ", w, n);
      c.label(w);
    };
    at_front = s.chance(1, 2);
    switch (kind) {
    case 0: {
      lines = size_of(s, 140000);
      note("blank lines", lines);
      break;
    }
    case 1: {
      const int n = size_of(s, 3000);
      note("functions", n);
      for (int i = 0; i < n; ++i)
        add_func(N("f", i), {"zz_a"}, {st_return(add(var("zz_a"), num(i)))});
      for (int i : some(n))
        b.push_back(st_out(mk_callf(N("f", i), {num(i % 7)})));
      break;
    }
    case 2: {
      const int n = size_of(s, 3000);
      note("globals", n);
      for (int i = 0; i < n; ++i)
        add_global(N("g", i), i % 5 ? num(i * 3) : nullptr);
      for (int i : some(n)) {
        b.push_back(st_out(var(N("g", i))));
        b.push_back(st_assign(N("g", i), num(i + 1)));
        b.push_back(st_out(var(N("g", n - 1 - i))));
      }
      break;
    }
    case 3: {
      const int n = size_of(s, s.chance(1, 8) ? 5000 : 2000);
      note("locals", n);
      Block in;
      for (int i = 0; i < n; ++i)
        in.push_back(st_decl(N("l", i), i % 3 ? num(i) : mk_str(fmt("s%d", i))));
      for (int i : some(n)) {
        in.push_back(st_out(var(N("l", i))));
        in.push_back(st_assign(N("l", i), num(-i)));
        in.push_back(st_out(var(N("l", n - 1 - i))));
      }
      // a frame above the big one
      in.push_back(st_out(mk_callf("abs", {num(-k)})));
      if (s.chance(1, 2)) {
        b = in;
        break;
      }
      // in a function that gives way to its caller
      in.push_back(st_return(mk_arr({var("zz_b"), var("zz_a"), var(N("l", n - 1))})));
      add_func(N("deep", 0), {"zz_a", "zz_b"}, in);
      b.push_back(st_decl(N("r", 0), num(k)));
      b.push_back(st_out(mk_arr({num(3), mk_callf(N("deep", 0), {num(1), num(2)}), num(4)})));
      b.push_back(st_out(add(var(N("r", 0)), mk_index(mk_callf(N("deep", 0), {num(5), num(6)}), num(0)))));
      fuel += 8l * n;
      break;
    }
    case 4: {
      // jumps over a long stretch
      const int n = size_of(s, 9000);
      note("statements", n);
      const std::string z = N("z", 0), m = N("m", 0);
      add_global(z, num(0));
      Block skip;
      for (int i = 0; i < n; ++i)
        skip.push_back(i % 4 == 3 ? st_out(num(i)) : st_assign(z, add(var(z), num(i % 9))));
      b.push_back(st_decl(m, num(3)));
      switch (s.below(5)) {
      case 0: b.push_back(if_(var(z), skip, true, {st_out(mk_str("else"))})); break;
      case 1: b.push_back(if_(mk_not(var(z)), {st_out(mk_str("then"))}, true, skip)); break;
      case 2: b.push_back(while_(var(z), skip)); break;
      case 3:
        b.push_back(while_(mk_bin(GT, var(m), num(0)), {st_assign(m, mk_bin(SUB, var(m), num(1))), if_(var(z), skip), st_out(var(m))}));
        break;
      default: {
        // executed once
        b.push_back(if_(num(1), skip));
        fuel += 10 * n;
      }
      }
      b.push_back(st_out(add(var(z), var(m))));
      break;
    }
    case 5: {
      const int n = size_of(s, 400);
      note("arguments", n);
      std::vector<std::string> args;
      std::vector<EP> vals;
      EP sum = num(0);
      for (int i = 0; i < n; ++i) {
        args.push_back(N("a", i));
        vals.push_back(i % 11 == 5 ? mk_str(fmt("v%d", i)) : num(i * i));
      }
      Block body;
      for (int i : some(n)) {
        body.push_back(st_out(var(args[size_t(i)])));
        body.push_back(st_assign(args[size_t(i)], num(i)));
      }
      body.push_back(st_decl(N("q", 1), num(4)));
      body.push_back(st_return(mk_arr({var(args[size_t(n - 1)]), var(args[0]), var(N("q", 1))})));
      add_func(N("wide", 0), args, body);
      b.push_back(st_out(mk_arr({num(3), mk_callf(N("wide", 0), vals), num(4)})));
      b.push_back(st_decl(N("w", 0), var(N("wide", 0))));
      b.push_back(st_out(mk_call(var(N("w", 0)), vals)));
      b.push_back(st_call("vout", vals));
      break;
    }
    case 6: {
      const int n = size_of(s, 4000);
      note("elements", n);
      std::vector<EP> v;
      for (int i = 0; i < n; ++i)
        v.push_back(i % 13 == 4 ? mk_none() : num(i ^ 5));
      const std::string a = N("a", 0);
      b.push_back(st_decl(a, mk_arr(v)));
      b.push_back(st_out(mk_callf("len", {var(a)})));
      b.push_back(st_out(mk_member(a, "length")));
      for (int i : some(n)) {
        b.push_back(st_out(mk_index(var(a), num(i))));
        b.push_back(aset(a, num(i), num(i * 2)));
        b.push_back(st_out(mk_index(var(a), num(n - 1 - i))));
      }
      break;
    }
    case 7: {
      const int n = size_of(s, 8000);
      note("new_array", n);
      const std::string a = N("a", 0), i = N("i", 0), x = N("s", 0);
      b.push_back(st_decl(a, mk_callf("new_array", {num(n)})));
      b.push_back(st_decl(i, num(0)));
      b.push_back(st_decl(x, num(0)));
      b.push_back(while_(mk_bin(LT, var(i), num(n)), {aset(a, var(i), mk_bin(MUL, var(i), num(3))), st_assign(i, add(var(i), num(1)))}));
      b.push_back(st_assign(i, num(0)));
      b.push_back(while_(mk_bin(LT, var(i), mk_member(a, "length")), {st_assign(x, mk_bin(MOD, add(mk_bin(MUL, var(x), num(31)), mk_index(var(a), var(i))), num(65521))), st_assign(i, add(var(i), num(1)))}));
      b.push_back(st_out(var(x)));
      fuel += 60l * n;
      break;
    }
    case 8: {
      const int n = size_of(s, 70000);
      note("string bytes", n);
      std::string t1;
      for (int i = 0; i < n; ++i)
        t1 += char('a' + (i * 7 + i / 256) % 26);
      const std::string a = N("s", 0), d = N("s", 1);
      b.push_back(st_decl(a, mk_str(t1)));
      b.push_back(st_out(mk_callf("len", {var(a)})));
      for (int i : some(n))
        b.push_back(st_out(mk_index(var(a), num(i))));
      b.push_back(st_decl(d, add(var(a), mk_str("!"))));
      b.push_back(st_out(mk_callf("len", {var(d)})));
      b.push_back(st_out(mk_index(var(d), num(n))));
      b.push_back(st_out(mk_bin(EQ, var(a), add(mk_str(""), var(a)))));
      b.push_back(st_out(mk_bin(EQ, add(var(a), mk_str("?")), var(d))));
      // nothing of it stays alive
      b.push_back(st_assign(a, num(0)));
      b.push_back(st_assign(d, num(0)));
      break;
    }
    case 9: {
      const int n = size_of(s, 700);
      note("call depth", n);
      const std::string f = N("rec", 0), a = N("n", 0);
      // each level has a local of its own that must survive
      const std::string l = N("l", 0);
      add_func(f, {a}, {st_decl(l, mk_bin(MUL, var(a), num(2))), if_(mk_bin(EQ, var(a), num(0)), {st_return(num(0))}), st_decl(N("r", 0), mk_callf(f, {mk_bin(SUB, var(a), num(1))})), st_return(mk_bin(MOD, add(add(var(N("r", 0)), var(l)), var(a)), num(99991)))});
      b.push_back(st_out(mk_arr({num(3), mk_callf(f, {num(n)}), num(4)})));
      fuel += 40l * n;
      break;
    }
    case 10: {
      const int n = size_of(s, 600);
      note("operators", n);
      const std::string one = N("one", 0);
      b.push_back(st_decl(one, num(1)));
      EP e = var(one), r = num(2), ks = num(1);
      for (int i = 0; i < n; ++i) {
        e = i % 3 == 2 ? mk_bin(SUB, e, num(i % 5)) : add(e, i % 2 ? var(one) : num(i));
        ks = add(ks, num(i));
      }
      for (int i = 0; i < n / 4; ++i)
        r = i % 2 ? add(num(i), r) : mk_bin(SUB, var(one), r);
      b.push_back(st_out(e));
      b.push_back(st_out(r));
      b.push_back(st_out(ks));
      break;
    }
    case 11: {
      const int n = size_of(s, 20000);
      note("iterations", n);
      const std::string i = N("i", 0), x = N("x", 0), y = N("y", 0);
      b.push_back(st_decl(x, num(0)));
      b.push_back(st_decl(y, mk_str("")));
      b.push_back(st_decl(i, num(0)));
      auto f = std::make_shared<Stmt>(Stmt::For);
      f->name = i;
      f->e = num(0);
      f->e2 = num(n);
      f->body = {st_assign(x, mk_bin(MOD, add(mk_bin(MUL, var(x), num(17)), var(i)), num(30011))), st_assign(y, add(mk_str("it "), var(i)))};
      b.push_back(f);
      b.push_back(st_out(mk_arr({var(x), var(y), var(i)})));
      fuel += 60l * n;
      break;
    }
    case 12: {
      if (s.chance(1, 12)) {
        // far more than are ever alive at once
        const int per = 1200, n = 2 + int(s.below(56));
        note("very many strings", n * per);
        const std::string f = N("f", 0);
        Block body;
        for (int i = 0; i < n; ++i) {
          std::vector<EP> v;
          for (int j = 0; j < per; ++j)
            v.push_back(mk_str(fmt("%d.%d", i, j)));
          body.push_back(if_(mk_bin(EQ, var("zz_a"), num(i)), {st_return(mk_arr(v))}));
        }
        add_func(f, {"zz_a"}, body);
        for (int i : {0, n / 2, n - 2, n - 1, int(s.below(uint32_t(n)))})
          b.push_back(st_out(mk_index(mk_callf(f, {num(i)}), num(int(s.below(uint32_t(per)))))));
        break;
      }
      const int n = size_of(s, 1500);
      note("strings", n);
      std::vector<EP> v;
      for (int i = 0; i < n; ++i)
        v.push_back(mk_str(fmt("text %d", i)));
      const std::string a = N("a", 0);
      b.push_back(st_decl(a, mk_arr(v)));
      for (int i : some(n))
        b.push_back(st_out(mk_index(var(a), num(i))));
      break;
    }
    case 13: {
      const int n = size_of(s, 1500);
      note("constants", n);
      for (int i = 0; i < n; ++i)
        add_global(N("c", i), num(i * 2), true);
      for (int i : some(n))
        b.push_back(st_out(add(var(N("c", i)), num(1))));
      break;
    }
    case 14: {
      const int n = size_of(s, 5000);
      note("calls", n);
      const std::string g = N("g", 0);
      add_global(g, num(0));
      add_func(N("f", 0), {"zz_a"}, {st_assign(g, mk_bin(MOD, add(mk_bin(MUL, var(g), num(3)), var("zz_a")), num(10007)))});
      for (int i = 0; i < n; ++i)
        b.push_back(st_call(N("f", 0), {num(i)}));
      b.push_back(st_out(var(g)));
      fuel += 20l * n;
      break;
    }
    case 15: {
      const int n = 5 + int(s.below(60));
      note("nested blocks", n);
      Block in = {st_out(mk_str("innermost"))};
      const std::string v = N("v", 0);
      for (int i = 0; i < n; ++i) {
        const std::string l = N("l", i);
        Block x = {st_decl(l, num(i)), if_(mk_bin(GEQ, var(l), num(0)), in, true, {st_out(mk_str("never"))})};
        x.push_back(st_assign(v, add(var(v), var(l))));
        in = x;
      }
      b.push_back(st_decl(v, num(0)));
      b.push_back(if_(num(1), in));
      b.push_back(st_out(var(v)));
      break;
    }
    case 16: {
      const int n = size_of(s, 500);
      note("threads", n);
      threads = true;
      const std::string g = N("sum", 0), f = N("thr", 0), i = N("i", 0);
      add_global(g, num(0));
      // each writes an element of its own
      b.push_back(st_assign(g, mk_callf("new_array", {num(n)})));
      add_func(f, {"zz_a", "zz_b"}, {st_decl("zz_c", mk_arr({var("zz_a"), var("zz_b")})), aset(g, mk_index(var("zz_c"), num(0)), mk_bin(MUL, mk_index(var("zz_c"), num(0)), mk_index(var("zz_c"), num(1))))});
      b.push_back(st_decl(i, num(0)));
      b.push_back(while_(mk_bin(LT, var(i), num(n)), {st_call("new_thread", {var(f), var(i), num(3)}), st_assign(i, add(var(i), num(1)))}));
      fuel += 60l * n;
      break;
    }
    case 17: {
      // one inside the next, within one expression
      const int n = 3 + int(s.below(s.chance(1, 3) ? 250 : 40));
      note("nested expressions", n);
      const std::string f = N("f", 0);
      add_func(f, {"zz_a", "zz_b"}, {st_return(add(var("zz_a"), mk_bin(MUL, num(3), var("zz_b"))))});
      const std::string x = N("x", 0);
      b.push_back(st_decl(x, num(k + 2)));
      EP e = var(x);
      const int form = int(s.below(6));
      for (int i = 0; i < n; ++i) {
        const int pick = form < 5 ? form : int(s.below(5));
        switch (pick) {
        case 0: e = i % 2 ? mk_callf(f, {num(i % 7), e}) : mk_callf(f, {e, num(i % 5)}); break;
        case 1: e = mk_index(mk_arr({num(i), e, num(3)}), num(1)); break;
        case 2: e = i % 3 ? mk_neg(e) : mk_bin(SUB, num(i), e); break;
        case 3: e = mk_index(mk_arr({num(7), num(8)}), mk_bin(MOD, mk_callf("abs", {e}), num(2))); break;
        default: e = i % 2 ? mk_bin(MUL, add(num(i % 4), e), num(2)) : mk_bin(SUB, e, mk_bin(MUL, e->k == Expr::Var ? e : num(2), num(i % 3))); break;
        }
        e = i % 5 == 4 ? mk_bin(MOD, e, num(10007)) : e;
      }
      b.push_back(st_out(e));
      fuel += 80l * n;
      break;
    }
    case 18: {
      const int n = size_of(s, 600);
      note("terms of a condition", n);
      const std::string x = N("x", 0), f = N("f", 0), g = N("g", 0);
      add_global(g, num(0));
      // each term tells that it was asked
      add_func(f, {"zz_a"}, {st_assign(g, add(var(g), num(1))), st_return(var("zz_a"))});
      b.push_back(st_decl(x, num(0)));
      const int stop = int(s.below(uint32_t(n + 1)));
      const Op op = s.chance(1, 2) ? AND : OR;
      EP e, m = var(x);
      for (int i = 0; i < n; ++i) {
        EP t = mk_callf(f, {num((i == stop) == (op == OR) ? i + 1 : 0)});
        e = !e ? t : mk_bin(op, e, t);
        m = i % 3 == 0 ? mk_bin(OR, m, num(0)) : i % 3 == 1 ? mk_bin(AND, num(1), m) : mk_not(m);
      }
      b.push_back(if_(e, {st_out(mk_str("yes"))}, true, {st_out(mk_str("no"))}));
      b.push_back(st_out(var(g)));
      b.push_back(st_out(m));
      fuel += 40l * n;
      break;
    }
    case 19: {
      const int n = 4 + int(s.below(120));
      note("branches of one choice", n);
      // each else holds the next question
      const std::string f = N("f", 0);
      Block in = {st_return(mk_str("none of them"))};
      for (int i = n - 1; i >= 0; --i) {
        Block body = {st_decl(N("l", i), num(i * 2)), st_return(add(var(N("l", i)), num(1)))};
        if (s.chance(1, 2)) {
          Block x = {if_(mk_bin(EQ, var("zz_a"), num(i)), body, true, in)};
          if (i % 4 == 1)
            x.insert(x.begin(), st_decl(N("m", i), mk_str("m")));
          in = x;
        } else {
          in.insert(in.begin(), if_(mk_bin(EQ, var("zz_a"), num(i)), body));
        }
      }
      add_func(f, {"zz_a"}, in);
      for (int i : some(n))
        b.push_back(st_out(mk_callf(f, {num(i)})));
      b.push_back(st_out(mk_callf(f, {num(n)})));
      b.push_back(st_out(mk_callf(f, {num(-1)})));
      fuel += 60l * n;
      break;
    }
    case 20: {
      const int n = size_of(s, 600);
      note("functions in an array", n);
      std::vector<EP> v;
      for (int i = 0; i < n; ++i) {
        add_func(N("f", i), {"zz_a"}, {st_return(mk_bin(SUB, var("zz_a"), num(i)))});
        v.push_back(var(N("f", i)));
      }
      const std::string a = N("a", 0);
      b.push_back(st_decl(a, mk_arr(v)));
      for (int i : some(n)) {
        b.push_back(st_out(mk_call(mk_index(var(a), num(i)), {num(i * 3)})));
        b.push_back(st_out(mk_bin(EQ, mk_index(var(a), num(i)), var(N("f", i)))));
      }
      break;
    }
    case 21: {
      const int n = 2 + int(s.below(7));
      note("nested loops", n);
      const std::string x = N("x", 0);
      Block in = {st_assign(x, mk_bin(MOD, add(mk_bin(MUL, var(x), num(3)), num(1)), num(20011)))};
      b.push_back(st_decl(x, num(k)));
      for (int i = n - 1; i >= 0; --i) {
        const std::string j = N("i", i);
        Block body = in;
        body.push_back(st_assign(x, add(var(x), var(j))));
        if (s.chance(1, 2)) {
          auto f = std::make_shared<Stmt>(Stmt::For);
          f->name = j;
          f->e = num(0);
          f->e2 = num(2);
          f->body = body;
          in = {st_decl(j, num(9)), f};
        } else {
          body.push_back(st_assign(j, add(var(j), num(1))));
          in = {st_decl(j, num(0)), while_(mk_bin(LT, var(j), num(2)), body)};
        }
      }
      for (auto &st : in)
        b.push_back(st);
      b.push_back(st_out(var(x)));
      fuel += 80l * (1 << n);
      break;
    }
    case 22: {
      const int n = size_of(s, 2000);
      note("globals set up by calls", n);
      const std::string f = N("f", 0);
      add_func(f, {"zz_a"}, {st_decl("zz_t", mk_arr({var("zz_a"), mk_str("x")})), st_return(add(mk_index(var("zz_t"), num(0)), num(4)))});
      for (int i = 0; i < n; ++i)
        add_global(N("g", i), i % 3 == 0 ? mk_callf(f, {num(i)}) : i % 3 == 1 ? add(var(N("g", i - 1)), num(1)) : mk_arr({num(i), mk_str("y")}));
      for (int i : some(n))
        b.push_back(st_out(var(N("g", i))));
      fuel += 40l * n;
      break;
    }
    case 24: {
      const int n = size_of(s, 60000);
      note("steps of an initialiser", n);
      const std::string f = N("f", 0), i = N("i", 0), a = N("a", 0);
      add_func(f, {"zz_a"}, {st_decl(i, num(0)), st_decl(a, num(1)),
                             while_(mk_bin(LT, var(i), var("zz_a")), {st_assign(a, mk_bin(MOD, add(mk_bin(MUL, var(a), num(3)), var(i)), num(10007))), st_assign(i, add(var(i), num(1)))}),
                             st_return(mk_arr({var(a), var(i)}))});
      add_global(N("g", 0), mk_callf(f, {num(n)}));
      add_global(N("g", 1), add(mk_index(var(N("g", 0)), num(1)), num(1)));
      b.push_back(st_out(var(N("g", 0))));
      b.push_back(st_out(var(N("g", 1))));
      fuel += 60l * n;
      break;
    }
    case 23: {
      const int n = size_of(s, 3000);
      note("results thrown away", n);
      // statements that leave nothing behind, in a loop
      const std::string i = N("i", 0), f = N("f", 0);
      add_func(f, {"zz_a"}, {st_decl("zz_t", var("zz_a")), if_(mk_bin(GT, var("zz_t"), num(5)), {st_return(mk_str("big"))})});
      b.push_back(st_decl(i, num(0)));
      b.push_back(while_(mk_bin(LT, var(i), num(n)), {st_call(f, {var(i)}), st_call("abs", {var(i)}), st_call(f, {mk_callf("min", {var(i), num(3)})}), st_assign(i, add(var(i), num(1)))}));
      b.push_back(st_out(var(i)));
      fuel += 80l * n;
      break;
    }
    default: {
      const int n = size_of(s, 700);
      note("name length", n);
      const std::string base = "zz_" + t + std::string(size_t(n), 'n');
      add_global(base + "A", num(1));
      add_global(base + "B", num(2));
      add_func(base + "F", {base + "X", base + "Y"}, {st_return(mk_arr({var(base + "Y"), var(base + "X"), var(base + "A")}))});
      add_func(base + "G", {base + "X"}, {st_decl(base + "Z", num(5)), st_return(add(var(base + "X"), var(base + "Z")))});
      add_func(base, {}, {st_return(mk_callf(base + "G", {num(2)}))});
      b.push_back(st_out(mk_callf(base + "F", {var(base + "B"), num(k)})));
      b.push_back(st_out(mk_callf(base + "G", {num(k)})));
      b.push_back(st_out(mk_callf(base, {})));
      b.push_back(st_out(mk_call(mk_index(mk_arr({var(base + "G"), var(base + "F")}), num(0)), {num(1)})));
      break;
    }
    }
    return b;
  }
};

struct Fixed { // -1: either
  int fault = -1, saved = -1, optimize = -1;
  bool differ = false; // only what the optimiser, or the file, gets wrong counts
};

static void prop(Src &s, Case &c, const Fixed &fx) {
  GenOpts o;
  o.stmts = 3;
  o.depth = 2;
  o.max_funcs = 3;
  o.wild = s.chance(1, 3) ? 4 : 0;
  Gen g(s, o);
  g.program("main");
  Prog &p = g.p;
  Inflate in{s, p, c};
  const int kinds = s.chance(1, 3) ? 2 : 1;
  for (int i = 0; i < kinds; ++i) {
    Block b = in.make(int(s.below(26)));
    if (s.chance(1, 2)) {
      // in a function of its own, called with values waiting on the stack
      const std::string f = fmt("zz_in%d", i);
      b.push_back(st_return(mk_int(77)));
      in.at_front = s.chance(1, 2);
      in.add_func(f, {"zz_p"}, b);
      b = {st_decl(fmt("zz_ret%d", i), mk_arr({mk_int(5), mk_callf(f, {mk_int(6)}), mk_str("after")})),
           st_out(mk_var(fmt("zz_ret%d", i)))};
    }
    size_t fi = 0;
    for (size_t j = 0; j < p.funcs.size(); ++j)
      if (p.funcs[j].name == "main")
        fi = j;
    Block &m = p.funcs[fi].body;
    // among the statements of main, where a local of it may be in the way of nothing
    const size_t at = s.chance(3, 4) ? 0 : s.below(uint32_t(m.size() + 1));
    m.insert(m.begin() + long(at), b.begin(), b.end());
  }
  const bool fault = fx.fault < 0 ? s.chance(1, 3) : fx.fault != 0;
  if (fault) {
    Func *m = nullptr;
    for (auto &f : p.funcs)
      if (f.name == "main")
        m = &f;
    // after the inflated part
    size_t at = m->body.size();
    for (size_t i = 0; i < m->body.size(); ++i)
      if (m->body[i]->k == Stmt::Return) {
        at = i;
        break;
      }
    static const char *const z = "zz_zero";
    Global gl;
    gl.name = z;
    gl.init = mk_int(0);
    p.globals.push_back(gl);
    p.items.insert(p.items.begin(), Item{0, int(p.globals.size()) - 1});
    m->body.insert(m->body.begin() + long(at), st_out(mk_bin(DIV, mk_int(1), mk_var(z))));
  }
  const bool optimize = fx.optimize < 0 ? s.chance(1, 2) : fx.optimize != 0,
             saved = fx.saved < 0 ? s.chance(1, 3) : fx.saved != 0, by_vm = s.chance(1, 2);
  Style st;
  std::string text = print(p, st);
  const std::string story = fmt("# %s%s, %s%s\n", in.what.c_str(), optimize ? "optimised" : "not optimised",
                                saved ? "saved and loaded, " : "", by_vm ? "by vm" : "by thread");
  c.show(story + (in.lines ? fmt("# after %d blank lines\n", in.lines) : "") + (text.size() > 6000 ? text.substr(0, 3000) + "\n[...]\n" + text.substr(text.size() - 3000) : text));
  text = std::string(size_t(in.lines), '\n') + text;

  const uint32_t q = 1 + s.below(s.chance(1, 2) ? 300 : 100000);
  auto attempt = [&](bool optimize, bool saved) {
  // ---- the model
  auto b = api::compile(text, optimize);
  if (!b.ok)
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);
  std::unique_ptr<program_t> loaded;
  program_t *prog = b.prog.get();
  if (saved) {
    const std::string path = scratch() + fmt("/big.%d", int(getpid()));
    if (!prog->serial_save(path.c_str()))
      fail("the program can not be saved");
    loaded.reset(new program_t);
    if (!loaded->serial_load(path.c_str()))
      fail("the saved program can not be loaded");
    unlink(path.c_str());
    api::resolve(*loaded);
    prog = loaded.get();
  }
  api::Expect e;
  ref::Interp m(p);
  m.fuel = in.fuel;
  m.max_depth = 800;
  m.max_live = 260 * 1024;
  m.max_str = 100000;
  m.fn_text = [](const Func *) -> std::string { throw ref::Limit{"text of a function value"}; };
  std::vector<std::pair<const Func *, std::vector<ref::Val>>> queue;
  m.spawn = [&](const Func *f, const std::vector<ref::Val> &a) { queue.push_back({f, a}); };
  try {
    try {
      m.run_init();
    } catch (const ref::RtErr &) {
      e.init_err = true;
      throw;
    }
    e.ret = m.dump(m.call(p.find_func("main"), {}));
  } catch (const ref::RtErr &x) {
    e.error = x.e;
    e.efile = x.file;
    e.eline = x.line + in.lines;
  } catch (const ref::Limit &l) {
    throw Discard{l.why};
  }
  e.out = m.out;
  e.steps = m.steps;
  try {
    for (auto &q : queue)
      m.call(q.first, q.second);
  } catch (const ref::RtErr &x) {
    throw Discard{"a thread fails"};
  } catch (const ref::Limit &l) {
    throw Discard{l.why};
  }

  // ---- the code under test
  api::Host host;
  api::g_host = &host;
  api::Result r;
  {
    vm_t vm(*prog);
    r.init_ok = vm.call_init();
    if (!r.init_ok) {
      for (auto *t : vm.thread())
        if (t->has_error()) {
          r.error = int(t->get_error());
          r.eline = t->get_source_line();
        }
    } else {
      function_t *f = prog->function_find("main");
      if (!f)
        fail("function 'main' is not in the compiled program");
      thread_t *t = vm.new_thread(*f, 0, nullptr);
      if (!t)
        fail("no thread could be created");
      const uint64_t limit = 60 * e.steps + 200000;
      while (!t->finished() && t->get_cycle_count() < limit)
        by_vm ? vm.resume(q) : t->resume(int32_t(q));
      r.finished = t->finished();
      r.timeout = !r.finished;
      r.cycles = t->get_cycle_count();
      r.error = int(t->get_error());
      if (t->has_error())
        r.eline = t->get_source_line();
      else if (r.finished)
        r.ret = api::dump(t->get_return_value(), *prog);
      if (in.threads && r.finished) {
        for (int i = 0; i < 3000 && !vm.thread().empty(); ++i)
          vm.resume(q);
        if (!vm.thread().empty())
          fail("%s threads still run", story.c_str());
        for (auto &gl : p.globals)
          if (gl.name.find("sum") != std::string::npos)
            for (auto &id : b.prog->globals())
              if (id.name_ == gl.name) {
                const std::string got = api::dump(vm.globals()[size_t(id.offset_)], *prog), want = m.dump(m.globals[gl.name]);
                if (got != want)
                  fail("the threads have left %.300s, expected %.300s", got.c_str(), want.c_str());
              }
      }
    }
    r.out = host.out;
  }
  api::g_host = nullptr;
  api::compare(e, r, "run");
  c.nontrivial = e.out.size() >= 2;
  if (saved)
    c.label("saved and loaded");
  if (e.error != ref::ok)
    c.label(std::string("error ") + ref::err_name(e.error));
  };
  if (fx.differ) {
    try {
      attempt(fx.optimize == 1 ? false : optimize, false);
    } catch (const Fail &) {
      throw Discard{"wrong without it too"};
    }
  }
  attempt(optimize, saved);
}

} // namespace big
