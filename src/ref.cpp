#include "ref.h"
#include <cmath>
#include <cstring>

using namespace lang;
using pbt::fmt;

namespace ref {

const char *err_name(Err e) {
  static const char *const n[] = {"ok", "bad_num_args", "div_zero", "array_bounds", "array_index",
                                  "array_object", "type_operation", "bad_argument", "member_access",
                                  "bad_syscall"};
  return n[e];
}
Val v_int(int32_t x) {
  Val v;
  v.t = Val::Int;
  v.i = x;
  return v;
}
Val v_flt(float x) {
  Val v;
  v.t = Val::Flt;
  v.f = x;
  return v;
}
Val v_str(const std::string &x) {
  Val v;
  v.t = Val::Str;
  v.s = std::make_shared<const std::string>(x);
  return v;
}

std::string quote(const std::string &s) {
  // long strings are shown by length, hash and both ends
  if (s.size() > 80)
    return fmt("s%zu:%016llx:", s.size(), (unsigned long long)pbt::hash_str(s)) +
           lang::vis(s.substr(0, 16)) + ".." + lang::vis(s.substr(s.size() - 16));
  return "\"" + lang::vis(s) + "\"";
}
std::string flt_text(float f) {
  if (f != f)
    return "f:nan";
  uint32_t b;
  memcpy(&b, &f, 4);
  return fmt("f:%g:%08x", double(f), b);
}

const std::vector<std::pair<std::string, int>> &Interp::sys_table() {
  static const std::vector<std::pair<std::string, int>> t = {
      {"abs", 1},  {"min", 2},   {"max", 2},  {"bitand", 2}, {"sin", 1},         {"cos", 1},
      {"tan", 1},  {"len", 1},   {"chr", 1},  {"round", 1},  {"ceil", 1},        {"floor", 1},
      {"sqrt", 1}, {"wait", 1},  {"new_array", 1}, {"new_thread", -1}, {"out", 1}, {"vout", -1}};
  return t;
}
int Interp::sys_index(const std::string &n) const {
  const auto &t = sys_table();
  for (size_t i = 0; i < t.size(); ++i)
    if (t[i].first == n)
      return int(i);
  int k = int(t.size());
  for (auto &h : host_arity) {
    if (h.first == n)
      return k;
    ++k;
  }
  return -1;
}
const std::string &Interp::sys_name(int i) const {
  const auto &t = sys_table();
  if (i < int(t.size()))
    return t[size_t(i)].first;
  auto it = host_arity.begin();
  std::advance(it, i - int(t.size()));
  return it->first;
}
int Interp::sys_arity(int i) const {
  const auto &t = sys_table();
  if (i < int(t.size()))
    return t[size_t(i)].second;
  auto it = host_arity.begin();
  std::advance(it, i - int(t.size()));
  return it->second;
}

Interp::Interp(const Prog &pp) : p(pp) {
  for (auto &g : p.globals)
    if (!g.is_const)
      globals[g.name] = Val();
}

void Interp::err(Err e) { throw RtErr{e, cur.file, cur.line}; }
void Interp::step() {
  ++steps;
  if (--fuel < 0)
    throw Limit{"fuel"};
}
void Interp::at(int line) {
  cur.line = line;
  if (want_lines && cur == last && entered)
    self_entry = true;
  entered = false;
  if (want_lines && cur != last) {
    last = cur;
    lines.push_back(cur);
    line_outs.push_back(out.size());
    if (lines.size() > 60000)
      throw Limit{"lines"};
    if (on_line)
      on_line();
  }
}

void Interp::check_live() {
  since_check = 0;
  ++mark_gen;
  size_t live = 0;
  std::vector<const Val *> todo;
  auto root = [&](const Val &v) { todo.push_back(&v); };
  for (auto &g : globals)
    root(g.second);
  for (Frame *f = top; f; f = f->up)
    for (auto &s : f->vars)
      root(s.v);
  for (Frame *t : other_tops)
    for (Frame *f = t; f; f = f->up)
      for (auto &s : f->vars)
        root(s.v);
  while (!todo.empty()) {
    const Val *v = todo.back();
    todo.pop_back();
    live += 8;
    if (v->t == Val::Str)
      live += 9 + v->s->size();
    if (v->t == Val::Array && v->a->mark != mark_gen) {
      v->a->mark = mark_gen;
      live += 8 + 8 * v->a->v.size();
      for (auto &x : v->a->v)
        todo.push_back(&x);
    }
    if (live > max_live)
      throw Limit{"live heap"};
  }
}

Val Interp::new_arr(size_t n) {
  if (n > 8000)
    throw Limit{"array size"};
  pool.emplace_back(new Arr);
  pool.back()->v.resize(n);
  since_check += 8 + 8 * n;
  bytes_total += 8 + 8 * n;
  Val v;
  v.t = Val::Array;
  v.a = pool.back().get();
  return v;
}

std::string Interp::dump(const Val &v) {
  std::map<const Arr *, int> seen;
  size_t budget = 400;
  std::function<std::string(const Val &)> go = [&](const Val &x) -> std::string {
    if (budget == 0)
      return "...";
    --budget;
    switch (x.t) {
    case Val::None: return "none";
    case Val::Int: return fmt("%d", x.i);
    case Val::Flt: return flt_text(x.f);
    case Val::Str: return quote(*x.s);
    case Val::Fn: return "fn:" + x.fn->name;
    case Val::Sys: return "sys:" + sys_name(x.sys);
    case Val::Array: {
      auto it = seen.find(x.a);
      if (it != seen.end())
        return fmt("@%d", it->second);
      const int id = int(seen.size());
      seen[x.a] = id;
      std::string r = fmt("#%d[", id);
      for (size_t i = 0; i < x.a->v.size(); ++i) {
        if (i)
          r += ", ";
        r += go(x.a->v[i]);
      }
      return r + "]";
    }
    }
    return "?";
  };
  return go(v);
}

bool Interp::truth(const Val &v) {
  switch (v.t) {
  case Val::None: return false;
  case Val::Int: return v.i != 0;
  case Val::Flt: return v.f != 0.f;
  case Val::Str: return !v.s->empty();
  default: return true;
  }
}

bool Interp::str_of(const Val &v, std::string &o) {
  switch (v.t) {
  case Val::Int: o = fmt("%d", v.i); return true;
  case Val::Flt: {
    if (v.f != v.f)
      throw Limit{"text of nan"}; // with or without a sign
    char b[64];
    snprintf(b, sizeof(b), "%f", double(v.f));
    o = b;
    return true;
  }
  case Val::Str: o = *v.s; return true;
  case Val::None: o = "none"; return true;
  case Val::Fn: o = fn_text ? fn_text(v.fn) : "function@?"; return true;
  default: return false;
  }
}

Val *Interp::lookup(const std::string &n, Frame &fr) {
  for (size_t i = fr.vars.size(); i-- > 0;)
    if (*fr.vars[i].name == n)
      return &fr.vars[i].v;
  auto it = globals.find(n);
  return it == globals.end() ? nullptr : &it->second;
}

static bool num(const Val &v) { return v.t == Val::Int || v.t == Val::Flt; }
static float asf(const Val &v) { return v.t == Val::Int ? float(v.i) : v.f; }

Val Interp::binop(Op op, const Val &l, const Val &r) {
  const bool ii = l.t == Val::Int && r.t == Val::Int;
  const bool nn = num(l) && num(r);
  const uint32_t a = uint32_t(l.i), b = uint32_t(r.i);
  Val hooked;
  since_check += 8;
  bytes_total += 8;
  switch (op) {
  case ADD:
    if (ii) return v_int(int32_t(a + b));
    if (nn) return v_flt(asf(l) + asf(r));
    if (l.t == Val::Str || r.t == Val::Str) {
      std::string x, y;
      if (str_of(l, x) && str_of(r, y)) {
        if (x.size() + y.size() > max_str)
          throw Limit{"string length"};
        since_check += x.size() + y.size() + 9;
        bytes_total += x.size() + y.size() + 9;
        return v_str(x + y);
      }
    }
    if (bin_hook && bin_hook(op, l, r, hooked)) return hooked;
    err(type_operation);
  case SUB:
    if (ii) return v_int(int32_t(a - b));
    if (nn) return v_flt(asf(l) - asf(r));
    if (bin_hook && bin_hook(op, l, r, hooked)) return hooked;
    err(type_operation);
  case MUL:
    if (ii) return v_int(int32_t(a * b));
    if (nn) return v_flt(asf(l) * asf(r));
    if (bin_hook && bin_hook(op, l, r, hooked)) return hooked;
    err(type_operation);
  case DIV:
    if (ii) {
      if (r.i == 0) err(div_zero);
      return v_int(int32_t(int64_t(l.i) / int64_t(r.i)));
    }
    if (nn) return v_flt(asf(l) / asf(r));
    if (bin_hook && bin_hook(op, l, r, hooked)) return hooked;
    err(type_operation);
  case MOD:
    if (ii) {
      if (r.i == 0) err(div_zero);
      return v_int(int32_t(int64_t(l.i) % int64_t(r.i)));
    }
    err(type_operation);
  case LT:
    if (ii) return v_int(l.i < r.i);
    if (nn) return v_int(asf(l) < asf(r));
    err(type_operation);
  case GT:
    if (ii) return v_int(l.i > r.i);
    if (nn) return v_int(asf(l) > asf(r));
    err(type_operation);
  case LEQ:
    if (ii) return v_int(l.i <= r.i);
    if (nn) return v_int(asf(l) <= asf(r));
    err(type_operation);
  case GEQ:
    if (ii) return v_int(l.i >= r.i);
    if (nn) return v_int(asf(l) >= asf(r));
    err(type_operation);
  case EQ:
    if (ii) return v_int(l.i == r.i);
    if (l.t == Val::Str && r.t == Val::Str) return v_int(*l.s == *r.s);
    if (l.t == Val::Fn && r.t == Val::Fn) return v_int(l.fn == r.fn);
    if (l.t == Val::None || r.t == Val::None) return v_int(l.t == r.t);
    if (nn) return v_int(asf(l) == asf(r));
    if (bin_hook && bin_hook(op, l, r, hooked)) return hooked;
    err(type_operation);
  case AND: return v_int(truth(l) && truth(r));
  case OR: return v_int(truth(l) || truth(r));
  }
  return Val();
}

Val Interp::do_sys(int idx, std::vector<Val> &a) {
  const std::string &n = sys_name(idx);
  if (n == "out") {
    out.push_back(tag + dump(a[0]));
    if (on_out)
      on_out();
    if (out.size() > 20000)
      throw Limit{"output"};
    return a[0];
  }
  if (n == "vout") {
    std::string r = tag + "(";
    for (auto &x : a)
      r += dump(x) + ";";
    out.push_back(r + ")");
    if (on_out)
      on_out();
    return v_int(int32_t(a.size()));
  }
  since_check += 8;
  bytes_total += 8;
  if (n == "abs") {
    if (a[0].t == Val::Int)
      return v_int(a[0].i < 0 ? int32_t(0u - uint32_t(a[0].i)) : a[0].i);
    if (a[0].t == Val::Flt)
      return v_flt(a[0].f < 0.f ? -a[0].f : a[0].f);
    err(bad_argument);
  }
  if (n == "min" || n == "max") {
    if (!num(a[0]) || !num(a[1]))
      err(bad_argument);
    const float x = asf(a[0]), y = asf(a[1]);
    if (x != x || y != y)
      throw Limit{"min/max of nan"};
    if (x == y && std::signbit(x) != std::signbit(y))
      throw Limit{"min/max of zeros"};
    return v_flt(n == "min" ? (x < y ? x : y) : (x > y ? x : y));
  }
  if (n == "bitand") {
    if (a[0].t != Val::Int || a[1].t != Val::Int)
      err(bad_argument);
    return v_int(a[0].i & a[1].i);
  }
  if (n == "len") {
    if (a[0].t == Val::Str)
      return v_int(int32_t(a[0].s->size()));
    if (a[0].t == Val::Array)
      return v_int(int32_t(a[0].a->v.size()));
    err(bad_argument);
  }
  if (n == "chr") {
    if (a[0].t != Val::Int)
      err(bad_argument);
    const char c = char(a[0].i);
    return v_str(c ? std::string(1, c) : std::string());
  }
  if (n == "new_array") {
    if (!num(a[0]))
      err(bad_argument);
    if (a[0].t == Val::Flt && !(a[0].f > -1e6f && a[0].f < 1e6f))
      throw Limit{"array size"};
    const int32_t w = a[0].t == Val::Int ? a[0].i : int32_t(a[0].f);
    if (w <= 0)
      err(bad_argument);
    if (w > 8000)
      throw Limit{"array size"};
    Val v = new_arr(size_t(w));
    return v;
  }
  if (n == "wait") {
    if (!num(a[0]))
      err(bad_argument);
    if (a[0].t == Val::Flt && !(a[0].f > -1e6f && a[0].f < 1e6f))
      throw Limit{"wait"};
    const int32_t w = a[0].t == Val::Int ? a[0].i : int32_t(a[0].f);
    if (w > 0 && on_wait)
      on_wait(w);
    return v_int(0);
  }
  if (n == "new_thread") {
    if (a.empty() || a[0].t != Val::Fn || a[0].fn->args.size() + 1 != a.size())
      err(bad_argument);
    if (spawn)
      spawn(a[0].fn, std::vector<Val>(a.begin() + 1, a.end()));
    return v_int(0);
  }
  if (n == "sin" || n == "cos" || n == "tan" || n == "round" || n == "ceil" || n == "floor" ||
      n == "sqrt") {
    if (!num(a[0]))
      err(bad_argument);
    const float x = asf(a[0]);
    if (n == "sin") return v_flt(sinf(x));
    if (n == "cos") return v_flt(cosf(x));
    if (n == "tan") return v_flt(tanf(x));
    if (n == "round") return v_flt(roundf(x));
    if (n == "ceil") return v_flt(ceilf(x));
    if (n == "floor") return v_flt(floorf(x));
    return v_flt(sqrtf(x));
  }
  Val v;
  if (host && host(n, a, v))
    return v;
  throw Limit{"unknown syscall"};
}

Val Interp::callv(const Val &c, std::vector<Val> &args) {
  if (c.t == Val::Sys) {
    const int ar = sys_arity(c.sys);
    if (ar >= 0 && ar != int(args.size()))
      err(bad_num_args);
    return do_sys(c.sys, args);
  }
  if (c.t == Val::Fn) {
    if (c.fn->args.size() != args.size())
      err(bad_num_args);
    return call(c.fn, args);
  }
  err(type_operation);
}

Val Interp::call(const Func *f, const std::vector<Val> &args) {
  if (++depth > max_depth) {
    --depth;
    throw Limit{"depth"};
  }
  depth_seen = std::max(depth_seen, depth);
  const LinePos back = cur;
  Frame fr;
  fr.fn = f;
  fr.up = top;
  top = &fr;
  struct Pop {
    Interp &i;
    Frame &f;
    ~Pop() {
      i.top = f.up;
      --i.depth;
    }
  } pop{*this, fr};
  for (size_t i = 0; i < args.size(); ++i)
    fr.vars.push_back({&f->args[i], args[i]});
  cur.file = f->file;
  entered = true;
  Val ret;
  if (!exec(f->body, fr, ret)) {
    at(f->end_line);
    ret = v_int(0);
  }
  cur.file = back.file;
  top = fr.up;
  if (back.line > 0)
    at(back.line);
  return ret;
}

Val Interp::eval(const EP &e, Frame &fr) {
  step();
  switch (e->k) {
  case Expr::Int:
    since_check += 8;
    bytes_total += 8;
    return v_int(e->i);
  case Expr::Flt: return v_flt(e->f);
  case Expr::Str:
    since_check += 9 + e->text.size();
    bytes_total += 9 + e->text.size();
    return v_str(e->text);
  case Expr::None: return Val();
  case Expr::Var: {
    if (Val *v = lookup(e->name, fr))
      return *v;
    if (const Func *f = p.find_func(e->name)) {
      Val v;
      v.t = Val::Fn;
      v.fn = f;
      return v;
    }
    const Global *g = p.find_global(e->name);
    if (g && g->is_const)
      return eval(g->init, fr);
    const int si = sys_index(e->name);
    if (si >= 0) {
      Val v;
      v.t = Val::Sys;
      v.sys = si;
      return v;
    }
    throw Limit{"unknown name"};
  }
  case Expr::Bin: {
    const Val l = eval(e->kids[0], fr);
    const Val r = eval(e->kids[1], fr);
    return binop(e->op, l, r);
  }
  case Expr::Not: return v_int(!truth(eval(e->kids[0], fr)));
  case Expr::Neg: {
    const Val v = eval(e->kids[0], fr);
    if (v.t == Val::Int)
      return v_int(int32_t(0u - uint32_t(v.i)));
    if (v.t == Val::Flt)
      return v_flt(-v.f);
    err(type_operation);
  }
  case Expr::Arr: {
    std::vector<Val> vs;
    for (auto &k : e->kids)
      vs.push_back(eval(k, fr));
    Val a = new_arr(vs.size());
    a.a->v = vs;
    return a;
  }
  case Expr::Index: {
    const Val i = eval(e->kids[1], fr);
    const Val a = eval(e->kids[0], fr);
    Val hooked;
    if (index_hook && index_hook(a, i, hooked))
      return hooked;
    if (a.t == Val::None)
      err(array_object);
    if (i.t != Val::Int)
      err(array_index);
    if (a.t == Val::Array) {
      if (i.i < 0 || size_t(i.i) >= a.a->v.size())
        err(array_bounds);
      return a.a->v[size_t(i.i)];
    }
    if (a.t == Val::Str) {
      if (i.i < 0 || size_t(i.i) >= a.s->size())
        err(array_bounds);
      return v_int((unsigned char)(*a.s)[size_t(i.i)]);
    }
    err(type_operation);
  }
  case Expr::Call: {
    std::vector<Val> args;
    for (size_t i = 1; i < e->kids.size(); ++i)
      args.push_back(eval(e->kids[i], fr));
    const Val c = eval(e->kids[0], fr);
    if (since_check > 40000)
      check_live();
    return callv(c, args);
  }
  case Expr::Member: {
    Val *v = lookup(e->name, fr);
    if (!v)
      throw Limit{"unknown name"};
    if (v->t == Val::Array && e->text == "length")
      return v_int(int32_t(v->a->v.size()));
    Val r;
    if (member_get && member_get(*v, e->text, r))
      return r;
    err(member_access);
  }
  }
  return Val();
}

bool Interp::exec(const Block &b, Frame &fr, Val &ret) {
  const size_t mark = fr.vars.size();
  for (auto &s : b)
    if (exec(*s, fr, ret))
      return true;
  fr.vars.resize(mark);
  return false;
}

bool Interp::exec(const Stmt &s, Frame &fr, Val &ret) {
  step();
  at(s.line);
  if (since_check > 40000)
    check_live();
  auto set = [&](const std::string &n, const Val &v) {
    Val *d = lookup(n, fr);
    if (!d)
      throw Limit{"unknown name"};
    *d = v;
  };
  switch (s.k) {
  case Stmt::Decl: {
    Val v;
    if (s.e)
      v = eval(s.e, fr);
    fr.vars.push_back({&s.name, v});
    return false;
  }
  case Stmt::Assign: {
    const Val v = eval(s.e, fr);
    set(s.name, v);
    return false;
  }
  case Stmt::Compound: {
    step();
    const Val l = eval(mk_var(s.name), fr);
    const Val r = eval(s.e, fr);
    set(s.name, binop(s.op, l, r));
    return false;
  }
  case Stmt::ArrSet: {
    const Val v = eval(s.e, fr);
    const Val i = eval(s.e2, fr);
    Val *a = lookup(s.name, fr);
    if (!a)
      throw Limit{"unknown name"};
    if (set_hook && set_hook(*a, i, v))
      return false;
    if (a->t != Val::Array)
      err(array_object);
    if (i.t != Val::Int)
      err(array_index);
    if (i.i < 0 || size_t(i.i) >= a->a->v.size())
      err(array_bounds);
    a->a->v[size_t(i.i)] = v;
    return false;
  }
  case Stmt::MemSet: {
    const Val v = eval(s.e, fr);
    Val *o = lookup(s.name, fr);
    if (!o)
      throw Limit{"unknown name"};
    if (member_set && member_set(*o, s.member, v))
      return false;
    err(member_access);
  }
  case Stmt::If:
    if (truth(eval(s.e, fr)))
      return exec(s.body, fr, ret);
    if (s.has_else)
      return exec(s.other, fr, ret);
    return false;
  case Stmt::While:
    while (true) {
      at(s.line);
      if (!truth(eval(s.e, fr)))
        break;
      if (exec(s.body, fr, ret))
        return true;
    }
    return false;
  case Stmt::For: {
    set(s.name, eval(s.e, fr));
    while (true) {
      at(s.line);
      // the counter is read before the end is evaluated
      const Val i = eval(mk_var(s.name), fr);
      const Val end = eval(s.e2, fr);
      if (!truth(binop(LT, i, end)))
        break;
      if (exec(s.body, fr, ret))
        return true;
      at(s.line);
      set(s.name, binop(ADD, eval(mk_var(s.name), fr), v_int(1)));
    }
    return false;
  }
  case Stmt::Return:
    ret = s.e ? eval(s.e, fr) : Val();
    // returning to the end of the function is part of this line
    return true;
  case Stmt::CallS:
    eval(s.e, fr);
    return false;
  }
  return false;
}

void Interp::run_init() {
  Frame fr;
  fr.up = top;
  top = &fr;
  struct Pop {
    Interp &i;
    Frame &f;
    ~Pop() { i.top = f.up; }
  } pop{*this, fr};
  for (auto &it : p.items) {
    if (it.kind != 0)
      continue;
    const Global &g = p.globals[size_t(it.idx)];
    if (g.is_const || !g.init)
      continue;
    cur = LinePos{g.file, g.line};
    at(g.line);
    const Val v = eval(g.init, fr);
    globals[g.name] = v;
  }
  cur = LinePos{0, 0};
  last = LinePos{-1, -1};
}

} // namespace ref
