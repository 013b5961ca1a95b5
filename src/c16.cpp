// C16: the command line programs do what the libraries do: nano_driver runs a
// program with its input and output and reports how it ended, nano_comp writes
// the code, listing and syntax tree of what it was given.
#include "api.h"
#include "texts.h"
#include "/repo/source/lib_compiler/disassembler.h"
#include "/repo/source/lib_compiler/ast.h"
#include <fcntl.h>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
using namespace lang;
using namespace nano;

struct Ran {
  int status = -1; // exit status, or -signal
  std::string out, err;
};
static std::string slurp(const std::string &p) {
  std::string r;
  if (FILE *f = fopen(p.c_str(), "rb")) {
    char buf[4096];
    for (size_t n; r.size() < (8u << 20) && (n = fread(buf, 1, sizeof(buf), f)) > 0;)
      r.append(buf, n);
    fclose(f);
  }
  return r;
}
static void spit(const std::string &p, const std::string &t) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f)
    throw Discard{"scratch file"};
  fwrite(t.data(), 1, t.size(), f);
  fclose(f);
}
static bool exists(const std::string &p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0;
}

static Ran exec_in(const std::string &dir, const char *prog, const std::vector<std::string> &args,
                   const std::string &in) {
  const char *base = getenv("VP_CHECK_DIR");
  const std::string exe = std::string(base ? base : ".") + "/" + prog;
  if (access(exe.c_str(), X_OK) != 0) {
    fprintf(stderr, "no program %s\n", exe.c_str());
    _exit(2);
  }
  spit(dir + "/.in", in);
  const pid_t pid = fork();
  if (pid == 0) {
    if (chdir(dir.c_str()) != 0)
      _exit(99);
    const int i = open(".in", O_RDONLY), o = open(".out", O_CREAT | O_TRUNC | O_WRONLY, 0600),
              e = open(".err", O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(i, 0);
    dup2(o, 1);
    dup2(e, 2);
    struct rlimit rl = {10, 10};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit fs = {64 << 20, 64 << 20};
    setrlimit(RLIMIT_FSIZE, &fs);
    std::vector<char *> av;
    av.push_back(const_cast<char *>(prog));
    for (auto &a : args)
      av.push_back(const_cast<char *>(a.c_str()));
    av.push_back(nullptr);
    execv(exe.c_str(), av.data());
    _exit(98);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Ran r;
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  r.out = slurp(dir + "/.out");
  r.err = slurp(dir + "/.err");
  return r;
}

// a directory of this case's own
struct Dir {
  std::string path;
  Dir() {
    static int n = 0;
    path = scratch() + fmt("/c16.%d.%d", int(getpid()), n++);
    mkdir(path.c_str(), 0700);
  }
  ~Dir() {
    const std::string c = "rm -rf '" + path + "'";
    if (path.size() > scratch().size() + 1 && !scratch().empty())
      (void)!system(c.c_str());
  }
};

// ---- programs over the driver's own functions
struct Rewrite {
  Src &s;
  Gen &g;
  bool io;
  void expr(EP &e) {
    if (!e)
      return;
    if (e->k == Expr::Call && e->kids[0]->k == Expr::Var && e->kids[0]->name == "vout") {
      EP a = e->kids.size() > 1 ? e->kids[1] : mk_int(3);
      e = mk_callf("out", {a});
    }
    for (auto &k : e->kids)
      expr(k);
    if (e->k == Expr::Var && e->name == "vout")
      e->name = "out";
  }
  EP value() {
    switch (s.below(4)) {
    case 0: return mk_callf("getc", {});
    case 1: return mk_callf("gets", {});
    case 2: return mk_callf("rand", {});
    default: return mk_int(s.range(-2, 300));
    }
  }
  SP io_stmt() {
    static const char *const words[] = {"a", "", "two words", "%d%s%n", "x y z 0123456789"};
    switch (s.below(5)) {
    case 0: return st_call("putc", {s.chance(1, 8) ? value() : mk_int(s.range(10, 255))});
    case 1: return st_call(s.chance(1, 2) ? "puts" : "print", {s.chance(1, 12) ? value() : mk_str(words[s.below(5)])});
    case 2: return st_out(mk_callf("getc", {}));
    case 3: return st_out(mk_callf("gets", {}));
    default: return st_out(value());
    }
  }
  void block(Block &b, int depth) {
    for (auto &st : b) {
      block(st->body, depth + 1);
      block(st->other, depth + 1);
      expr(st->e);
      expr(st->e2);
      if (st->k == Stmt::CallS && st->name == "vout")
        st->name = "out";
    }
    if (io && depth < 3)
      for (int n = int(s.below(3)); n > 0; --n)
        b.insert(b.begin() + s.below(uint32_t(b.size() + 1)), io_stmt());
  }
};

static void add_out(Prog &p, bool shows, Src &s) {
  Func f;
  f.name = "out";
  f.args = {"shown"};
  if (shows)
    f.body.push_back(st_call("puts", {mk_bin(ADD, mk_str(""), mk_var("shown"))}));
  f.body.push_back(st_return(mk_var("shown")));
  p.funcs.push_back(f);
  const size_t at = s.below(uint32_t(p.items.size() + 1));
  p.items.insert(p.items.begin() + long(at), Item{1, int(p.funcs.size()) - 1});
}

struct Files {
  std::vector<std::string> names;
  std::string shown;
};
static Files write_files(Src &s, Prog &p, const std::string &dir, int n, const Style &st) {
  for (auto &f : p.funcs)
    f.file = int(s.below(uint32_t(n)));
  for (auto &g : p.globals)
    g.file = 0; // constants before their uses
  Files r;
  for (int i = 0; i < n; ++i) {
    std::string t = print(p, st, i);
    if (t.empty())
      t = "# nothing\n";
    const std::string name = fmt(i == 1 ? "second.ccml" : "f%d.ccml", i);
    spit(dir + "/" + name, t);
    r.names.push_back(name);
    r.shown += "# " + name + "\n" + t;
  }
  return r;
}

static bool build_as_driver(program_t &prog, const std::string &dir, const std::vector<std::string> &names,
                            bool driver, bool optimize, nano::error_t &err, std::string *ast) {
  source_manager_t sources;
  for (auto &n : names)
    if (!sources.load((dir + "/" + n).c_str()))
      throw Discard{"file not loaded"};
  nano_t nano(prog);
  nano.optimize = optimize;
  if (driver) {
    builtins_register(nano);
    static const std::pair<const char *, int> fns[] = {{"putc", 1}, {"getc", 0}, {"puts", 1},
                                                       {"gets", 0}, {"rand", 0}, {"print", 1}};
    for (auto &f : fns)
      nano.syscall_register(f.first, f.second);
  }
  const bool ok = nano.build(sources, err);
  if (ok && ast) {
    char *mem = nullptr;
    size_t n = 0;
    FILE *f = open_memstream(&mem, &n);
    nano.ast().dump(f);
    fclose(f);
    ast->assign(mem, n);
    free(mem);
  }
  return ok;
}

static std::string trimmed(std::string t) {
  while (!t.empty() && t.back() == '\n')
    t.pop_back();
  return t;
}

static void expect_status(const Ran &r, int want, const char *what) {
  if (r.status != want)
    fail("%s: exit status %d, expected %d (stderr: %s)", what, r.status, want, r.err.c_str());
}

// ---- nano_driver on a program
static void drive(Src &s, Case &c) {
  Dir d;
  GenOpts o;
  o.arrays = s.chance(1, 2);
  o.funcs_as_values = s.chance(1, 2);
  o.wild = s.chance(1, 6) ? 4 : 0;
  o.stmts = 4;
  o.depth = 2;
  o.global_calls = s.chance(1, 2);
  Gen g(s, o);
  g.program("main");
  Rewrite rw{s, g, true};
  for (auto &f : g.p.funcs)
    rw.block(f.body, 0);
  for (auto &x : g.p.globals)
    rw.expr(x.init);
  const size_t mine = g.p.funcs.size();
  add_out(g.p, true, s);
  (void)mine;
  const bool no_main = s.chance(1, 30);
  if (no_main)
    for (auto &f : g.p.funcs)
      if (f.name == "main")
        f.name = "other_main";
  if (s.chance(1, 16)) {
    // long texts, printed and returned
    Func f;
    f.name = "zz_long";
    f.args = {"zz_n"};
    auto loop = std::make_shared<Stmt>(Stmt::While);
    loop->e = mk_bin(LT, mk_callf("len", {mk_var("zz_s")}), mk_var("zz_n"));
    loop->body = {st_assign("zz_s", mk_bin(ADD, mk_bin(ADD, mk_var("zz_s"), mk_str("<\\>")), mk_var("zz_s")))};
    f.body = {st_decl("zz_s", mk_str("begin%s")), loop, st_return(mk_bin(ADD, mk_var("zz_s"), mk_str("end")))};
    g.p.funcs.push_back(f);
    g.p.items.push_back(Item{1, int(g.p.funcs.size()) - 1});
    for (auto &h : g.p.funcs)
      if (h.name == "main") {
        for (int n = int(s.below(3)); n > 0; --n)
          h.body.insert(h.body.begin() + long(s.below(uint32_t(h.body.size() + 1))),
                        st_call("puts", {mk_callf("zz_long", {mk_int(int(s.below(5000)))})}));
        if (s.chance(1, 2))
          h.body.insert(h.body.begin() + long(s.below(uint32_t(h.body.size() + 1))),
                        st_return(mk_callf("zz_long", {mk_int(int(s.below(5000)))})));
      }
    c.label("long texts");
  }
  // a main that wants something cannot be started
  const bool args = !no_main && s.chance(1, 30);
  if (args)
    for (auto &f : g.p.funcs)
      if (f.name == "main")
        for (int n = 1 + int(s.below(2)); n > 0; --n)
          f.args.push_back(fmt("zz_arg%d", n));
  Style st;
  st.src = &s;
  st.vary_lines = s.chance(1, 4);
  const int nfiles = s.chance(1, 4) ? 2 + int(s.below(2)) : 1;
  const Files fl = write_files(s, g.p, d.path, nfiles, st);
  std::string in;
  static const char chars[] = "abc xyz019\n\n,.\t%\xe9\r\x01\x1a\x7f\xff\"\\";
  for (int n = int(s.below(s.chance(1, 5) ? 260 : 30)); n > 0; --n)
    in += chars[s.below(sizeof(chars) - 1)];
  if (s.chance(1, 8))
    in += std::string(70 + s.below(100), 'L') + "\n";
  c.show(fl.shown + "# input: " + vis(in));
  program_t prog;
  nano::error_t err;
  if (!build_as_driver(prog, d.path, fl.names, true, true, err, nullptr)) {
    if (err.error.find("divi") != std::string::npos)
      throw Discard{"constant division by zero"};
    if (args)
      throw Discard{"main is called by the program"};
    fail("a valid program is rejected: %s (line %d)", err.error.c_str(), err.line.line);
  }
  // ---- the model
  std::string want;
  size_t at = 0;
  uint32_t seed = 12345;
  ref::Interp m(g.p);
  m.max_live = 60 * 1024;
  m.host_arity = {{"putc", 1}, {"getc", 0}, {"puts", 1}, {"gets", 0}, {"rand", 0}, {"print", 1}};
  m.fn_text = [&](const Func *f) {
    function_t *x = prog.function_find(f->name);
    return fmt("function@%d", x ? x->code_start_ : -1);
  };
  size_t io = 0;
  m.host = [&](const std::string &n, std::vector<ref::Val> &a, ref::Val &r) {
    r = ref::v_int(0);
    if (n != "puts")
      ++io;
    if (want.size() > 200000)
      throw ref::Limit{"output"};
    if (n == "putc") {
      if (a[0].t != ref::Val::Int)
        m.err(ref::bad_argument);
      want += char(a[0].i);
    } else if (n == "puts" || n == "print") {
      if (a[0].t != ref::Val::Str)
        m.err(ref::bad_argument);
      want += *a[0].s + "\n";
    } else if (n == "getc")
      r = ref::v_int(at < in.size() ? (unsigned char)in[at++] : -1);
    else if (n == "gets") {
      std::string l;
      while (at < in.size() && l.size() < 79) {
        const char ch = in[at++];
        if (ch == '\n')
          break;
        l += ch;
      }
      r = ref::v_str(l);
    } else {
      seed ^= seed << 13;
      seed ^= seed >> 17;
      seed ^= seed << 5;
      r = ref::v_int(int32_t(seed & 0x7fffff));
    }
    return true;
  };
  int status = 0;
  std::string ret;
  bool sys_ret = false;
  try {
    if (no_main)
      status = 252;
    else {
      try {
        m.run_init();
      } catch (const ref::RtErr &) {
        status = 251;
      }
      if (!status && args)
        status = 250;
      if (!status) {
        try {
          const ref::Val v = m.call(g.p.find_func("main"), {});
          switch (v.t) {
          case ref::Val::None: ret = "none"; break;
          case ref::Val::Int: ret = fmt("%d", v.i); break;
          case ref::Val::Flt:
            ret = fmt("%f", v.f);
            sys_ret = v.f != v.f; // nan, with or without a sign
            break;
          case ref::Val::Str: ret = "\"" + *v.s + "\""; break;
          case ref::Val::Array: ret = "array"; break;
          case ref::Val::Fn: ret = "function"; break;
          default: sys_ret = true; break;
          }
        } catch (const ref::RtErr &) {
          status = 250;
        }
      }
    }
  } catch (const ref::Limit &l) {
    throw Discard{l.why};
  }
  if (want.find('\0') != std::string::npos || sys_ret)
    throw Discard{"NUL characters or host function as a result"};
  // ---- the driver
  const Ran r = exec_in(d.path, "nano_driver", fl.names, in);
  expect_status(r, status, "nano_driver");
  if (status == 0)
    want += "exit: " + ret;
  const std::string a = status == 0 ? trimmed(r.out) : r.out, b = status == 0 ? trimmed(want) : want;
  if (a != b) {
    size_t k = 0;
    while (k < a.size() && k < b.size() && a[k] == b[k])
      ++k;
    fail("nano_driver's output differs at character %zu: '%s', expected '%s'", k,
         vis(a.substr(k, 60)).c_str(), vis(b.substr(k, 60)).c_str());
  }
  if (status >= 251 && r.err.empty())
    fail("nano_driver fails without a message");
  if (status == 0 && !r.err.empty())
    fail("nano_driver succeeds but complains: %s", r.err.c_str());
  // what it saved is the program
  program_t saved;
  if (!saved.serial_load((d.path + "/temp.bin").c_str()))
    fail("nano_driver's temp.bin cannot be loaded");
  if (saved.size() != prog.size() || memcmp(saved.data(), prog.data(), prog.size()) != 0 ||
      saved.strings() != prog.strings() || saved.functions().size() != prog.functions().size())
    fail("nano_driver's temp.bin is another program");
  c.nontrivial = want.size() >= 10 && m.steps >= 20;
  c.label(fmt("driver: status %d", status));
  if (io >= 2)
    c.label("driver: console functions");
  if (nfiles > 1)
    c.label("driver: several files");
}

// ---- texts that need not compile
static std::string plain_text(Src &s, bool driver) {
  GenOpts o;
  o.builtins = driver;
  o.stmts = 4;
  Gen g(s, o);
  g.program("main");
  if (s.chance(1, 6))
    widen(g.p, s, s.chance(1, 8) ? 9000 : 700);
  Rewrite rw{s, g, driver};
  for (auto &f : g.p.funcs)
    rw.block(f.body, 0);
  for (auto &x : g.p.globals)
    rw.expr(x.init);
  add_out(g.p, driver, s);
  Style st;
  st.src = &s;
  st.vary_lines = s.chance(1, 3);
  return print(g.p, st);
}
static std::string damage(Src &s, std::string t) {
  auto v = texts::split(t);
  const int n = 1 + int(s.below(2));
  for (int i = 0; i < n && !v.empty(); ++i) {
    const size_t at = s.below(uint32_t(v.size()));
    switch (s.below(4)) {
    case 0: v.erase(v.begin() + long(at)); break;
    case 1: v[at] = texts::toks[s.below(uint32_t(texts::ntoks))]; break;
    case 2: std::swap(v[at], v[s.below(uint32_t(v.size()))]); break;
    default: v.insert(v.begin() + long(at), texts::toks[s.below(uint32_t(texts::ntoks))]); break;
    }
  }
  t.clear();
  for (auto &w : v)
    t += w;
  return t.empty() ? "x" : t;
}

static std::string compile_message(const nano::error_t &e) {
  return fmt("file %d, line:%d - %s\n", e.line.file, e.line.line, e.error.c_str());
}

// ---- nano_driver on what it must refuse
static void refuse(Src &s, Case &c) {
  Dir d;
  switch (s.below(4)) {
  case 0: {
    c.show("# no arguments");
    const Ran r = exec_in(d.path, "nano_driver", {}, "");
    expect_status(r, 255, "nano_driver without arguments");
    if (r.err.empty() || !r.out.empty())
      fail("nano_driver without arguments: no message, or output");
    break;
  }
  case 1: {
    std::string t = plain_text(s, true);
    spit(d.path + "/a.ccml", t);
    std::vector<std::string> args{"a.ccml"};
    const std::string miss = s.chance(1, 2) ? "missing.ccml" : ".";
    args.insert(args.begin() + s.below(2), miss);
    c.show("# arguments " + args[0] + " " + args[1]);
    const Ran r = exec_in(d.path, "nano_driver", args, "");
    expect_status(r, 254, "nano_driver with a file that cannot be read");
    if (r.err.find(miss) == std::string::npos)
      fail("nano_driver does not name the file it cannot read: %s", r.err.c_str());
    if (!r.out.empty())
      fail("nano_driver shows output though a file is missing");
    break;
  }
  default: {
    const std::string t = damage(s, plain_text(s, true));
    spit(d.path + "/a.ccml", t);
    c.show(t);
    program_t prog;
    nano::error_t err;
    if (build_as_driver(prog, d.path, {"a.ccml"}, true, true, err, nullptr))
      throw Discard{"damaged text compiles"};
    const Ran r = exec_in(d.path, "nano_driver", {"a.ccml"}, "");
    expect_status(r, 1, "nano_driver on a program that does not compile");
    if (r.err != compile_message(err))
      fail("nano_driver says '%s', expected '%s'", r.err.c_str(), compile_message(err).c_str());
    if (!r.out.empty())
      fail("nano_driver runs a program that does not compile");
    c.nontrivial = true;
  }
  }
  c.label("driver: refusals");
}

// ---- nano_comp
static void comp(Src &s, Case &c) {
  Dir d;
  std::string t = plain_text(s, false);
  if (s.chance(1, 4))
    t = damage(s, t);
  // sometimes far down a directory tree
  std::string sub, name = "p.nano";
  if (s.chance(1, 5)) {
    const int n = 1 + int(s.below(8));
    for (int i = 0; i < n; ++i) {
      sub += std::string(1 + s.below(s.chance(1, 3) ? 250 : 40), char('a' + i)) + "/";
      if (mkdir((d.path + "/" + sub).c_str(), 0700) != 0)
        throw Discard{"directory"};
    }
  }
  name = sub + name;
  spit(d.path + "/" + name, t);
  std::vector<std::string> args{name};
  bool n = false, opt[3] = {false, false, false};
  static const char *const flags[] = {"-a", "-d", "-b", "-n"};
  static const char *const ext[] = {".ast", ".dis", ".bin"};
  for (int i = int(s.below(5)); i > 0; --i) {
    const uint32_t k = s.below(4);
    if (k < 3 && opt[k])
      continue;
    args.push_back(flags[k]);
    if (k == 3)
      n = true;
    else
      opt[k] = true;
  }
  // an output that cannot be written
  int blocked = -1;
  if (s.chance(1, 10)) {
    blocked = int(s.below(3));
    const std::string to = d.path + "/" + name + ext[blocked];
    if (s.chance(1, 2))
      mkdir(to.c_str(), 0700);
    else // a device that is full
      (void)!symlink("/dev/full", to.c_str());
  }
  std::string cmd = "#";
  for (auto &a : args)
    cmd += " " + (a.size() > 60 ? fmt("<path of %zu characters>", a.size()) : a);
  c.show(cmd + (blocked >= 0 ? fmt("  (%s cannot be written)", ext[blocked]) : "") + "\n" + t);
  program_t prog;
  nano::error_t err;
  std::string ast;
  const bool ok = build_as_driver(prog, d.path, {name}, false, !n, err, &ast);
  const Ran r = exec_in(d.path, "nano_comp", args, "");
  if (blocked >= 0 && opt[blocked]) {
    if (r.status == 0 || r.status < 0 || r.err.empty())
      fail("nano_comp cannot write the %s file but ends with status %d and message '%s'", ext[blocked],
           r.status, r.err.c_str());
    c.label("comp: output cannot be written");
    c.nontrivial = ok;
    return;
  }
  if (!ok) {
    expect_status(r, 1, "nano_comp on a program that does not compile");
    if (r.err != compile_message(err))
      fail("nano_comp says '%s', expected '%s'", r.err.c_str(), compile_message(err).c_str());
    for (int i = 0; i < 3; ++i)
      if (i != blocked && !slurp(d.path + "/" + name + ext[i]).empty())
        fail("nano_comp wrote a %s file for a program that does not compile", ext[i]);
    c.label("comp: refused");
    c.nontrivial = true;
    return;
  }
  expect_status(r, 0, "nano_comp");
  if (!r.err.empty())
    fail("nano_comp succeeds but complains: %s", r.err.c_str());
  char *mem = nullptr;
  size_t sz = 0;
  FILE *f = open_memstream(&mem, &sz);
  disassembler_t().dump(prog, f);
  fclose(f);
  const std::string want[3] = {ast, std::string(mem, sz),
                               std::string((const char *)prog.data(), prog.size())};
  free(mem);
  for (int i = 0; i < 3; ++i) {
    const std::string path = d.path + "/" + name + ext[i];
    if (blocked == i)
      continue;
    if (exists(path) != opt[i])
      fail("nano_comp %s the %s file", opt[i] ? "did not write" : "wrote", ext[i]);
    if (opt[i] && slurp(path) != want[i])
      fail("nano_comp's %s file is not that of the program", ext[i]);
  }
  c.nontrivial = opt[0] + opt[1] + opt[2] > 0;
  c.label("comp: accepted");
  if (name.size() > 200)
    c.label("comp: long path");
}

static void comp_bad(Src &s, Case &c) {
  Dir d;
  if (s.chance(1, 3)) {
    c.show("# nano_comp without arguments");
    const Ran r = exec_in(d.path, "nano_comp", {}, "");
    expect_status(r, 255, "nano_comp without arguments");
    if (r.out.find("usage") == std::string::npos)
      fail("nano_comp without arguments shows no usage");
  } else {
    c.show("# nano_comp missing.nano");
    const Ran r = exec_in(d.path, "nano_comp", {"missing.nano"}, "");
    expect_status(r, 254, "nano_comp with a missing file");
    if (r.err.find("missing.nano") == std::string::npos)
      fail("nano_comp does not name the file it cannot read: %s", r.err.c_str());
  }
  c.label("comp: usage");
}

static void prop(Src &s, Case &c) {
  switch (s.weighted({12, 4, 8, 1})) {
  case 0: drive(s, c); break;
  case 1: refuse(s, c); break;
  case 2: comp(s, c); break;
  default: comp_bad(s, c); break;
  }
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C16";
  sp.rule = "Each case runs one of the command line programs in a directory of its own. nano_driver: a "
            "generated program in one to three files over the console functions with generated input "
            "(output, exit value, exit status and saved program must be the model's), missing files, "
            "and programs that do not compile (message and status). nano_comp: generated or damaged "
            "programs, any options, short and very long paths, outputs that cannot be written. "
            "Non-trivial: a driver run with 10 characters of output and 20 steps, a refusal by the "
            "compiler, or a nano_comp run that writes a file.";
  sp.quick_cases = 24000;
  sp.thorough_cases = 600000;
  sp.fn = prop;
  sp.assumptions = {"input and output without NUL bytes", "options follow the file, as the usage text says"};
  return run(argc, argv, sp);
}
