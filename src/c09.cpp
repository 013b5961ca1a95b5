// C09: a saved program loads as the same program; damaged files and failed
// writes are reported.
#include "api.h"
#include "big.h"
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;
using namespace lang;
using namespace nano;

static std::string slurp(const std::string &path) {
  std::string r;
  FILE *f = fopen(path.c_str(), "rb");
  if (!f)
    throw Fail{"the saved file does not exist"};
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof(buf), f)) > 0)
    r.append(buf, n);
  fclose(f);
  return r;
}
static void spit(const std::string &path, const std::string &data) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f)
    throw Discard{"cannot write the scratch file"};
  fwrite(data.data(), 1, data.size(), f);
  fclose(f);
}

static void same_ids(const std::vector<identifier_t> &a, const std::vector<identifier_t> &b,
                     const char *what, const std::string &in) {
  if (a.size() != b.size())
    fail("%s of %s: %zu saved, %zu loaded", what, in.c_str(), a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i].name_ != b[i].name_ || a[i].offset_ != b[i].offset_)
      fail("%s %zu of %s: %s@%d saved, %s@%d loaded", what, i, in.c_str(), a[i].name_.c_str(),
           a[i].offset_, b[i].name_.c_str(), b[i].offset_);
}

static void same(program_t &x, program_t &y) {
  if (x.size() != y.size())
    fail("%zu bytes of code saved, %zu loaded", x.size(), y.size());
  if (x.size() && memcmp(x.data(), y.data(), x.size()) != 0)
    fail("the loaded code differs");
  if (x.strings().size() != y.strings().size())
    fail("%zu strings saved, %zu loaded", x.strings().size(), y.strings().size());
  for (size_t i = 0; i < x.strings().size(); ++i)
    if (x.strings()[i] != y.strings()[i])
      fail("string %zu of %zu bytes loads as one of %zu bytes", i, x.strings()[i].size(),
           y.strings()[i].size());
  if (x.line_table() != y.line_table())
    fail("the loaded line table differs");
  auto &sx = x.syscalls(), &sy = y.syscalls();
  if (sx.size() != sy.size())
    fail("%zu host functions saved, %zu loaded", sx.size(), sy.size());
  for (size_t i = 0; i < sx.size(); ++i) {
    if (sx[i].num_args_ != sy[i].num_args_)
      fail("host function %s takes %d arguments, %d when loaded", sx[i].name_.c_str(), sx[i].num_args_,
           sy[i].num_args_);
    if (sx[i].name_ != sy[i].name_)
      fail("host function %zu: %s saved, %s loaded", i, sx[i].name_.c_str(), sy[i].name_.c_str());
  }
  if (x.functions().size() != y.functions().size())
    fail("%zu functions saved, %zu loaded", x.functions().size(), y.functions().size());
  for (size_t i = 0; i < x.functions().size(); ++i) {
    auto &f = x.functions()[i], &h = y.functions()[i];
    if (f.name_ != h.name_ || f.code_start_ != h.code_start_ || f.code_end_ != h.code_end_)
      fail("function %s [%d,%d) loads as %s [%d,%d)", f.name_.c_str(), f.code_start_, f.code_end_,
           h.name_.c_str(), h.code_start_, h.code_end_);
    same_ids(f.args_, h.args_, "arguments", f.name_);
    same_ids(f.locals_, h.locals_, "locals", f.name_);
  }
}

static int next_fd() {
  const int fd = open("/dev/null", O_RDONLY);
  if (fd >= 0)
    close(fd);
  return fd;
}

static void prop(Src &s, Case &c) {
  if (s.chance(1, 40)) { // a large program
    big::Fixed fx;
    fx.saved = 1;
    fx.differ = true;
    big::prop(s, c, fx);
    c.label("blown up");
    return;
  }
  GenOpts o;
  o.stmts = 4;
  o.wild = s.chance(1, 4) ? 5 : 0;
  Gen g(s, o);
  g.program("main");
  Prog &p = g.p;
  if (s.chance(1, 4)) {
    // strings, names and argument lists of unusual length
    const size_t n = s.chance(1, 2) ? 200 + s.below(200) : 250 + s.below(5000);
    Global x;
    x.name = "gl_long";
    x.init = mk_str(std::string(n, char('A' + s.below(20))));
    p.globals.push_back(x);
    p.items.push_back(Item{0, int(p.globals.size()) - 1});
    Func f;
    f.name = std::string(1 + s.below(300), 'q');
    const int na = int(s.below(12));
    for (int i = 0; i < na; ++i)
      f.args.push_back(std::string(1 + s.below(4), char('a' + i)) + "_arg");
    f.body.push_back(st_return(mk_str("")));
    p.funcs.push_back(f);
    p.items.push_back(Item{1, int(p.funcs.size()) - 1});
    c.label("long strings and names");
  }
  if (s.chance(1, 10)) {
    // many arguments, locals, functions or globals
    Func f;
    f.name = "zz_many";
    const int na = s.chance(1, 2) ? int(s.below(300)) : 0;
    for (int i = 0; i < na; ++i)
      f.args.push_back(fmt("zz_a%d", i));
    const int nl = int(s.below(500));
    for (int i = 0; i < nl; ++i)
      f.body.push_back(st_decl(fmt("zz_l%d", i), s.chance(1, 2) ? nullptr : mk_int(i)));
    f.body.push_back(st_return(mk_int(1)));
    p.funcs.push_back(f);
    p.items.push_back(Item{1, int(p.funcs.size()) - 1});
    const int nf = s.chance(1, 3) ? int(s.below(300)) : 0;
    for (int i = 0; i < nf; ++i) {
      Func h;
      h.name = fmt("zz_f%d", i);
      h.body.push_back(st_return(mk_str(fmt("f%d", i))));
      p.funcs.push_back(h);
      p.items.push_back(Item{1, int(p.funcs.size()) - 1});
    }
    c.label("many locals or functions");
  }
  Style st;
  st.src = &s;
  st.vary_lines = s.chance(1, 3);
  const std::string text = print(p, st);
  const int what = s.weighted({4, 3, 3, 2, 1});
  static const char *const wn[] = {"round trip and run", "truncated", "damaged", "write limit",
                                   "unwritable"};
  c.label(wn[what]);
  c.show(fmt("# %s\n", wn[what]) + text);
  std::vector<std::string> texts = {text};
  if (s.chance(1, 3)) {
    // more source files, before or after
    const int n = 1 + int(s.below(3));
    for (int i = 0; i < n; ++i)
      texts.insert(s.chance(1, 2) ? texts.begin() : texts.end(),
                   fmt("function zz_%d(zz_a)\n%s  return zz_a / 0.5\nend\n", i,
                       std::string(s.below(3), '\n').c_str()));
    c.label("several files");
  }
  api::SysList hosts;
  if (s.chance(1, 3)) {
    // host functions of any number of arguments, most of them used
    const int n = 1 + int(s.below(s.chance(1, 6) ? 60 : 6));
    std::string t = "function zz_use(zz_a)\n";
    for (int i = 0; i < n; ++i) {
      static const int ar[] = {-1, 0, 1, 2, 7, 15, 16, 17, 31, 40, 64, 127};
      const int k = ar[s.below(12)];
      hosts.push_back({fmt("zh_%d", i) + std::string(s.below(4) ? 0 : s.below(200), 'h'), k});
      if (s.chance(1, 5))
        continue;
      t += "  " + hosts.back().first + "(";
      const int given = k < 0 ? int(s.below(20)) : k;
      for (int j = 0; j < given; ++j)
        t += j ? ", zz_a" : "zz_a";
      t += ")\n";
    }
    texts.push_back(t + "end\n");
    c.label("host functions of its own");
  }
  auto b = api::compile_many(texts, s.chance(1, 2), hosts);
  if (!b.ok)
    fail("a valid program is rejected: %s (line %d)", b.err.error.c_str(), b.err.line.line);
  program_t &prog = *b.prog;
  const std::string path = scratch() + fmt("/c09.%d.bin", int(getpid()));
  const int fd0 = next_fd();

  // writes that cannot be completed
  if (what == 3) {
    if (!prog.serial_save(path.c_str()))
      fail("saving to a writable file fails");
    const std::string whole = slurp(path);
    const size_t limit = s.below(uint32_t(whole.size()));
    c.show(fmt("# write limit %zu of %zu bytes\n", limit, whole.size()) + text);
    struct rlimit rl, old;
    getrlimit(RLIMIT_FSIZE, &old);
    signal(SIGXFSZ, SIG_IGN);
    rl = old;
    rl.rlim_cur = limit;
    setrlimit(RLIMIT_FSIZE, &rl);
    const bool ok = prog.serial_save(path.c_str());
    setrlimit(RLIMIT_FSIZE, &old);
    if (ok && slurp(path) != whole)
      fail("only %zu of %zu bytes could be written, and saving reports success", limit,
           whole.size());
    if (!prog.serial_save(path.c_str()) || slurp(path) != whole)
      fail("saving again after a failed save does not work");
    if (next_fd() != fd0)
      fail("a failed save leaves a file open");
    unlink(path.c_str());
    c.nontrivial = limit > 0;
    return;
  }
  if (what == 4) {
    std::string bad;
    switch (s.below(4)) {
    case 0: bad = "/dev/full"; break;
    case 1: bad = scratch() + "/no_such_dir/x.bin"; break;
    case 2: bad = scratch(); break;
    default: bad = ""; break;
    }
    if (prog.serial_save(bad.c_str()))
      fail("saving to '%s' reports success", bad.c_str());
    program_t into;
    if (s.chance(1, 2)) {
      switch (s.below(3)) {
      case 0: bad = scratch() + "/none.bin"; break;
      case 1: bad = scratch(); break;
      default: bad = "/dev/null"; break;
      }
      if (into.serial_load(bad.c_str()))
        fail("loading '%s' reports success", bad.c_str());
    }
    if (next_fd() != fd0)
      fail("a failed save or load leaves a file open");
    c.nontrivial = true;
    return;
  }

  // an older, longer file of that name is replaced
  if (s.chance(1, 3))
    spit(path, std::string(20000, 'x'));
  if (!prog.serial_save(path.c_str()))
    fail("saving to a writable file fails");
  if (next_fd() != fd0)
    fail("saving leaves a file open");
  const std::string whole = slurp(path);

  // the program it is loaded into may have a past
  program_t into;
  const int past = int(s.below(4));
  if (past == 1) {
    auto other = api::compile("var zz = \"old\"\nfunction old(a, b)\n var c = 1\n return \"s\"\nend\n");
    const std::string op = path + ".old";
    if (!other.prog->serial_save(op.c_str()) || !into.serial_load(op.c_str()))
      fail("a small program does not load");
    unlink(op.c_str());
  } else if (past == 2) {
    const std::string op = path + ".cut";
    spit(op, whole.substr(0, whole.size() / 2));
    into.serial_load(op.c_str());
    unlink(op.c_str());
  }

  if (what == 0) {
    if (!into.serial_load(path.c_str()))
      fail("a saved program does not load");
    if (next_fd() != fd0)
      fail("loading leaves a file open");
    same(prog, into);
    // saving it again gives the same file
    const std::string again = path + ".2";
    if (!into.serial_save(again.c_str()))
      fail("a loaded program cannot be saved");
    const bool eq = slurp(again) == whole;
    unlink(again.c_str());
    unlink(path.c_str());
    if (!eq)
      fail("saving a loaded program gives another file");
    for (auto &sc : into.syscalls())
      if (sc.call_)
        fail("host function %s is bound before anything bound it", sc.name_.c_str());
    api::resolve(into);
    auto e = api::model(p, "main", nullptr);
    api::How how;
    how.max_cycles = 60 * e.steps + 100000;
    auto ra = api::run(prog, "main", how);
    auto rb = api::run(into, "main", how);
    const size_t n = std::max(ra.out.size(), rb.out.size());
    for (size_t i = 0; i < n; ++i) {
      const std::string x = i < ra.out.size() ? ra.out[i] : "(nothing)";
      const std::string y = i < rb.out.size() ? rb.out[i] : "(nothing)";
      if (x != y)
        fail("output %zu is %.200s before and %.200s after loading", i, x.c_str(), y.c_str());
    }
    if (ra.init_ok != rb.init_ok || ra.error != rb.error || ra.ret != rb.ret ||
        ra.finished != rb.finished || (ra.error && ra.eline != rb.eline))
      fail("the saved program ends with error %s at line %d and %.100s, the loaded one with %s at "
           "line %d and %.100s",
           api::err_text(ra.error).c_str(), ra.eline.line, ra.ret.c_str(),
           api::err_text(rb.error).c_str(), rb.eline.line, rb.ret.c_str());
    c.nontrivial = e.out.size() >= 1 && p.funcs.size() >= 2;
    return;
  }

  if (what == 1) {
    // every prefix is refused: try a few points of this file
    for (int i = 0; i < 6; ++i) {
      const size_t n = i == 0 ? whole.size() - 1 : s.below(uint32_t(whole.size()));
      spit(path, whole.substr(0, n));
      if (into.serial_load(path.c_str())) {
        unlink(path.c_str());
        fail("the first %zu of %zu bytes load as a program", n, whole.size());
      }
      if (next_fd() != fd0)
        fail("refusing a file leaves it open");
    }
    c.nontrivial = whole.size() > 100;
  } else {
    for (int i = 0; i < 6; ++i) {
      std::string bad = whole;
      const int hits = 1 + int(s.below(3));
      for (int k = 0; k < hits; ++k) {
        // sizes live on the aligned or unaligned words of the file
        const size_t at = s.below(uint32_t(bad.size()));
        switch (s.below(5)) {
        case 0: bad[at] = char(bad[at] ^ (1 << s.below(8))); break;
        case 1: bad[at] = char(s.below(256)); break;
        case 2: {
          static const uint32_t v[] = {0xffffffffu, 0x7fffffffu, 0x80000000u, 0, 0x7ffffffcu,
                                       0x10000000u, 0x00ffffffu, 1};
          const uint32_t x = v[s.below(8)];
          memcpy(&bad[std::min(at, bad.size() - 4)], &x, 4);
          break;
        }
        case 3: bad.erase(at, 1 + s.below(8)); break;
        default: bad.insert(at, std::string(1 + s.below(8), char(s.below(256)))); break;
        }
        if (bad.size() < 8)
          bad += "01234567";
      }
      const bool header = memcmp(bad.data(), whole.data(), 4) == 0;
      spit(path, bad);
      const bool ok = into.serial_load(path.c_str());
      if (next_fd() != fd0)
        fail("loading a damaged file leaves it open");
      if (ok && !header) {
        unlink(path.c_str());
        fail("a file that is not a program (it starts %02x%02x%02x%02x) loads", bad[0] & 255,
             bad[1] & 255, bad[2] & 255, bad[3] & 255);
      }
      // the tables of an accepted file are as long as the file can hold
      if (ok) {
        size_t total = into.size() + into.strings().size() * 4 + into.functions().size() * 20 +
                       into.syscalls().size() * 4;
        for (auto &x : into.strings())
          total += x.size();
        if (total > bad.size())
          fail("%zu bytes of tables out of a file of %zu bytes", total, bad.size());
        // what was accepted is a program like any other: it can be saved and loaded
        const std::string again = path + ".2";
        program_t third;
        if (!into.serial_save(again.c_str()) || !third.serial_load(again.c_str()))
          fail("an accepted file cannot be saved and loaded again");
        unlink(again.c_str());
        same(into, third);
      }
      c.label(ok ? "damage accepted" : "damage refused");
    }
    c.nontrivial = whole.size() > 100;
  }
  // and a sound file loads afterwards
  spit(path, whole);
  if (!into.serial_load(path.c_str()))
    fail("a sound file does not load after damaged ones");
  same(prog, into);
  unlink(path.c_str());
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C09";
  sp.rule = "Each case is a generated program that is saved; then it is loaded (into a fresh or "
            "used program), compared table by table, saved again and run beside the original; or "
            "prefixes of the file, or bit flips, forged sizes, cuts and insertions, are loaded under "
            "AddressSanitizer; or the save itself meets a full device, a size limit at a random "
            "byte or an impossible path. One case in 40 is a large program as in C21. Non-trivial: the program shows a value and has two "
            "functions, or the file has over 100 bytes and a fault was applied.";
  sp.quick_cases = 40000;
  sp.thorough_cases = 1000000;
  sp.fn = prop;
  sp.assumptions = {"a damaged file that is still well formed may load: it carries no checksum",
                    "names of global variables are not part of the file"};
  return run(argc, argv, sp);
}
