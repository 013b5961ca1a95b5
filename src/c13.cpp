// C13: a program split over files that import each other is the program: every
// file once, in the order first imported, and every report names the right file
// and line.
#include "api.h"
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;
using namespace lang;
using namespace nano;

static void spit(const std::string &path, const std::string &data) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f)
    throw Discard{"cannot write the scratch file"};
  fwrite(data.data(), 1, data.size(), f);
  fclose(f);
}

static std::string line_of(const std::string &text, int n) {
  size_t pos = 0;
  for (int i = 1; i < n; ++i) {
    pos = text.find('\n', pos);
    if (pos == std::string::npos)
      return "(no such line)";
    ++pos;
  }
  const size_t e = text.find('\n', pos);
  return text.substr(pos, e == std::string::npos ? e : e - pos);
}

static std::string chomp(std::string s) {
  while (!s.empty() && (s.back() == '\n' || s.back() == '\r'))
    s.pop_back();
  return s;
}

struct Cwd {
  char old[4096];
  bool moved = false;
  void to(const std::string &d) {
    if (getcwd(old, sizeof(old)) && chdir(d.c_str()) == 0)
      moved = true;
  }
  ~Cwd() {
    if (moved && chdir(old) != 0)
      abort();
  }
};

// the directory a spelling means, if it is one of the tree's
static bool resolve(const std::string &d, std::string &out) {
  static const char *const tree[] = {"", "t/", "t/lib/", "t/lib/in/", "t/other/"};
  out.clear();
  for (size_t p = 0; p < d.size();) {
    const size_t e = d.find('/', p);
    const std::string part = d.substr(p, e - p);
    p = e + 1;
    if (part == ".")
      continue;
    if (part == "..") {
      if (out.empty())
        return false;
      out.pop_back();
      out.resize(out.rfind('/') == std::string::npos ? 0 : out.rfind('/') + 1);
      continue;
    }
    out += part + "/";
    bool ok = false;
    for (auto x : tree)
      ok = ok || out == x;
    if (!ok)
      return false;
  }
  return true;
}

// the text of a line, for any text at all
static void lines(Src &s) {
  source_manager_t sources;
  const int n = 1 + int(s.below(3));
  std::vector<std::vector<std::string>> want;
  for (int k = 0; k < n; ++k) {
    std::vector<std::string> v;
    std::string t;
    const int m = 1 + int(s.below(5));
    for (int i = 0; i < m; ++i) {
      std::string l;
      for (int j = int(s.below(4)); j > 0; --j)
        l += s.chance(1, 8) ? std::string(40 + s.below(300), 'x') : std::string(1, " ab\t#\"\x80("[s.below(8)]);
      if (i + 1 == m && l.empty())
        l = "z";
      t += l + (i + 1 < m ? "\n" : "");
      v.push_back(l);
    }
    if (s.chance(1, 2))
      t += "\n";
    if (!sources.load_from_string(t.c_str()))
      fail("a text can not be loaded: %s", vis(t).c_str());
    want.push_back(v);
  }
  for (int k = 0; k < n; ++k)
    for (int i = 0; i < int(want[size_t(k)].size()); ++i) {
      const std::string got = chomp(sources.get_line(line_t(k, i + 1)));
      if (got != want[size_t(k)][size_t(i)])
        fail("line %d of text %d is given as '%s', expected '%s'", i + 1, k, vis(got).c_str(), vis(want[size_t(k)][size_t(i)]).c_str());
    }
}

static void prop(Src &s, Case &c) {
  if (s.chance(1, 4))
    lines(s);
  GenOpts o;
  o.stmts = 4;
  o.max_funcs = 6;
  o.max_globals = 6;
  o.wild = s.chance(1, 3) ? 5 : 0;
  Gen g(s, o);
  g.program("main");
  Prog &p = g.p;

  // ---- files: names, directories and who imports whom
  const int n = s.chance(1, 12) ? 6 + int(s.below(12)) : 1 + int(s.below(5));
  static const char *const names[] = {"main.ccml", "a.ccml", "util.ccml", "ab.ccml", "a.ccml.txt",
                                      "main.ccml2", "lib_a.ccml", "lib_in_a.ccml", "other.a.ccml", "in-a.ccml",
                                      "a_b.ccml", "a b.ccml"};
  // where the host stands, and how it spells the directory of the main file
  static const char *const starts[] = {"t/", "t/", "t/", "", "t/lib/", "t/lib/in/", "t/other/"};
  static const char *const mains[] = {"", "", "", "./", "lib/", "../", "lib/../", "../t/", "../other/", "t/"};
  const bool bare = s.chance(1, 3);
  const std::string start = starts[s.below(7)];
  std::vector<std::string> path;  // as the compiler is to spell it
  std::vector<std::string> dir;
  std::vector<std::string> real;  // from the root
  std::vector<std::string> tail;  // what of the directory is part of the name to the system
  bool dots = false, back = false, respelt = false;
  for (int i = 0; i < n; ++i) {
    std::string d, nm = i == 0 && s.chance(3, 4) ? "main.ccml" : names[s.below(12)], where;
    std::string w;
    if (i == 0) {
      d = mains[s.below(10)];
    } else {
      static const char *const rel[] = {"", "", "", "lib/", "lib/in/", "in/", "other/", "../", "./", "../other/",
                                        "../lib/", "lib/../", "../../"};
      const size_t from = s.below(uint32_t(i));
      w = tail[from];
      d = dir[from].substr(0, dir[from].size() - w.size());
      if (w.empty())
        d += rel[s.below(13)];
    }
    // a backslash ends a directory too
    if (w.empty() && s.chance(1, 12))
      w = s.chance(1, 2) ? "w\\" : "lib\\in\\";
    if (!resolve(start + d, where))
      d = i == 0 ? "" : dir[0];
    if (!resolve(start + d, where))
      throw Discard{"outside the tree"};
    // names that differ in case or in their slashes only are one file
    auto same = [](std::string a) {
      for (auto &ch : a)
        ch = ch == '\\' ? '/' : ch;
      return a;
    };
    for (bool again = true; again;) {
      again = false;
      for (auto &x : real)
        again = again || same(x) == same(where + w + nm);
      if (again)
        nm = "x" + nm;
    }
    path.push_back(d + w + nm);
    dir.push_back(d + w);
    tail.push_back(w);
    real.push_back(where + w + nm);
    back = back || !w.empty();
    dots = dots || d.find("../") != std::string::npos;
  }
  // a file imports files of its own directory or below it
  auto can = [&](int from, int to) {
    return path[size_t(to)].compare(0, dir[size_t(from)].size(), dir[size_t(from)]) == 0;
  };
  std::vector<std::vector<int>> imp{size_t(n), std::vector<int>()};
  for (int i = 1; i < n; ++i) {
    // reachable: from some earlier file
    std::vector<int> v;
    for (int k = 0; k < i; ++k)
      if (can(k, i))
        v.push_back(k);
    const int from = s.pick(v);
    auto &l = imp[size_t(from)];
    l.insert(l.begin() + long(s.below(uint32_t(l.size() + 1))), i);
  }
  const int extra = int(s.below(n > 5 ? 12 : 5));
  bool cyclic = false;
  for (int k = 0; k < extra; ++k) {
    const int a = int(s.below(uint32_t(n))), b = int(s.below(uint32_t(n)));
    if (can(a, b)) {
      auto &l = imp[size_t(a)];
      l.insert(l.begin() + long(s.below(uint32_t(l.size() + 1))), b);
      cyclic = true;
    }
  }
  // the order in which they are read
  std::vector<int> order = {0};
  for (size_t k = 0; k < order.size(); ++k)
    for (int t : imp[size_t(order[k])])
      if (std::find(order.begin(), order.end(), t) == order.end())
        order.push_back(t);
  std::vector<int> rank{std::vector<int>(size_t(n), 0)};
  for (size_t k = 0; k < order.size(); ++k)
    rank[size_t(order[k])] = int(k);

  // ---- hand out the declarations: variables keep their order
  int at = 0;
  for (auto &it : p.items)
    if (it.kind == 0) {
      while (at + 1 < n && s.chance(1, 2))
        ++at;
      p.globals[size_t(it.idx)].file = at;
    } else {
      p.funcs[size_t(it.idx)].file = int(s.below(uint32_t(n)));
    }
  auto file_of = [&](const Item &it) {
    return it.kind == 0 ? p.globals[size_t(it.idx)].file : p.funcs[size_t(it.idx)].file;
  };
  std::stable_sort(p.items.begin(), p.items.end(),
                   [&](const Item &a, const Item &b) { return file_of(a) < file_of(b); });

  // ---- what may be wrong
  const int fault = s.weighted({5, 1, 1, 1, 1});
  SP bad;
  int bad_file = -1, bad_line = 0;
  std::string bad_name;
  if (fault == 4) {
    // the same function in two files
    Func f;
    f.name = bad_name = p.funcs[s.below(uint32_t(p.funcs.size()))].name;
    f.args = p.find_func(f.name)->args;
    f.file = bad_file = n - 1;
    f.body.push_back(st_out(mk_int(1)));
    p.funcs.push_back(f);
    p.items.push_back(Item{1, int(p.funcs.size()) - 1});
  }
  if (fault == 1) {
    auto &f = p.funcs[s.below(uint32_t(p.funcs.size()))];
    bad_file = f.file;
    bad_name = "nope";
    switch (s.below(4)) {
    case 0: bad = st_call("nope", {mk_int(1)}); break;
    case 1: bad = st_out(mk_var("nope")); break;
    case 2: bad = st_assign("nope", mk_int(1)); break;
    default: bad = st_call("main", {mk_int(1)}); bad_name = "main"; break;
    }
    f.body.insert(f.body.begin(), bad);
  }

  // ---- write them
  Style st;
  st.src = &s;
  st.vary_lines = s.chance(1, 2);
  st.comments = s.chance(1, 3);
  std::vector<std::string> text{std::vector<std::string>(size_t(n))};
  std::string all;
  int missing_line = 0, missing_file = -1;
  std::vector<bool> known{std::vector<bool>(size_t(n), false)};
  known[0] = true;
  for (int k = 0; k < n; ++k) {
    const int fi = order[size_t(k)];
    std::vector<std::string> head;
    for (int t : imp[size_t(fi)]) {
      head.push_back(path[size_t(t)].substr(dir[size_t(fi)].size()));
      // a file that has been read is known in other letters and with other slashes
      if (known[size_t(t)] && s.chance(1, 3))
        for (auto &ch : head.back()) {
          if (ch >= 'a' && ch <= 'z' && s.chance(1, 3))
            ch = char(ch - 'a' + 'A'), respelt = true;
          else if ((ch == '/' || ch == '\\') && s.chance(1, 2))
            ch = ch == '/' ? '\\' : '/', respelt = true;
        }
      known[size_t(t)] = true;
    }
    std::string t;
    if (s.chance(1, 2)) {
      t = print(p, st, k, head);
    } else {
      t = print(p, st, k);
      for (auto &h : head)
        t += "import \"" + h + "\"\n";
    }
    if (fault == 2 && missing_file < 0 && (k + 1 == n || s.chance(1, 3))) {
      missing_file = k;
      missing_line = 1 + int(std::count(t.begin(), t.end(), '\n'));
      static const char *const no[] = {"gone.ccml", "nodir/main.ccml", "lib", ""};
      t += std::string("import \"") + no[s.below(4)] + "\"\n";
    }
    if (fault == 3 && missing_file < 0 && (k + 1 == n || s.chance(1, 3))) {
      missing_file = k;
      missing_line = 1 + int(std::count(t.begin(), t.end(), '\n'));
      static const char *const no[] = {"var 5\n", "function (\n", "end\n", "var q_q = \"open\n",
                                       "var q_q = 1 $\n", "import 5\n"};
      t += no[s.below(6)];
    }
    if (t.empty())
      t = "\n";
    text[size_t(k)] = t;
    all += "---- " + path[size_t(fi)] + "\n" + t;
  }
  c.show(all);
  const std::string root = scratch() + fmt("/c13.%d/", int(getpid()));
  mkdir(root.c_str(), 0755);
  static const char *const tree[] = {"t", "t/lib", "t/lib/in", "t/other"};
  for (auto d : tree)
    mkdir((root + d).c_str(), 0755);
  for (int k = 0; k < n; ++k)
    spit(root + real[size_t(order[size_t(k)])], text[size_t(k)]);
  struct Clean {
    const std::string &root;
    const std::vector<std::string> &real;
    ~Clean() {
      for (auto &x : real)
        unlink((root + x).c_str());
      for (int i = 3; i >= 0; --i)
        rmdir((root + tree[i]).c_str());
      rmdir(root.c_str());
    }
  } clean{root, real};

  // ---- compile
  Cwd cwd;
  if (bare)
    cwd.to(root + start);
  const std::string prefix = bare ? "" : root + start;
  source_manager_t sources;
  if (!sources.load((prefix + path[0]).c_str()))
    fail("the main file does not load");
  std::unique_ptr<program_t> prog(new program_t);
  nano_t nano(*prog);
  nano.optimize = s.chance(1, 2);
  builtins_register(nano);
  nano.syscall_register("out", 1);
  nano.syscall_register("vout", -1);
  nano::error_t err;
  const bool ok = nano.build(sources, err);
  if (fault) {
    c.label(fault == 1   ? "fault in some file"
            : fault == 2 ? "missing import"
            : fault == 3 ? "syntax in some file"
                         : "function declared in two files");
    const int wfile = fault == 1 || fault == 4 ? bad_file : missing_file;
    const int wl = fault == 1 ? bad->line : fault == 4 ? p.funcs.back().line : missing_line;
    if (ok)
      fail("accepted, with a fault in file %d line %d", wfile, wl);
    if (err.line.file != wfile || err.line.line != wl)
      fail("the fault in %s line %d is reported in file %d line %d: %s",
           path[size_t(order[size_t(wfile)])].c_str(), wl, err.line.file, err.line.line,
           err.error.c_str());
    if (!bad_name.empty() && err.error.find(bad_name) == std::string::npos)
      fail("the message does not name %s: %s", bad_name.c_str(), err.error.c_str());
    // the text of that line can be shown
    const std::string shown = chomp(sources.get_line(err.line));
    if (shown != chomp(line_of(text[size_t(wfile)], wl)))
      fail("line %d of file %d is shown as '%s'", wl, wfile, shown.c_str());
    c.nontrivial = n >= 2;
    return;
  }
  if (!ok)
    fail("rejected: %s (file %d line %d)", err.error.c_str(), err.line.file, err.line.line);
  if (sources.count() != n)
    fail("%d sources were read, expected %d", sources.count(), n);
  for (int k = 0; k < n; ++k) {
    const std::string want = prefix + path[size_t(order[size_t(k)])];
    if (sources.get_source(k).file_path() != want)
      fail("source %d is %s, expected %s", k, sources.get_source(k).file_path().c_str(),
           want.c_str());
    const int lines = int(std::count(text[size_t(k)].begin(), text[size_t(k)].end(), '\n'));
    const int l = 1 + int(s.below(uint32_t(lines)));
    const std::string shown = chomp(sources.get_line(line_t(k, l)));
    if (shown != chomp(line_of(text[size_t(k)], l)))
      fail("line %d of source %d is shown as '%s'", l, k, shown.c_str());
  }
  api::resolve(*prog);
  // every function's code is said to be in its own file
  for (auto &f : p.funcs) {
    function_t *x = prog->function_find(f.name);
    if (!x)
      fail("function %s is missing", f.name.c_str());
    for (auto &e : prog->line_table())
      if (e.first >= x->code_start_ && e.first < x->code_end_ && e.second.line > 0) {
        if (e.second.file != f.file || e.second.line < f.line || e.second.line > f.end_line)
          fail("code of %s (file %d, lines %d to %d) is said to be in file %d line %d",
               f.name.c_str(), f.file, f.line, f.end_line, e.second.file, e.second.line);
      }
  }
  auto e = api::model(p, "main", prog.get());
  api::How how;
  how.max_cycles = 60 * e.steps + 100000;
  auto r = api::run(*prog, "main", how);
  api::compare(e, r, "run");
  c.label(fmt("%d files", n));
  if (dots)
    c.label(".. in a path");
  if (back)
    c.label("\\ in a path");
  if (respelt)
    c.label("an import in other letters or slashes");
  if (cyclic)
    c.label("repeated or circular imports");
  if (r.error)
    c.label("ends in a thread error");
  c.nontrivial = n >= 2 && e.out.size() >= 1;
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C13";
  sp.rule = "Each case splits a generated program over one to five files (now and then up to seventeen) in a directory tree, with "
            "an import graph that may repeat, be circular or import itself; it must read each file "
            "once in order of first import and behave as the reference interpreter says for the "
            "joined program, with errors (planted static faults, missing imports, bad syntax, run "
            "time errors) reported at the right file and line. Non-trivial: at least two files, and "
            "a fault or a value shown.";
  sp.quick_cases = 120000;
  sp.thorough_cases = 2000000;
  sp.fn = prop;
  sp.assumptions = {"one file is always imported by the same path once relative paths are joined "
                    "(a/../b and b count as two files)",
                    "two files whose names differ only in case or in their slashes are left out"};
  return run(argc, argv, sp);
}
