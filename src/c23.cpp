// C23: what a host builds, loads, runs or is refused is given back in full: no memory and
// no file stays behind when objects go, and objects that are used again do not grow.
#include "api.h"
#include "texts.h"
#include <fcntl.h>
#include <unistd.h>
#ifdef PBT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t held() { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t held() { return mallinfo2().uordblks; }
#endif
using namespace pbt;
using namespace lang;
using namespace nano;

static int lowest_fd() {
  const int fd = open("/dev/null", O_RDONLY);
  if (fd >= 0)
    close(fd);
  return fd;
}

static void sys_take1(thread_t &t, int32_t) { t.get_stack().push(t.get_stack().pop()); }
static void sys_takev(thread_t &t, int32_t n) {
  for (int i = 0; i < n; ++i)
    t.get_stack().pop();
  t.get_stack().push_int(n);
}

// everything a life consists of, drawn beforehand so that a life can be repeated
struct Act {
  enum K { build, save, load, load_bad, vm_new, vm_gone, vm_reset, init, call, wrong_call, thread, rounds, steps, drain, forget, crowd } k;
  int a = 0, b = 0;
};
struct Plan {
  std::vector<std::vector<std::string>> units; // texts, or files, of each thing to build
  std::vector<bool> runs;                      // may be run
  std::vector<bool> opt;
  bool files = false;
  std::string dir;
  std::vector<Act> ops;
  int argc = 0;
};

static void write_file(const std::string &path, const std::string &t) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f || fwrite(t.data(), 1, t.size(), f) != t.size() || fclose(f) != 0)
    throw Discard{"cannot write the scratch file"};
}

struct Bench {
  // kept over the repetitions, or made anew, as the case says
  program_t prog, other;
  std::unique_ptr<nano_t> nano;
  source_manager_t sources;
  std::unique_ptr<vm_t> vm;
  bool good = false;
  int unit = -1;
  long builds = 0, rejected = 0, calls = 0, failed = 0, loads = 0;

  ~Bench() { vm.reset(); }
  void build(const Plan &p, int u, bool fresh) {
    vm.reset();
    unit = u;
    if (fresh || !nano) {
      nano.reset();
      prog.reset();
      nano.reset(new nano_t(prog));
    } else
      nano->reset();
    sources.clear();
    nano->optimize = p.opt[size_t(u)];
    builtins_register(*nano);
    nano->syscall_register("out", 1);
    nano->syscall_register("vout", -1);
    for (size_t i = 0; i < p.units[size_t(u)].size(); ++i) {
      if (p.files)
        (void)sources.load((p.dir + fmt("u%d_%zu.txt", u, i)).c_str());
      else
        (void)sources.load_from_string(p.units[size_t(u)][i].c_str());
    }
    nano::error_t e;
    good = nano->build(sources, e);
    ++builds;
    rejected += !good;
    if (good) {
      builtins_resolve(prog);
      prog.syscall_resolve("out", sys_take1);
      prog.syscall_resolve("vout", sys_takev);
    }
  }
  void drain() {
    for (int i = 0; vm && i < 400 && !vm->thread().empty(); ++i)
      vm->resume(1000000);
  }
  void run(const Plan &p) {
    for (const Act &o : p.ops)
      switch (o.k) {
      case Act::build: build(p, o.a, o.b); break;
      case Act::save: (void)prog.serial_save((o.a == 2 ? std::string("/dev/full") : p.dir + (o.a ? "no_such_dir/x" : "saved")).c_str()); break;
      case Act::load:
        ++loads;
        (void)other.serial_load((p.dir + "saved").c_str());
        break;
      case Act::load_bad: {
        // cut short, or with a byte changed
        ++loads;
        FILE *f = fopen((p.dir + "saved").c_str(), "rb");
        std::string t;
        if (f) {
          char buf[4096];
          for (size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0;)
            t.append(buf, n);
          fclose(f);
        }
        if (!t.empty()) {
          if (o.a & 1)
            t.resize(size_t(o.b) % t.size());
          else
            t[size_t(o.b) % t.size()] ^= char(1 << (o.a / 2 % 8));
          write_file(p.dir + "bad", t);
          (void)other.serial_load((p.dir + "bad").c_str());
        }
        break;
      }
      case Act::vm_new:
        if (good)
          vm.reset(new vm_t(prog));
        break;
      case Act::vm_gone: vm.reset(); break;
      case Act::vm_reset:
        if (vm)
          vm->reset();
        break;
      case Act::init:
        if (vm && p.runs[size_t(unit)])
          (void)vm->call_init();
        break;
      case Act::wrong_call:
      case Act::call:
      case Act::thread: {
        function_t *f = prog.function_find("main");
        if (!vm || !p.runs[size_t(unit)] || !f || vm->globals().empty() != prog.globals().empty())
          break;
        std::vector<const value_t *> av;
        static const value_t none;
        if (o.k == Act::wrong_call)
          av.push_back(&none);
        if (o.k == Act::thread) {
          ++calls;
          (void)vm->new_thread(*f, 0, nullptr);
        } else {
          value_t *r = nullptr;
          thread_error_t e;
          calls += o.k == Act::call;
          failed += !vm->call_once(*f, int32_t(av.size()), av.data(), r, e);
        }
        break;
      }
      case Act::rounds:
        for (int i = 0; vm && i < o.a; ++i)
          (void)vm->resume(uint32_t(o.b));
        break;
      case Act::steps:
        for (int i = 0; vm && i < o.a; ++i) {
          if (vm->thread().empty())
            break;
          thread_t *t = *vm->thread().begin();
          if (t->finished() || t->has_error())
            break;
          (void)t->step_inst();
        }
        break;
      case Act::crowd: {
        function_t *f = prog.function_find("zz_idle");
        if (!vm || !p.runs[size_t(unit)] || !f)
          break;
        for (int i = 0; i < o.a; ++i)
          (void)vm->new_thread(*f, 0, nullptr);
        break;
      }
      case Act::drain: drain(); break;
      case Act::forget: sources.clear(); break;
      }
  }
};

// may main of this program be run `times` times over one vm? Threads are taken as calls:
// near enough for a bound on what is held at once.
static bool tame(const Prog &p, int times) {
  ref::Interp in(p);
  in.fuel = 60000;
  in.max_depth = 60;
  int spawned = 0;
  in.spawn = [&](const Func *f, const std::vector<ref::Val> &a) {
    if (++spawned > 40)
      throw ref::Limit{"threads"};
    try {
      (void)in.call(f, a);
    } catch (const ref::RtErr &) {
    }
  };
  in.on_wait = [](int) {};
  try {
    in.run_init();
    for (int i = 0; i < times; ++i)
      try {
        (void)in.call(p.find_func("main"), {});
      } catch (const ref::RtErr &) {
      }
  } catch (const ref::RtErr &) {
    return true; // failing initialisers
  } catch (const ref::Limit &) {
    return false;
  }
  return !spawned || in.bytes_total < 200 * 1024;
}

static void prop(Src &s, Case &c) {
  Plan p;
  p.dir = scratch() + fmt("/c23.%d.", int(getpid()));
  p.files = s.chance(1, 3);
  const int nu = 1 + int(s.below(3));
  std::string shown;
  for (int u = 0; u < nu; ++u) {
    std::vector<std::string> t;
    bool may = false;
    switch (s.weighted({6, 2, 1})) {
    case 0: {
      GenOpts o;
      o.max_funcs = 3;
      o.stmts = 4;
      o.spawns = s.chance(1, 2);
      o.waits = o.spawns || s.chance(1, 4);
      o.wild = s.chance(1, 3) ? 4 : 0;
      o.churn = s.chance(1, 6);
      Gen g(s, o);
      g.program("main");
      // one that does next to nothing, for crowds
      Func idle;
      idle.name = "zz_idle";
      idle.body.push_back(st_call("wait", {mk_int(int(s.below(4)))}));
      if (s.chance(1, 3))
        idle.body.push_back(st_return(mk_bin(DIV, mk_int(1), mk_callf("abs", {mk_int(0)}))));
      g.p.funcs.push_back(idle);
      g.p.items.push_back(Item{1, int(g.p.funcs.size()) - 1});
      may = tame(g.p, 3);
      const int files = 1 + int(s.below(3));
      for (auto &f : g.p.funcs)
        f.file = int(s.below(uint32_t(files)));
      for (int k = 0; k < files; ++k) {
        t.push_back(print(g.p, Style(), k));
        if (t.back().empty())
          t.back() = "#\n";
      }
      break;
    }
    case 1: t.push_back(texts::mutated(s)); break;
    default: t.push_back(s.chance(1, 2) ? texts::soup(s) : texts::nested(s)); break;
    }
    if (s.chance(1, 4)) {
      static const char *const faults[] = {"function broken(\n", "function q()\n return undefined_name\nend\n",
                                           "var z_ = 1 / 0\n", "function q()\n q(1)\nend\n", "\"open string\n",
                                           "function q()\n var a = (1 + \nend\n", "function q()\n if (1)\n",
                                           "const k_ = nothing_known\n", "function main()\nend\n", "import \"no such file\"\n",
                                           "function q()\n return [1, 2\nend\n", "function q()\n var v = 1\n var v = 2\nend\n",
                                           "function q(a, b\n", "var \n", "function q()\n for (i = 1 to\nend\n"};
      std::string &x = t[s.below(uint32_t(t.size()))];
      const std::string f = faults[s.below(15)];
      x = s.chance(1, 2) ? f + x : x + "\n" + f;
    }
    for (size_t i = 0; i < t.size(); ++i) {
      if (t[i].empty())
        t[i] = "#\n";
      // the first file brings in the others
      if (p.files && i == 0 && s.chance(1, 2))
        for (size_t k = 1; k < t.size(); ++k)
          t[0] = fmt("import \"c23.%d.u%d_%zu.txt\"\n", int(getpid()), u, k) + t[0];
      shown += fmt("# ---- unit %d, text %zu\n", u, i) + t[i] + "\n";
      if (p.files)
        write_file(p.dir + fmt("u%d_%zu.txt", u, i), t[i]);
    }
    p.units.push_back(t);
    p.runs.push_back(may);
    p.opt.push_back(s.chance(1, 2));
  }
  // ---- what is done with them
  const bool keep = s.chance(1, 3); // the same objects again and again
  int mains = 0;
  p.ops.push_back({Act::build, int(s.below(uint32_t(nu))), 1});
  const int n = 3 + int(s.below(14));
  for (int i = 0; i < n; ++i) {
    static const Act::K ks[] = {Act::build, Act::save, Act::load, Act::load_bad, Act::vm_new, Act::vm_gone, Act::vm_reset, Act::init,
                               Act::call, Act::wrong_call, Act::thread, Act::rounds, Act::steps, Act::drain, Act::forget, Act::crowd};
    Act o{ks[s.weighted({3, 2, 2, 3, 4, 1, 2, 4, 4, 1, 5, 4, 2, 3, 1, 1})]};
    switch (o.k) {
    case Act::build:
      o.a = int(s.below(uint32_t(nu)));
      o.b = s.chance(1, 2);
      mains = 0;
      break;
    case Act::save: o.a = s.weighted({6, 1, 1}); break;
    case Act::load_bad:
      o.a = int(s.below(16));
      o.b = int(s.below(5000));
      break;
    case Act::vm_new:
      // a vm is of use once its globals are there
      p.ops.push_back(o);
      o = Act{Act::init};
      mains = 0;
      break;
    case Act::call:
    case Act::thread:
      if (++mains > 3)
        continue;
      break;
    case Act::rounds:
      o.a = 1 + int(s.below(5));
      o.b = s.pick(std::vector<int>{1, 10, 100, 100000});
      break;
    case Act::crowd: o.a = 5 + int(s.below(120)); break;
    case Act::steps: o.a = 1 + int(s.below(60)); break;
    default: break;
    }
    p.ops.push_back(o);
  }
  if (keep) {
    // end where it began, so that each repetition finds what the one before found
    if (s.chance(1, 2))
      p.ops.push_back({Act::vm_gone});
    p.ops.push_back({Act::build, p.ops[0].a, int(s.chance(1, 2))});
  }
  static const char *const names[] = {"build", "save", "load", "load damaged", "new vm", "vm gone", "vm reset", "init",
                                      "call", "wrong call", "thread", "rounds", "steps", "drain", "forget sources", "crowd"};
  shown += keep ? "# the same objects each time:" : "# new objects each time:";
  for (auto &o : p.ops)
    shown += fmt(" %s(%d,%d)", names[o.k], o.a, o.b);
  c.show(shown + "\n");

  const int fd0 = lowest_fd();
  long builds = 0, rejected = 0, calls = 0, failed = 0, loads = 0;
  if (!keep) {
    size_t h[4];
    for (int i = 0; i < 4; ++i) {
      {
        Bench b;
        b.run(p);
        if (i == 3) {
          builds = b.builds, rejected = b.rejected, calls = b.calls, failed = b.failed, loads = b.loads;
        }
      }
      h[i] = held();
    }
    if (h[3] != h[2] && h[2] != h[1])
      fail("%ld bytes stay behind each time", long(h[3]) - long(h[2]));
  } else {
    Bench b;
    size_t h[8];
    for (int i = 0; i < 8; ++i) {
      b.run(p);
      h[i] = held();
    }
    builds = b.builds, rejected = b.rejected, calls = b.calls, failed = b.failed, loads = b.loads;
    bool grows = true;
    for (int i = 3; i < 8; ++i)
      grows &= h[i] > h[i - 1];
    if (grows)
      fail("each repetition on the same objects holds more memory, %ld bytes at the last", long(h[7]) - long(h[6]));
  }
  if (lowest_fd() != fd0)
    fail("a file is left open");
  c.nontrivial = builds >= 1 && (calls || rejected || loads);
  if (calls)
    c.label("ran");
  if (failed)
    c.label("a call failed");
  if (rejected)
    c.label("a build rejected");
  if (loads)
    c.label("loaded");
  c.label(keep ? "kept objects" : "fresh objects");
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C23";
  sp.rule = "Each case is a set of texts (generated programs in several files, with threads, faults of "
            "every phase, mutated programs, token soup) and a random life of compilers, programs, "
            "source managers and vms over them: builds on new or reset compilers, saves, loads of good and "
            "damaged files, vms made, initialised, reset and destroyed with threads running, waiting, "
            "failed or finished. The life is repeated; with new objects the memory held must be the same "
            "after each repetition, with kept objects it must stop growing; no file may stay open. "
            "Non-trivial: something ran, was rejected or was loaded.";
  sp.quick_cases = 14000;
  sp.thorough_cases = 1000000;
  sp.fn = prop;
  sp.assumptions = {"memory held is what the allocator counts as handed out"};
  return run(argc, argv, sp);
}
