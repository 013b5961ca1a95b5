// C24: separate instances know nothing of each other: compilers, programs and vms that
// share no object give the same in parallel threads of the host, or nested in each
// other's host functions, as alone.
#include "api.h"
#include "texts.h"
#include "/repo/source/lib_compiler/disassembler.h"
#include "/repo/source/lib_compiler/ast.h"
#include <atomic>
#include <pthread.h>
#include <unistd.h>
using namespace pbt;
using namespace lang;
using namespace nano;

struct Unit {
  std::vector<std::string> texts;
  bool optimize = true, runs = false, files = false;
  int mode = 0, quantum = 100;
  std::string stem; // of its files
};

// what a life leaves to be seen
struct Log {
  std::string text;
  size_t outs = 0;
  std::function<void()> nested; // done at one of the outputs
  size_t nest_at = 0;
  program_t *prog = nullptr;
};
static thread_local Log *tl_log = nullptr;

static void note(thread_t &t, const char *what, const value_t *v) {
  Log &l = *tl_log;
  if (++l.outs < 2000 && v->type() != val_type_array)
    l.text += v->to_string() + " ";
  if (l.outs < 2000)
    l.text += std::string(what) + " " + api::dump(v, *l.prog) + fmt(" line %d\n", t.get_source_line().line);
  if (l.nested && l.outs == l.nest_at) {
    Log *keep = tl_log;
    l.nested();
    tl_log = keep;
  }
}
static void sys_out(thread_t &t, int32_t) {
  value_t *v = t.get_stack().pop();
  t.get_stack().push(v);
  note(t, "out", v);
}
static void sys_vout(thread_t &t, int32_t n) {
  std::vector<const value_t *> a(static_cast<size_t>(n));
  for (int i = n - 1; i >= 0; --i)
    a[size_t(i)] = t.get_stack().pop();
  for (auto *v : a)
    note(t, "vout", v);
  t.get_stack().push_int(n);
}

static std::string image(program_t &p) {
  std::string r = fmt("code %zu:", p.size());
  r += fmt("%016llx", (unsigned long long)hash_str(std::string((const char *)p.data(), p.size())));
  for (auto &x : p.strings())
    r += fmt("\nstring %zu ", x.size()) + x;
  for (auto &f : p.functions()) {
    r += fmt("\nfunction %s %d %d", f.name().c_str(), f.code_start_, f.code_end_);
    for (auto &a : f.args_)
      r += fmt(" arg %s %d", a.name_.c_str(), a.offset_);
    for (auto &a : f.locals_)
      r += fmt(" local %s %d", a.name_.c_str(), a.offset_);
  }
  for (auto &x : p.syscalls())
    r += fmt("\nhost %s %d", x.name_.c_str(), x.num_args_);
  for (auto &l : p.line_table())
    r += fmt("\nline %d %d %d", l.first, l.second.file, l.second.line);
  return r + "\n";
}
template <typename F> static std::string written(const F &f) {
  char *mem = nullptr;
  size_t n = 0;
  FILE *fd = open_memstream(&mem, &n);
  f(fd);
  fclose(fd);
  std::string r(mem, n);
  free(mem);
  return r;
}

static void end(thread_t &x) {
  Log &l = *tl_log;
  l.text += fmt("end, error %d line %d", int(x.get_error()), x.get_source_line().line);
  l.text += std::string(" ") + get_thread_error(x.get_error());
  if (!x.has_error() && x.finished())
    l.text += " " + api::dump(x.get_return_value(), *l.prog);
  l.text += "\n";
}

static void life(const Unit &u, Log &l) {
  tl_log = &l;
  program_t prog;
  l.prog = &prog;
  source_manager_t sources;
  nano_t nano(prog);
  nano.optimize = u.optimize;
  builtins_register(nano);
  nano.syscall_register("out", 1);
  nano.syscall_register("vout", -1);
  for (size_t i = 0; i < u.texts.size(); ++i) {
    const bool got = u.files ? sources.load((u.stem + fmt("%zu.txt", i)).c_str()) : sources.load_from_string(u.texts[i].c_str());
    l.text += got ? "loaded\n" : "not loaded\n";
  }
  nano::error_t e;
  if (!nano.build(sources, e)) {
    l.text += fmt("rejected at file %d line %d: ", e.line.file, e.line.line) + e.error + "\n";
    return;
  }
  l.text += "accepted " + image(prog);
  l.text += written([&](FILE *fd) { nano.ast().dump(fd); });
  disassembler_t dis;
  l.text += written([&](FILE *fd) { dis.dump(prog, fd); });
  // to a file and back
  const std::string path = u.stem + "saved";
  program_t back;
  const bool saved = prog.serial_save(path.c_str()), loaded = back.serial_load(path.c_str());
  l.text += fmt("saved %d loaded %d\n", saved, loaded) + image(back);
  if (!u.runs)
    return;
  program_t &p = u.mode & 1 ? back : prog;
  l.prog = &p;
  builtins_resolve(p);
  p.syscall_resolve("out", sys_out);
  p.syscall_resolve("vout", sys_vout);
  vm_t vm(p);
  const bool init = vm.call_init();
  l.text += fmt("init %d\n", init);
  function_t *f = p.function_find("main");
  if (!init || !f)
    return;
  thread_t *t = vm.new_thread(*f, 0, nullptr);
  if (!t) {
    l.text += "no thread\n";
    return;
  }
  vm.handlers.on_thread_error = [](thread_t &x) {
    tl_log->text += fmt("thread error %d\n", int(x.get_error()));
    return true;
  };
  vm.handlers.on_thread_finish = [](thread_t &x) {
    end(x);
    return true;
  };
  if (u.mode & 2) {
    // by lines, then on
    for (int i = 0; i < u.quantum && !t->finished() && !t->has_error(); ++i) {
      t->step_line();
      const line_t at = t->get_source_line();
      l.text += fmt("at %d:%d, frames %zu\n", at.file, at.line, t->frames().size());
      for (auto &fr : t->frames())
        if (const function_t *g = p.function_find(int32_t(fr.callee_)))
          l.text += " " + g->name();
    }
    if (t->finished() || t->has_error())
      end(*t);
  }
  for (int i = 0; i < 3000 && !vm.thread().empty(); ++i)
    l.text += vm.resume(uint32_t(u.quantum)) ? "" : "stopped\n";
  for (size_t i = 0; i < vm.globals().size(); ++i)
    l.text += "global " + api::dump(vm.globals()[i], p) + "\n";
}

static bool tame(const Prog &p) {
  ref::Interp in(p);
  in.fuel = 20000;
  in.max_depth = 60;
  int spawned = 0;
  in.spawn = [&](const Func *f, const std::vector<ref::Val> &a) {
    if (++spawned > 20)
      throw ref::Limit{"threads"};
    try {
      (void)in.call(f, a);
    } catch (const ref::RtErr &) {
    }
  };
  in.on_wait = [](int) {};
  try {
    in.run_init();
    (void)in.call(p.find_func("main"), {});
  } catch (const ref::RtErr &) {
  } catch (const ref::Limit &) {
    return false;
  }
  return !spawned || in.bytes_total < 200 * 1024;
}

struct Team {
  const std::vector<Unit> *units;
  std::atomic<int> ready{0};
  int n;
};
struct Job {
  Team *team;
  const Unit *unit;
  int times;
  std::vector<Log> logs;
};
static void *work(void *x) {
  Job &j = *(Job *)x;
  j.team->ready.fetch_add(1, std::memory_order_relaxed);
  while (j.team->ready.load(std::memory_order_relaxed) < j.team->n)
    sched_yield();
  for (int i = 0; i < j.times; ++i) {
    j.logs.emplace_back();
    life(*j.unit, j.logs.back());
  }
  return nullptr;
}

static void differ(const std::string &alone, const std::string &got, const char *where) {
  if (alone == got)
    return;
  size_t a = 0;
  while (a < alone.size() && a < got.size() && alone[a] == got[a])
    ++a;
  size_t b = alone.rfind('\n', a);
  b = b == std::string::npos ? 0 : b + 1;
  fail("%s it does not do what it does alone: '%s' instead of '%s'", where, vis(got.substr(b, 80)).c_str(), vis(alone.substr(b, 80)).c_str());
}

static void prop(Src &s, Case &c) {
  const int n = 2 + int(s.below(3));
  std::vector<Unit> units;
  std::string shown;
  int running = 0;
  for (int i = 0; i < n; ++i) {
    Unit u;
    u.stem = scratch() + fmt("/c24.%d.%d.", int(getpid()), i);
    u.optimize = s.chance(1, 2);
    u.files = s.chance(1, 4);
    u.mode = int(s.below(4));
    u.quantum = s.pick(std::vector<int>{100000, 1, 7, 50});
    if (s.chance(5, 6)) {
      GenOpts o;
      o.max_funcs = 3;
      o.stmts = 4;
      o.spawns = s.chance(1, 3);
      o.waits = o.spawns;
      o.wild = s.chance(1, 3) ? 4 : 0;
      o.churn = s.chance(1, 6);
      Gen g(s, o);
      g.program("main");
      u.runs = tame(g.p);
      const int files = 1 + int(s.below(2));
      for (auto &f : g.p.funcs)
        f.file = int(s.below(uint32_t(files)));
      for (int k = 0; k < files; ++k)
        u.texts.push_back(print(g.p, Style(), k) + "# end\n");
    } else
      u.texts.push_back(texts::mutated(s) + "\n");
    if (s.chance(1, 5))
      u.texts.back() += texts::faults(s);
    running += u.runs;
    for (size_t k = 0; k < u.texts.size(); ++k) {
      if (u.files) {
        FILE *f = fopen((u.stem + fmt("%zu.txt", k)).c_str(), "wb");
        if (!f || fwrite(u.texts[k].data(), 1, u.texts[k].size(), f) != u.texts[k].size() || fclose(f) != 0)
          throw Discard{"cannot write the scratch file"};
      }
      shown += fmt("# ---- instance %d, text %zu, mode %d, quantum %d%s\n", i, k, u.mode, u.quantum, u.optimize ? "" : ", not optimised") + u.texts[k];
    }
    units.push_back(u);
  }
  c.show(shown);
  std::vector<Log> alone(units.size());
  for (size_t i = 0; i < units.size(); ++i)
    life(units[i], alone[i]);
  // ---- one inside another
  int nestings = 0;
  for (size_t i = 0; i < units.size(); ++i)
    if (alone[i].outs && s.chance(1, 2)) {
      const size_t k = (i + 1) % units.size();
      Log inner, outer;
      outer.nest_at = 1 + s.below(uint32_t(std::min<size_t>(alone[i].outs, 20)));
      outer.nested = [&] { life(units[k], inner); };
      life(units[i], outer);
      differ(alone[i].text, outer.text, "around another instance");
      differ(alone[k].text, inner.text, "inside a host function of another instance");
      ++nestings;
    }
  // ---- side by side
  Team team;
  team.units = &units;
  team.n = n;
  std::vector<Job> jobs(units.size());
  std::vector<pthread_t> th(units.size());
  for (size_t i = 0; i < units.size(); ++i) {
    jobs[i].team = &team;
    jobs[i].unit = &units[i];
    jobs[i].times = 1 + (i == 0);
    if (pthread_create(&th[i], nullptr, work, &jobs[i]) != 0) {
      fprintf(stderr, "cannot start a thread\n");
      _exit(0);
    }
  }
  for (auto &x : th)
    pthread_join(x, nullptr);
  for (size_t i = 0; i < units.size(); ++i)
    for (auto &l : jobs[i].logs)
      differ(alone[i].text, l.text, "beside other instances");
  c.nontrivial = running >= 2 || (running && nestings);
  if (running >= 2)
    c.label("two or more run");
  if (nestings)
    c.label("nested");
  for (auto &a : alone)
    if (a.text.find("rejected at") != std::string::npos) {
      c.label("a build rejected");
      break;
    }
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C24";
  sp.rule = "Each case is two to four instances (compiler, source manager, program, vm), each with texts of "
            "its own (generated programs with threads and faults, mutated texts) and a life: build, tree, "
            "listing, save, load, run by rounds or lines. Each life is logged alone, then inside a host function "
            "of another instance, then in parallel threads under ThreadSanitizer; the logs must be equal and "
            "no race may be reported. Non-trivial: two programs ran, or one around another.";
  sp.quick_cases = 6000;
  sp.thorough_cases = 200000;
  sp.fn = prop;
  sp.assumptions = {"instances share no object; each is used by one thread at a time"};
  return run(argc, argv, sp);
}
