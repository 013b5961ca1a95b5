#include "api.h"
#include <map>
#include <functional>

using namespace nano;
using pbt::fmt;

namespace api {

Host *g_host = nullptr;

std::string dump(const value_t *v, const program_t &prog) {
  std::map<const value_t *, int> seen;
  size_t budget = 400;
  std::function<std::string(const value_t *)> go = [&](const value_t *x) -> std::string {
    if (budget == 0)
      return "...";
    --budget;
    if (x == nullptr)
      return "none";
    switch (x->type()) {
    case val_type_none: return "none";
    case val_type_int: return fmt("%d", x->integer());
    case val_type_float: return ref::flt_text(x->as_float());
    case val_type_string: return ref::quote(std::string(x->string(), size_t(x->strlen())));
    case val_type_func: {
      for (auto &f : prog.functions())
        if (f.code_start_ == x->v)
          return "fn:" + f.name_;
      return "fn:?";
    }
    case val_type_syscall: {
      auto &sc = const_cast<program_t &>(prog).syscalls();
      if (x->v >= 0 && x->v < int32_t(sc.size()))
        return "sys:" + sc[size_t(x->v)].name_;
      return "sys:?";
    }
    case val_type_array: {
      auto it = seen.find(x);
      if (it != seen.end())
        return fmt("@%d", it->second);
      const int id = int(seen.size());
      seen[x] = id;
      std::string r = fmt("#%d[", id);
      const int n = x->array_size();
      for (int i = 0; i < n; ++i) {
        if (i)
          r += ", ";
        r += go(x->array()[i]);
      }
      return r + "]";
    }
    default: return fmt("?type%d", int(x->type()));
    }
  };
  return go(v);
}

static void add_out(thread_t &t, const std::string &s) {
  if (t.user_data) {
    auto *v = (std::vector<std::string> *)t.user_data;
    if (v->size() < g_host->cap)
      v->push_back(s);
    return;
  }
  if (g_host->out.size() < g_host->cap)
    g_host->out.push_back(s);
}

static void sys_out(thread_t &t, int32_t) {
  value_t *v = t.get_stack().pop();
  add_out(t, dump(v, t.vm().program()));
  t.get_stack().push(v);
  if (g_host->on_out)
    g_host->on_out(t);
}

static void sys_vout(thread_t &t, int32_t n) {
  std::vector<std::string> a;
  for (int i = 0; i < n; ++i)
    a.push_back(dump(t.get_stack().pop(), t.vm().program()));
  std::string r = "(";
  for (size_t i = a.size(); i-- > 0;)
    r += a[i] + ";";
  add_out(t, r + ")");
  t.get_stack().push_int(n);
  if (g_host->on_out)
    g_host->on_out(t);
}

Built compile(const std::string &src, bool optimize, const SysList &extra) {
  return compile_many({src}, optimize, extra);
}

Built compile_many(const std::vector<std::string> &srcs, bool optimize, const SysList &extra) {
  Built b;
  b.prog.reset(new program_t);
  source_manager_t sources;
  for (const auto &src : srcs)
    if (!sources.load_from_string(src.c_str())) {
      b.err.error = "(source not loaded)";
      return b;
    }
  nano_t nano(*b.prog);
  nano.optimize = optimize;
  builtins_register(nano);
  nano.syscall_register("out", 1);
  nano.syscall_register("vout", -1);
  for (auto &e : extra)
    nano.syscall_register(e.first, e.second);
  b.ok = nano.build(sources, b.err);
  if (b.ok)
    resolve(*b.prog);
  return b;
}

void resolve(program_t &prog) {
  builtins_resolve(prog);
  prog.syscall_resolve("out", sys_out);
  prog.syscall_resolve("vout", sys_vout);
}

int err_code(ref::Err e) {
  switch (e) {
  case ref::ok: return int(thread_error_t::e_success);
  case ref::bad_num_args: return int(thread_error_t::e_bad_num_args);
  case ref::div_zero: return int(thread_error_t::e_bad_divide_by_zero);
  case ref::array_bounds: return int(thread_error_t::e_bad_array_bounds);
  case ref::array_index: return int(thread_error_t::e_bad_array_index);
  case ref::array_object: return int(thread_error_t::e_bad_array_object);
  case ref::type_operation: return int(thread_error_t::e_bad_type_operation);
  case ref::bad_argument: return int(thread_error_t::e_bad_argument);
  case ref::member_access: return int(thread_error_t::e_bad_member_access);
  case ref::bad_syscall: return int(thread_error_t::e_bad_syscall);
  }
  return -1;
}

std::string err_text(int code) {
  const char *n = get_thread_error(thread_error_t(code));
  return fmt("%d (%s)", code, n ? n : "?");
}

Result run(program_t &prog, const std::string &entry, const How &how) {
  Result r;
  Host host;
  g_host = &host;
  {
    vm_t vm(prog);
    // the thread that fails in the initialisers is kept by the vm
    r.init_ok = vm.call_init();
    if (!r.init_ok) {
      for (auto *t : vm.thread())
        if (t->has_error()) {
          r.error = int(t->get_error());
          r.eline = t->get_source_line();
        }
      r.out = host.out;
      g_host = nullptr;
      return r;
    }
    function_t *f = prog.function_find(entry);
    if (!f)
      pbt::fail("function '%s' is not in the compiled program", entry.c_str());
    thread_t *t = vm.new_thread(*f, 0, nullptr);
    if (!t)
      pbt::fail("no thread could be created for '%s'", entry.c_str());
    auto before = t->get_cycle_count();
    (void)before;
    while (!t->finished()) {
      if (t->get_cycle_count() > how.max_cycles) {
        r.timeout = true;
        break;
      }
      Mode m = how.mode;
      uint32_t q = how.quantum;
      if (m == mixed) {
        static const uint32_t qs[] = {1, 2, 3, 7, 16, 61, 256, 1021, 20000};
        switch (how.src->below(4)) {
        case 0: m = by_vm_resume; q = qs[how.src->below(9)]; break;
        case 1: m = by_inst; break;
        case 2: m = by_line; break;
        default: m = by_resume; q = qs[how.src->below(9)]; break;
        }
        // runs of single steps
        if (m == by_inst || m == by_line) {
          const int n = 1 + int(how.src->below(40));
          for (int i = 1; i < n && !t->finished(); ++i)
            m == by_inst ? t->step_inst() : t->step_line();
          if (t->finished())
            break;
        }
      }
      bool good = true;
      switch (m) {
      case by_resume: good = t->resume(int32_t(q)); break;
      case by_inst: good = t->step_inst(); break;
      case by_line: good = t->step_line(); break;
      default: good = vm.resume(q); break;
      }
      if (!good && !t->has_error())
        pbt::fail("running reported failure but the thread has no error");
      if (good && t->has_error())
        pbt::fail("running reported success but the thread has an error");
    }
    r.finished = t->finished();
    r.error = int(t->get_error());
    r.cycles = t->get_cycle_count();
    if (t->has_error())
      r.eline = t->get_source_line();
    else if (r.finished)
      r.ret = dump(t->get_return_value(), prog);
    r.out = host.out;
  }
  g_host = nullptr;
  return r;
}

Many run_many(program_t &prog, const std::vector<std::string> &entries, const ManyHow &how) {
  Many m;
  Host host;
  g_host = &host;
  vm_t vm(prog);
  m.init_ok = vm.call_init();
  m.t.resize(entries.size());
  if (!m.init_ok) {
    g_host = nullptr;
    return m;
  }
  std::vector<thread_t *> th;
  std::vector<bool> done(entries.size(), false);
  for (size_t i = 0; i < entries.size(); ++i) {
    function_t *f = prog.function_find(entries[i]);
    if (!f)
      pbt::fail("function '%s' is not in the compiled program", entries[i].c_str());
    thread_t *t = vm.new_thread(*f, 0, nullptr);
    if (!t)
      pbt::fail("no thread could be created for '%s'", entries[i].c_str());
    t->user_data = &m.t[i].out;
    th.push_back(t);
  }
  bool gone = false; // the vm may have deleted finished threads
  // what a failed thread holds can still be looked at
  std::vector<std::vector<std::string>> held(entries.size());
  auto hold = [&](thread_t *t) {
    std::vector<std::string> v;
    auto &st = t->get_stack();
    for (int32_t k = 0; k < int32_t(st.head()) && k < 400; ++k)
      v.push_back(dump(st.data()[k], prog));
    return v;
  };
  auto settle = [&]() {
    for (size_t i = 0; i < th.size(); ++i) {
      if (done[i] || !th[i]->finished())
        continue;
      done[i] = true;
      Result &r = m.t[i];
      r.finished = true;
      r.error = int(th[i]->get_error());
      r.cycles = th[i]->get_cycle_count();
      if (th[i]->has_error()) {
        r.eline = th[i]->get_source_line();
        held[i] = hold(th[i]);
      } else {
        r.ret = dump(th[i]->get_return_value(), prog);
      }
    }
  };
  uint64_t total = 0;
  while (true) {
    std::vector<size_t> live;
    for (size_t i = 0; i < th.size(); ++i)
      if (!done[i])
        live.push_back(i);
    if (live.empty())
      break;
    if (total > how.max_cycles) {
      for (size_t i : live)
        m.t[i].timeout = true;
      break;
    }
    static const uint32_t qs[] = {1, 2, 3, 5, 11, 37, 100, 400, 2000, 20000};
    const uint32_t q = qs[how.src->below(10)];
    // beyond the recorded choices the run goes on in big steps
    const bool rest = how.src->ch.size() > 50000 || (how.src->replay && how.src->pos > how.src->ch.size());
    const size_t i = live[how.src->below(uint32_t(live.size()))];
    thread_t *t = th[i];
    const uint64_t before = t->get_cycle_count();
    const uint32_t mode = rest ? 0 : how.src->below(8);
    if (how.use_vm_resume && mode >= 6) {
      gone = true;
      std::vector<uint64_t> had;
      for (size_t k : live)
        had.push_back(th[k]->get_cycle_count());
      vm.resume(q);
      settle();
      // a finished thread stays until the next round
      for (size_t k = 0; k < live.size(); ++k) {
        total += 1 + th[live[k]]->get_cycle_count() - had[k];
        if (how.slices && th[live[k]]->get_cycle_count() > had[k] + q)
          pbt::fail("thread %zu ran %llu instructions in a slice of %u", live[k],
                    (unsigned long long)(th[live[k]]->get_cycle_count() - had[k]), q);
      }
      continue;
    }
    if (how.single_steps && mode == 4) {
      for (uint32_t k = 0; k < std::min(q, 400u) && !t->finished(); ++k)
        t->step_inst();
    } else if (mode == 5) {
      for (uint32_t k = 0; k < std::min(q, 100u) && !t->finished(); ++k)
        t->step_line();
    } else {
      t->resume(int32_t(rest ? 100000 : q));
      if (how.slices && !rest && t->get_cycle_count() > before + q)
        pbt::fail("thread %zu ran %llu instructions in a slice of %u", i,
                  (unsigned long long)(t->get_cycle_count() - before), q);
    }
    total += t->get_cycle_count() - before + 1;
    settle();
  }
  if (!gone)
    for (size_t i = 0; i < th.size(); ++i)
      if (m.t[i].finished && m.t[i].error) {
        const auto again = hold(th[i]);
        for (size_t k = 0; k < held[i].size() && k < again.size(); ++k)
          if (held[i][k] != again[k])
            pbt::fail("value %zu of failed thread %zu changed from %.200s to %.200s", k, i,
                      held[i][k].c_str(), again[k].c_str());
        if (held[i].size() != again.size())
          pbt::fail("failed thread %zu held %zu values and now holds %zu", i, held[i].size(), again.size());
      } else if (m.t[i].finished && !m.t[i].error) {
        const std::string again = dump(th[i]->get_return_value(), prog);
        if (again != m.t[i].ret)
          pbt::fail("the return value of finished thread %zu changed from %.200s to %.200s", i,
                    m.t[i].ret.c_str(), again.c_str());
      }
  g_host = nullptr;
  return m;
}

Expect model(const lang::Prog &p, const std::string &entry, program_t *prog, long fuel, bool lines) {
  Expect e;
  ref::Interp in(p);
  in.fuel = fuel;
  if (prog)
    in.fn_text = [prog](const lang::Func *f) {
      function_t *x = prog->function_find(f->name);
      return fmt("function@%d", x ? x->code_start_ : -1);
    };
  else
    in.fn_text = [](const lang::Func *) -> std::string {
      throw ref::Limit{"text of a function value"};
    };
  try {
    try {
      in.run_init();
    } catch (const ref::RtErr &x) {
      e.init_err = true;
      throw;
    }
    in.want_lines = lines;
    const lang::Func *f = p.find_func(entry);
    ref::Val v = in.call(f, {});
    e.ret = in.dump(v);
  } catch (const ref::RtErr &x) {
    e.error = x.e;
    e.efile = x.file;
    e.eline = x.line;
  } catch (const ref::Limit &l) {
    throw pbt::Discard{l.why};
  }
  e.out = in.out;
  e.lines = in.lines;
  e.line_outs = in.line_outs;
  e.self_entry = in.self_entry;
  e.steps = in.steps;
  e.bytes = in.bytes_total;
  e.depth = in.depth_seen;
  return e;
}

std::string join(const std::vector<std::string> &v, size_t max) {
  std::string r;
  for (size_t i = 0; i < v.size() && i < max; ++i)
    r += (i ? " | " : "") + v[i];
  if (v.size() > max)
    r += fmt(" ... (%zu)", v.size());
  return r;
}

void compare(const Expect &e, const Result &r, const char *what, bool check_line) {
  // the first output that differs says most
  const size_t n = std::min(e.out.size(), r.out.size());
  for (size_t i = 0; i < n; ++i)
    if (e.out[i] != r.out[i])
      pbt::fail("%s: output %zu is %.300s, expected %.300s", what, i, r.out[i].c_str(),
                e.out[i].c_str());
  const int want = err_code(e.error);
  if (r.timeout)
    pbt::fail("%s: still running after %llu cycles (the model needs %llu steps)", what,
              (unsigned long long)r.cycles, (unsigned long long)e.steps);
  if (r.error != want)
    pbt::fail("%s: thread error %s at line %d, expected %s at line %d", what,
              err_text(r.error).c_str(), r.eline.line, err_text(want).c_str(), e.eline);
  if (e.init_err == r.init_ok)
    pbt::fail("%s: running the initialisers gave %s, expected %s", what,
              r.init_ok ? "success" : "an error", e.init_err ? "an error" : "success");
  if (e.out.size() != r.out.size())
    pbt::fail("%s: %zu outputs, expected %zu (%s)", what, r.out.size(), e.out.size(),
              join(r.out.size() > n ? std::vector<std::string>(r.out.begin() + n, r.out.end())
                                    : std::vector<std::string>(e.out.begin() + n, e.out.end()), 4)
                  .c_str());
  if (e.error == ref::ok) {
    if (!r.finished)
      pbt::fail("%s: the thread did not finish", what);
    if (e.ret != r.ret)
      pbt::fail("%s: returned %.300s, expected %.300s", what, r.ret.c_str(), e.ret.c_str());
  } else if (check_line) {
    if (r.eline.line != e.eline || r.eline.file != e.efile)
      pbt::fail("%s: error located at file %d line %d, expected file %d line %d", what, r.eline.file,
                r.eline.line, e.efile, e.eline);
  }
}

} // namespace api
