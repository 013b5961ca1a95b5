// Model of the vm's cooperative threads: each model thread is a coroutine over
// one shared reference interpreter, switched only at waits.
#pragma once
#include "ref.h"
#include <list>
#include <memory>
#include <ucontext.h>

namespace ref {

struct Sched;

struct MThread {
  int id = 0;
  const lang::Func *fn = nullptr;
  std::vector<Val> args;
  int waits = 0;
  bool finished = false;
  Err error = ok;
  LinePos eline{0, 0};
  std::string ret;
  bool limit = false;
  const char *limit_why = "";
  // saved interpreter state
  Interp::Frame *top = nullptr;
  int depth = 0;
  LinePos cur{0, 0}, last{-1, -1};
  ucontext_t ctx;
  std::unique_ptr<char[]> stack;
};

struct Sched {
  Interp &in;
  std::list<MThread *> threads;
  std::vector<std::unique_ptr<MThread>> all;
  ucontext_t main_ctx;
  MThread *running = nullptr;
  size_t max_threads = 40;
  uint64_t waits_done = 0, rounds = 0;

  explicit Sched(Interp &i) : in(i) {
    in.max_depth = 60;
    in.spawn = [this](const lang::Func *f, const std::vector<Val> &a) { create(f, a); };
    in.on_wait = [this](int n) { wait(n); };
  }
  static const size_t stack_size = 1 << 20;

  MThread *create(const lang::Func *f, const std::vector<Val> &a) {
    if (all.size() >= max_threads)
      throw Limit{"threads"};
    all.emplace_back(new MThread);
    MThread *t = all.back().get();
    t->id = int(all.size()) - 1;
    t->fn = f;
    t->args = a;
    threads.push_front(t);
    return t;
  }
  // the host gives a thread that is not running a new call in place of what it did
  void restart(MThread *t, const lang::Func *f) {
    t->fn = f;
    t->args.clear();
    t->waits = 0;
    t->finished = false;
    t->error = ok;
    t->top = nullptr;
    t->depth = 0;
    t->cur = LinePos{0, 0};
    t->last = LinePos{-1, -1};
    t->stack.reset();
  }
  static void entry(unsigned lo, unsigned hi) {
    Sched *s = (Sched *)((uintptr_t(hi) << 32) | uintptr_t(lo));
    MThread *t = s->running;
    try {
      Val v = s->in.call(t->fn, t->args);
      t->ret = s->in.dump(v);
    } catch (const RtErr &e) {
      t->error = e.e;
      t->eline = LinePos{e.file, e.line};
    } catch (const Limit &l) {
      t->limit = true;
      t->limit_why = l.why;
    }
    t->finished = true;
    s->switch_out();
  }
  void switch_out() {
    MThread *t = running;
    t->top = in.top;
    t->depth = in.depth;
    t->cur = in.cur;
    t->last = in.last;
    swapcontext(&t->ctx, &main_ctx);
  }
  void wait(int n) {
    running->waits = n;
    ++waits_done;
    switch_out();
  }
  void run(MThread *t) {
    running = t;
    in.other_tops.clear();
    for (auto *o : threads)
      if (o != t && o->stack && !o->finished)
        in.other_tops.push_back(o->top);
    in.top = t->top;
    in.depth = t->depth;
    in.cur = t->cur;
    in.last = t->last;
    if (!t->stack) {
      t->stack.reset(new char[stack_size]); // untouched pages cost nothing
      getcontext(&t->ctx);
      t->ctx.uc_stack.ss_sp = t->stack.get();
      t->ctx.uc_stack.ss_size = stack_size;
      t->ctx.uc_link = nullptr;
      const uintptr_t p = uintptr_t(this);
      makecontext(&t->ctx, (void (*)())entry, 2, unsigned(p & 0xffffffffu), unsigned(p >> 32));
    }
    swapcontext(&main_ctx, &t->ctx);
    running = nullptr;
    if (t->limit)
      throw Limit{t->limit_why};
  }
  // one round; false when a thread failed in it
  bool resume() {
    ++rounds;
    for (auto it = threads.begin(); it != threads.end();) {
      MThread *t = *it;
      if (t->waits > 0) {
        --t->waits;
        ++it;
        continue;
      }
      if (t->finished) {
        it = threads.erase(it);
        continue;
      }
      ++it;
      run(t);
      if (t->error != ok)
        return false;
    }
    return true;
  }
  bool has_error() const {
    for (auto *t : threads)
      if (t->error != ok)
        return true;
    return false;
  }
  bool finished() const {
    for (auto *t : threads)
      if (!t->finished)
        return false;
    return true;
  }
};

} // namespace ref
