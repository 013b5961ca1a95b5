// Reference interpreter for the nano language: walks the generator's AST, knows
// nothing of tokens, bytecode, stacks or collectors.
#pragma once
#include "lang.h"
#include <functional>
#include <map>
#include <memory>

namespace ref {

// thread error numbers as the embedding API reports them, by name
enum Err {
  ok, bad_num_args, div_zero, array_bounds, array_index, array_object, type_operation, bad_argument,
  member_access,
  bad_syscall,
};
const char *err_name(Err e);

struct Arr;
struct Val {
  enum T { None, Int, Flt, Str, Array, Fn, Sys } t = None;
  int32_t i = 0;
  float f = 0;
  std::shared_ptr<const std::string> s;
  Arr *a = nullptr;
  const lang::Func *fn = nullptr;
  int sys = -1;
};
struct Arr {
  std::vector<Val> v;
  uint32_t mark = 0;
};
Val v_int(int32_t x);
Val v_flt(float x);
Val v_str(const std::string &x);

struct RtErr {
  Err e;
  int file, line;
};
struct Limit {
  const char *why;
}; // outside the domain explored

struct LinePos {
  int file, line;
  bool operator==(const LinePos &o) const { return file == o.file && line == o.line; }
  bool operator!=(const LinePos &o) const { return !(*this == o); }
  bool operator<(const LinePos &o) const {
    return file != o.file ? file < o.file : line < o.line;
  }
};

struct Interp {
  const lang::Prog &p;
  // limits
  long fuel = 40000;
  int max_depth = 200;
  size_t max_live = 120 * 1024;
  size_t max_str = 5000;

  std::map<std::string, Val> globals;
  std::vector<std::string> out;     // what the program showed, in order
  bool want_lines = false;
  std::vector<LinePos> lines;       // source lines entered, in order
  bool entered = false, self_entry = false; // a call from a line to the same line
  std::vector<size_t> line_outs;    // how much had been shown when each was entered
  std::function<void(const lang::Func *, const std::vector<Val> &)> spawn;
  std::function<void(int)> on_wait;
  std::function<void()> on_line, on_out;                  // after a new line or output
  std::function<std::string(const lang::Func *)> fn_text; // text of a function value
  // host functions beyond the standard ones: name -> arity
  std::map<std::string, int> host_arity;
  std::function<bool(const std::string &, std::vector<Val> &, Val &)> host;
  std::function<bool(const Val &obj, const std::string &m, Val &out)> member_get;
  std::function<bool(const Val &obj, const std::string &m, const Val &v)> member_set;
  // operations the language leaves to the host
  std::function<bool(lang::Op, const Val &l, const Val &r, Val &out)> bin_hook;
  std::function<bool(const Val &a, const Val &i, Val &out)> index_hook;
  std::function<bool(const Val &a, const Val &i, const Val &v)> set_hook;
  std::string tag;                  // prefixed to every line shown (thread name)
  uint64_t steps = 0;
  int depth_seen = 0;
  uint64_t bytes_total = 0;         // allocated over the run, roughly

  struct Slot {
    const std::string *name;
    Val v;
  };
  struct Frame {
    std::vector<Slot> vars;
    Frame *up = nullptr;
    const lang::Func *fn = nullptr; // null: the initialisers
  };
  Frame *top = nullptr;
  std::vector<std::unique_ptr<Arr>> pool;
  size_t since_check = 0;
  uint32_t mark_gen = 0;
  int depth = 0;
  LinePos cur{0, 0}, last{-1, -1};
  std::vector<Frame *> other_tops; // suspended threads

  explicit Interp(const lang::Prog &pp);

  void run_init();                       // global initialisers
  Val call(const lang::Func *f, const std::vector<Val> &args);
  std::string dump(const Val &v);
  Val new_arr(size_t n);

  static const std::vector<std::pair<std::string, int>> &sys_table();
  int sys_index(const std::string &n) const;
  const std::string &sys_name(int i) const;
  int sys_arity(int i) const;

  Val eval(const lang::EP &e, Frame &fr);
  Val binop(lang::Op op, const Val &l, const Val &r);
  bool exec(const lang::Block &b, Frame &fr, Val &ret);
  bool exec(const lang::Stmt &s, Frame &fr, Val &ret);
  Val callv(const Val &c, std::vector<Val> &args);
  Val do_sys(int idx, std::vector<Val> &args);
  Val *lookup(const std::string &n, Frame &fr);
  [[noreturn]] void err(Err e);
  void step();
  void at(int line);
  void check_live();
  bool str_of(const Val &v, std::string &o);
  static bool truth(const Val &v);
  std::vector<std::string> extra_sys;
};

// dump shared by the model and (through an adaptor) by the host side
std::string quote(const std::string &s);
std::string flt_text(float f);

} // namespace ref
