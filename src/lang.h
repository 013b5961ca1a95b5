// The nano language as the checks see it: a small program AST, a printer that
// assigns source lines (with free formatting choices), and a generator.
#pragma once
#include "engine.h"
#include <memory>
#include <string>
#include <vector>
#include <cstdint>

namespace lang {

enum Op { ADD, SUB, MUL, DIV, MOD, LT, GT, LEQ, GEQ, EQ, AND, OR };
extern const char *const op_text[];
int op_prec(Op o);

struct Expr;
typedef std::shared_ptr<Expr> EP;

struct Expr {
  enum K { Int, Flt, Str, None, Var, Bin, Not, Neg, Arr, Index, Call, Member } k;
  int32_t i = 0;       // Int
  float f = 0;         // Flt
  std::string text;    // spelling of a numeric literal, or the string/name/member
  std::string name;    // Var / Member object
  Op op = ADD;         // Bin
  std::vector<EP> kids; // Bin: l r; Not/Neg: e; Arr: elems; Index: lhs idx; Call: callee args...
  explicit Expr(K kk) : k(kk) {}
};

struct Stmt;
typedef std::shared_ptr<Stmt> SP;
typedef std::vector<SP> Block;

struct Stmt {
  enum K { Decl, Assign, Compound, ArrSet, MemSet, If, While, For, Return, CallS } k;
  std::string name, member;
  Op op = ADD;
  EP e;        // value / condition / for start / call expression (CallS)
  EP e2;       // index / for end
  Block body, other;
  bool has_else = false;
  // filled in by the printer
  int line = 0, else_line = 0, end_line = 0;
  explicit Stmt(K kk) : k(kk) {}
};

struct Func {
  std::string name;
  std::vector<std::string> args;
  Block body;
  int file = 0, line = 0, end_line = 0;
};
struct Global {
  std::string name;
  EP init; // may be null
  bool is_const = false;
  int file = 0, line = 0;
};
struct Item {
  int kind; // 0 global, 1 function
  int idx;
};

struct Prog {
  std::vector<Func> funcs;
  std::vector<Global> globals;
  std::vector<Item> items; // source order
  const Func *find_func(const std::string &n) const {
    for (auto &f : funcs)
      if (f.name == n)
        return &f;
    return nullptr;
  }
  const Global *find_global(const std::string &n) const {
    for (auto &g : globals)
      if (g.name == n)
        return &g;
    return nullptr;
  }
};

// ---- construction helpers
EP mk_int(int32_t v);
EP mk_flt(int eighths); // an exactly representable non negative float
EP mk_str(const std::string &s);
EP mk_none();
EP mk_var(const std::string &n);
EP mk_bin(Op o, EP l, EP r);
EP mk_not(EP e);
EP mk_neg(EP e);
EP mk_arr(std::vector<EP> v);
EP mk_index(EP a, EP i);
EP mk_call(EP callee, std::vector<EP> args);
EP mk_callf(const std::string &f, std::vector<EP> args);
EP mk_member(const std::string &n, const std::string &m);
SP st_decl(const std::string &n, EP e);
SP st_assign(const std::string &n, EP e);
SP st_call(const std::string &f, std::vector<EP> args);
SP st_return(EP e);
SP st_out(EP e);

EP clone(const EP &e);
Block clone(const Block &b);
// many more local variables in one function, and uses of some of them
void widen(Prog &p, pbt::Src &s, int most);
Prog clone(const Prog &p);

// value of an expression the compiler may evaluate (integer literals, integer
// constants and operators over them)
bool const_value(const Prog &p, const EP &e, int32_t &out);
// true if compiling e may report a constant division by zero
bool has_const_div_zero(const Prog &p, const EP &e);

// ---- printing
struct Style {
  pbt::Src *src = nullptr; // null: plain canonical formatting
  bool vary_case = false;  // keywords in mixed case
  bool vary_space = false; // spaces and tabs, carriage returns
  bool vary_lines = false; // blank lines and comment lines (moves line numbers)
  bool comments = false;   // trailing comments
  bool parens = false;     // redundant parentheses
  bool no_final_eol = false;
};
// print every item of file `file`; fills in line numbers
std::string print(Prog &p, const Style &st, int file = 0,
                  const std::vector<std::string> &imports = {});
// spread the items, in order, over one to three files; `all` is for showing
std::vector<std::string> print_files(Prog &p, const Style &st, pbt::Src &s, std::string &all);
std::string show(const EP &e);
// rebuild a string so it can be read in a report
std::string vis(const std::string &s);

// ---- generation
struct GenOpts {
  int max_funcs = 4;
  int max_globals = 4;
  int stmts = 5;          // statements per block, at most
  int depth = 3;          // nesting of statements
  int edepth = 3;         // nesting of expressions
  int wild = 0;           // percent of expressions generated without regard to type
  bool floats = true, strings = true, arrays = true, funcs_as_values = true;
  bool consts = true;
  bool global_calls = true; // initialisers that call functions
  bool builtins = true;
  bool churn = false;      // allocation heavy loops
  bool free_order = true;  // functions and globals interleaved in the source
  bool big_ints = true;
  bool fn_to_string = false; // string + function
  bool out_in_expr = true;   // out() inside expressions
  bool waits = false;
  bool spawns = false;       // new_thread(f, args...)
  int const_bias = 0;        // percent of int expressions made of constants only
  std::string prefix;        // prefix of every top level name
};

struct Ty {
  enum K { I, F, S, AI, AS, AA, FN, X } k = I;
  int n = 0; // arrays: least length; functions: arity
  Ty() {}
  Ty(K kk, int nn = 0) : k(kk), n(nn) {}
};
struct VarInfo {
  std::string name;
  Ty ty;
  bool ro = false; // loop counters and constants are not assigned by the generator
  bool is_const = false;
  int hi = 0;      // if > 0 the value is known to be in [0, hi)
};
struct FnInfo {
  std::string name;
  std::vector<Ty> args;
  Ty ret;
};

struct Gen {
  pbt::Src &s;
  GenOpts o;
  Prog p;
  std::vector<VarInfo> globals;
  std::vector<FnInfo> fns;
  // state while generating a function
  int cur = 0;                 // index of the function being generated
  std::vector<VarInfo> scope;  // visible locals and arguments
  int calls_left = 0;
  int loop_mult = 1;
  int spawns_left = 0;
  bool in_init = false;
  int sites = 0;

  Gen(pbt::Src &src, const GenOpts &opts) : s(src), o(opts) {}
  // a whole program with an entry function `entry`(no arguments)
  void program(const std::string &entry);

  EP expr(const Ty &t, int d);
  EP any_expr(int d);
  EP wild_expr(int d);
  EP const_tree(int d);
  EP deep_chain();
  EP identity(const Ty &t, int d);
  EP cond(int d);
  void block(Block &b, int depth, int n, const Ty &ret);
  SP stmt(int depth, const Ty &ret, Block &b);
  std::string fresh();
  Ty rand_ty(bool arrays = true);
  EP fix_div(EP e);
  EP index_for(const Ty &arr, int d);
  void churn_block(Block &b);
  std::vector<const VarInfo *> vars_of(const Ty &t, bool assignable);
  int fn_from() const { return in_init ? 0 : cur + 1; }
};

} // namespace lang
