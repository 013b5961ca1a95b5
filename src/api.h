// Drives the code under test through its public embedding API.
#pragma once
#include <cstring>
#include "ref.h"
#include "/repo/source/nanoscript.h"
#include <memory>
#include <string>
#include <vector>

namespace api {

struct Host {
  std::vector<std::string> out;
  size_t cap = 60000;
  std::function<void(nano::thread_t &)> on_out; // called after each output
};
extern Host *g_host;

std::string dump(const nano::value_t *v, const nano::program_t &prog);

typedef std::vector<std::pair<std::string, int>> SysList; // name, arity

struct Built {
  std::unique_ptr<nano::program_t> prog;
  bool ok = false;
  nano::error_t err;
};
// compile source text with the built in functions plus out/vout (and `extra`)
Built compile(const std::string &src, bool optimize = true, const SysList &extra = {});
// the same for several source texts
Built compile_many(const std::vector<std::string> &srcs, bool optimize = true, const SysList &extra = {});
// bind out/vout and the built in functions
void resolve(nano::program_t &prog);

int err_code(ref::Err e);            // API number of a model error
std::string err_text(int code);      // readable name

struct Result {
  bool init_ok = false;
  bool finished = false;
  int error = 0;                     // thread error of the entry thread (or of init)
  nano::line_t eline;
  std::string ret;
  std::vector<std::string> out;
  uint64_t cycles = 0;
  bool timeout = false;
};

enum Mode { by_resume, by_inst, by_line, by_vm_resume, mixed };
struct How {
  Mode mode = by_resume;
  uint32_t quantum = 1000000;
  uint64_t max_cycles = 4000000;
  pbt::Src *src = nullptr;           // schedule choices for `mixed`
};
// run the initialisers and then `entry`
Result run(nano::program_t &prog, const std::string &entry, const How &how);

// run several entries as threads of one vm, interleaved as the choices say
struct Many {
  bool init_ok = false;
  std::vector<Result> t;             // one per entry
};
struct ManyHow {
  pbt::Src *src = nullptr;
  bool use_vm_resume = true;         // finished threads are then deleted by the vm
  bool single_steps = true;          // every step_inst collects garbage
  uint64_t max_cycles = 4000000;     // of all threads together
  bool slices = false;               // no slice is to be longer than asked for
};
Many run_many(nano::program_t &prog, const std::vector<std::string> &entries, const ManyHow &how);

// run the model on the same program; throws pbt::Discard when it leaves the domain
struct Expect {
  bool init_err = false;
  ref::Err error = ref::ok;
  int efile = 0, eline = 0;
  std::string ret;
  std::vector<std::string> out;
  std::vector<ref::LinePos> lines;
  std::vector<size_t> line_outs;
  bool self_entry = false;
  uint64_t steps = 0, bytes = 0;
  int depth = 0;
};
Expect model(const lang::Prog &p, const std::string &entry, nano::program_t *prog = nullptr,
             long fuel = 40000, bool lines = false);

// throws pbt::Fail when the run differs from the expectation
void compare(const Expect &e, const Result &r, const char *what, bool check_line = true);
std::string join(const std::vector<std::string> &v, size_t max = 60);

} // namespace api
