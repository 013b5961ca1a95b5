#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include "nanoscript.h"
using namespace nano;
static std::vector<std::string> shown;
static void host_out(thread_t &t, int32_t) {
  value_t *v = t.get_stack().pop();
  shown.push_back(v->to_string());
  t.get_stack().push_int(0);
}
// compile text; false if rejected
static bool build(program_t &prog, const char *text, bool optimize, nano::error_t &err) {
  source_manager_t sources;
  sources.load_from_string(text);
  nano_t nano{prog};
  nano.optimize = optimize;
  builtins_register(nano);
  nano.syscall_register("out", 1);
  if (!nano.build(sources, err))
    return false;
  builtins_resolve(prog);
  prog.syscall_resolve("out", host_out);
  return true;
}
#define CHECK(x) do { if (!(x)) { printf("failed: %s (line %d)\n", #x, __LINE__); return 1; } } while (0)
