#include "engine.h"

#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <fcntl.h>
#include <dirent.h>

#ifndef CASE_CPU_SECONDS
#define CASE_CPU_SECONDS 20
#endif

namespace pbt {

void fail(const char *f, ...) {
  char buf[8192];
  va_list va;
  va_start(va, f);
  vsnprintf(buf, sizeof(buf), f, va);
  va_end(va);
  throw Fail{buf};
}

std::string fmt(const char *f, ...) {
  char buf[4096];
  va_list va;
  va_start(va, f);
  vsnprintf(buf, sizeof(buf), f, va);
  va_end(va);
  return buf;
}

uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  h ^= h >> 29;
  h *= 0xBF58476D1CE4E5B9ull;
  return h ^ (h >> 32);
}

static char *g_text_shm = nullptr;
static const size_t TEXT_CAP = 1 << 20;
static const size_t CH_CAP = 60000;

void Case::show(const std::string &t) {
  text = t;
  if (g_text_shm) {
    const uint32_t n = uint32_t(std::min(t.size(), TEXT_CAP - 8));
    memcpy(g_text_shm + 4, t.data(), n);
    memcpy(g_text_shm, &n, 4);
  }
}

static std::string g_scratch;
const std::string &scratch() { return g_scratch; }

static void rm_tree(const std::string &d) {
  if (d.compare(0, 5, "/tmp/") != 0 || d.size() < 10)
    return;
  if (DIR *dp = opendir(d.c_str())) {
    while (dirent *e = readdir(dp)) {
      std::string n = e->d_name;
      if (n == "." || n == "..")
        continue;
      std::string p = d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        rm_tree(p);
      else
        unlink(p.c_str());
    }
    closedir(dp);
  }
  rmdir(d.c_str());
}

namespace {

typedef std::chrono::steady_clock clk;

struct Shared {
  volatile uint64_t cur[64];     // case being run by each worker
  volatile uint64_t done[64];    // evaluations finished
  volatile uint64_t fail_idx[64];
  volatile int failed[64];
  volatile int stop;
  char msg[64][2048];
};

enum Kind { k_ok, k_discard, k_fail, k_crash, k_hang };

struct Outcome {
  Kind kind = k_ok;
  std::string msg;
};

void on_prof(int) { _exit(77); }

void arm(int secs) {
  struct itimerval it;
  memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, nullptr);
}

void child_init() {
#ifdef PBT_TSAN
  signal(SIGPROF, SIG_DFL); // handlers may be put off for ever
#else
  signal(SIGPROF, on_prof);
#endif
#if !defined(PBT_ASAN) && !defined(PBT_TSAN)
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = 6ull << 30;
  setrlimit(RLIMIT_AS, &rl);
#endif
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
}

uint64_t case_seed(uint64_t seed, const char *id, uint64_t idx) {
  uint64_t h = hash_str(std::string(id));
  h ^= seed * 0x9E3779B97F4A7C15ull;
  h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9ull;
  h += idx * 0x94D049BB133111EBull;
  h = (h ^ (h >> 27)) * 0x94D049BB133111EBull;
  return h ^ (h >> 31);
}

Kind run_case(const Spec &spec, Src &src, Case &c, std::string &msg) {
  try {
    spec.fn(src, c);
    return k_ok;
  } catch (const Fail &f) {
    msg = f.msg;
    return k_fail;
  } catch (const Discard &d) {
    c.label(std::string("discard: ") + d.why);
    return k_discard;
  } catch (const std::exception &e) {
    msg = std::string("unexpected C++ exception escaped: ") + e.what();
    return k_fail;
  }
}

// run one case in a child; fills text/choices when asked for
Outcome eval_forked(const Spec &spec, const std::function<Src()> &mk,
                    std::vector<uint32_t> *choices, std::string *text, int cpu) {
  Outcome out;
  static uint32_t *ch_shm = nullptr;
  if (!ch_shm) {
    ch_shm = (uint32_t *)mmap(nullptr, (CH_CAP + 16) * 4, PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_text_shm = (char *)mmap(nullptr, TEXT_CAP, PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  ch_shm[0] = 0;
  memset(g_text_shm, 0, 4);
  const std::string res = g_scratch + "/eval." + std::to_string(getpid());
  unlink(res.c_str());
  fflush(stdout);
  fflush(stderr);
  const pid_t pid = fork();
  if (pid == 0) {
    child_init();
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    if (!getenv("PBT_STDERR"))
      dup2(dn, 2);
    arm(cpu);
    Src src = mk();
    src.mirror = ch_shm;
    Case c;
    std::string msg;
    Kind k = run_case(spec, src, c, msg);
    if (!c.text.empty())
      c.show(c.text);
    FILE *f = fopen(res.c_str(), "wb");
    if (f) {
      uint32_t hdr[2] = {uint32_t(k), uint32_t(msg.size())};
      fwrite(hdr, sizeof(hdr), 1, f);
      fwrite(msg.data(), 1, msg.size(), f);
      fclose(f);
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    FILE *f = fopen(res.c_str(), "rb");
    uint32_t hdr[2] = {0, 0};
    if (f && fread(hdr, sizeof(hdr), 1, f) == 1) {
      std::string msg(hdr[1], 0);
      if (hdr[1] && fread(&msg[0], 1, hdr[1], f) != hdr[1]) {}
      out.kind = Kind(hdr[0]);
      out.msg = msg;
    }
    if (f)
      fclose(f);
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
    out.kind = k_hang;
    out.msg = fmt("no answer within %d s of CPU time", cpu);
  } else {
    out.kind = k_crash;
    if (WIFSIGNALED(st))
      out.msg = fmt("the process died with signal %d (%s)", WTERMSIG(st),
                    strsignal(WTERMSIG(st)));
    else
      out.msg = fmt("the process ended with status %d (sanitizer report or exit)",
                    WEXITSTATUS(st));
  }
  if (choices)
    choices->assign(ch_shm + 1, ch_shm + 1 + std::min<size_t>(ch_shm[0], CH_CAP));
  if (text) {
    uint32_t n = 0;
    memcpy(&n, g_text_shm, 4);
    if (n)
      text->assign(g_text_shm + 4, n);
  }
  unlink(res.c_str());
  return out;
}

bool is_bad(Kind k) { return k == k_fail || k == k_crash || k == k_hang; }

std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    switch (c) {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break;
    case '\r': o += "\\r"; break;
    default:
      if (c < 32 || c >= 127)
        o += fmt("\\u%04x", c);
      else
        o += char(c);
    }
  }
  return o + "\"";
}

} // namespace

int run(int argc, char **argv, const Spec &spec) {
  const auto t0 = clk::now();
  uint64_t seed = 1, cases = 0;
  int workers = 8;
  double budget = 420;
  bool thorough = false;
  std::string evidence, replay_dir = ".", replay, level = "exploration";
  if (const char *e = getenv("VERIF_SEED"))
    seed = strtoull(e, nullptr, 10);
  if (const char *e = getenv("VERIF_TIER"))
    thorough = strcmp(e, "thorough") == 0;
  if (const char *e = getenv("VERIF_WORKERS"))
    workers = atoi(e);
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--thorough")
      thorough = true;
    else if (a == "--cases")
      cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--seed")
      seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--evidence")
      evidence = val();
    else if (a == "--replay-dir")
      replay_dir = val();
    else if (a == "--replay")
      replay = val();
    else if (a == "--budget")
      budget = atof(val().c_str());
  }
  if (thorough)
    budget = std::max(budget, 3000.0);
  if (cases == 0)
    cases = thorough ? spec.thorough_cases : spec.quick_cases;
  workers = std::max(1, std::min(workers, 16));

  char tmpl[] = "/tmp/pbt.XXXXXX";
  g_scratch = mkdtemp(tmpl);
  struct Cleanup {
    ~Cleanup() { rm_tree(g_scratch); }
  } cleanup;

  if (spec.setup)
    spec.setup();

  // ---- replay of a saved failure
  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string line;
    std::vector<uint32_t> ch;
    while (std::getline(in, line)) {
      if (line.compare(0, 8, "choices:") == 0) {
        std::istringstream ss(line.substr(8));
        uint32_t v;
        while (ss >> v)
          ch.push_back(v);
      }
    }
    std::string text;
    Outcome o = eval_forked(spec, [&] { return Src(ch); }, nullptr, &text, CASE_CPU_SECONDS);
    printf("%s\n---\nkind %d: %s\n", text.c_str(), int(o.kind), o.msg.c_str());
    if (is_bad(o.kind)) {
      printf("VIOLATION property=%s replay=%s\n", spec.id, replay.c_str());
      return 1;
    }
    return 0;
  }

  // ---- recorded findings
  for (const auto &k : spec.known) {
    Spec one = spec;
    auto fn = k.second;
    one.fn = [fn](Src &, Case &) { fn(); };
    Outcome o = eval_forked(one, [&] { return Src(std::vector<uint32_t>()); }, nullptr, nullptr,
                            CASE_CPU_SECONDS);
    if (!is_bad(o.kind))
      continue;
    bool listed = false;
    const std::string want = std::string("known: property=") + spec.id + " " + k.first;
    FILE *f = fopen("KNOWN_FINDINGS.txt", "r");
    if (!f)
      f = fopen("../KNOWN_FINDINGS.txt", "r");
    if (f) {
      char buf[4096];
      while (fgets(buf, sizeof(buf), f)) {
        std::string l = buf;
        while (!l.empty() && (l.back() == '\n' || l.back() == '\r'))
          l.pop_back();
        listed = listed || l == want;
      }
      fclose(f);
    }
    printf("%s: property=%s %s (%s)\n", listed ? "KNOWN-FINDING" : "unlisted finding", spec.id,
           k.first.c_str(), o.msg.c_str());
    if (!listed) {
      printf("VIOLATION property=%s replay=%s\n", spec.id, "KNOWN_FINDINGS.txt");
      return 1;
    }
  }

  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof(Shared));

  std::vector<pid_t> pids(workers, -1);
  std::vector<int> gen(workers, 0);
  std::vector<uint64_t> started(workers, 0);

  auto spawn = [&](int w, uint64_t from) {
    fflush(stdout);
    fflush(stderr);
    const int g = gen[w]++;
    started[w] = from;
    const pid_t pid = fork();
    if (pid != 0) {
      pids[w] = pid;
      return;
    }
    child_init();
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    if (!getenv("PBT_STDERR"))
      dup2(dn, 2);
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    uint64_t evals = 0, nontriv = 0, discards = 0;
    auto flush_stats = [&]() {
      FILE *f = fopen(fmt("%s/stat.%d.%d", g_scratch.c_str(), w, g).c_str(), "wb");
      if (!f)
        return;
      uint64_t hdr[5] = {evals, nontriv, discards, distinct.size(), samples.size()};
      fwrite(hdr, sizeof(hdr), 1, f);
      for (uint64_t h : distinct)
        fwrite(&h, 8, 1, f);
      for (auto &s : samples) {
        uint64_t n = s.size();
        fwrite(&n, 8, 1, f);
        fwrite(s.data(), 1, n, f);
      }
      for (auto &l : labels) {
        uint64_t n = l.first.size();
        fwrite(&n, 8, 1, f);
        fwrite(l.first.data(), 1, n, f);
        fwrite(&l.second, 8, 1, f);
      }
      fclose(f);
    };
    for (uint64_t idx = from; idx < cases && !sh->stop; idx += workers) {
      sh->cur[w] = idx;
      arm(CASE_CPU_SECONDS);
      Src src(case_seed(seed, spec.id, idx));
      Case c;
      std::string msg;
      const Kind k = run_case(spec, src, c, msg);
      ++evals;
      sh->done[w] = sh->done[w] + 1;
      for (auto &l : c.labels)
        ++labels[l];
      if (k == k_discard)
        ++discards;
      if (k == k_fail) {
        sh->fail_idx[w] = idx;
        strncpy(sh->msg[w], msg.c_str(), sizeof(sh->msg[w]) - 1);
        sh->failed[w] = 1;
        flush_stats();
        _exit(3);
      }
      if (k == k_ok && c.nontrivial) {
        ++nontriv;
        distinct.insert(hash_str(c.text));
        if (samples.size() < 2 && c.text.size() > 20 && c.text.size() < 2500)
          samples.push_back(c.text);
      }
    }
    flush_stats();
    _exit(0);
  };

  for (int w = 0; w < workers; ++w)
    spawn(w, uint64_t(w));

  // ---- watch the workers
  std::vector<uint64_t> suspects;
  int live = workers;
  bool out_of_time = false;
  int flaky = 0;
  bool violated = false;
  std::string vmsg, vpath;

  auto kill_all = [&]() {
    for (int w = 0; w < workers; ++w)
      if (pids[w] > 0) {
        kill(pids[w], SIGKILL);
        waitpid(pids[w], nullptr, 0);
        pids[w] = -1;
      }
    live = 0;
  };

  while (live > 0 && !violated) {
    bool any = false;
    for (int w = 0; w < workers && !violated; ++w) {
      if (pids[w] <= 0)
        continue;
      int st = 0;
      if (waitpid(pids[w], &st, WNOHANG) != pids[w])
        continue;
      any = true;
      pids[w] = -1;
      --live;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        continue;
      const uint64_t idx = sh->cur[w];
      // confirm: the same case must fail again, on its own, three times
      std::vector<uint32_t> ch;
      std::string text;
      Outcome o;
      int bad = 0, tries = 0;
      for (; tries < 5 && bad < 3; ++tries) {
        o = eval_forked(spec, [&] { return Src(case_seed(seed, spec.id, idx)); }, &ch, &text,
                        CASE_CPU_SECONDS);
        if (is_bad(o.kind))
          ++bad;
        else if (tries - bad >= 2)
          break;
        if (o.kind == k_hang && bad >= 2)
          break;
      }
      const bool confirmed = bad >= 3 || (o.kind == k_hang && bad >= 2);
      // not on its own: perhaps an earlier case in the same process is needed
      uint64_t hist = 0;
      if (!confirmed) {
        auto with_history = [&](uint64_t back) {
          Spec one = spec;
          const uint64_t step = uint64_t(workers);
          const uint64_t avail = (idx - started[w]) / step;
          const uint64_t n = std::min(back, avail);
          one.fn = [&, n, step](Src &src, Case &c) {
            for (uint64_t k = n; k > 0; --k) {
              arm(CASE_CPU_SECONDS);
              Src ps(case_seed(seed, spec.id, idx - k * step));
              Case pc;
              std::string pm;
              if (run_case(spec, ps, pc, pm) == k_fail)
                return; // fails earlier: not the history we are after
            }
            arm(CASE_CPU_SECONDS);
            spec.fn(src, c);
          };
          int nb = 0;
          for (int q = 0; q < 3; ++q) {
            Outcome r = eval_forked(one, [&] { return Src(case_seed(seed, spec.id, idx)); }, &ch,
                                    &text, CASE_CPU_SECONDS);
            if (!is_bad(r.kind))
              return false;
            o = r;
            ++nb;
          }
          return nb == 3;
        };
        for (uint64_t back : {1ull, 3ull, 10ull, 40ull, 200ull, 1000ull, 4000ull})
          if (with_history(back)) {
            hist = back;
            break;
          }
      }
      if (!confirmed && !hist) {
        ++flaky;
        fprintf(stderr, "note: case %llu failed in a worker but not on replay (%d/%d)\n",
                (unsigned long long)idx, bad, tries);
        spawn(w, idx + workers);
        ++live;
        continue;
      }
      violated = true;
      kill_all();
      // ---- shrink
      vmsg = o.msg;
      const Kind kind = o.kind;
      auto bad_again = [&](const std::vector<uint32_t> &c2, std::string *tx, std::string *m) {
        std::vector<uint32_t> used;
        Outcome r = eval_forked(spec, [&] { return Src(c2); }, nullptr, tx, CASE_CPU_SECONDS);
        (void)used;
        // stay with the same sort of failure
        const bool same = is_bad(r.kind) && (r.kind == kind);
        if (same && m)
          *m = r.msg;
        return same;
      };
      std::vector<uint32_t> best = ch;
      bool have = !hist && !best.empty() && bad_again(best, nullptr, nullptr);
      if (have) {
        const auto ts = clk::now();
        int evals = 0;
        auto time_left = [&]() {
          return evals < 4000 &&
                 std::chrono::duration<double>(clk::now() - ts).count() < 60.0;
        };
        auto attempt = [&](const std::vector<uint32_t> &c2) {
          ++evals;
          if (bad_again(c2, nullptr, nullptr)) {
            best = c2;
            return true;
          }
          return false;
        };
        bool progress = true;
        while (progress && time_left()) {
          progress = false;
          for (size_t sz = std::max<size_t>(best.size() / 2, 1); sz >= 1 && time_left(); sz /= 2) {
            for (size_t at = 0; at < best.size() && time_left();) {
              std::vector<uint32_t> c2 = best;
              c2.erase(c2.begin() + at, c2.begin() + std::min(at + sz, c2.size()));
              if (attempt(c2))
                progress = true;
              else
                at += sz;
            }
            if (sz == 1)
              break;
          }
          for (size_t at = 0; at < best.size() && time_left(); ++at) {
            if (!best[at])
              continue;
            std::vector<uint32_t> c2 = best;
            c2[at] = 0;
            if (attempt(c2)) {
              progress = true;
              continue;
            }
            c2[at] = best[at] / 2;
            if (best[at] > 1 && attempt(c2)) {
              progress = true;
              continue;
            }
          }
          if (progress && evals > 1500)
            break;
        }
        std::string tx;
        bad_again(best, &tx, &vmsg);
        if (!tx.empty())
          text = tx;
      }
      mkdir(replay_dir.c_str(), 0755);
      vpath = fmt("%s/%s-%llu-%llu.txt", replay_dir.c_str(), spec.id, (unsigned long long)seed,
                  (unsigned long long)idx);
      std::ofstream of(vpath);
      of << "property: " << spec.id << "\nseed: " << seed << " case: " << idx << "\n";
      of << "failure: " << vmsg << "\n";
      if (hist)
        of << "history: needs up to " << hist << " earlier cases of the same process (step "
           << workers << "), rerun the check with this seed\n";
      of << "choices:";
      for (uint32_t c : best)
        of << ' ' << c;
      of << "\n---- case ----\n" << text << "\n";
      of.close();
    }
    if (!violated && !any) {
      if (std::chrono::duration<double>(clk::now() - t0).count() > budget) {
        // let the workers write their statistics
        out_of_time = true;
        sh->stop = 1;
        if (std::chrono::duration<double>(clk::now() - t0).count() > budget + 60) {
          kill_all();
          break;
        }
      }
      usleep(3000);
    }
  }
  kill_all();

  // ---- merge statistics
  uint64_t evals = 0, nontriv = 0, discards = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  for (int w = 0; w < workers; ++w)
    for (int g = 0; g < gen[w]; ++g) {
      FILE *f = fopen(fmt("%s/stat.%d.%d", g_scratch.c_str(), w, g).c_str(), "rb");
      if (!f)
        continue;
      uint64_t hdr[5];
      if (fread(hdr, sizeof(hdr), 1, f) == 1) {
        evals += hdr[0];
        nontriv += hdr[1];
        discards += hdr[2];
        uint64_t h;
        for (uint64_t i = 0; i < hdr[3] && fread(&h, 8, 1, f) == 1; ++i)
          distinct.insert(h);
        for (uint64_t i = 0; i < hdr[4]; ++i) {
          uint64_t n;
          if (fread(&n, 8, 1, f) != 1)
            break;
          std::string s(n, 0);
          if (n && fread(&s[0], 1, n, f) != n)
            break;
          samples.push_back(s);
        }
        uint64_t n;
        while (fread(&n, 8, 1, f) == 1) {
          std::string s(n, 0);
          if (n && fread(&s[0], 1, n, f) != n)
            break;
          uint64_t v;
          if (fread(&v, 8, 1, f) != 1)
            break;
          labels[s] += v;
        }
      }
      fclose(f);
    }
  if (evals == 0)
    for (int w = 0; w < workers; ++w)
      evals += sh->done[w];
  const double wall = std::chrono::duration<double>(clk::now() - t0).count();

  if (!evidence.empty()) {
    std::ofstream of(evidence);
    of << "{\n  \"property\": " << json_str(spec.id) << ",\n  \"tier\": \""
       << (thorough ? "thorough" : "quick") << "\",\n  \"seed\": " << seed
       << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n    \"evaluations\": " << evals
       << ",\n    \"distinct_nontrivial\": " << distinct.size()
       << ",\n    \"nontrivial\": " << nontriv << ",\n    \"discarded\": " << discards
       << ",\n    \"rule\": " << json_str(spec.rule) << ",\n    \"classes\": {";
    bool first = true;
    for (auto &l : labels) {
      of << (first ? "" : ", ") << json_str(l.first) << ": " << l.second;
      first = false;
    }
    of << "},\n    \"samples\": [";
    size_t n = 0;
    std::string bad_text;
    for (auto &s : samples) {
      if (n >= 4)
        break;
      of << (n ? ",\n      " : "\n      ") << json_str(s);
      ++n;
    }
    of << "\n    ],\n    \"flaky_unconfirmed\": " << flaky
       << ",\n    \"stopped_by_time_budget\": " << (out_of_time ? "true" : "false")
       << "\n  },\n  \"assumptions\": [";
    first = true;
    for (auto &a : spec.assumptions) {
      of << (first ? "" : ", ") << json_str(a);
      first = false;
    }
    of << "],\n  \"wall_s\": " << fmt("%.2f", wall) << ",\n  \"violations\": "
       << (violated ? 1 : 0) << "\n}\n";
  }
  printf("%s: %llu cases, %zu distinct non-trivial, %llu discarded, %.1f s%s\n", spec.id,
         (unsigned long long)evals, distinct.size(), (unsigned long long)discards, wall,
         out_of_time ? " (time budget reached)" : "");
  if (violated) {
    printf("failure: %s\n", vmsg.c_str());
    printf("VIOLATION property=%s replay=%s\n", spec.id, vpath.c_str());
    return 1;
  }
  return 0;
}

} // namespace pbt
