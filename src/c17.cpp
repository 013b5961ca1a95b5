// C17: what a drawing program shows through the SDL driver is what it drew: each
// frame, pixel by pixel, clipped to the screen, on screens of every size.
#include "api.h"
#include "sdlstub/SDL.h"
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
using namespace lang;

int sdl_driver_main(int argc, char **argv);

// ---- what the stand-in for SDL records and decides, shared with the parent
struct Shared {
  uint32_t quit_after_frames, fail_windows, fail_surfaces, keys, tick_step; // decisions
  uint32_t windows, frames, polls, idle, used, patience;
  struct Frame {
    uint32_t w, h, time, at;
  } frame[256];
  uint32_t data[1 << 22];
};
static Shared *sh;
struct SDL_Window {
  SDL_Surface *surf;
  uint32_t index;
};
static uint32_t g_now = 1, g_quiet = 0;

extern "C" {
int SDL_Init(uint32_t) { return 0; }
void SDL_Quit(void) {}
SDL_Window *SDL_CreateWindow(const char *, int, int, int w, int h, uint32_t) {
  const uint32_t i = sh->windows++;
  if (i < 32 && (sh->fail_windows >> i) & 1)
    return nullptr;
  SDL_Window *r = new SDL_Window;
  r->index = i;
  r->surf = new SDL_Surface();
  r->surf->w = w;
  r->surf->h = h;
  r->surf->pitch = w * 4;
  static SDL_PixelFormat fmt32 = {0, 32, 4};
  r->surf->format = &fmt32;
  r->surf->pixels = new uint32_t[size_t(w) * size_t(h)];
  memset(r->surf->pixels, 0xAB, size_t(w) * size_t(h) * 4);
  return r;
}
void SDL_DestroyWindow(SDL_Window *w) {
  if (w) {
    delete[](uint32_t *) w->surf->pixels;
    delete w->surf;
    delete w;
  }
}
SDL_Surface *SDL_GetWindowSurface(SDL_Window *w) {
  if (!w || (w->index < 32 && (sh->fail_surfaces >> w->index) & 1))
    return nullptr;
  return w->surf;
}
int SDL_UpdateWindowSurface(SDL_Window *w) {
  if (!w)
    return -1;
  const uint32_t i = sh->frames++;
  g_quiet = 0;
  const uint32_t n = uint32_t(w->surf->w) * uint32_t(w->surf->h);
  if (i < 256 && sh->used + n <= (1u << 22)) {
    sh->frame[i] = {uint32_t(w->surf->w), uint32_t(w->surf->h), g_now, sh->used};
    memcpy(sh->data + sh->used, w->surf->pixels, size_t(n) * 4);
    sh->used += n;
  } else if (i < 256)
    sh->frame[i] = {0, 0, g_now, 0};
  return 0;
}
int SDL_LockSurface(SDL_Surface *) { return 0; }
void SDL_UnlockSurface(SDL_Surface *) {}
uint32_t SDL_GetTicks(void) {
  static uint32_t calls = 0;
  if (++calls % 4 == 0)
    g_now += sh->tick_step;
  return g_now;
}
void SDL_Delay(uint32_t ms) { g_now += ms; }
int SDL_PollEvent(SDL_Event *e) {
  ++sh->polls;
  ++g_quiet;
  // the program is over some time after its last frame
  if ((sh->frames >= sh->quit_after_frames && g_quiet > sh->patience) || g_quiet > 20000) {
    if (sh->frames < sh->quit_after_frames)
      sh->idle = 1;
    e->type = SDL_QUIT;
    return 1;
  }
  return 0;
}
void SDL_PumpEvents(void) {}
const uint8_t *SDL_GetKeyboardState(int *n) {
  static uint8_t k[512];
  static const int codes[] = {SDL_SCANCODE_UP, SDL_SCANCODE_DOWN, SDL_SCANCODE_LEFT, SDL_SCANCODE_RIGHT,
                              SDL_SCANCODE_ESCAPE, SDL_SCANCODE_SPACE};
  for (int i = 0; i < 6; ++i)
    k[codes[i]] = (sh->keys >> i) & 1;
  if (n)
    *n = 512;
  return k;
}
const char *SDL_GetError(void) { return ""; }
void SDL_SetWindowTitle(SDL_Window *, const char *) {}
}

// ---- the picture a program should show
struct Canvas {
  int w = 0, h = 0;
  bool screen = false;
  uint32_t rgb = 0xffffff, seed = 12345;
  int windows = 0;
  std::vector<uint32_t> px;
  struct Shot {
    int w, h;
    std::vector<uint32_t> px;
    long slept; // total time slept before it
  };
  std::vector<Shot> shots;
  long slept = 0;
  size_t drawn = 0, clipped = 0;

  void dot(long x, long y) {
    if (!screen)
      return;
    if (x < 0 || y < 0 || x >= w || y >= h) {
      ++clipped;
      return;
    }
    px[size_t(y * w + x)] = rgb;
    ++drawn;
  }
  // x0 inclusive, x1 exclusive
  void row(long x0, long x1, long y) {
    for (long x = std::max(x0, -2L); x < std::min(x1, long(w) + 2); ++x)
      dot(x, y);
  }
  void circle(long cx, long cy, long r) {
    // midpoint circle, filled with rows
    long x = 0, y = r, p = 1 - r;
    row(cx - y, cx + y, cy);
    for (;;) {
      const bool more = x <= y;
      ++x;
      if (!more)
        break;
      if (p < 0)
        p += 2 * x + 1;
      else {
        p += 2 * (x - y) + 1;
        --y;
      }
      row(cx - x, cx + x, cy + y);
      row(cx - x, cx + x, cy - y);
      row(cx - y, cx + y, cy + x);
      row(cx - y, cx + y, cy - x);
    }
  }
  static long floor_div(long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
  void line(long x0, long y0, long x1, long y1) {
    const long dx = x1 - x0, dy = y1 - y0;
    const bool steep = labs(dy) > labs(dx);
    const long len = labs(steep ? dy : dx), minor = steep ? dx : dy;
    const long sign = (steep ? dy : dx) < 0 ? -1 : 1;
    // one dot per step of the longer side, the end left out; slope in 1/65536
    const long slope = len ? (minor * 65536) / len : 0;
    for (long i = 0; i < len; ++i) {
      const long m = floor_div(i * slope, 65536);
      if (steep)
        dot(x0 + m, y0 + i * sign);
      else
        dot(x0 + i * sign, y0 + m);
    }
  }
};

static bool num(const ref::Val &v) { return v.t == ref::Val::Int || v.t == ref::Val::Flt; }
static long ival(const ref::Val &v) { return v.t == ref::Val::Int ? v.i : long(int32_t(v.f)); }

// ---- generation
struct G {
  Src &s;
  int w = 16, h = 12; // last size asked for
  std::vector<std::string> counters;
  EP odd() {
    switch (s.below(3)) {
    case 0: return mk_none();
    case 1: return mk_str("up");
    default: return mk_arr({mk_int(1)});
    }
  }
  EP lit(long v) { return v < 0 ? mk_neg(mk_int(int32_t(-v))) : mk_int(int32_t(v)); }
  EP coord(int size) {
    EP e;
    switch (s.weighted({8, 3, 2, 1, 2})) {
    case 0: e = lit(s.range(0, size - 1)); break;
    case 1: e = lit(s.range(-6, size + 6)); break;
    case 2: {
      static const int edge[] = {0, -1, 1};
      e = lit((s.chance(1, 2) ? size : 0) + edge[s.below(3)]);
      break;
    }
    case 3: e = lit(s.range(-16000, 16000)); break;
    default:
      e = mk_bin(MOD, mk_callf("rand", {}), mk_int(size + 2));
    }
    if (!counters.empty() && s.chance(1, 3))
      e = mk_bin(s.chance(1, 2) ? ADD : SUB, e, mk_var(s.pick(counters)));
    return e;
  }
  EP c_any(int size) { // coordinate of any type
    if (s.chance(1, 12))
      return odd();
    if (s.chance(1, 8))
      return s.chance(1, 3) ? mk_neg(mk_flt(int(s.below(60)))) : mk_flt(int(s.below(uint32_t(size * 8 + 40))));
    return coord(size);
  }
  EP size_arg(int &out) {
    if (s.chance(1, 10)) {
      switch (s.below(5)) {
      case 0: return mk_int(0);
      case 1: return lit(-int(s.below(5)) - 1);
      case 2: return mk_int(4097);
      case 3: return mk_flt(int(s.below(200)));
      default: return odd();
      }
    }
    out = s.chance(1, 40) ? 4096 - int(s.below(2)) : 1 + int(s.below(40));
    return mk_int(out);
  }
  SP video() {
    int nw = w, nh = h;
    EP a = size_arg(nw), b = size_arg(nh);
    if (nw > 100 && nh > 100) {
      nh = 2;
      b = mk_int(2);
    }
    w = nw;
    h = nh;
    EP call = mk_callf("video", {a, b});
    if (s.chance(1, 4)) {
      // the result, shown
      auto st = std::make_shared<Stmt>(Stmt::Assign);
      st->name = "seen";
      st->e = call;
      return st;
    }
    return st_call("video", {a, b});
  }
  void stmts(Block &b, int n, int depth) {
    static const char *const keys[] = {"up", "down", "left", "right", "escape", "space", "Up", "", "enter"};
    for (int i = 0; i < n; ++i) {
      switch (s.weighted({6, 6, 5, 3, 2, 4, 2, 2, 1, 2, 2})) {
      case 0: b.push_back(st_call("plot", {c_any(w), c_any(h)})); break;
      case 1: b.push_back(st_call("line", {c_any(w), c_any(h), c_any(w), c_any(h)})); break;
      case 2: {
        EP r = s.chance(1, 10) ? lit(s.range(-4, 300)) : c_any(12);
        b.push_back(st_call("circle", {c_any(w), c_any(h), r}));
        break;
      }
      case 3: {
        static const int special[] = {0, 0, 0, 255, 256, 128, 1, 127};
        auto col = [&] { return s.chance(1, 12) ? odd() : s.chance(1, 8) ? mk_flt(int(s.below(2400))) : s.chance(2, 5) ? mk_int(special[s.below(8)]) : lit(s.range(-3, 600)); };
        b.push_back(st_call("setrgb", {col(), col(), col()}));
        break;
      }
      case 4:
        b.push_back(st_call("cls", {}));
        if (s.chance(1, 2))
          b.push_back(st_call("flip", {}));
        break;
      case 5: b.push_back(st_call("flip", {})); break;
      case 6: b.push_back(st_call("sleep", {s.chance(1, 10) ? odd() : s.chance(1, 6) ? mk_flt(int(s.below(80))) : lit(s.range(-2, 30))})); break;
      case 7: { // something depends on a key
        auto st = std::make_shared<Stmt>(Stmt::If);
        st->e = mk_callf("keydown", {s.chance(1, 10) ? lit(3) : mk_str(keys[s.below(9)])});
        stmts(st->body, 1, depth + 1);
        if (s.chance(1, 2)) {
          st->has_else = true;
          stmts(st->other, 1, depth + 1);
        }
        b.push_back(st);
        break;
      }
      case 8: b.push_back(video()); break;
      case 9: { // a loop
        if (depth >= 2)
          break;
        const std::string v = fmt("i%d", depth);
        auto st = std::make_shared<Stmt>(Stmt::For);
        st->name = v;
        st->e = mk_int(0);
        st->e2 = mk_int(1 + int(s.below(9)));
        counters.push_back(v);
        stmts(st->body, 1 + int(s.below(3)), depth + 1);
        counters.pop_back();
        b.push_back(st);
        break;
      }
      default: { // show a result of the functions themselves
        static const char *const fs[] = {"cls", "flip"};
        switch (s.below(3)) {
        case 0: b.push_back(st_call("plot", {mk_var("seen"), coord(h)})); break;
        case 1: b.push_back(st_call("plot", {mk_callf(fs[s.below(2)], {}), mk_int(1)})); break;
        default: b.push_back(st_call("plot", {mk_callf("keydown", {mk_str(keys[s.below(9)])}), coord(h)})); break;
        }
      }
      }
    }
  }
};

struct Started {};

static void prop(Src &s, Case &c) {
  if (!sh) {
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED)
      throw Discard{"memory"};
  }
  G g{s};
  Prog p;
  Func f;
  f.name = "main";
  f.body.push_back(st_decl("i0", mk_int(0)));
  f.body.push_back(st_decl("i1", mk_int(0)));
  f.body.push_back(st_decl("seen", mk_int(0)));
  // parts of it may lie in a function, in another file, or run before main
  const bool early = s.chance(1, 12);
  if (early) {
    Global gl;
    gl.name = "zz_early";
    SP v = g.video();
    gl.init = v->k == Stmt::Assign ? v->e : mk_callf("video", {mk_int(g.w), mk_int(g.h)});
    p.globals.push_back(gl);
    p.items.push_back(Item{0, 0});
  } else if (!s.chance(1, 10))
    f.body.push_back(g.video());
  g.stmts(f.body, 4 + int(s.below(16)), 0);
  const bool parts = s.chance(1, 5), split = parts && s.chance(1, 2);
  if (parts) {
    Func x;
    x.name = "zz_part";
    x.args = {"seen", "zz_x"};
    x.body.push_back(st_decl("i0", mk_int(0)));
    x.body.push_back(st_decl("i1", mk_int(0)));
    g.counters.push_back("zz_x");
    g.stmts(x.body, 2 + int(s.below(6)), 0);
    g.counters.pop_back();
    x.body.push_back(st_return(mk_bin(ADD, mk_var("zz_x"), mk_int(1))));
    x.file = split ? 1 : 0;
    p.funcs.push_back(x);
    for (int n = 1 + int(s.below(3)); n > 0; --n)
      f.body.insert(f.body.begin() + 3 + long(s.below(uint32_t(f.body.size() - 2))),
                    st_assign("seen", mk_callf("zz_part", {mk_callf("rand", {}), mk_int(int(s.below(12)))})));
    c.label(split ? "two files" : "functions");
  }
  if (s.chance(3, 4))
    f.body.push_back(st_call("flip", {}));
  const bool fails = s.chance(1, 20);
  if (fails)
    f.body.push_back(st_call("plot", {mk_bin(SUB, mk_str("a"), mk_int(1)), mk_int(0)}));
  // a thread that ends, or fails, while main goes on without drawing
  const int beside = !fails && s.chance(1, 8) ? 1 + int(s.below(2)) : 0;
  if (beside) {
    Func x;
    x.name = "zz_beside";
    x.args = {"zz_n"};
    x.body.push_back(st_call("wait", {mk_var("zz_n")}));
    if (beside == 2)
      x.body.push_back(st_call("sleep", {mk_bin(DIV, mk_int(1), mk_bin(SUB, mk_var("zz_n"), mk_var("zz_n")))}));
    p.funcs.push_back(x);
    f.body.push_back(st_call("new_thread", {mk_var("zz_beside"), mk_int(int(s.below(5)))}));
    auto w = std::make_shared<Stmt>(Stmt::While);
    w->e = mk_int(1);
    w->body.push_back(st_call("wait", {mk_int(1)}));
    if (s.chance(2, 3))
      f.body.push_back(w);
    c.label(beside == 2 ? "a thread fails beside main" : "a thread ends beside main");
  }
  p.funcs.push_back(f);
  for (size_t i = 0; i < p.funcs.size(); ++i)
    p.items.push_back(Item{1, int(i)});
  Style st;
  const std::string text = print(p, st), more = split ? print(p, st, 1) : "";
  const uint32_t keys = s.below(64);
  const uint32_t fail_w = s.chance(1, 8) ? s.below(8) : 0, fail_s = s.chance(1, 12) ? s.below(8) : 0;
  c.show(fmt("# keys %u, windows that fail %u, surfaces that fail %u\n", keys, fail_w, fail_s) + text + (split ? "# ---- second file\n" + more : ""));

  // ---- the model
  Canvas v;
  ref::Interp m(p);
  m.fuel = 20000;
  m.host_arity = {{"cls", 0}, {"rand", 0}, {"video", 2}, {"plot", 2}, {"flip", 0}, {"setrgb", 3},
                  {"circle", 3}, {"line", 4}, {"sleep", 1}, {"keydown", 1}};
  m.host = [&](const std::string &n, std::vector<ref::Val> &a, ref::Val &r) {
    r = ref::Val();
    if (n == "cls")
      std::fill(v.px.begin(), v.px.end(), 0);
    else if (n == "rand") {
      v.seed ^= v.seed << 13;
      v.seed ^= v.seed >> 17;
      v.seed ^= v.seed << 5;
      r = ref::v_int(int32_t(v.seed & 0x7fffff));
    } else if (n == "video") {
      r = ref::v_int(0);
      if (a[0].t == ref::Val::Int && a[1].t == ref::Val::Int && a[0].i > 0 && a[1].i > 0 &&
          a[0].i <= 4096 && a[1].i <= 4096) {
        v.w = a[0].i;
        v.h = a[1].i;
        v.px.assign(size_t(v.w) * size_t(v.h), 0);
        const int i = v.windows++;
        v.screen = i >= 32 || !(((fail_w | fail_s) >> i) & 1);
        r = ref::v_int(v.screen ? 1 : 0);
      }
    } else if (n == "plot") {
      if (num(a[0]) && num(a[1]))
        v.dot(ival(a[0]), ival(a[1]));
    } else if (n == "line") {
      bool ints = true;
      for (auto &x : a)
        ints = ints && x.t == ref::Val::Int;
      if (ints)
        v.line(a[0].i, a[1].i, a[2].i, a[3].i);
    } else if (n == "circle") {
      if (num(a[0]) && num(a[1]) && num(a[2]))
        v.circle(ival(a[0]), ival(a[1]), ival(a[2]));
    } else if (n == "setrgb") {
      if (num(a[0]) && num(a[1]) && num(a[2]))
        v.rgb = uint32_t((ival(a[0]) & 255) * 65536 + (ival(a[1]) & 255) * 256 + (ival(a[2]) & 255));
    } else if (n == "flip") {
      if (v.screen) {
        if (v.shots.size() >= 200 || v.shots.size() * size_t(v.w) * size_t(v.h) * 9 > (1u << 21))
          throw ref::Limit{"frames"};
        v.shots.push_back({v.w, v.h, v.px, v.slept});
      }
    } else if (n == "sleep") {
      if (num(a[0]))
        v.slept += std::max(0L, ival(a[0]));
    } else if (n == "keydown") {
      static const char *const names[] = {"up", "down", "left", "right", "escape", "space"};
      if (a[0].t == ref::Val::Str)
        for (int i = 0; i < 6; ++i)
          if (*a[0].s == names[i])
            r = ref::v_int((keys >> i) & 1);
    }
    return true;
  };
  bool error = false;
  try {
    // the thread beside and what main does after it draw nothing
    m.spawn = [&](const Func *, const std::vector<ref::Val> &) { throw Started{}; };
    m.run_init();
    m.call(p.find_func("main"), {});
  } catch (const Started &) {
    error = beside == 2;
  } catch (const ref::RtErr &) {
    error = true;
  } catch (const ref::Limit &l) {
    throw Discard{l.why};
  }
  size_t total = 0;
  for (auto &x : v.shots)
    total += size_t(x.w) * size_t(x.h) * 9;
  if (total > (1u << 22) - 1000000)
    throw Discard{"frames"};

  // ---- the driver, in a process of its own
  const std::string file = scratch() + fmt("/c17.%d.ccml", int(getpid())), out = file + ".out";
  if (FILE *fd = fopen(file.c_str(), "wb")) {
    fwrite(text.data(), 1, text.size(), fd);
    fclose(fd);
  }
  const std::string file2 = file + "2";
  if (FILE *fd = split ? fopen(file2.c_str(), "wb") : nullptr) {
    fwrite(more.data(), 1, more.size(), fd);
    fclose(fd);
  }
  sh->windows = sh->frames = sh->polls = sh->idle = sh->used = 0;
  sh->quit_after_frames = uint32_t(v.shots.size());
  sh->patience = uint32_t(600 + 2 * v.slept + long(m.steps / 10));
  if (sh->patience > 15000)
    throw Discard{"long sleeps"};
  sh->fail_windows = fail_w;
  sh->fail_surfaces = fail_s;
  sh->keys = keys;
  sh->tick_step = 1;
  const pid_t pid = fork();
  if (pid == 0) {
    const int o = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(o, 1);
    struct rlimit rl = {20, 20};
    setrlimit(RLIMIT_CPU, &rl);
    char *av[] = {const_cast<char *>("nano_sdl"), const_cast<char *>(file.c_str()),
                  split ? const_cast<char *>(file2.c_str()) : nullptr, nullptr};
    const int rc = sdl_driver_main(split ? 3 : 2, av);
    fflush(stdout);
    _exit(rc);
  }
  int stt = 0;
  waitpid(pid, &stt, 0);
  std::string said;
  if (FILE *fd = fopen(out.c_str(), "rb")) {
    char buf[200];
    said.assign(buf, fread(buf, 1, sizeof(buf), fd));
    fclose(fd);
  }
  unlink(file.c_str());
  unlink(file2.c_str());
  unlink(out.c_str());
  if (!WIFEXITED(stt))
    fail("the driver died with signal %d", WTERMSIG(stt));
  if (WEXITSTATUS(stt) != (error ? 1 : 0))
    fail("the driver's exit status is %d, expected %d", WEXITSTATUS(stt), error ? 1 : 0);
  if (!error && said != "exit: 0\n")
    fail("the driver says '%s'", said.c_str());
  if (sh->frames != v.shots.size())
    fail("%u frames are shown, expected %zu", sh->frames, v.shots.size());
  uint32_t t0 = 0;
  long s0 = 0;
  for (size_t i = 0; i < v.shots.size(); ++i) {
    const auto &fr = sh->frame[i];
    const auto &x = v.shots[i];
    if (int(fr.w) != 3 * x.w || int(fr.h) != 3 * x.h)
      fail("frame %zu is shown in a window of %u by %u for a screen of %d by %d", i, fr.w, fr.h, x.w, x.h);
    const uint32_t *d = sh->data + fr.at;
    for (int y = 0; y < 3 * x.h; ++y)
      for (int xx = 0; xx < 3 * x.w; ++xx) {
        const uint32_t got = d[size_t(y) * fr.w + size_t(xx)], want = x.px[size_t(y / 3 * x.w + xx / 3)];
        if ((got & 0xffffff) != (want & 0xffffff))
          fail("frame %zu: the dot at %d, %d is %06x, expected %06x", i, xx / 3, y / 3, got, want);
      }
    if (i > 0 && long(fr.time - t0) < x.slept - s0)
      fail("frame %zu comes %u ms after the one before, with %ld ms slept between", i, fr.time - t0, x.slept - s0);
    t0 = fr.time;
    s0 = x.slept;
  }
  c.nontrivial = v.drawn >= 3 && !v.shots.empty();
  if (v.clipped) c.label("clipped");
  if (v.windows > 1) c.label("several screens");
  if (fail_w | fail_s) c.label("screens that fail");
  if (error) c.label("run time error");
  if (v.slept) c.label("sleeps");
}

int main(int argc, char **argv) {
  Spec sp;
  sp.id = "C17";
  sp.rule = "Each case is a generated drawing program (screens of many sizes, dots, lines, circles, "
            "colours, clears, flips, sleeps, keys, random numbers, loops, functions, a second file, threads that end or fail beside main, arguments of wrong types) run "
            "by the SDL driver against a stand-in for SDL that records every frame, with windows and "
            "surfaces that may fail; frames, exit status and time slept must be those of a model "
            "canvas. Non-trivial: at least three dots drawn and one frame shown.";
  sp.quick_cases = 20000;
  sp.thorough_cases = 200000;
  sp.fn = prop;
  sp.assumptions = {"coordinates within 16383 of the origin, radii up to 300",
                    "window surfaces are 32 bits deep without padding between rows"};
  return run(argc, argv, sp);
}
