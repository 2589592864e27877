// Simulator: sim batch|gen|exec ...
#include <csignal>
#include <dlfcn.h>
#include <link.h>
#include <ucontext.h>
#include <fstream>
#include <iostream>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

#include "profiles.hpp"
#include "link.hpp"
#include "tuples.hpp"

AllocCtl g_alloc;
IsrCtl g_isr;
const std::vector<Pool> g_pools = make_pools();
std::vector<LoadedFw> g_fws;
std::vector<LoadedTw> g_tws;

const LoadedFw *find_fw(const std::string &key) {
  for (auto &f : g_fws)
    if (f.key == key)
      return &f;
  return nullptr;
}

// ------------------------------------------------------------------------------------------ allocator seam
namespace {
enum { TRACK = 1 << 14 };
void *track_tab[TRACK];
void track_add(void *p) {
  std::size_t h = mix64(reinterpret_cast<u64>(p)) % TRACK;
  for (std::size_t i = 0; i < TRACK; i++) {
    void *&e = track_tab[(h + i) % TRACK];
    if (!e || e == reinterpret_cast<void *>(1)) {
      e = p;
      g_alloc.live++;
      return;
    }
  }
}
void track_del(void *p) {
  std::size_t h = mix64(reinterpret_cast<u64>(p)) % TRACK;
  for (std::size_t i = 0; i < TRACK; i++) {
    void *&e = track_tab[(h + i) % TRACK];
    if (!e)
      return;
    if (e == p) {
      e = reinterpret_cast<void *>(1);
      g_alloc.live--;
      return;
    }
  }
}
void *sim_alloc(std::size_t n) {
  const bool lib = g_alloc.in_lib > 0;
  if (lib) {
    i64 k = g_alloc.count++;
    if (g_alloc.fail_all || k == g_alloc.fail_at) {
      g_alloc.failed = true;
      return nullptr;
    }
  }
  void *p = malloc(n ? n : 1);
  if (p && lib) {
    memset(p, g_alloc.poison, n);
    if (g_alloc.track)
      track_add(p);
  }
  return p;
}
void sim_free(void *p) {
  if (p && g_alloc.live)
    track_del(p);
  free(p);
}
} // namespace
void alloc_track_reset() {
  memset(track_tab, 0, sizeof track_tab);
  g_alloc.live = 0;
}
void *operator new(std::size_t n) {
  void *p = sim_alloc(n);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](std::size_t n) {
  void *p = sim_alloc(n);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n); }
void operator delete(void *p) noexcept { sim_free(p); }
void operator delete[](void *p) noexcept { sim_free(p); }
void operator delete(void *p, std::size_t) noexcept { sim_free(p); }
void operator delete[](void *p, std::size_t) noexcept { sim_free(p); }

__attribute__((noinline, no_sanitize_address)) void poison_stack(u8 pattern) {
  volatile u8 area[2048];
  for (std::size_t i = 0; i < sizeof area; i++)
    area[i] = pattern;
}

// -------------------------------------------------------------------------- interrupts of the "step" firmware flavour
// Under the trap flag of the processor, the simulator regains control after each instruction of the firmware.
__attribute__((noinline)) void step_on() { __builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() | 0x100); }
__attribute__((noinline)) void step_off() { __builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() & ~0x100ull); }
bool g_breakpoints = false;
std::map<u64, std::map<u64, u64>> *g_trace = nullptr;

// ------------------------------------------------------- instrumentation callbacks of the "isr" firmware flavour
namespace {
inline void fire() {
  g_isr.armed = false;
  g_isr.in_trap = true;
  g_isr.handler(g_isr.ctx);
  g_isr.in_trap = false;
  // the handler sets a new countdown if there is another interrupt to come
  g_isr.armed = g_isr.countdown > 0;
}
inline void access_point() {
  if (!g_isr.armed || g_isr.stepping)
    return;
  g_isr.accesses++;
  if (--g_isr.countdown <= 0)
    fire();
}
bool in_text(u64 pc) { return pc >= g_isr.text_begin && pc < g_isr.text_end; }
void aim() {
  g_isr.point = g_isr.text_begin + static_cast<u64>(g_isr.countdown) / 8, g_isr.hits = static_cast<int>(g_isr.countdown % 8);
  if (g_isr.hits == 0 || (!in_text(g_isr.point) && !g_trace))
    g_isr.armed = false;
}
void place(bool on) {
  if (on == g_isr.placed)
    return;
  u8 *p = reinterpret_cast<u8 *>(g_isr.point);
  if (on)
    g_isr.saved = *p, *p = 0xcc;
  else
    *p = g_isr.saved;
  g_isr.placed = on;
}
void on_trap(int, siginfo_t *, void *uc) {
  greg_t *regs = static_cast<ucontext_t *>(uc)->uc_mcontext.gregs;
  const u64 pc = static_cast<u64>(regs[REG_RIP]);
  const greg_t tf = 0x100;
  if (g_breakpoints) {
    if (g_isr.resuming) { // over the instruction which the breakpoint had replaced
      if (pc == g_isr.last)
        return; // repeated
      g_isr.resuming = false;
      regs[REG_EFL] &= ~tf;
      if (g_isr.armed)
        place(true);
    } else if (g_isr.placed && pc == g_isr.point + 1) {
      place(false);
      const u64 here = g_isr.point;
      regs[REG_RIP] = static_cast<greg_t>(here);
      if (!g_isr.outside && --g_isr.hits == 0) {
        fire();
        if (g_isr.armed)
          aim();
      }
      if (g_isr.armed && g_isr.point == here)
        g_isr.resuming = true, g_isr.last = here, regs[REG_EFL] |= tf;
      else if (g_isr.armed)
        place(true);
    }
    return;
  }
  if (g_isr.armed && g_isr.stepping && in_text(pc)) {
    if (g_trace) {
      (*g_trace)[g_isr.trace_key][pc - g_isr.text_begin]++;
      if (++g_isr.accesses > 4000)
        g_isr.armed = false;
    } else if (pc == g_isr.point && pc != g_isr.last && --g_isr.hits == 0) {
      fire();
      if (g_isr.armed)
        aim();
    }
  }
  g_isr.last = pc;
  if (!g_isr.armed)
    regs[REG_EFL] &= ~tf;
}
void catch_traps(const LoadedFw &f) {
  if (mprotect(reinterpret_cast<void *>(f.text_begin & ~0xfffull), ((f.text_end + 0xfff) & ~0xfffull) - (f.text_begin & ~0xfffull),
               PROT_READ | PROT_WRITE | PROT_EXEC)) {
    fprintf(stderr, "mprotect failed\n");
    exit(2);
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &sa, nullptr);
}
} // namespace
void watch_on() {
  g_isr.outside = 0;
  aim();
  if (!g_isr.armed)
    return;
  if (g_breakpoints)
    place(true);
  else
    step_on();
}
void watch_off() {
  if (g_breakpoints) {
    place(false);
    g_isr.resuming = false;
  } else
    step_off();
}
namespace {
// The instructions of a loaded firmware
void find_text(LoadedFw &f) {
  struct Search {
    u64 in, begin, end;
  } s = {reinterpret_cast<u64>(f.fw->make_caller), 0, 0};
  dl_iterate_phdr(
      [](dl_phdr_info *info, std::size_t, void *p) {
        Search &r = *static_cast<Search *>(p);
        for (int i = 0; i < info->dlpi_phnum; i++) {
          const u64 b = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr, e = b + info->dlpi_phdr[i].p_memsz;
          if (info->dlpi_phdr[i].p_type == PT_LOAD && (info->dlpi_phdr[i].p_flags & PF_X) && r.in >= b && r.in < e)
            r.begin = b, r.end = e;
        }
        return 0;
      },
      &s);
  f.text_begin = s.begin, f.text_end = s.end;
}
// What an earlier "trace" has found
void read_points(LoadedFw &f, const std::string &path) {
  std::ifstream in(path);
  for (std::string line; std::getline(in, line);) {
    std::istringstream ls(line);
    u64 key, v;
    if (ls >> key)
      while (ls >> v)
        f.points[key].push_back(v);
  }
}
} // namespace
#define ACCESS(NAME)                                                                                                   \
  extern "C" void __tsan_##NAME(void *) { access_point(); }
ACCESS(read1) ACCESS(read2) ACCESS(read4) ACCESS(read8) ACCESS(read16)
ACCESS(write1) ACCESS(write2) ACCESS(write4) ACCESS(write8) ACCESS(write16)
ACCESS(unaligned_read2) ACCESS(unaligned_read4) ACCESS(unaligned_read8) ACCESS(unaligned_read16)
ACCESS(unaligned_write2) ACCESS(unaligned_write4) ACCESS(unaligned_write8) ACCESS(unaligned_write16)
ACCESS(volatile_read1) ACCESS(volatile_read2) ACCESS(volatile_read4) ACCESS(volatile_read8)
ACCESS(volatile_write1) ACCESS(volatile_write2) ACCESS(volatile_write4) ACCESS(volatile_write8)
extern "C" void __tsan_read_range(void *, unsigned long) { access_point(); }
extern "C" void __tsan_write_range(void *, unsigned long) { access_point(); }
extern "C" void __tsan_vptr_update(void **, void *) {}
extern "C" void __tsan_vptr_read(void **) {}
extern "C" char __tsan_atomic8_load(const volatile char *p, int) { return *p; } // guards of local statics
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void *) {}
extern "C" void __tsan_func_exit() {}

// ------------------------------------------------------------------------------------------------ run dispatch
static Result execute(const Spec &s, bool verbose, Stats &stats, std::unordered_set<u64> *states) {
  Result r;
  if (s.world == "node") {
    int repeats = static_cast<int>(s.num("repeats", 1));
    std::vector<u64> wire0;
    for (int k = 0; k < repeats; k++) {
      Spec t = s;
      if (repeats > 1) {
        static const u8 fills[] = {0x00, 0xff, 0x5a, 0xa7};
        t.set("fill", fills[k % 4]);
        if (verbose)
          printf("== repetition %d, memory filled with %02x\n", k, fills[k % 4]);
      }
      Log log;
      log.verbose = verbose;
      void *shift = malloc(static_cast<std::size_t>(k) * 24 + 1); // other addresses
      NodeWorld w(t, log, stats, states);
      w.run(r);
      free(shift);
      if (r.violated)
        return r;
      if (k == 0)
        wire0 = w.wire;
      else if (w.wire != wire0) {
        std::size_t i = 0;
        while (i < wire0.size() && i < w.wire.size() && wire0[i] == w.wire[i])
          i++;
        r.violated = true;
        r.v.cls = "memory-dependent-output";
        r.v.op = -1;
        r.v.detail = fmt("observable %zu depends on the previous content of the memory", i);
        return r;
      }
    }
    return r;
  }
  if (s.world == "link") {
    Log log;
    log.verbose = verbose;
    LinkWorld w(s, log, stats, states);
    w.run(r);
    return r;
  }
  if (s.world == "tuple") {
    int repeats = static_cast<int>(s.num("repeats", 1));
    std::vector<u64> wire0;
    for (int k = 0; k < repeats; k++) {
      Spec t = s;
      if (repeats > 1) {
        static const u8 fills[] = {0x00, 0xff, 0x5a, 0xa7};
        t.set("fill", fills[k % 4]);
      }
      Log log;
      log.verbose = verbose;
      TupleWorld w(t, log, stats, states);
      w.run(r);
      if (r.violated)
        return r;
      if (k == 0)
        wire0 = w.wire;
      else if (w.wire != wire0) {
        r.violated = true;
        r.v.cls = "memory-dependent-output";
        r.v.op = -1;
        r.v.detail = "the bytes of a tuple depend on the previous content of the memory";
        return r;
      }
    }
    return r;
  }
  fprintf(stderr, "unknown world %s\n", s.world.c_str());
  exit(2);
}

static Spec generate(const std::string &profile, u64 seed, Stats &st) {
  static const std::map<std::string, Profile> profiles = make_profiles();
  if (profile.compare(0, 4, "link") == 0)
    return gen_link(profile, seed, st);
  if (profile.compare(0, 5, "tuple") == 0)
    return gen_tuple(profile, seed, st);
  auto it = profiles.find(profile);
  if (it == profiles.end()) {
    fprintf(stderr, "unknown profile %s\n", profile.c_str());
    exit(2);
  }
  Spec s = gen_node(it->second, seed, st);
  if (it->second.poison3)
    s.set("repeats", 3);
  return s;
}

// ------------------------------------------------------------------------------------------------- spec files
static std::string spec_text(const Spec &s) {
  std::string r = "world " + s.world + "\n";
  for (auto &c : s.cfg)
    r += "cfg " + c.first + " " + c.second + "\n";
  for (auto &o : s.ops) {
    r += std::string("op ") + op_name(o.kind);
    for (i64 v : o.p)
      r += " " + std::to_string(v);
    if (!o.bytes.empty())
      r += " : " + hex(o.bytes);
    r += "\n";
  }
  return r;
}
// One run; several may follow one another in a file, separated by "run"
static Spec parse_spec(std::istream &in) {
  Spec s;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#')
      continue;
    if (line == "run")
      break;
    std::istringstream ls(line);
    std::string w, a;
    ls >> w;
    if (w == "world")
      ls >> s.world;
    else if (w == "cfg") {
      ls >> a;
      std::string v;
      std::getline(ls, v);
      s.cfg[a] = v.empty() ? v : v.substr(1);
    } else if (w == "op") {
      Op o;
      ls >> a;
      for (int k = 0; k < OP_COUNT; k++)
        if (a == op_name(k))
          o.kind = k;
      while (ls >> a) {
        if (a == ":") {
          ls >> a;
          for (std::size_t i = 0; i + 1 < a.size(); i += 2)
            o.bytes.push_back(static_cast<u8>(strtol(a.substr(i, 2).c_str(), nullptr, 16)));
          break;
        }
        o.p.push_back(atoll(a.c_str()));
      }
      s.ops.push_back(o);
    }
  }
  return s;
}

static void load(const char *list) {
  std::ifstream in(list);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string type;
    ls >> type;
    if (type == "fw") {
      LoadedFw f;
      std::string path;
      ls >> path >> f.pool_name >> f.variant >> f.format >> f.flavour;
      if (f.flavour == "-")
        f.flavour = "";
      void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h) {
        fprintf(stderr, "%s\n", dlerror());
        exit(2);
      }
      typedef const Firmware *(*entry)();
      f.fw = reinterpret_cast<entry>(dlsym(h, "upd_firmware"))();
      f.pool = f.fw->pool;
      if (f.fw->api_version != API_VERSION || g_pools[f.pool].name != f.pool_name) {
        fprintf(stderr, "firmware %s does not match\n", path.c_str());
        exit(2);
      }
      f.key = fmt("%s/%s/%d/%s", f.pool_name.c_str(), f.variant.c_str(), f.format, f.flavour.c_str());
      if (f.flavour == "step")
        find_text(f), catch_traps(f), read_points(f, path + ".trace");
      g_fws.push_back(f);
    } else if (type == "tw") {
      LoadedTw t;
      std::string path;
      ls >> path >> t.variant >> t.format;
      void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h) {
        fprintf(stderr, "%s\n", dlerror());
        exit(2);
      }
      typedef const twapi::TupleWare *(*entry)();
      t.tw = reinterpret_cast<entry>(dlsym(h, "upd_tupleware"))();
      t.key = fmt("TUPLES/%s/%d/", t.variant.c_str(), t.format);
      g_tws.push_back(t);
    }
  }
}

// -------------------------------------------------------------------------------------------------- watchdog
static volatile u64 g_run_no;
static u64 g_seen_run;
static int g_same;
static void watchdog(int) {
  if (g_run_no == g_seen_run) {
    if (++g_same >= 8) {
      static const char msg[] = "HANG\n";
      (void)!write(2, msg, sizeof msg - 1);
      _exit(79);
    }
  } else
    g_seen_run = g_run_no, g_same = 0;
}
static void start_watchdog() {
  signal(SIGPROF, watchdog);
  struct itimerval tv = {{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
}

int main(int argc, char **argv) {
  std::map<std::string, std::string> opt;
  std::string cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2)
    opt[argv[i]] = argv[i + 1];
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  load(opt["--fw"].c_str());
  if (cmd == "gen") {
    // --jobs "profile:seed,profile:seed,..."
    Stats st;
    std::istringstream js(opt["--jobs"]);
    bool first = true;
    for (std::string j; std::getline(js, j, ',');) {
      std::size_t c = j.find(':');
      Spec s = generate(j.substr(0, c), strtoull(j.c_str() + c + 1, nullptr, 10), st);
      printf("%s# profile %s seed %s\n%s", first ? "" : "run\n", j.substr(0, c).c_str(), j.c_str() + c + 1, spec_text(s).c_str());
      first = false;
    }
    return 0;
  }
  if (cmd == "exec") {
    g_breakpoints = opt["--breakpoints"] == "1";
    std::ifstream in(opt["--spec"]);
    Stats st;
    start_watchdog();
    const bool verbose = opt["--verbose"] == "1";
    setvbuf(stdout, nullptr, verbose ? _IOLBF : _IOFBF, 1 << 16);
    u64 chain = 0, runs = 0, events = 0;
    while (in.peek() != EOF) {
      Spec s = parse_spec(in);
      if (s.world.empty())
        continue;
      g_run_no = g_run_no + 1;
      Result r = execute(s, verbose && in.peek() == EOF, st, nullptr);
      runs++, events += r.events;
      chain = mix64(chain ^ r.hash);
      if (r.violated) {
        printf("VIOLATED %s op=%d hash=%016llx run=%llu %s\n", r.v.cls.c_str(), r.v.op, (unsigned long long)chain,
               (unsigned long long)runs, r.v.detail.c_str());
        fflush(stdout);
        _exit(1);
      }
    }
    printf("HELD hash=%016llx events=%llu\n", (unsigned long long)chain, (unsigned long long)events);
    fflush(stdout);
    _exit(0);
  }
  if (cmd == "trace") {
    // which instructions the operations execute, for each kind of operation and of dispatcher
    g_trace = new std::map<u64, std::map<u64, u64>>;
    Stats st;
    start_watchdog();
    const u64 count = strtoull(opt["--count"].c_str(), nullptr, 10);
    for (u64 i = 0; i < count; i++) {
      g_run_no = g_run_no + 1;
      Spec s = generate(opt["--profile"], 0x7ace0000ull + i, st);
      execute(s, false, st, nullptr);
    }
    for (auto &k : *g_trace) {
      printf("%llu", (unsigned long long)k.first);
      u64 most = 0;
      for (auto &v : k.second)
        most = std::max(most, v.second);
      for (auto &v : k.second) // the more usual ones are drawn more often
        for (u64 n = 0; n <= v.second * 8 / most; n++)
          printf(" %llu", (unsigned long long)v.first);
      printf("\n");
    }
    printf("end\n");
    fflush(stdout);
    _exit(0);
  }
  if (cmd == "batch") {
    g_breakpoints = true;
    // seeds base, base + step, ... below limit
    u64 base = strtoull(opt["--base"].c_str(), nullptr, 10), step = strtoull(opt["--step"].c_str(), nullptr, 10);
    u64 count = strtoull(opt["--count"].c_str(), nullptr, 10);
    double seconds = atof(opt["--seconds"].c_str());
    std::vector<std::string> profs;
    std::istringstream ps(opt["--profile"]);
    for (std::string p; std::getline(ps, p, ',');)
      profs.push_back(p);
    int fd = open(opt["--progress"].c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 64) != 0)
      return 2;
    volatile u64 *progress = static_cast<volatile u64 *>(mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    start_watchdog();
    Stats st;
    std::unordered_set<u64> states, shapes;
    u64 runs = 0, nontrivial = 0, sim_us = 0, events = 0, chain = 0;
    struct timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    int violations = 0;
    for (u64 i = 0; i < count; i++) {
      if (i % 64 == 0) {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        if (static_cast<double>(t.tv_sec - t0.tv_sec) + static_cast<double>(t.tv_nsec - t0.tv_nsec) * 1e-9 > seconds)
          break;
      }
      u64 seed = base + i * step;
      const std::string &prof = profs[i % profs.size()];
      progress[0] = seed, progress[1] = i % profs.size(), progress[2] = 1;
      g_run_no = g_run_no + 1;
      Spec s = generate(prof, seed, st);
      Result r = execute(s, false, st, &states);
      runs++;
      nontrivial += r.nontrivial;
      sim_us += r.sim_us, events += r.events;
      chain = mix64(chain ^ r.hash);
      if (r.nontrivial && shapes.size() < 300000)
        shapes.insert(r.shape);
      if (opt["--hashes"] == "1")
        printf("H %s %llu %016llx\n", prof.c_str(), (unsigned long long)seed, (unsigned long long)r.hash);
      if (r.violated) {
        printf("V %s %llu %d %016llx %s %s\n", prof.c_str(), (unsigned long long)seed, r.v.op, (unsigned long long)r.hash,
               r.v.cls.c_str(), r.v.detail.c_str());
        fflush(stdout);
        if (++violations >= 3)
          break;
      }
    }
    progress[2] = 2;
    printf("R runs %llu nontrivial %llu events %llu sim_us %llu chain %016llx\n", (unsigned long long)runs,
           (unsigned long long)nontrivial, (unsigned long long)events, (unsigned long long)sim_us, (unsigned long long)chain);
    for (auto &n : st.n)
      printf("S %s %llu\n", n.first.c_str(), (unsigned long long)n.second);
    std::ofstream sh(opt["--out"], std::ios::binary);
    u64 n = shapes.size();
    sh.write(reinterpret_cast<char *>(&n), 8);
    for (u64 v : shapes)
      sh.write(reinterpret_cast<char *>(&v), 8);
    for (u64 v : states)
      sh.write(reinterpret_cast<char *>(&v), 8);
    sh.close();
    fflush(stdout);
    _exit(violations ? 1 : 0);
  }
  fprintf(stderr, "usage: sim batch|gen|exec ...\n");
  return 2;
}
