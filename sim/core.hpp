// Foundations of the simulator: randomness, event log, allocator seam, violations.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <new>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

typedef unsigned char u8;
typedef std::uint64_t u64;
typedef std::int64_t i64;

// ---------------------------------------------------------------------------------------------- randomness
inline u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix64(seed ^ 0x5151d00dull)) {}
  u64 next() {
    s += 0x9e3779b97f4a7c15ull;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + static_cast<i64>(below(static_cast<u64>(b - a + 1))); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template<typename T>
  const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
};

// ---------------------------------------------------------------------------------------------- violations
struct Violation {
  std::string cls, detail;
  int op;
};
// Thrown through the library to end a run after a violation, or to inject a failure. Exceptions of users may be of any
// type: derived from nothing, from std::exception, or the ones which the standard library itself uses.
struct Stop {};
struct Injected {
  int what;
  u64 serial;
};
struct InjectedStd : std::exception, Injected {
  explicit InjectedStd(const Injected &i) : Injected(i) {}
};
struct InjectedOom : std::bad_alloc, Injected {
  explicit InjectedOom(const Injected &i) : Injected(i) {}
};
// The serial number of the last failure injected, and of the last one which came out of the library
struct Failures {
  u64 thrown = 0, caught = 0;
  [[noreturn]] void raise(int what) {
    const Injected i = {what, ++thrown};
    switch (thrown % 4) {
    case 0: throw InjectedStd(i);
    case 1: throw InjectedOom(i);
    default: throw i;
    }
  }
  // Within a handler: whether the exception being handled was injected
  bool handle() {
    try {
      throw;
    } catch (const Injected &i) {
      caught = i.serial;
      return true;
    } catch (...) {
      return false;
    }
  }
};

inline std::string fmt(const char *f, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
inline std::string hex(const u8 *p, std::size_t n) {
  std::string r;
  for (std::size_t i = 0; i < n; i++)
    r += fmt("%02x", p[i]);
  return r;
}
inline std::string hex(const std::vector<u8> &v) { return hex(v.data(), v.size()); }

// ----------------------------------------------------------------------------------------------- event log
struct Log {
  u64 hash = 0xcbf29ce484222325ull;
  u64 shape = 0xcbf29ce484222325ull; // the same without values: identifies the interleaving
  bool verbose = false;
  u64 events = 0;
  static void mixin(u64 &h, u64 v) { h = mix64(h ^ (v + 0x632be59bd9b4e019ull)); }
  static u64 tag_hash(const char *t) {
    u64 h = 0xcbf29ce484222325ull;
    for (; *t; t++)
      h = (h ^ static_cast<u8>(*t)) * 0x100000001b3ull;
    return h;
  }
  // Every logged value must be a function of the run specification alone when the library is right
  void ev(const char *tag, std::initializer_list<u64> vals = {}, std::initializer_list<u64> shaped = {}) {
    events++;
    u64 t = tag_hash(tag);
    mixin(hash, t), mixin(shape, t);
    for (u64 v : vals)
      mixin(hash, v);
    for (u64 v : shaped)
      mixin(hash, v), mixin(shape, v);
    if (verbose) {
      printf("  %-10s", tag);
      for (u64 v : shaped)
        printf(" %lld", static_cast<long long>(v));
      printf(" |");
      for (u64 v : vals)
        printf(" %llx", static_cast<unsigned long long>(v));
      printf("\n");
    }
  }
};

struct Stats {
  std::map<std::string, u64> n;
  void hit(const char *what, u64 k = 1) { n[what] += k; }
};

// ------------------------------------------------------------------------------------------ allocator seam
struct AllocCtl {
  int in_lib = 0;           // > 0 while library code runs on behalf of the simulated program
  i64 fail_at = -1;         // the allocation (counted from 0) which fails
  bool fail_all = false;    // each allocation fails
  i64 count = 0;            // allocations by the library since arm()
  bool failed = false;      // a failure was injected
  u8 poison = 0;            // content of fresh blocks
  bool track = false;       // follow the blocks allocated by the library
  u64 live = 0;
};
extern AllocCtl g_alloc;
void alloc_track_reset();

// ------------------------------------------------------------------- interrupts (dedicated firmware flavours)
struct IsrCtl {
  bool armed = false;
  i64 countdown = -1;
  u64 accesses = 0; // memory accesses, or instructions, seen since arm()
  void (*handler)(void *) = nullptr;
  void *ctx = nullptr;
  // "step" flavour: an interrupt falls before the nth execution of an instruction of the firmware
  bool stepping = false;
  u64 text_begin = 0, text_end = 0; // the instructions of the firmware
  u64 point = 0;                    // where the next interrupt falls...
  int hits = 0;                     // ...after how many executions
  u64 last = 0;                     // previous instruction
  u8 saved = 0;                     // what the breakpoint replaces
  bool placed = false, resuming = false, in_trap = false;
  int outside = 0; // whether the simulator, called by the firmware, is executing
  u64 trace_key = 0;
};
extern IsrCtl g_isr;
// How the instruction is found: by single-stepping, or faster by a breakpoint (the list of instructions has to be exact then)
extern bool g_breakpoints;
extern std::map<u64, std::map<u64, u64>> *g_trace; // records the instructions executed
inline i64 point_value(u64 offset, int hits) { return static_cast<i64>(offset * 8 + static_cast<u64>(hits)); }
void watch_on(); // from here on, the firmware runs under control
void watch_off();
void step_on();
void step_off();

struct OutOfLib { // the library calls back into the simulator
  int saved;
  bool step;
  OutOfLib() : saved(g_alloc.in_lib), step(g_isr.stepping && g_isr.armed && !g_isr.in_trap) {
    if (step && g_isr.outside++ == 0 && !g_breakpoints)
      step_off();
    g_alloc.in_lib = 0;
  }
  ~OutOfLib() {
    g_alloc.in_lib = saved;
    if (step && !std::uncaught_exceptions() && --g_isr.outside == 0 && !g_breakpoints)
      step_on();
  }
};

// Fills the stack below with a pattern
__attribute__((noinline)) void poison_stack(u8 pattern);

// --------------------------------------------------------------------------------------- run specification
struct Op {
  int kind = 0;
  std::vector<i64> p;
  std::vector<u8> bytes;
  i64 at(std::size_t i, i64 dflt = 0) const { return i < p.size() ? p[i] : dflt; }
};
struct Spec {
  std::string world;
  std::map<std::string, std::string> cfg;
  std::vector<Op> ops;
  i64 num(const char *k, i64 dflt = 0) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? dflt : atoll(it->second.c_str());
  }
  std::string str(const char *k) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? "" : it->second;
  }
  void set(const char *k, i64 v) { cfg[k] = std::to_string(v); }
};
struct Result {
  bool violated = false;
  Violation v;
  u64 hash = 0, shape = 0, events = 0;
  u64 sim_us = 0;
  bool nontrivial = false;
};
