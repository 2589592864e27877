// TupleWorld: tuples and views of the real library over memory, containers and failing register files; transfers are cut
// at any byte, interleaved with accesses to fields, and compared byte for byte with a reference after every step.
#pragma once
#include "../fw/tuples_api.hpp"
#include "node.hpp"

struct LoadedTw {
  std::string key, variant;
  int format;
  const twapi::TupleWare *tw;
};
extern std::vector<LoadedTw> g_tws;
inline const LoadedTw *find_tw(const std::string &key) {
  for (auto &t : g_tws)
    if (t.key == key)
      return &t;
  return nullptr;
}

struct TwField {
  std::vector<Field> parts;
  int off = 0, size = 0, voff = 0;
};
struct TwLayout {
  std::vector<TwField> fields;
  std::vector<Field> flat;
  int size = 0;
};
inline std::vector<TwLayout> make_layouts() {
  std::vector<TwLayout> r;
#define TW_SCHEMA(T, S) S,
#define TW_ADD(N)                                                                                                      \
  {                                                                                                                    \
    const char *const s[] = {TW_LAYOUT_##N(TW_SCHEMA)};                                                                \
    TwLayout l;                                                                                                        \
    for (const char *f : s) {                                                                                          \
      TwField t;                                                                                                       \
      t.parts = parse_schema(f, t.size);                                                                               \
      t.off = l.size, t.voff = static_cast<int>(l.flat.size());                                                        \
      l.size += t.size;                                                                                                \
      l.flat.insert(l.flat.end(), t.parts.begin(), t.parts.end());                                                     \
      l.fields.push_back(t);                                                                                           \
    }                                                                                                                  \
    r.push_back(l);                                                                                                    \
  }
  TW_ADD(0) TW_ADD(1) TW_ADD(2) TW_ADD(3) TW_ADD(4) TW_ADD(5) TW_ADD(6)
#undef TW_ADD
#undef TW_SCHEMA
  return r;
}
inline const std::vector<TwLayout> &layouts() {
  static const std::vector<TwLayout> l = make_layouts();
  return l;
}

enum TwSub {
  TS_CREATE, TS_STREAM_IN, TS_GET, TS_SET, TS_ASSIGN, TS_INVOKE, TS_PEEK, TS_POKE, TS_SLGET, TS_SLSET, TS_SLBYTES,
  TS_SLINVOKE, TS_SLASSIGN, TS_CLONE, TS_STREAM_OUT, TS_DESTROY, TS_SHIFT, TS_COUNT
};
enum { TP_SLOT, TP_SUB, TP_SEED, TP_TRIP, TP_A, TP_B, TP_STYLE, TP_N };

struct TupleWorld {
  const Spec &spec;
  Log &log;
  Stats &stats;
  std::unordered_set<u64> *states;
  std::vector<u64> wire;
  const LoadedTw *ware = nullptr;
  const TwLayout *lay = nullptr;
  u8 fill = 0;
  u64 transfers = 0;
  int op_index = 0;

  struct Regs : twapi::Medium {
    std::vector<u8> mem;
    std::vector<int> reads, writes;
    bool outside = false;
    int *fuse = nullptr; // accesses left before a failure, or negative
    bool *tripped = nullptr;
    void tick() {
      if (fuse && *fuse >= 0 && (*fuse)-- == 0) {
        *tripped = true;
        throw Injected{0};
      }
    }
    u8 read(long at) override {
      tick();
      if (at < 0 || at >= static_cast<long>(mem.size())) {
        outside = true;
        return 0;
      }
      reads.push_back(static_cast<int>(at));
      return mem[at];
    }
    void write(long at, u8 v) override {
      tick();
      if (at < 0 || at >= static_cast<long>(mem.size())) {
        outside = true;
        return;
      }
      writes.push_back(static_cast<int>(at));
      mem[at] = v;
    }
  };
  enum { SLOTS = 4 };
  struct Slot {
    std::unique_ptr<twapi::Object> lib;
    int kind = 0;
    Format f;
    std::vector<u8> ref;
    std::unique_ptr<Regs> regs;
  } slot[SLOTS];
  int fuse = -1;
  bool tripped = false;

  struct Feed : Source {
    std::vector<u8> data;
    std::size_t at = 0;
    i64 trip = -1;
    bool *tripped;
    u8 next() override {
      if (static_cast<i64>(at) == trip || at >= data.size()) {
        *tripped = true;
        throw Injected{1};
      }
      return data[at++];
    }
  };
  struct Drain : Sink {
    std::vector<u8> got;
    i64 trip = -1;
    bool *tripped;
    void put(u8 b) override {
      if (static_cast<i64>(got.size()) == trip) {
        *tripped = true;
        throw Injected{2};
      }
      got.push_back(b);
    }
  };

  TupleWorld(const Spec &s, Log &l, Stats &st, std::unordered_set<u64> *states) : spec(s), log(l), stats(st), states(states) {}

  [[noreturn]] void fail(const std::string &cls, const std::string &detail) {
    VioEx e;
    e.v.cls = cls, e.v.detail = detail, e.v.op = op_index;
    throw e;
  }
  static const char *kind_name(int k) {
    static const char *n[] = {"tuple", "tuple of another format", "view of memory", "view of a list", "view of a deque", "view of registers"};
    return n[k];
  }

  // ---- reference
  std::vector<u64> value(const Slot &s, const TwField &f) const { return decode_values(s.f, f.parts, s.ref.data() + f.off); }
  static bool restricted(const Format &f) { return f.mode == SIGN_MAG || f.mode == ONES; }
  // Whether the format can represent the values
  static bool representable(const Format &f, const std::vector<Field> &parts, const std::vector<u64> &v) {
    if (!restricted(f))
      return true;
    for (std::size_t i = 0; i < parts.size(); i++)
      if (parts[i].type == 'i' && v[i] == 0 - (1ull << (8 * parts[i].size - 1)))
        return false;
    return true;
  }

  // ---- around every call into the library
  void begin(int trip = -1) {
    fuse = trip, tripped = false;
    for (auto &s : slot)
      if (s.regs)
        s.regs->reads.clear(), s.regs->writes.clear(), s.regs->outside = false;
    poison_stack(fill);
  }
  // The library must let the failure out, and throw nothing else
  bool settle(int st, const char *what) {
    fuse = -1;
    if (st == ST_OTHER)
      fail("callback-count", fmt("%s: the callable was not invoked exactly once or its result was lost", what));
    if ((st == ST_THREW) != tripped)
      fail("exception", fmt("%s: %s", what, tripped ? "a failure of the medium was swallowed" : "unexpected exception"));
    if (tripped)
      stats.hit("fault.medium_failure");
    return !tripped;
  }
  static std::vector<int> span(int off, int n) {
    std::vector<int> r;
    for (int i = 0; i < n; i++)
      r.push_back(off + i);
    return r;
  }
  static std::string show(const std::vector<int> &v) {
    std::string r;
    for (int x : v)
      r += fmt("%d ", x);
    return r;
  }
  static bool prefix(const std::vector<int> &a, const std::vector<int> &b) {
    return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin());
  }
  // Register accesses of the last operation on s
  void accesses(Slot &s, const std::vector<int> &reads, const std::vector<int> &writes, bool complete) {
    if (!s.regs)
      return;
    Regs &r = *s.regs;
    if (r.outside)
      fail("out-of-range", "a register outside of the view was accessed");
    if (complete ? r.reads != reads : !prefix(r.reads, reads))
      fail("reads", fmt("registers read: %s, expected: %s", show(r.reads).c_str(), show(reads).c_str()));
    if (complete ? r.writes != writes : !prefix(r.writes, writes))
      fail("writes", fmt("registers written: %s, expected: %s", show(r.writes).c_str(), show(writes).c_str()));
  }
  // Each field read at most once (exactly once if complete), each in order
  void field_reads(Slot &s, bool complete) {
    if (!s.regs)
      return;
    Regs &r = *s.regs;
    if (r.outside)
      fail("out-of-range", "a register outside of the view was accessed");
    if (!r.writes.empty())
      fail("writes", "reading wrote to registers");
    std::vector<std::vector<int>> by(lay->fields.size());
    for (int a : r.reads)
      for (std::size_t i = 0; i < lay->fields.size(); i++)
        if (a >= lay->fields[i].off && a < lay->fields[i].off + lay->fields[i].size)
          by[i].push_back(a);
    for (std::size_t i = 0; i < by.size(); i++) {
      const auto want = span(lay->fields[i].off, lay->fields[i].size);
      if (complete ? by[i] != want : !prefix(by[i], want))
        fail("reads", fmt("registers of field %zu read: %s, expected: %s", i, show(by[i]).c_str(), show(want).c_str()));
    }
  }

  // All bytes of all objects
  void check_all(int style) {
    begin();
    for (int k = 0; k < SLOTS; k++) {
      Slot &s = slot[k];
      if (!s.lib)
        continue;
      if (s.regs) {
        if (s.regs->mem != s.ref)
          fail("content", fmt("%s %d holds %s, expected %s", kind_name(s.kind), k, hex(s.regs->mem).c_str(), hex(s.ref).c_str()));
        continue;
      }
      std::vector<u8> got;
      for (int i = 0; i < lay->size; i++)
        got.push_back(s.lib->peek(static_cast<std::size_t>(i), style + i));
      for (u8 b : got)
        wire.push_back(b);
      if (got != s.ref)
        fail("content", fmt("%s %d holds %s, expected %s", kind_name(s.kind), k, hex(got).c_str(), hex(s.ref).c_str()));
    }
  }
  void compare(const char *what, const std::vector<u64> &want, const u64 *got) {
    for (std::size_t i = 0; i < want.size(); i++) {
      wire.push_back(got[i]);
      if (got[i] != want[i])
        fail("value", fmt("%s: component %zu is %llx, expected %llx", what, i, (unsigned long long)got[i], (unsigned long long)want[i]));
    }
  }
  void put_field(Slot &s, const TwField &f, const std::vector<u64> &v, std::size_t limit) {
    std::vector<u8> b = encode_values(s.f, f.parts, v);
    for (std::size_t i = 0; i < b.size() && i < limit; i++)
      s.ref[static_cast<std::size_t>(f.off) + i] = b[i];
  }

  void create(int k, int kind, int ctor, u64 seed) {
    Slot &s = slot[k];
    Rng g(seed);
    s.lib.reset();
    s.regs.reset();
    s.kind = kind;
    s.f = Format(kind == twapi::O_ALT ? ware->tw->alt_format : ware->tw->format);
    std::vector<u64> v = gen_values(g, s.f, lay->flat);
    const bool owning = kind == twapi::O_OWN || kind == twapi::O_ALT;
    if (owning) {
      if (ctor == twapi::C_DEFAULT)
        v.assign(v.size(), 0);
      s.ref = encode_values(s.f, lay->flat, v);
    } else {
      s.ref.clear();
      for (int i = 0; i < lay->size; i++)
        s.ref.push_back(static_cast<u8>(g.next() >> 13));
    }
    if (kind == twapi::O_REGISTERS) {
      s.regs.reset(new Regs);
      s.regs->mem = s.ref;
      s.regs->fuse = &fuse, s.regs->tripped = &tripped;
    }
    begin();
    s.lib.reset(ware->tw->make(static_cast<int>(lay - layouts().data()), kind, ctor, v.data(), s.ref.data(), s.regs.get(), fill));
    accesses(s, {}, {}, true);
    if (s.lib->size() != static_cast<std::size_t>(lay->size) || s.lib->extent() != lay->size)
      fail("size", fmt("%s has size %zu and extent %ld, expected %d", kind_name(kind), s.lib->size(), s.lib->extent(), lay->size));
  }

  void run_op(const Op &o) {
    const int k = static_cast<int>(static_cast<u64>(o.at(TP_SLOT)) % SLOTS), sub = static_cast<int>(o.at(TP_SUB));
    Slot &s = slot[k];
    const i64 trip = o.at(TP_TRIP, -1);
    const int style = static_cast<int>(o.at(TP_STYLE)) & 15;
    const u64 a = static_cast<u64>(o.at(TP_A)), b = static_cast<u64>(o.at(TP_B)), seed = static_cast<u64>(o.at(TP_SEED));
    Rng g(seed);
    u64 out[64] = {};
    int st = ST_NONE;
    if (!s.lib && sub != TS_CREATE)
      return;
    const int nf = static_cast<int>(lay->fields.size());
    const bool owning = s.kind == twapi::O_OWN || s.kind == twapi::O_ALT;
    switch (sub) {
    case TS_CREATE: create(k, static_cast<int>(a % twapi::O_COUNT), static_cast<int>(b % twapi::C_COUNT), seed); break;
    case TS_DESTROY: s.lib.reset(), s.regs.reset(); break;
    case TS_STREAM_IN: {
      // n bytes from offset skip; the source may fail at any of them, and so may the medium
      const std::size_t skip = a % static_cast<u64>(lay->size + 1), n = b % static_cast<u64>(lay->size - skip + 1);
      Feed src;
      src.tripped = &tripped;
      // either the bytes of a value or anything
      std::vector<u8> image = encode_values(s.f, lay->flat, gen_values(g, s.f, lay->flat));
      if (g.chance(0.4))
        for (auto &x : image)
          x = static_cast<u8>(g.next() >> 7);
      src.data.assign(image.begin() + static_cast<long>(skip), image.begin() + static_cast<long>(skip + n));
      const bool from_source = seed & 1;
      src.trip = from_source ? trip : -1;
      begin(!from_source && s.regs ? static_cast<int>(trip) : -1);
      st = s.lib->stream_in(src, skip, n);
      const bool ok = settle(st, "transfer");
      std::size_t done = n;
      if (!ok) {
        stats.hit("fault.torn_transfer");
        done = s.regs && !from_source ? s.regs->writes.size() : src.at;
        if (done > static_cast<std::size_t>(trip))
          fail("transfer", "bytes were transferred after the failure");
      }
      for (std::size_t i = 0; i < done; i++)
        s.ref[skip + i] = image[skip + i];
      accesses(s, {}, span(static_cast<int>(skip), static_cast<int>(n)), ok);
      transfers++;
      break;
    }
    case TS_STREAM_OUT: {
      Drain sink;
      sink.tripped = &tripped;
      const bool to_sink = seed & 1;
      sink.trip = to_sink ? trip : -1;
      begin(!to_sink && s.regs ? static_cast<int>(trip) : -1);
      st = s.lib->stream_out(sink, style & 1);
      const bool ok = settle(st, "transfer");
      if (ok ? sink.got != s.ref : sink.got.size() > s.ref.size() || !std::equal(sink.got.begin(), sink.got.end(), s.ref.begin()))
        fail("transfer", fmt("%s sent %s instead of %s", kind_name(s.kind), hex(sink.got).c_str(), hex(s.ref).c_str()));
      accesses(s, span(0, lay->size), {}, ok);
      for (u8 x : sink.got)
        wire.push_back(x);
      transfers++;
      break;
    }
    case TS_GET: {
      const TwField &f = lay->fields[a % nf];
      begin(s.regs ? static_cast<int>(trip) : -1);
      st = s.lib->get(static_cast<int>(a % nf), out, style);
      const bool ok = settle(st, "get");
      accesses(s, span(f.off, f.size), {}, ok);
      if (ok)
        compare("get", value(s, f), out);
      transfers++;
      break;
    }
    case TS_SET: {
      const TwField &f = lay->fields[a % nf];
      std::vector<u64> v = gen_values(g, s.f, f.parts);
      begin(s.regs ? static_cast<int>(trip) : -1);
      st = s.lib->set(static_cast<int>(a % nf), v.data(), style);
      const bool ok = settle(st, "set");
      accesses(s, {}, span(f.off, f.size), ok);
      put_field(s, f, v, ok ? static_cast<std::size_t>(f.size) : s.regs->writes.size());
      transfers++;
      break;
    }
    case TS_ASSIGN: {
      Slot &t = slot[(static_cast<u64>(k) + 1 + a % (SLOTS - 1)) % SLOTS];
      if (!t.lib)
        return;
      std::vector<std::vector<u64>> vs;
      for (auto &f : lay->fields) {
        vs.push_back(value(t, f));
        if (!representable(s.f, f.parts, vs.back()))
          return;
      }
      begin(s.regs || t.regs ? static_cast<int>(trip) : -1);
      st = s.lib->assign(*t.lib);
      if (st == ST_OTHER)
        return;
      const bool ok = settle(st, "assignment");
      if (t.regs)
        field_reads(t, ok);
      if (s.regs)
        accesses(s, {}, span(0, lay->size), ok);
      std::size_t limit = static_cast<std::size_t>(lay->size);
      if (!ok && s.regs)
        limit = s.regs->writes.size();
      else if (!ok) {
        // the source failed: whole fields may have been transferred
        std::vector<u8> now;
        begin();
        for (int i = 0; i < lay->size; i++)
          now.push_back(s.lib->peek(static_cast<std::size_t>(i), i));
        std::vector<u8> cand = s.ref;
        bool good = now == cand;
        limit = 0;
        for (int i = 0; i < nf && !good; i++) {
          const TwField &f = lay->fields[i];
          std::vector<u8> e = encode_values(s.f, f.parts, vs[i]);
          std::copy(e.begin(), e.end(), cand.begin() + f.off);
          limit = static_cast<std::size_t>(f.off + f.size);
          good = now == cand;
        }
        if (!good)
          fail("content", "a failed assignment left a part of a field or something else");
      }
      const std::vector<u8> before = s.ref;
      for (int i = 0; i < nf; i++)
        put_field(s, lay->fields[i], vs[i], limit > static_cast<std::size_t>(lay->fields[i].off) ? limit - static_cast<std::size_t>(lay->fields[i].off) : 0);
      // between objects of one format, bytes which are not the encoding of any value may be copied as they are
      if (s.f.big == t.f.big && s.f.mode == t.f.mode && s.ref != t.ref && limit == static_cast<std::size_t>(lay->size)) {
        std::vector<u8> now;
        begin();
        for (int i = 0; i < lay->size; i++)
          now.push_back(s.regs ? s.regs->mem[i] : s.lib->peek(static_cast<std::size_t>(i), i));
        for (auto &f : lay->fields)
          if (std::equal(now.begin() + f.off, now.begin() + f.off + f.size, t.ref.begin() + f.off))
            std::copy(now.begin() + f.off, now.begin() + f.off + f.size, s.ref.begin() + f.off);
      }
      transfers++;
      break;
    }
    case TS_INVOKE: {
      begin(s.regs ? static_cast<int>(trip) : -1);
      st = s.lib->invoke(out, style & 1);
      const bool ok = settle(st, "invoke");
      field_reads(s, ok);
      if (ok) {
        std::vector<u64> want;
        for (auto &f : lay->fields)
          for (u64 x : value(s, f))
            want.push_back(x);
        compare("invoke", want, out);
      }
      transfers++;
      break;
    }
    case TS_PEEK: {
      const int i = static_cast<int>(a % lay->size);
      begin();
      u8 x = s.lib->peek(static_cast<std::size_t>(i), style);
      accesses(s, {i}, {}, true);
      if (x != s.ref[i])
        fail("content", fmt("byte %d of the %s is %02x, expected %02x", i, kind_name(s.kind), x, s.ref[i]));
      break;
    }
    case TS_POKE: {
      const int i = static_cast<int>(a % lay->size);
      const u8 v = static_cast<u8>(seed >> 3);
      begin();
      s.lib->poke(static_cast<std::size_t>(i), v, style);
      accesses(s, {}, {i}, true);
      s.ref[i] = v;
      break;
    }
    case TS_SLGET:
    case TS_SLSET:
    case TS_SLBYTES:
    case TS_SLINVOKE:
    case TS_SLASSIGN: {
      const int n = s.lib->slices();
      if (!n)
        return;
      const int c = static_cast<int>(a % n);
      int first, count;
      s.lib->slice(c, &first, &count);
      const int j = static_cast<int>(b % count);
      const TwField &f = lay->fields[first + j], &f0 = lay->fields[first], &f1 = lay->fields[first + count - 1];
      begin();
      if (sub == TS_SLGET) {
        st = s.lib->slice_get(c, j, out, style);
        settle(st, "get of a sub-view");
        compare("get of a sub-view", value(s, f), out);
      } else if (sub == TS_SLSET) {
        std::vector<u64> v = gen_values(g, s.f, f.parts);
        st = s.lib->slice_set(c, j, v.data(), style);
        settle(st, "set of a sub-view");
        put_field(s, f, v, 99);
      } else if (sub == TS_SLBYTES) {
        u8 bytes[128];
        std::size_t got = 0;
        st = s.lib->slice_bytes(c, bytes, sizeof bytes, &got);
        settle(st, "bytes of a sub-view");
        if (got != static_cast<std::size_t>(f1.off + f1.size - f0.off) || !std::equal(bytes, bytes + got, s.ref.begin() + f0.off))
          fail("content", fmt("sub-view (%d, %d) shows %s", first, count, hex(bytes, std::min<std::size_t>(got, sizeof bytes)).c_str()));
      } else if (sub == TS_SLINVOKE) {
        st = s.lib->slice_invoke(c, out);
        settle(st, "invoke of a sub-view");
        std::vector<u64> want;
        for (int i = 0; i < count; i++)
          for (u64 x : value(s, lay->fields[first + i]))
            want.push_back(x);
        compare("invoke of a sub-view", want, out);
      } else {
        std::vector<u64> v;
        for (int i = 0; i < count; i++)
          for (auto &p : lay->fields[first + i].parts) {
            // through a temporary of another format
            u64 x = gen_value(g, Format(SIGN_MAG), p);
            v.push_back(x);
          }
        st = s.lib->slice_assign(c, v.data());
        settle(st, "assignment to a sub-view");
        std::size_t at = 0;
        for (int i = 0; i < count; i++) {
          const TwField &fi = lay->fields[first + i];
          put_field(s, fi, std::vector<u64>(v.begin() + static_cast<long>(at), v.begin() + static_cast<long>(at + fi.parts.size())), 99);
          at += fi.parts.size();
        }
      }
      transfers++;
      break;
    }
    case TS_SHIFT: {
      const bool up = a & 1;
      std::vector<std::vector<u64>> vs;
      for (auto &f : lay->fields) {
        vs.push_back(value(s, f));
        if (!representable(s.f, f.parts, vs.back()))
          return;
      }
      begin();
      st = s.lib->shift(up);
      if (st == ST_OTHER)
        return;
      settle(st, "assignment to an overlapping view");
      const std::vector<u8> before = s.ref;
      for (int i = 0; i + 1 < nf; i++) {
        const TwField &to = lay->fields[up ? i + 1 : i], &from = lay->fields[up ? i : i + 1];
        put_field(s, to, vs[up ? i : i + 1], 99);
        // bytes which are not the encoding of any value may be copied as they are
        bool raw = true;
        for (int b = 0; b < to.size; b++)
          raw = raw && s.lib->peek(static_cast<std::size_t>(to.off + b), 0) == before[static_cast<std::size_t>(from.off + b)];
        if (raw)
          std::copy(before.begin() + from.off, before.begin() + from.off + from.size, s.ref.begin() + to.off);
      }
      transfers++;
      break;
    }
    case TS_CLONE: {
      if (!owning)
        return;
      Slot &t = slot[(static_cast<u64>(k) + 1 + a % (SLOTS - 1)) % SLOTS];
      twapi::Object *copy = nullptr;
      begin();
      st = s.lib->clone(static_cast<unsigned char>(fill ^ 0x3c), &copy);
      settle(st, "copy");
      t.regs.reset();
      t.lib.reset(copy);
      t.kind = s.kind, t.f = s.f, t.ref = s.ref;
      break;
    }
    default: return;
    }
    log.ev("tuple", {}, {static_cast<u64>(sub), static_cast<u64>(k), s.lib ? static_cast<u64>(s.kind) : 99, static_cast<u64>(st), a % 64, b % 64});
    for (auto &x : slot)
      for (u8 y : x.ref)
        Log::mixin(log.hash, y);
    check_all(style);
    if (states) {
      u64 h = mix64(static_cast<u64>(sub) * 131 + static_cast<u64>(s.kind) * 17 + static_cast<u64>(lay - layouts().data()));
      h = mix64(h ^ static_cast<u64>(ware->format) << 8 ^ (tripped ? 1 : 0) ^ (a % 64) << 16 ^ static_cast<u64>(trip + 1) << 24);
      if (states->size() < 300000)
        states->insert(h);
    }
  }

  void run(Result &res) {
    ware = find_tw(spec.str("ware"));
    if (!ware || ware->tw->api_version != twapi::TW_VERSION || ware->tw->layouts != twapi::TW_LAYOUTS) {
      fprintf(stderr, "tuples not loaded: %s\n", spec.str("ware").c_str());
      exit(2);
    }
    lay = &layouts()[static_cast<std::size_t>(spec.num("layout")) % layouts().size()];
    fill = static_cast<u8>(spec.num("fill", 0));
    g_alloc = AllocCtl();
    g_alloc.poison = fill;
    try {
      for (std::size_t i = 0; i < spec.ops.size(); i++) {
        op_index = static_cast<int>(i);
        if (log.verbose)
          printf("%3zu %s\n", i, op_name(spec.ops[i].kind));
        run_op(spec.ops[i]);
      }
    } catch (const VioEx &e) {
      res.violated = true;
      res.v = e.v;
    }
    for (auto &s : slot)
      if (res.violated)
        s.lib.release();
      else
        s.lib.reset();
    g_alloc = AllocCtl();
    res.hash = log.hash, res.shape = log.shape, res.events = log.events;
    res.nontrivial = transfers > 0;
  }
};

inline Spec gen_tuple(const std::string &profile, u64 seed, Stats &st) {
  Rng g(seed ^ 0x7ab1e);
  Spec s;
  s.world = "tuple";
  if (g_tws.empty()) {
    fprintf(stderr, "no tuples loaded\n");
    exit(2);
  }
  const bool c17 = profile == "tupleC17";
  const LoadedTw &w = g_tws[g.below(g_tws.size())];
  s.cfg["ware"] = w.key;
  s.set("layout", static_cast<i64>(g.below(twapi::TW_LAYOUTS)));
  s.set("fill", static_cast<i64>(g.below(256)));
  if (c17)
    s.set("repeats", 3);
  const int size = layouts()[static_cast<std::size_t>(s.num("layout"))].size;
  std::vector<double> weight(TS_COUNT);
  const double base[TS_COUNT] = {1.5, 6, 6, 6, 4, 3, 1, 2, 2, 2, 1, 1, 1, 0.7, 2, 0.3, 1.5};
  for (int i = 0; i < TS_COUNT; i++)
    weight[i] = base[i] * (g.chance(0.2) ? 0 : 0.3 + 0.1 * static_cast<double>(g.below(20)));
  if (c17)
    weight[TS_CREATE] = 4;
  double sum = 0;
  for (double x : weight)
    sum += x;
  const double faults = g.chance(0.25) ? 0 : 0.1 + 0.05 * static_cast<double>(g.below(8));
  const int regs_bias = static_cast<int>(g.below(3));
  auto push = [&](int k, int sub) {
    Op o;
    o.kind = OP_TUPLE;
    o.p.resize(TP_N);
    o.p[TP_SLOT] = k, o.p[TP_SUB] = sub;
    o.p[TP_SEED] = static_cast<i64>(g.next() >> 24);
    o.p[TP_TRIP] = g.chance(faults) ? static_cast<i64>(g.below(static_cast<u64>(size))) : -1;
    o.p[TP_A] = static_cast<i64>(g.below(64)), o.p[TP_B] = static_cast<i64>(g.below(64));
    o.p[TP_STYLE] = static_cast<i64>(g.below(16));
    if (sub == TS_CREATE) {
      o.p[TP_A] = static_cast<i64>(g.below(twapi::O_COUNT));
      if (g.below(3) < static_cast<u64>(regs_bias))
        o.p[TP_A] = twapi::O_REGISTERS;
      if (c17 && g.chance(0.5))
        o.p[TP_A] = g.below(2), o.p[TP_B] = twapi::C_DEFAULT;
    }
    if (sub == TS_STREAM_IN && g.chance(0.5)) // from the start, to anywhere
      o.p[TP_A] = 0, o.p[TP_B] = static_cast<i64>(g.below(static_cast<u64>(size + 1)));
    s.ops.push_back(o);
  };
  for (int k = 0; k < 4; k++)
    push(k, TS_CREATE);
  const int n = 6 + static_cast<int>(g.below(c17 ? 20 : 50));
  for (int i = 0; i < n; i++) {
    double x = static_cast<double>(g.below(1000000)) * 1e-6 * sum;
    int sub = 0;
    while (sub + 1 < TS_COUNT && x >= weight[sub])
      x -= weight[sub++];
    push(static_cast<int>(g.below(4)), sub);
  }
  (void)st;
  return s;
}
