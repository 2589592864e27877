// NodeWorld: one to three dispatchers of the real library, driven by a recorded history of operations and faults, each
// operation refined against the reference callee while it runs.
#pragma once
#include "model.hpp"
using namespace fwapi;

struct LoadedFw {
  std::string key; // "POOL variant format flavour"
  std::string pool_name, variant, flavour;
  u64 text_begin = 0, text_end = 0; // of the "step" flavour
  std::map<u64, std::vector<u64>> points; // instructions executed by each kind of operation of each kind of dispatcher
  int pool, format;
  const Firmware *fw;
};
extern std::vector<LoadedFw> g_fws;
const LoadedFw *find_fw(const std::string &key);

enum OpKind {
  OP_NOP, OP_FEED, OP_PUT, OP_READ, OP_READBUF, OP_GET, OP_WRITE, OP_WRITEBUF, OP_PROCESS, OP_PROCBUF, OP_REPLY,
  OP_CALL, OP_COLLECT, OP_REPLACE, OP_ACTION, OP_LOOKUP, OP_DISPATCH, OP_SIZES, OP_RELOCATE, OP_ASSIGN, OP_EXCHANGE,
  OP_FORK, OP_DESTROY, OP_CREATE, OP_RESYNC, OP_ISR, OP_DROPIN, OP_LINK, OP_STEP, OP_TUPLE, OP_SOAK, OP_COUNT
};
inline const char *op_name(int k) {
  static const char *n[] = {"nop", "feed", "put", "read", "readbuf", "get", "write", "writebuf", "process", "procbuf",
                            "reply", "call", "collect", "replace", "action", "lookup", "dispatch", "sizes", "relocate",
                            "assign", "exchange", "fork", "destroy", "create", "resync", "isr", "dropin", "link",
                            "step", "tuple", "soak"};
  return n[k];
}
enum { P_SLOT, P_SEED, P_CBT, P_SRC, P_SINK, P_A, P_B, P_C, P_D, P_NEST, P_NSEED, P_EXT };
inline const char *status_name(int s) {
  static const char *n[] = {"LOADING", "DROPPED", "RESOLVED", "threw", "none", "bad_alloc", "other"};
  return s >= 0 && s <= 6 ? n[s] : "?";
}
enum Trip { T_NONE, T_SRC, T_SINK, T_CB, T_COPY, T_ALLOC, T_EXT };

inline u64 trace_key(int op, int kind, int policy) { return static_cast<u64>(op * 100 + kind * 10 + policy); }

struct VioEx {
  Violation v;
};

struct NodeWorld : Host {
  const Spec &spec;
  Log &log;
  Stats &stats;
  std::unordered_set<u64> *states;
  const LoadedFw *fw = nullptr, *target = nullptr;
  const Pool *pool = nullptr;
  Format format;
  int kind, policy;
  u8 fill;
  bool single, plain;
  bool watch_alloc; // no allocation outside of callback installation
  bool strict;      // a single buffer receives nothing while a response is pending
  bool duplex;      // no request is completed while a response is pending
  bool stall;       // reads may run dry (the source then throws)
  bool noisy = false; // run twice with other memory contents: record the wire
  std::vector<u64> wire; // everything observable on the wire (C17)
  std::unique_ptr<Caller> caller;

  enum { SLOTS = 3, TARGET = 3 };
  struct Slot {
    std::unique_ptr<Callee> lib;
    RefCallee ref;
    std::deque<u8> inbox;
  } slot[4];

  // ---- state of the current call into the library
  int op_index = 0;
  const Op *op = nullptr;
  int cur = 0; // slot
  int trip = T_NONE;
  bool has_vio = false;
  Violation vio;
  struct {
    bool active = false;
    int fn, who;
    u64 calls;
    std::vector<u64> args;
    bool check_args = true;
  } exp;
  bool invoked = false;
  int inv_no = 0, src_no = 0, sink_no = 0, nest_no = 0, ext_no = 0;
  bool nested = false;
  std::map<int, i64> alive;
  int copies = 0, copyfail = -1;
  std::vector<std::pair<i64, i64>> isr_plan;
  bool isr_side_put = false, isr_ok = false, in_isr = false;
  std::size_t isr_next = 0;
  int next_who = WHO_STATEFUL;
  // hook expectation
  struct {
    bool active = false;
    int fn, who;
    std::vector<u64> args;
    bool done = false;
  } hk;
  // forwarded replies awaiting execution by the target: function which produced it, its value and bytes
  struct Fwd {
    int fn;
    std::vector<u64> value;
    std::vector<u8> bytes;
  };
  std::deque<Fwd> fwds;
  u64 served = 0;
  Failures failures;

  virtual void emitted(u8) {}                                                          // slot 0 sent a byte
  virtual void executed(int, const std::vector<u64> &, const std::vector<u64> &) {}    // slot 0 ran a callback
  virtual ~NodeWorld() {}
  NodeWorld(const Spec &s, Log &l, Stats &st, std::unordered_set<u64> *states) : spec(s), log(l), stats(st), states(states) {}

  [[noreturn]] void fail(const std::string &cls, const std::string &detail) {
    VioEx e;
    e.v.cls = cls, e.v.detail = detail, e.v.op = op_index;
    throw e;
  }
  // Inside a callback from the library
  [[noreturn]] void fail_in(const std::string &cls, const std::string &detail) {
    if (!has_vio) {
      has_vio = true;
      vio.cls = cls, vio.detail = detail, vio.op = op_index;
    }
    throw Stop();
  }

  // ------------------------------------------------------------------------------------------ Host
  void invoke(int who, int fn, u64 calls, const u64 *args, int nargs, u64 *ret, int nret) override {
    OutOfLib out;
    if (fn >= HOOK) {
      if (!hk.active || hk.done || fn - HOOK != hk.fn)
        fail_in("hook-phantom", fmt("hook %d called unexpectedly", fn - HOOK));
      if (who != hk.who)
        fail_in("hook-wrong-callback", fmt("hook of instance %d called, expected %d", who, hk.who));
      if (std::vector<u64>(args, args + nargs) != hk.args)
        fail_in("hook-value", fmt("hook %d got another value than the callback returned", hk.fn));
      hk.done = true;
      log.ev("hook", {}, {static_cast<u64>(hk.fn)});
      return;
    }
    Slot &s = slot[cur];
    if (!exp.active || invoked)
      fail_in("phantom-call", fmt("callback of function %d invoked while no request for it was complete", fn));
    if (fn != exp.fn)
      fail_in("wrong-function", fmt("function %d invoked instead of %d", fn, exp.fn));
    if (who != exp.who)
      fail_in("wrong-callback", fmt("function %d: callback instance %d invoked instead of %d", fn, who, exp.who));
    if (calls != exp.calls)
      fail_in("callback-state", fmt("function %d: callback state is %llu, expected %llu", fn,
                                    (unsigned long long)calls, (unsigned long long)exp.calls));
    if (exp.check_args && std::vector<u64>(args, args + nargs) != exp.args) {
      std::string d = fmt("function %d: arguments", fn);
      for (int i = 0; i < nargs; i++)
        d += fmt(" %llx(%llx)", (unsigned long long)args[i],
                 i < (int)exp.args.size() ? (unsigned long long)exp.args[i] : 0ull);
      fail_in("arguments", d + " got(expected)");
    }
    invoked = true;
    served++;
    if (s.ref.cb[fn].kind == CB_MUTABLE)
      s.ref.cb[fn].calls++;
    for (int i = 0; i < nargs; i++)
      wire.push_back(args[i]);
    nest_point(fn);
    if (inv_no++ == op->at(P_CBT, -1)) {
      trip = T_CB;
      stats.hit("fault.callback_throw");
      log.ev("cb-throw", {}, {static_cast<u64>(fn)});
      failures.raise(T_CB);
    }
    Rng g(mix64(static_cast<u64>(op->at(P_SEED))) + static_cast<u64>(inv_no));
    std::vector<u64> v = gen_values(g, s.ref.f, s.ref.pool->fns[fn].ret);
    if (static_cast<int>(v.size()) != nret)
      fail_in("harness", "return schema mismatch");
    std::copy(v.begin(), v.end(), ret);
    s.ref.returned(v);
    if (cur == 0)
      executed(fn, exp.args, v);
    log.ev("invoke", {static_cast<u64>(who)}, {static_cast<u64>(cur), static_cast<u64>(fn)});
    if (!v.empty())
      log.ev("ret", {v[0]});
  }
  // Full-duplex links: with each byte sent comes a byte received, and the other way round. A byte sink feeds the double
  // buffered dispatcher it serves with bytes which complete no request, a byte source takes bytes of the response.
  enum Side { NO_SIDE, RECEIVING, SENDING };
  bool full_duplex(Side side, Rng &g) {
    Slot &s = slot[cur];
    if (side == NO_SIDE || !s.lib || plain || cur == TARGET || s.ref.single || !isr_plan.empty())
      return false;
    i64 n = 1 + static_cast<i64>(g.below(g.chance(0.5) ? 2 : 8));
    stats.hit(side == SENDING ? "event.put_while_sending" : "event.get_while_receiving");
    for (; n > 0; n--) {
      if (side == SENDING) {
        if (s.inbox.empty() || s.ref.peek(s.inbox.front()) == RefCallee::CALL)
          break;
        const u8 b = s.inbox.front();
        s.inbox.pop_front();
        const int want = want_status(s.ref.put(b));
        const int saved = g_alloc.in_lib;
        g_alloc.in_lib = 1;
        const int st = s.lib->put(b);
        g_alloc.in_lib = saved;
        log.ev("duplex-put", {b}, {static_cast<u64>(want)});
        if (st != want)
          fail_in("duplex-status", fmt("put() while sending reported %s, expected %s", status_name(st), status_name(want)));
      } else {
        if (s.ref.resp_state == R_VOID)
          break;
        const bool p = s.ref.pending();
        if (s.lib->loaded() != p)
          fail_in("duplex-is-loaded", fmt("is_loaded() while receiving is %d, expected %d", !p, p));
        const int saved = g_alloc.in_lib;
        g_alloc.in_lib = 1;
        const u8 b = s.lib->get();
        g_alloc.in_lib = saved;
        log.ev("duplex-get", {}, {p});
        if (!p)
          break;
        const u8 e = s.ref.take();
        wire.push_back(b);
        if (b != e)
          fail_in("duplex-wrong-output", fmt("get() while receiving gave %02x, expected %02x", b, e));
        if (cur == 0)
          emitted(b);
      }
    }
    return true;
  }
  // User code called by the library uses the library itself: it serves a request with another dispatcher, replaces a
  // callback (other than the one being executed) or moves bytes in the other direction. running: the function whose
  // callback this is, if it is one.
  enum { NS_REPLACE = 1, NS_DUPLEX_ONLY = 2, NS_BITS = 2 };
  void nest_point(int running, Side side = NO_SIDE) {
    if (nested || op->at(P_NEST, -1) < 0 || nest_no++ != op->at(P_NEST) || has_vio)
      return;
    Rng g(mix64(static_cast<u64>(op->at(P_NSEED))));
    const bool only = op->at(P_NSEED) & NS_DUPLEX_ONLY;
    if ((g.chance(0.3) || only) && full_duplex(side, g))
      return;
    if (only)
      return;
    const bool replace = g.chance(0.4) && (op->at(P_NSEED) & NS_REPLACE);
    const int fn_at = static_cast<int>(g.below(pool->keyed.size())), fn = pool->keyed[static_cast<std::size_t>(fn_at)];
    int other = (cur + 1 + static_cast<int>(g.below(SLOTS - 1))) % SLOTS;
    if (cur == TARGET || (replace && (fn == running || ((plain || op->kind == OP_ACTION) && running < 0))) || (!replace && !slot[other].lib))
      return;
    // everything about the interrupted call
    const Op *op0 = op;
    const int cur0 = cur, trip0 = trip, inv0 = inv_no, src0 = src_no, sink0 = sink_no, nest0 = nest_no, ext0 = ext_no, copies0 = copies, copyfail0 = copyfail;
    const auto exp0 = exp;
    const auto hk0 = hk;
    const bool invoked0 = invoked, put0 = isr_side_put, ok0 = isr_ok;
    const AllocCtl alloc0 = g_alloc;
    nested = true;
    stats.hit(replace ? "event.nested_replace" : "event.nested_request");
    log.ev("nest", {}, {replace, static_cast<u64>(other)});
    auto quiet = [&](int k, i64 a, i64 b, i64 c, i64 d) {
      Op q;
      q.kind = k;
      q.p = {replace ? cur0 : other, static_cast<i64>(g.next() >> 8), -1, -1, -1, a, b, c, d};
      return q;
    };
    try {
      if (replace) {
        const Op q = quiet(OP_REPLACE, fn_at, static_cast<i64>(g.below(CB_COUNT)), -1, -1);
        op = &q;
        op_replace(q, slot[cur]);
        check_lifetimes();
      } else {
        const Op call = quiet(OP_CALL, fn_at, static_cast<i64>(g.below(OUT_COUNT)), 0, 0);
        const Op serve = plain ? quiet(OP_DISPATCH, static_cast<i64>(g.below(IN_COUNT)), static_cast<i64>(g.below(OUT_COUNT)), 0, 0)
                               : quiet(OP_PUT, 400, 0, 0, 0);
        const Op take = quiet(plain ? OP_NOP : OP_COLLECT, static_cast<i64>(g.below(OUT_COUNT)), 0, static_cast<i64>(g.below(IN_COUNT)), 0);
        for (const Op *q : {&call, &serve, &take})
          run_op(*q);
      }
    } catch (const VioEx &e) {
      if (!has_vio)
        has_vio = true, vio = e.v;
    }
    nested = false;
    op = op0, cur = cur0, trip = trip0, inv_no = inv0, src_no = src0, sink_no = sink0, nest_no = nest0, ext_no = ext0, copies = copies0, copyfail = copyfail0;
    exp = exp0, hk = hk0, invoked = invoked0, isr_side_put = put0, isr_ok = ok0;
    const auto live = g_alloc.live;
    g_alloc = alloc0, g_alloc.live = live;
    if (has_vio)
      throw Stop();
  }
  void born(int who) override {
    OutOfLib out;
    alive[who]++;
  }
  void died(int who) override {
    OutOfLib out;
    if (--alive[who] < 0 && !has_vio) {
      has_vio = true;
      vio.cls = "double-destruction", vio.detail = fmt("callback instance %d destroyed more than once", who);
      vio.op = op_index;
    }
  }
  bool handle_failure() override {
    OutOfLib out;
    return failures.handle();
  }
  void copy_point(int) override {
    OutOfLib out;
    if (copies++ == copyfail) {
      trip = T_COPY;
      stats.hit("fault.copy_throw");
      failures.raise(T_COPY);
    }
  }

  void extension_point(int what) override {
    OutOfLib out;
    nest_point(exp.active ? exp.fn : -1);
    if (ext_no++ == op->at(P_EXT, -1)) {
      trip = T_EXT;
      stats.hit(what ? "fault.serialize_throw" : "fault.unserialize_throw");
      log.ev("ext-throw", {}, {static_cast<u64>(what)});
      if (exp.active) {
        // like a failing callback: the request is consumed and there is no response
        RefCallee &r = slot[cur].ref;
        r.resp.clear(), r.resp_values.clear(), r.next = 0, r.resp_state = R_NONE, r.resp_fn = -1;
        exp.active = false;
      }
      failures.raise(T_EXT);
    }
  }

  // ---------------------------------------------------------------------------- seams: byte source and sink
  // Lock step with the reference: each byte taken by the library is given to the reference first.
  struct StepSource : Source {
    NodeWorld &w;
    int mode; // 0 buffered read, 1 plain dispatch, 2 fixed bytes
    bool complete = false;
    RefCallee::Outcome last = RefCallee::LOADING;
    const std::vector<u8> *fixed = nullptr;
    std::size_t pos = 0;
    StepSource(NodeWorld &w, int mode) : w(w), mode(mode) {}
    u8 next() override {
      OutOfLib out;
      w.nest_point(-1, mode == 0 ? RECEIVING : NO_SIDE);
      if (w.src_no++ == w.op->at(P_SRC, -1)) {
        w.trip = T_SRC;
        w.stats.hit("fault.source_throw");
        w.log.ev("src-throw", {}, {static_cast<u64>(w.src_no)});
        w.failures.raise(T_SRC);
      }
      if (mode == 2) {
        if (pos >= fixed->size())
          w.fail_in("over-read", fmt("byte %zu requested from a message of %zu bytes", pos + 1, fixed->size()));
        w.wire.push_back((*fixed)[pos]);
        return (*fixed)[pos++];
      }
      Slot &s = w.slot[w.cur];
      if (complete)
        w.fail_in("over-read", "a byte was taken after the one which completed or dropped the packet");
      if (s.inbox.empty()) {
        w.trip = T_SRC;
        w.stats.hit("fault.source_stall");
        w.log.ev("stall");
        w.failures.raise(T_SRC);
      }
      u8 b = s.inbox.front();
      if (mode == 0)
        w.isr_ok = s.ref.peek(b) != RefCallee::CALL;
      s.inbox.pop_front();
      last = s.ref.put(b);
      w.log.ev("in", {b}, {static_cast<u64>(last)});
      if (last != RefCallee::LOADING)
        complete = true;
      if (last == RefCallee::CALL)
        w.expect_call();
      return b;
    }
  };
  struct StepSink : Sink {
    NodeWorld &w;
    bool fixed = false; // output to compare with `want`, else the pending response
    std::vector<u8> want;
    std::size_t pos = 0, wildcard_from = ~std::size_t(0);
    std::vector<u8> got;
    bool silent = false; // any output is a violation
    explicit StepSink(NodeWorld &w) : w(w) {}
    void put(u8 b) override {
      OutOfLib out;
      w.nest_point(-1, fixed || silent ? NO_SIDE : SENDING);
      if (silent)
        w.fail_in("unexpected-output", "a byte was output although there is none to send");
      if (fixed) {
        if (pos >= want.size())
          w.fail_in("surplus-output", fmt("byte %zu output of a message of %zu bytes", pos + 1, want.size()));
        if (pos < wildcard_from && want[pos] != b)
          w.fail_in("wrong-output", fmt("byte %zu of the message is %02x, expected %02x", pos, b, want[pos]));
        pos++;
      } else {
        RefCallee &r = w.slot[w.cur].ref;
        if (!r.pending())
          w.fail_in("surplus-output", "a byte was output after the end of the response");
        std::size_t at = r.next;
        u8 e = r.take();
        if (e != b)
          w.fail_in("wrong-output", fmt("byte %zu of the response of function %d is %02x, expected %02x", at, r.resp_fn, b, e));
        w.log.ev("out", {b});
        if (w.cur == 0)
          w.emitted(b);
      }
      got.push_back(b);
      w.wire.push_back(b);
      if (w.sink_no++ == w.op->at(P_SINK, -1)) {
        w.trip = T_SINK;
        w.stats.hit("fault.sink_throw");
        w.log.ev("sink-throw", {}, {static_cast<u64>(w.sink_no)});
        w.failures.raise(T_SINK);
      }
    }
  };

  void expect_call() {
    Slot &s = slot[cur];
    CbModel &cb = s.ref.cb[s.ref.called];
    exp.active = true;
    exp.fn = s.ref.called;
    exp.who = cb.who;
    exp.calls = cb.calls;
    exp.args = s.ref.args;
    exp.check_args = true;
    invoked = false;
  }

  // --------------------------------------------------------------------------------- entering the library
  void begin(bool serving = true) {
    poison_stack(fill);
    enter(serving);
  }
  void enter(bool serving = true) {
    trip = T_NONE;
    exp.active = false;
    invoked = false;
    inv_no = src_no = sink_no = nest_no = ext_no = 0;
    g_alloc.count = 0;
    g_alloc.failed = false;
    if (serving && watch_alloc)
      g_alloc.fail_all = true;
    if (!isr_plan.empty()) {
      isr_next = 0;
      g_isr.handler = &NodeWorld::isr_entry;
      g_isr.ctx = this;
      g_isr.accesses = 0;
      g_isr.countdown = isr_plan[0].first;
      g_isr.armed = true;
    }
    go();
  }
  void go() {
    g_alloc.in_lib = 1;
    if (g_isr.armed && g_isr.stepping) {
      g_isr.trace_key = trace_key(op->kind, kind, policy);
      const Slot &s = slot[cur];
      if (!g_trace || (isr_side_put ? !s.inbox.empty() : s.ref.resp_state != R_VOID && s.ref.pending()))
        watch_on();
    }
  }
  void leave() {
    if (g_isr.stepping)
      watch_off();
    g_alloc.in_lib = 0;
  }
  void end(bool serving = true) {
    leave();
    g_alloc.fail_all = false;
    g_isr.armed = false;
    if (has_vio) {
      VioEx e;
      e.v = vio;
      throw e;
    }
    if (serving && watch_alloc && g_alloc.count)
      fail("allocation", fmt("%s allocated memory %lld time(s)", op_name(op->kind), (long long)g_alloc.count));
  }
  // Ends a call which returned status st; ok is the status expected without failure
  void settle(int st, int ok) {
    if (trip != T_NONE && trip != T_ALLOC) {
      if (st != ST_THREW)
        fail("swallowed-exception", fmt("%s: a failure of kind %d did not reach the calling code (%s)",
                                        op_name(op->kind), trip, status_name(st)));
      if (failures.caught != failures.thrown)
        fail("exception-changed", fmt("%s: another exception than the one thrown (kind %d) reached the calling code", op_name(op->kind), trip));
    } else if (st != ok)
      fail("status", fmt("%s reported %s, expected %s", op_name(op->kind), status_name(st), status_name(ok)));
    if (exp.active && !invoked)
      fail("lost-call", fmt("the request for function %d was not executed", exp.fn));
    exp.active = false;
  }
  void check_state(int i) {
    Slot &s = slot[i];
    if (!s.lib || (i != TARGET && plain))
      return;
    if (s.ref.resp_state != R_VOID && s.lib->loaded() != s.ref.pending())
      fail("is-loaded", fmt("is_loaded() is %d, expected %d", !s.ref.pending(), s.ref.pending()));
    if (!s.lib->intact())
      fail("out-of-buffer", "memory around the buffers of the derived class was altered");
    if (states) {
      u64 h = mix64(static_cast<u64>(op->kind));
      h = mix64(h ^ s.ref.in.size() ^ (static_cast<u64>(kind) << 32) ^ (static_cast<u64>(policy) << 40));
      h = mix64(h ^ (s.ref.resp.size() - s.ref.next) ^ (static_cast<u64>(s.ref.resp_state) << 32));
      h = mix64(h ^ static_cast<u64>(trip) ^ (s.ref.in.empty() ? 0 : static_cast<u64>(s.ref.in[0]) << 8) ^
                (static_cast<u64>(pool->id) << 24) ^ (static_cast<u64>(fw->format) << 32));
      if (states->size() < 400000)
        states->insert(h);
    }
  }

  // ------------------------------------------------------------------------------------------ interrupts
  u64 where() const { return g_isr.stepping ? static_cast<u64>(isr_plan[isr_next].first) : g_isr.accesses; }
  static void isr_entry(void *p) { static_cast<NodeWorld *>(p)->isr(); }
  void isr() {
    // Runs between two memory accesses of the interrupted operation, on the other side of the same dispatcher.
    OutOfLib out;
    Slot &s = slot[cur];
    i64 count = isr_plan[isr_next].second;
    in_isr = true;
    if (isr_side_put) {
      for (; count > 0 && !s.inbox.empty(); count--) {
        u8 b = s.inbox.front();
        if (s.ref.peek(b) == RefCallee::CALL)
          break; // completion while a response is pending is excluded
        s.inbox.pop_front();
        RefCallee::Outcome o = s.ref.put(b);
        stats.hit("fault.interrupt_put");
        g_alloc.in_lib = 1;
        int st = s.lib->put(b);
        g_alloc.in_lib = 0;
        int want = o == RefCallee::DROPPED ? ST_DROPPED : ST_LOADING;
        log.ev("isr-put", {b}, {static_cast<u64>(want), where()});
        if (st != want && !has_vio) {
          has_vio = true;
          vio.cls = "isr-status", vio.op = op_index;
          vio.detail = fmt("put() in an interrupt reported %s, expected %s", status_name(st), status_name(want));
        }
      }
    } else if (isr_ok) {
      for (; count > 0 && s.ref.resp_state != R_VOID; count--) {
        bool p = s.ref.pending();
        stats.hit("fault.interrupt_get");
        bool l = s.lib->loaded();
        g_alloc.in_lib = 1;
        u8 b = s.lib->get();
        g_alloc.in_lib = 0;
        log.ev("isr-get", {}, {p, where()});
        if (l != p && !has_vio) {
          has_vio = true;
          vio.cls = "isr-is-loaded", vio.op = op_index;
          vio.detail = fmt("is_loaded() in an interrupt is %d, expected %d", l, p);
        }
        if (p) {
          u8 e = s.ref.take();
          if (e != b && !has_vio) {
            has_vio = true;
            vio.cls = "isr-wrong-output", vio.op = op_index;
            vio.detail = fmt("get() in an interrupt gave %02x, expected %02x", b, e);
          }
        } else
          break;
      }
    }
    in_isr = false;
    isr_next++;
    if (isr_next < isr_plan.size())
      g_isr.countdown = isr_plan[isr_next].first;
    else
      g_isr.countdown = 0; // disarms
  }

  // ---------------------------------------------------------------------------------------------- helpers
  bool packet_complete(const Slot &s) const {
    RefCallee t = s.ref;
    for (u8 b : s.inbox)
      if (t.put(b) != RefCallee::LOADING)
        return true;
    return false;
  }
  RefCallee::Outcome next_outcome(const Slot &s) const {
    RefCallee t = s.ref;
    for (u8 b : s.inbox) {
      RefCallee::Outcome o = t.put(b);
      if (o != RefCallee::LOADING)
        return o;
    }
    return RefCallee::LOADING;
  }
  // The slot may be asked for a whole packet
  bool may_read(const Slot &s) const {
    if (!s.ref.pending())
      return true;
    if (strict && s.ref.single)
      return false;
    return !duplex || next_outcome(s) == RefCallee::DROPPED;
  }
  static int want_status(RefCallee::Outcome o) {
    return o == RefCallee::LOADING ? ST_LOADING : o == RefCallee::DROPPED ? ST_DROPPED : ST_RESOLVED;
  }
  void create(int i) {
    const LoadedFw *f = i == TARGET ? target : fw;
    int k = i == TARGET ? K_DOUBLE : kind;
    exp.active = false;
    g_alloc.poison = fill;
    poison_stack(fill);
    // creation under the weak policy must not allocate
    bool weak = i != TARGET && policy == P_WEAK && watch_alloc;
    trip = T_NONE;
    g_alloc.count = 0, g_alloc.failed = false;
    g_alloc.fail_all = weak;
    g_alloc.in_lib = 1;
    Callee *c = f->fw->make_callee(k, i == TARGET ? P_WEAK : policy, fill);
    g_alloc.in_lib = 0;
    g_alloc.fail_all = false;
    if (weak && g_alloc.count)
      fail("allocation", "constructing a dispatcher of static callbacks allocated memory");
    if (!c)
      fail("harness", "no such dispatcher in the firmware");
    slot[i].lib.reset(c);
    slot[i].ref = RefCallee();
    slot[i].ref.init(pool_of(i), Format(f->format), i != TARGET && single);
    slot[i].inbox.clear();
  }
  void destroy(int i) {
    g_alloc.count = 0;
    g_alloc.fail_all = watch_alloc;
    g_alloc.in_lib = 1;
    slot[i].lib.reset();
    g_alloc.in_lib = 0;
    g_alloc.fail_all = false;
    if (watch_alloc && g_alloc.count)
      fail("allocation", "destroying a dispatcher allocated memory");
    if (has_vio) {
      VioEx e;
      e.v = vio;
      throw e;
    }
  }
  // Callbacks in service must be alive
  void check_lifetimes() {
    std::map<int, int> need;
    for (int i = 0; i < SLOTS; i++)
      if (slot[i].lib)
        for (auto &cb : slot[i].ref.cb)
          if (cb.who >= WHO_STATEFUL)
            need[cb.who]++;
    for (auto &n : need)
      if (alive[n.first] < n.second)
        fail("callback-lifetime", fmt("callback instance %d was destroyed while in service", n.first));
  }

  // ------------------------------------------------------------------------------------------- operations
  void put_bytes(Slot &s, i64 n) {
    isr_side_put = false;
    for (; n > 0 && !s.inbox.empty(); n--) {
      u8 b = s.inbox.front();
      if (s.ref.pending() && ((strict && s.ref.single) || (duplex && s.ref.peek(b) == RefCallee::CALL)))
        break;
      begin(); // resets the expectation
      leave();
      isr_ok = s.ref.peek(b) != RefCallee::CALL;
      s.inbox.pop_front();
      RefCallee::Outcome o = s.ref.put(b);
      log.ev("put", {b}, {static_cast<u64>(o)});
      if (o == RefCallee::CALL)
        expect_call();
      go();
      int st = s.lib->put(b);
      end();
      settle(st, want_status(o));
      check_state(cur);
      isr_plan.clear();
    }
  }

  // Encodes a request with the real key, in the given style
  std::vector<u8> encode_call(int fn, std::vector<u64> args, int style) {
    StepSink sink(*this);
    sink.fixed = true;
    sink.want = encode_request(*pool, format, fn, args);
    args.push_back(0);
    if (caller->payload_length(fn) != sink.want.size())
      fail("payload-length", fmt("key %d announces %zu bytes, requests have %zu", fn, caller->payload_length(fn), sink.want.size()));
    if (caller->index(fn) != static_cast<u64>(fn))
      fail("key-index", fmt("key %d announces index %llu", fn, (unsigned long long)caller->index(fn)));
    std::vector<u8> sent;
    if (style < OUT_COUNT) {
      begin();
      int st = caller->encode(fn, args.data(), sink, style);
      end();
      settle(st, ST_NONE);
      sent = sink.got;
      if (trip == T_NONE && sent.size() != sink.want.size())
        fail("short-output", fmt("key %d put %zu bytes of %zu", fn, sent.size(), sink.want.size()));
    } else {
      std::unique_ptr<u8[]> buf(new u8[sink.want.size()]); // exactly as large as announced
      memset(buf.get(), fill, sink.want.size());
      begin();
      int st = caller->encode_buffer(fn, args.data(), buf.get(), sink.want.size(), style - OUT_COUNT);
      end();
      settle(st, ST_NONE);
      if (trip != T_NONE)
        return sent;
      sent.assign(buf.get(), buf.get() + sink.want.size());
      for (u8 b : sent)
        wire.push_back(b);
      if (sent != sink.want)
        fail("wrong-output", fmt("key %d wrote %s, expected %s", fn, hex(sent).c_str(), hex(sink.want).c_str()));
    }
    return sent;
  }

  void run_op(const Op &o) {
    op = &o;
    cur = static_cast<int>(o.at(P_SLOT));
    if (cur < 0 || cur > TARGET)
      return;
    Slot &s = slot[cur];
    const bool buffered = s.lib && (cur == TARGET || !plain);
    copyfail = -1;
    switch (o.kind) {
    case OP_NOP: break;
    case OP_FEED:
      if (s.lib) {
        log.ev("feed", {}, {o.bytes.size()});
        s.inbox.insert(s.inbox.end(), o.bytes.begin(), o.bytes.end());
      }
      break;
    case OP_DROPIN:
      s.inbox.clear();
      break;
    case OP_ISR: {
      isr_plan.clear();
      for (std::size_t i = 1; i + 1 < o.p.size(); i += 2)
        if (o.p[i] > 0)
          isr_plan.push_back({o.p[i], o.p[i + 1]});
      return; // keeps the plan for the next operation
    }
    case OP_CALL: { // a caller encodes a request
      if (!s.lib || cur == TARGET)
        break;
      int fn = pool->keyed[static_cast<std::size_t>(o.at(P_A)) % pool->keyed.size()];
      Rng g(static_cast<u64>(o.at(P_SEED)));
      std::vector<u64> args = gen_values(g, format, pool->fns[fn].args);
      std::vector<u8> sent = encode_call(fn, args, static_cast<int>(o.at(P_B)));
      log.ev("request", {}, {static_cast<u64>(fn), sent.size()});
      s.inbox.insert(s.inbox.end(), sent.begin(), sent.end());
      break;
    }
    case OP_PUT:
      if (buffered) {
        isr_side_put = false;
        put_bytes(s, o.at(P_A, 1));
      }
      break;
    case OP_READ:
      if (buffered && may_read(s)) {
        if (!stall && o.at(P_SRC, -1) < 0 && !packet_complete(s)) {
          put_bytes(s, static_cast<i64>(s.inbox.size()));
          break;
        }
        StepSource src(*this, 0);
        isr_side_put = false;
        isr_ok = true;
        begin();
        int st = s.lib->read(src, static_cast<int>(o.at(P_A)));
        end();
        if (trip == T_NONE && !src.complete)
          fail("incomplete-read", "a complete-packet read returned before the end of a packet");
        settle(st, want_status(src.last));
        log.ev("read", {}, {static_cast<u64>(st)});
      }
      break;
    case OP_READBUF:
    case OP_PROCBUF:
      if (buffered && may_read(s) && packet_complete(s)) {
        std::vector<u8> bytes;
        RefCallee::Outcome out = RefCallee::LOADING;
        bool was_pending = s.ref.pending();
        begin();
        leave();
        while (out == RefCallee::LOADING) {
          bytes.push_back(s.inbox.front());
          out = s.ref.put(s.inbox.front());
          s.inbox.pop_front();
        }
        if (out == RefCallee::CALL)
          expect_call();
        (void)was_pending;
        std::unique_ptr<u8[]> exact(new u8[bytes.size()]);
        std::copy(bytes.begin(), bytes.end(), exact.get());
        int st;
        if (o.kind == OP_READBUF) {
          go();
          st = s.lib->read_buffer(exact.get(), bytes.size(), static_cast<int>(o.at(P_A)));
          end();
          settle(st, want_status(out));
        } else {
          std::size_t n = out == RefCallee::CALL ? static_cast<std::size_t>(pool_of(cur).fns[s.ref.called].retsize) : 0;
          std::unique_ptr<u8[]> dest(new u8[n]);
          memset(dest.get(), fill, n);
          go();
          st = s.lib->process_buffer(exact.get(), dest.get(), static_cast<int>(o.at(P_A)));
          end();
          settle(st, want_status(out));
          if (out == RefCallee::CALL && trip == T_NONE)
            for (std::size_t i = 0; i < n; i++) {
              wire.push_back(dest[i]);
              u8 e = s.ref.take();
              if (dest[i] != e)
                fail("wrong-output", fmt("byte %zu of the response is %02x, expected %02x", i, dest[i], e));
              if (cur == 0)
                emitted(e);
            }
        }
        log.ev(op_name(o.kind), {}, {static_cast<u64>(st), bytes.size()});
      }
      break;
    case OP_GET:
      if (buffered)
        for (i64 n = o.at(P_A, 1); n > 0; n--) {
          isr_side_put = true;
          bool p = s.ref.pending();
          bool unspecified = s.ref.resp_state == R_VOID;
          std::size_t at = s.ref.next;
          u8 e = 0;
          if (p)
            e = s.ref.take(); // an interrupt does not look at the response while this byte is taken
          begin();
          u8 b = s.lib->get();
          end();
          isr_plan.clear();
          log.ev("get", {e}, {p});
          if (p)
            wire.push_back(b);
          if (p && b != e)
            fail("wrong-output", fmt("byte %zu of the response of function %d is %02x, expected %02x", at, s.ref.resp_fn, b, e));
          if (p && cur == 0)
            emitted(b);
          if (unspecified)
            break;
          check_state(cur);
        }
      break;
    case OP_WRITE:
      if (buffered && s.ref.resp_state != R_VOID) {
        StepSink sink(*this);
        isr_side_put = true;
        begin();
        int st = s.lib->write(sink, static_cast<int>(o.at(P_A)));
        end();
        settle(st, ST_NONE);
        if (trip == T_NONE && s.ref.pending())
          fail("short-output", fmt("write_to() left %zu bytes of the response", s.ref.resp.size() - s.ref.next));
        log.ev("write");
      }
      break;
    case OP_WRITEBUF:
      if (buffered && s.ref.resp_state != R_VOID) {
        std::size_t n = s.ref.pending() ? s.ref.resp.size() - s.ref.next : 0;
        std::unique_ptr<u8[]> dest(new u8[n]);
        memset(dest.get(), fill, n);
        isr_side_put = true;
        begin();
        int st = s.lib->write_buffer(dest.get(), n, static_cast<int>(o.at(P_A)));
        end();
        settle(st, ST_NONE);
        for (std::size_t i = 0; i < n; i++) {
          wire.push_back(dest[i]);
          u8 e = s.ref.take();
          if (dest[i] != e)
            fail("wrong-output", fmt("byte %zu of the rest of the response is %02x, expected %02x", i, dest[i], e));
          if (cur == 0)
            emitted(e);
        }
        log.ev("writebuf", {}, {n});
      }
      break;
    case OP_PROCESS:
      if (buffered && may_read(s)) {
        if (!stall && o.at(P_SRC, -1) < 0 && !packet_complete(s))
          break;
        StepSource src(*this, 0);
        StepSink sink(*this);
        // Output is legitimate only once this very operation has resolved a request
        struct Gate : Sink {
          StepSource &src;
          StepSink &sink;
          NodeWorld &w;
          Gate(StepSource &a, StepSink &b, NodeWorld &w) : src(a), sink(b), w(w) {}
          void put(u8 b) override {
            if (src.last != RefCallee::CALL) {
              OutOfLib out;
              w.fail_in("unexpected-output", "one-shot processing output a byte although it resolved no request");
            }
            sink.put(b);
          }
        } gate(src, sink, *this);
        begin();
        int st = s.lib->process(src, gate, static_cast<int>(o.at(P_A)), static_cast<int>(o.at(P_B)));
        end();
        if (trip == T_NONE && !src.complete)
          fail("incomplete-read", "one-shot processing returned before the end of a packet");
        settle(st, want_status(src.last));
        if (trip == T_NONE && src.last == RefCallee::CALL && s.ref.pending())
          fail("short-output", "one-shot processing did not output the whole response");
        log.ev("process", {}, {static_cast<u64>(st)});
      }
      break;
    case OP_REPLY: op_reply(o, s, buffered); break;
    case OP_COLLECT: op_collect(o, s, buffered); break;
    case OP_REPLACE: op_replace(o, s); break;
    case OP_ACTION:
      if (s.lib && cur != TARGET) {
        int fn = static_cast<int>(static_cast<u64>(o.at(P_C)) % pool->fns.size());
        std::vector<u8> bytes = o.bytes;
        bytes.resize(static_cast<std::size_t>(pool->fns[fn].argsize));
        StepSource src(*this, 2);
        src.fixed = &bytes;
        ActionSink sink(*this);
        RefCallee keep = s.ref; // a direct call leaves the conversation alone
        begin();
        g_alloc.in_lib = 0;
        s.ref.called = fn;
        s.ref.args = decode_values(format, pool->fns[fn].args, bytes.data());
        expect_call();
        g_alloc.in_lib = 1;
        int st = s.lib->action_call(fn, src, sink, static_cast<int>(o.at(P_A)), static_cast<int>(o.at(P_B)));
        g_alloc.in_lib = 0;
        keep.cb = s.ref.cb;
        end();
        std::vector<u8> want = s.ref.resp_fn == fn && invoked ? s.ref.resp : std::vector<u8>();
        s.ref = keep;
        if (trip == T_SRC)
          exp.active = false;
        settle(st, ST_NONE);
        if (trip == T_NONE && (src.pos != bytes.size() || sink.got.size() != want.size()))
          fail("action-framing", fmt("action %d took %zu bytes of %zu and put %zu of %zu", fn, src.pos, bytes.size(), sink.got.size(), want.size()));
        log.ev("action", {}, {static_cast<u64>(fn)});
      }
      break;
    case OP_DISPATCH:
    case OP_LOOKUP:
      if (s.lib && plain && cur != TARGET) {
        // the plain dispatcher keeps nothing between two calls
        s.ref.in.clear(), s.ref.resp.clear(), s.ref.resp_state = R_NONE;
        if (o.kind == OP_LOOKUP) {
          op_lookup(o, s);
          break;
        }
        if (s.inbox.empty())
          break;
        std::deque<u8> before = s.inbox;
        StepSource src(*this, 0);
        StepSink sink(*this);
        u64 index = 0;
        begin();
        int st = s.lib->dispatch(src, sink, static_cast<int>(o.at(P_A)), static_cast<int>(o.at(P_B)), &index);
        end();
        if (trip == T_SRC)
          exp.active = false, s.ref.in.clear();
        settle(st, ST_NONE);
        if (trip == T_NONE) {
          if (!src.complete)
            fail("incomplete-read", "a plain dispatcher did not take a whole request");
          std::vector<u8> head(before.begin(), before.begin() + pool->index_size);
          if (index != get_uint(format, head.data(), pool->index_size))
            fail("wrong-index", fmt("a plain dispatcher returned index %llu for %s", (unsigned long long)index, hex(head).c_str()));
          if (s.ref.pending())
            fail("short-output", "a plain dispatcher did not output the whole response");
        }
        const int fn = s.ref.called;
        const std::vector<u64> value = s.ref.resp_values;
        const bool answered = trip == T_NONE && src.last == RefCallee::CALL;
        s.ref.in.clear(), s.ref.resp.clear(), s.ref.resp_state = R_NONE;
        log.ev("dispatch", {}, {index, static_cast<u64>(trip)});
        if (answered && o.at(P_C, -1) >= 0 && std::binary_search(pool->keyed.begin(), pool->keyed.end(), fn)) {
          Op quiet = o;
          quiet.p[P_SRC] = quiet.p[P_SINK] = -1;
          if (quiet.p.size() > P_EXT)
            quiet.p[P_EXT] = -1;
          op = &quiet;
          decode_with(fn, sink.got, value, static_cast<int>(o.at(P_C)), static_cast<int>(o.at(P_D)));
          op = &o;
        }
      }
      break;
    case OP_SIZES:
      if (s.lib && cur != TARGET) {
        for (int fn : pool->keyed) {
          if (s.lib->input_size(fn) != static_cast<std::size_t>(pool->fns[fn].argsize))
            fail("input-size", fmt("action %d announces %zu bytes of input, it takes %d", fn, s.lib->input_size(fn), pool->fns[fn].argsize));
          if (s.lib->output_size(fn) != static_cast<std::size_t>(pool->fns[fn].retsize))
            fail("output-size", fmt("action %d announces %zu bytes of output, it puts %d", fn, s.lib->output_size(fn), pool->fns[fn].retsize));
        }
        if (!plain) {
          std::size_t i = static_cast<std::size_t>(pool->index_size + pool->max_args), r = static_cast<std::size_t>(pool->max_ret);
          if (s.lib->ibuf_size() < i || s.lib->obuf_size() < r)
            fail("buffer-size", fmt("announced buffers of %zu and %zu bytes, needed %zu and %zu", s.lib->ibuf_size(), s.lib->obuf_size(), i, r));
        }
        log.ev("sizes");
      }
      break;
    case OP_RELOCATE:
      if (s.lib && cur != TARGET) {
        begin();
        int st = s.lib->relocate();
        end();
        settle(st, ST_NONE);
        stats.hit("event.move");
        log.ev("relocate", {}, {s.ref.in.size(), s.ref.pending()});
      }
      break;
    case OP_ASSIGN:
    case OP_EXCHANGE:
      if (s.lib && cur != TARGET) {
        int from = static_cast<int>(o.at(P_A)) % SLOTS;
        if (from < 0 || !slot[from].lib)
          break;
        bool move = o.kind == OP_ASSIGN && (o.at(P_B) || policy != P_WEAK);
        if (from == cur && (o.kind == OP_EXCHANGE || move)) // only copies to itself are specified
          break;
        begin();
        int st = o.kind == OP_EXCHANGE ? s.lib->exchange(*slot[from].lib) : s.lib->assign(*slot[from].lib, move);
        end();
        settle(st, ST_NONE);
        if (o.kind == OP_EXCHANGE)
          std::swap(s.ref, slot[from].ref);
        else {
          s.ref = slot[from].ref;
          if (move)
            destroy(from);
        }
        stats.hit(o.kind == OP_EXCHANGE ? "event.exchange" : move ? "event.move_assign" : "event.copy_assign");
        log.ev(op_name(o.kind), {}, {static_cast<u64>(from), s.ref.in.size()});
        check_state(from);
      }
      break;
    case OP_FORK:
      if (s.lib && cur != TARGET && policy == P_WEAK) {
        int to = static_cast<int>(o.at(P_A)) % SLOTS;
        if (to < 0 || to == cur)
          break;
        if (slot[to].lib)
          destroy(to);
        begin();
        Callee *c = s.lib->fork(fill);
        end();
        slot[to].lib.reset(c);
        slot[to].ref = s.ref;
        slot[to].inbox = s.inbox;
        stats.hit("event.copy");
        log.ev("fork", {}, {static_cast<u64>(to)});
        check_state(to);
      }
      break;
    case OP_DESTROY:
      if (s.lib && cur != TARGET) {
        destroy(cur);
        s.inbox.clear();
        stats.hit("fault.node_crash");
        log.ev("destroy");
      }
      break;
    case OP_CREATE:
      if (!s.lib && cur != TARGET) {
        create(cur);
        log.ev("create");
      }
      break;
    case OP_RESYNC: op_resync(o, s, buffered); break;
    case OP_SOAK: op_soak(o, s, buffered); break;
    }
    isr_plan.clear();
    check_state(cur);
    check_lifetimes();
  }
  const Pool &pool_of(int i) const { return i == TARGET ? g_pools[target->pool] : *pool; }

  // Output of an action called directly: the response is known once the callback has run
  struct ActionSink : Sink {
    NodeWorld &w;
    std::vector<u8> got;
    explicit ActionSink(NodeWorld &w) : w(w) {}
    void put(u8 b) override {
      OutOfLib out;
      w.nest_point(-1);
      RefCallee &r = w.slot[w.cur].ref;
      if (!w.invoked)
        w.fail_in("unexpected-output", "an action output a byte before its callback returned");
      if (got.size() >= r.resp.size())
        w.fail_in("surplus-output", "an action output more than its return value");
      if (r.resp[got.size()] != b)
        w.fail_in("wrong-output", fmt("byte %zu of the output of the action is %02x, expected %02x", got.size(), b, r.resp[got.size()]));
      got.push_back(b);
      w.wire.push_back(b);
      if (w.sink_no++ == w.op->at(P_SINK, -1)) {
        w.trip = T_SINK;
        w.stats.hit("fault.sink_throw");
        w.failures.raise(T_SINK);
      }
    }
  };

  void op_lookup(const Op &o, Slot &s) {
    if (s.inbox.size() < static_cast<std::size_t>(pool->index_size))
      return;
    std::vector<u8> head(s.inbox.begin(), s.inbox.begin() + pool->index_size);
    StepSource src(*this, 2);
    src.fixed = &head;
    int found = -2;
    begin();
    int st = s.lib->lookup(src, static_cast<int>(o.at(P_A)), &found);
    end();
    settle(st, ST_NONE);
    if (trip == T_NONE) {
      s.inbox.erase(s.inbox.begin(), s.inbox.begin() + pool->index_size);
      u64 i = get_uint(format, head.data(), pool->index_size);
      int want = i < pool->fns.size() ? static_cast<int>(i) : -1;
      if (found != want || src.pos != head.size())
        fail("lookup", fmt("looking %s up gave action %d after %zu bytes, expected %d", hex(head).c_str(), found, src.pos, want));
      log.ev("lookup", {}, {static_cast<u64>(want)});
    }
  }

  void op_replace(const Op &o, Slot &s) {
    if (!s.lib || cur == TARGET)
      return;
    int fn = pool->keyed[static_cast<std::size_t>(o.at(P_A)) % pool->keyed.size()];
    int k = static_cast<int>(o.at(P_B)) % CB_COUNT;
    if (policy == P_WEAK && k > CB_STATIC_FUNCTOR && k != CB_ASSIGNED)
      k = k % 3;
    int who;
    switch (k) {
    case CB_DEFAULT: case CB_POINTER: who = fn; break;
    case CB_ALT_FUNCTION: case CB_FUNCTION: who = WHO_ALT + fn; break;
    case CB_STATIC_FUNCTOR: who = WHO_STATIC + fn; break;
    default: who = policy == P_WEAK ? WHO_ALT + fn : next_who++;
    }
    copies = 0, copyfail = static_cast<int>(o.at(P_D, -1));
    bool serving = policy == P_WEAK;
    begin(serving);
    g_alloc.fail_at = o.at(P_C, -1);
    int st = s.lib->replace(fn, k, who);
    bool oom = g_alloc.failed;
    g_alloc.fail_at = -1;
    end(serving);
    copyfail = -1;
    if (st == ST_NONE && trip == T_NONE) {
      s.ref.cb[fn].kind = k, s.ref.cb[fn].who = who, s.ref.cb[fn].calls = 0;
      stats.hit("event.replace");
    } else if (st == ST_OOM && oom) {
      stats.hit("fault.alloc_fail");
    } else if (st == ST_THREW && trip == T_COPY && failures.caught == failures.thrown) {
    } else
      fail("replace-status", fmt("replacing action %d by a callback of kind %d ended with %s", fn, k, status_name(st)));
    log.ev("replace", {static_cast<u64>(who)}, {static_cast<u64>(fn), static_cast<u64>(k), static_cast<u64>(st)});
  }

  void op_collect(const Op &o, Slot &s, bool buffered) {
    // A caller gets the pending response: decode with the key, or let the key's hook do it
    if (!buffered || cur == TARGET || !s.ref.pending() || s.ref.next != 0)
      return;
    const int fn = s.ref.resp_fn;
    if (!std::binary_search(pool->keyed.begin(), pool->keyed.end(), fn))
      return;
    std::vector<u64> value = s.ref.resp_values;
    StepSink sink(*this);
    i64 sf = o.at(P_SINK, -1);
    (void)sf;
    begin();
    int st = s.lib->write(sink, static_cast<int>(o.at(P_A)));
    end();
    settle(st, ST_NONE);
    if (trip != T_NONE)
      return;
    if (s.ref.pending())
      fail("short-output", "write_to() left a part of the response");
    decode_with(fn, sink.got, value, static_cast<int>(o.at(P_B)), static_cast<int>(o.at(P_C)));
  }
  // how: 0 decode from a stream, 1 decode from a buffer, 2..6 hooks
  void decode_with(int fn, const std::vector<u8> &bytes, const std::vector<u64> &value, int how, int style) {
    std::vector<u64> got(value.size() + 1);
    int st;
    how = how % 7;
    StepSource src(*this, 2);
    src.fixed = &bytes;
    if (how == 1) {
      std::unique_ptr<u8[]> exact(new u8[bytes.size()]);
      std::copy(bytes.begin(), bytes.end(), exact.get());
      begin();
      st = caller->decode_buffer(fn, exact.get(), bytes.size(), got.data(), style % BUF_COUNT);
      end();
      settle(st, ST_NONE);
    } else if (how == 0) {
      begin();
      st = caller->decode(fn, src, got.data(), style % IN_COUNT);
      end();
      settle(st, ST_NONE);
    } else {
      int k = how - 2;
      hk.fn = fn, hk.who = k == 2 || k == 3 ? WHO_STATIC + fn : next_who++;
      hk.args = value, hk.done = false, hk.active = true;
      bool serving = k == 2;
      copies = 0;
      begin(serving);
      st = caller->hook(fn, k, hk.who, src, style % IN_COUNT);
      end(serving);
      settle(st, ST_NONE);
      hk.active = false;
      if (trip == T_NONE && !hk.done)
        fail("hook-lost", fmt("the hook on function %d was not called", fn));
      if (alive[hk.who] != 0 && hk.who >= WHO_STATEFUL)
        fail("callback-lifetime", "a hook outlives the action which holds it");
      got = value;
      got.push_back(0);
      stats.hit("event.hook");
    }
    if (trip != T_NONE)
      return;
    got.pop_back();
    if (got != value)
      fail("decoded-value", fmt("function %d: decoded %llx, the callback returned %llx", fn,
                                (unsigned long long)(got.empty() ? 0 : got[0]), (unsigned long long)(value.empty() ? 0 : value[0])));
    if (how != 1 && src.pos != bytes.size())
      fail("decode-framing", fmt("decoding took %zu bytes of %zu", src.pos, bytes.size()));
    for (u64 v : got)
      wire.push_back(v);
    log.ev("decoded", {}, {static_cast<u64>(fn), static_cast<u64>(how)});
  }

  void op_reply(const Op &o, Slot &s, bool buffered) {
    if (!buffered || !slot[TARGET].lib || cur == TARGET || s.ref.resp_state == R_VOID)
      return;
    // Without a response there is nothing to forward; what reply() says then is not specified
    if (s.ref.resp.empty() || s.ref.resp_fn < 0)
      return;
    const Pool &rp = pool_of(TARGET);
    const int keyslot = static_cast<int>(o.at(P_A)) % static_cast<int>(rp.keyed.size()), key = rp.keyed[keyslot];
    std::size_t cap = static_cast<std::size_t>(rp.fns[key].argsize), n = s.ref.resp.size();
    const bool whole = s.ref.pending() && s.ref.next == 0;
    const bool want = whole && n <= cap;
    StepSink sink(*this);
    std::vector<u8> bytes = s.ref.resp;
    const int fn = s.ref.resp_fn;
    const std::vector<u64> value = s.ref.resp_values;
    if (want) {
      sink.fixed = true;
      put_uint(Format(target->format), static_cast<u64>(key), rp.index_size, sink.want);
      sink.want.insert(sink.want.end(), bytes.begin(), bytes.end());
      sink.wildcard_from = sink.want.size();
      sink.want.resize(static_cast<std::size_t>(rp.index_size) + cap);
    } else
      sink.silent = true;
    bool ok = !want;
    begin();
    int st = s.lib->reply(sink, keyslot, static_cast<int>(o.at(P_B)), &ok);
    if (want && !has_vio)
      s.ref.next = n, s.ref.resp_state = R_NONE; // nothing is left to send
    end();
    settle(st, ST_NONE);
    if (ok != want)
      fail("reply-result", fmt("forwarding a response of %zu bytes (%zu taken) to a buffer of %zu reported %d", n, s.ref.next, cap, ok));
    log.ev("reply", {}, {static_cast<u64>(key), want});
    if (!want) {
      stats.hit("event.reply_refused");
      return;
    }
    stats.hit("event.reply");
    if (sink.got.size() != sink.want.size())
      fail("short-output", fmt("the forwarded request has %zu bytes of %zu", sink.got.size(), sink.want.size()));
    // The other dispatcher executes it
    cur = TARGET;
    Slot &t = slot[TARGET];
    u64 before = served;
    for (u8 b : sink.got) {
      begin();
      g_alloc.in_lib = 0;
      RefCallee::Outcome out = t.ref.put(b);
      if (out == RefCallee::CALL)
        expect_call();
      Op quiet = *op;
      quiet.p[P_CBT] = -1;
      if (quiet.p.size() > P_EXT)
        quiet.p[P_EXT] = -1;
      const Op *keep = op;
      op = &quiet;
      g_alloc.in_lib = 1;
      int st2 = t.lib->put(b);
      end();
      settle(st2, want_status(out));
      op = keep;
    }
    if (served != before + 1)
      fail("reply-execution", "the forwarded request was not executed exactly once");
    check_state(TARGET);
    while (t.ref.pending())
      t.ref.take(), t.lib->get();
    cur = static_cast<int>(o.at(P_SLOT));
    if (std::binary_search(pool->keyed.begin(), pool->keyed.end(), fn)) {
      Op quiet = *op;
      quiet.p[P_SRC] = quiet.p[P_SINK] = quiet.p[P_CBT] = -1;
      if (quiet.p.size() > P_EXT)
        quiet.p[P_EXT] = -1;
      const Op *keep = op;
      op = &quiet;
      decode_with(fn, bytes, value, static_cast<int>(o.at(P_C)), static_cast<int>(o.at(P_D)));
      op = keep;
    }
  }

  void op_resync(const Op &o, Slot &s, bool buffered) {
    // Bytes of an unassigned index until a dropped packet is reported
    if (!buffered || cur == TARGET)
      return;
    s.inbox.clear();
    const std::size_t longest = static_cast<std::size_t>(pool->index_size + pool->max_args);
    std::size_t fed = 0;
    Op quiet = o;
    quiet.p[P_CBT] = -1;
      if (quiet.p.size() > P_EXT)
        quiet.p[P_EXT] = -1;
    op = &quiet;
    for (;;) {
      if (fed >= longest + static_cast<std::size_t>(pool->index_size))
        fail("resync", fmt("no dropped packet reported after %zu bytes of an unassigned index", fed));
      u8 b = 0xff;
      begin();
      g_alloc.in_lib = 0;
      RefCallee::Outcome out = s.ref.put(b);
      if (out == RefCallee::CALL)
        expect_call();
      g_alloc.in_lib = 1;
      int st = s.lib->put(b);
      end();
      settle(st, want_status(out));
      check_state(cur);
      fed++;
      if (st == ST_DROPPED)
        break;
    }
    op = &o;
    stats.hit("event.resync");
    log.ev("resync", {}, {fed});
  }

  // A long history of short packets, after which some counter may have wrapped around
  void op_soak(const Op &o, Slot &s, bool buffered) {
    if (!buffered || cur == TARGET)
      return;
    Op quiet = o;
    quiet.p.resize(P_SINK + 1);
    op = &quiet;
    Rng g(static_cast<u64>(o.at(P_SEED)));
    const i64 mode = o.at(P_B);
    std::vector<std::vector<u8>> packets;
    const u64 n = pool->fns.size(), lim = pool->index_size == 1 ? 256 : 65536;
    for (int tries = 0; tries < 200 && packets.size() < 6; tries++) {
      std::vector<u8> b;
      if (n < lim && (mode == 1 || (mode == 2 && g.chance(0.3))))
        put_uint(format, g.chance(0.5) ? n : n + g.below(lim - n), pool->index_size, b);
      else {
        const int fn = static_cast<int>(g.below(n));
        if (pool->fns[fn].argsize > 12 || pool->fns[fn].retsize > 12)
          continue;
        b = encode_request(*pool, format, fn, gen_values(g, format, pool->fns[fn].args));
      }
      packets.push_back(b);
    }
    i64 sent = 0;
    for (; !packets.empty() && sent < o.at(P_A); sent++) {
      if (mode != 3 || (strict && s.ref.single) || g.chance(0.01))
        while (s.ref.pending()) {
          const u8 e = s.ref.take();
          enter();
          const u8 b = s.lib->get();
          end();
          if (b != e)
            fail("wrong-output", fmt("packet %lld: a byte of the response of function %d is %02x, expected %02x", (long long)sent, s.ref.resp_fn, b, e));
        }
      for (u8 b : packets[g.below(packets.size())]) {
        enter();
        leave();
        RefCallee::Outcome out = s.ref.put(b);
        if (out == RefCallee::CALL)
          expect_call();
        go();
        int st = s.lib->put(b);
        end();
        settle(st, want_status(out));
      }
      if (s.ref.resp_state != R_VOID && s.lib->loaded() != s.ref.pending())
        fail("is-loaded", fmt("is_loaded() is %d, expected %d", !s.ref.pending(), s.ref.pending()));
    }
    op = &o;
    stats.hit("event.soak"), stats.hit("event.soak_packets", static_cast<u64>(sent));
    log.ev("soak", {}, {static_cast<u64>(sent)});
  }

  // ---------------------------------------------------------------------------------------------------- run
  Op none;
  void finish() {
    op = &none;
    for (int i = 0; i < 4; i++)
      if (slot[i].lib)
        destroy(i);
    for (auto &a : alive)
      if (a.second != 0)
        fail("callback-leak", fmt("callback instance %d: %lld copies never destroyed", a.first, (long long)a.second));
    if (g_alloc.live != 0)
      fail("memory-leak", fmt("%llu blocks allocated by the library never freed", (unsigned long long)g_alloc.live));
  }
  void setup() {
    fw = find_fw(spec.str("fw"));
    if (!fw) {
      fprintf(stderr, "firmware not loaded: %s\n", spec.str("fw").c_str());
      exit(2);
    }
    pool = &g_pools[fw->pool];
    format = Format(fw->format);
    kind = static_cast<int>(spec.num("kind"));
    policy = static_cast<int>(spec.num("policy"));
    fill = static_cast<u8>(spec.num("fill", 0));
    plain = kind == K_PLAIN;
    single = kind == K_SINGLE || kind == K_PROBE_SINGLE;
    watch_alloc = spec.num("watch_alloc") != 0;
    stall = spec.num("stall", 0) != 0;
    strict = spec.num("strict", 0) != 0;
    duplex = spec.num("duplex", 0) != 0;
    fw->fw->set_host(this);
    if (!spec.str("target").empty()) {
      target = find_fw(spec.str("target"));
      if (target)
        target->fw->set_host(this);
    }
    g_alloc = AllocCtl();
    g_alloc.track = true;
    g_alloc.poison = fill;
    g_isr = IsrCtl();
    g_isr.stepping = fw->flavour == "step";
    g_isr.text_begin = fw->text_begin, g_isr.text_end = fw->text_end;
    alloc_track_reset();
    op = &none;
  }
  bool run(Result &res) {
    setup();
    try {
      caller.reset(fw->fw->make_caller());
      create(0);
      if (target)
        create(TARGET);
      for (std::size_t i = 0; i < spec.ops.size(); i++) {
        op_index = static_cast<int>(i);
        if (log.verbose)
          printf("%3zu %s\n", i, op_name(spec.ops[i].kind));
        run_op(spec.ops[i]);
      }
      finish();
    } catch (const VioEx &e) {
      res.violated = true;
      res.v = e.v;
      abandon();
    }
    g_alloc = AllocCtl();
    g_isr = IsrCtl();
    res.hash = log.hash, res.shape = log.shape, res.events = log.events;
    res.nontrivial = served > 0;
    return !res.violated;
  }
  // After a violation the dispatchers may be in any state
  void abandon() {
    for (int i = 0; i < 4; i++)
      slot[i].lib.release();
  }
};
