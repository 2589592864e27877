// LinkWorld: a caller, a serial link and a callee under a discrete-event clock.
//
// The callee is the real dispatcher (refined byte by byte by NodeWorld) run by a simulated firmware loop, or the reference
// peer; the caller is the real keys of another build, or the reference peer. The link delays, fragments and - in lossy
// runs - loses, duplicates, alters and swaps bytes, and either side may reboot.
#pragma once
#include "gen_node.hpp"
#include <queue>

enum LinkFault { LF_LOSS, LF_DUP, LF_FLIP, LF_INSERT, LF_SWAP, LF_COUNT };
enum { IN_PUT = 1, IN_READ = 2, IN_READBUF = 4, IN_PROC = 8, IN_PROCBUF = 16, DR_GET = 32, DR_WRITE = 64, DR_WRITEBUF = 128 };

struct LinkWorld : NodeWorld {
  struct Ev {
    u64 t, seq;
    int kind;
    u64 gen;
    u8 byte;
    bool operator<(const Ev &o) const { return t != o.t ? t > o.t : seq > o.seq; }
  };
  enum { E_CALL, E_UP, E_DOWN, E_TICK, E_TX, E_POLL, E_RECOVER, E_REBOOT_CALLEE, E_BOOT_CALLEE, E_REBOOT_CALLER };
  std::priority_queue<Ev> q;
  u64 now = 0, seq = 0, gen = 0;
  Rng sched;
  // link
  u64 last_up = 0, last_down = 0;
  i64 latency, jitter, byte_time, period;
  i64 count[2] = {0, 0};
  struct Fault {
    int kind;
    i64 val;
  };
  std::map<i64, Fault> faults[2];
  // callee
  std::size_t txcap;
  i64 styles;
  std::deque<u8> tx;
  bool tick_planned = false, tx_busy = false, poll_planned = false;
  bool ref_callee, ref_caller, sloppy;
  RefCallee rc;
  // caller
  const LoadedFw *peer = nullptr;
  std::vector<const Op *> plan;
  std::size_t next_call = 0, depth;
  struct Out {
    int fn;
    const Op *op;
  };
  std::deque<Out> outstanding;
  std::deque<u8> rx_caller;
  struct Exec {
    int fn;
    std::vector<u64> args;
  };
  std::deque<Exec> to_execute;
  struct Ret {
    int fn;
    std::vector<u64> value;
  };
  std::deque<Ret> returned;
  bool dirty = false;
  u64 completed = 0, aborted = 0, recoveries = 0;
  i64 timeout;

  LinkWorld(const Spec &s, Log &l, Stats &st, std::unordered_set<u64> *states)
      : NodeWorld(s, l, st, states), sched(static_cast<u64>(s.num("sched"))) {
    latency = s.num("latency", 100), jitter = s.num("jitter", 0), byte_time = std::max<i64>(1, s.num("byte_time", 10));
    period = std::max<i64>(1, s.num("period", 50));
    txcap = static_cast<std::size_t>(std::max<i64>(1, s.num("txcap", 16)));
    styles = s.num("styles", 0xff);
    depth = static_cast<std::size_t>(std::max<i64>(1, s.num("depth", 1)));
    ref_callee = s.num("ref_callee") != 0, ref_caller = s.num("ref_caller") != 0, sloppy = s.num("sloppy") != 0;
    timeout = s.num("timeout", 20000);
  }
  void at(u64 t, int kind, u8 byte = 0) { q.push(Ev{t, seq++, kind, gen, byte}); }

  // ------------------------------------------------------------------------------------------------- link
  void fault_happened(const char *what) {
    stats.hit(what);
    if (!dirty) {
      dirty = true;
      at(now + static_cast<u64>(timeout), E_RECOVER);
    }
  }
  void deliver(int dir, u8 b) {
    u64 &last = dir ? last_down : last_up;
    u64 t = std::max(last + static_cast<u64>(byte_time), now + static_cast<u64>(latency) + (jitter ? sched.below(static_cast<u64>(jitter)) : 0));
    last = t;
    at(t, dir ? E_DOWN : E_UP, b);
  }
  bool held[2] = {false, false};
  u8 held_byte[2];
  void send(int dir, u8 b) {
    i64 n = count[dir]++;
    auto f = faults[dir].find(n);
    if (f == faults[dir].end()) {
      deliver(dir, b);
      if (held[dir])
        held[dir] = false, deliver(dir, held_byte[dir]);
      return;
    }
    log.ev("fault", {}, {static_cast<u64>(dir), static_cast<u64>(f->second.kind)});
    switch (f->second.kind) {
    case LF_LOSS: fault_happened("fault.link_loss"); break;
    case LF_DUP:
      fault_happened("fault.link_duplicate");
      deliver(dir, b), deliver(dir, b);
      break;
    case LF_FLIP:
      fault_happened("fault.link_corrupt");
      deliver(dir, b ^ static_cast<u8>(f->second.val ? f->second.val : 1));
      break;
    case LF_INSERT:
      fault_happened("fault.link_spurious");
      deliver(dir, static_cast<u8>(f->second.val)), deliver(dir, b);
      break;
    default:
      fault_happened("fault.link_reorder");
      if (held[dir])
        deliver(dir, held_byte[dir]);
      held[dir] = true, held_byte[dir] = b;
      break;
    }
  }

  // ----------------------------------------------------------------------------------------------- callee
  void emitted(u8 b) override {
    tx.push_back(b);
    plan_tx();
  }
  void plan_tx() {
    if (!tx_busy && !tx.empty())
      tx_busy = true, at(now + static_cast<u64>(byte_time), E_TX);
  }
  void executed(int fn, const std::vector<u64> &args, const std::vector<u64> &value) override {
    if (dirty)
      return;
    if (to_execute.empty())
      fail_in("exactly-once", fmt("function %d was executed although every request sent had been", fn));
    Exec e = to_execute.front();
    to_execute.pop_front();
    if (e.fn != fn)
      fail_in("exactly-once", fmt("function %d was executed, the next request sent is for %d", fn, e.fn));
    if (e.args != args)
      fail_in("exactly-once", fmt("function %d was executed with other arguments than the caller passed", fn));
    returned.push_back(Ret{fn, value});
  }
  void plan_tick() {
    if (!tick_planned)
      tick_planned = true, at(now + 1 + sched.below(static_cast<u64>(period)), E_TICK);
  }
  std::vector<u8> encode_sloppy(const std::vector<Field> &fs, const std::vector<u64> &v) {
    std::vector<u8> r;
    for (std::size_t i = 0; i < fs.size(); i++) {
      if (sloppy && fs[i].type == 'b' && v[i] && sched.chance(0.5))
        r.push_back(static_cast<u8>(1 + sched.below(255)));
      else if (sloppy && fs[i].type == 'i' && v[i] == 0 && sched.chance(0.6) && (format.mode == SIGN_MAG || format.mode == ONES)) {
        u64 sign = 1ull << (8 * fs[i].size - 1); // negative zero
        put_uint(format, format.mode == SIGN_MAG ? sign : mask_of(fs[i].size), fs[i].size, r);
      } else
        encode_value(format, fs[i], v[i], r);
    }
    return r;
  }
  void op_now(int kind, i64 a = 0, i64 b = 0, i64 sink = -1) {
    Op o;
    o.kind = kind;
    o.p.assign(9, 0);
    o.p[P_SEED] = static_cast<i64>(sched.next() >> 8);
    o.p[P_CBT] = o.p[P_SRC] = -1;
    o.p[P_SINK] = sink;
    o.p[P_A] = a, o.p[P_B] = b, o.p[P_C] = -1;
    run_op(o);
    op = &none;
  }
  void tick() {
    Slot &s = slot[0];
    if (ref_callee) {
      while (!s.inbox.empty() && tx.size() < 512) {
        u8 b = s.inbox.front();
        s.inbox.pop_front();
        if (rc.put(b) == RefCallee::CALL) {
          int fn = rc.called;
          std::vector<u64> args = rc.args, v = gen_values(sched, format, pool->fns[fn].ret);
          if (sloppy)
            for (std::size_t i = 0; i < v.size(); i++)
              if (sched.chance(0.2))
                v[i] = 0;
          served++;
          executed(fn, args, v);
          if (has_vio) {
            VioEx e;
            e.v = vio;
            throw e;
          }
          for (u8 r : encode_sloppy(pool->fns[fn].ret, v))
            emitted(r);
        }
      }
      return;
    }
    if (!s.lib)
      return;
    std::size_t before_in = s.inbox.size(), before_tx = tx.size();
    auto pick = [&](std::initializer_list<int> c) {
      std::vector<int> v;
      for (int x : c)
        if (styles & x)
          v.push_back(x);
      return v.empty() ? 0 : v[sched.below(v.size())];
    };
    if (plain) {
      if (!s.inbox.empty() && packet_complete(s) && tx.size() + static_cast<std::size_t>(pool->max_ret) <= std::max({txcap, std::size_t(64), static_cast<std::size_t>(pool->max_ret)}))
        op_now(OP_DISPATCH, static_cast<i64>(sched.below(IN_COUNT)), static_cast<i64>(sched.below(OUT_COUNT)));
    } else {
      if (s.ref.pending()) {
        std::size_t room = txcap > tx.size() ? txcap - tx.size() : 0, left = s.ref.resp.size() - s.ref.next;
        if (room)
          switch (pick({DR_GET, DR_WRITE, DR_WRITEBUF})) {
          case DR_WRITE:
            op_now(OP_WRITE, static_cast<i64>(sched.below(OUT_COUNT)), 0, left > room ? static_cast<i64>(room) - 1 : -1);
            break;
          case DR_WRITEBUF:
            if (left <= room) {
              op_now(OP_WRITEBUF, static_cast<i64>(sched.below(BUF_COUNT)));
              break;
            }
            // fall through
          default: op_now(OP_GET, static_cast<i64>(1 + sched.below(std::min(room, left)))); break;
          }
      }
      if (!s.inbox.empty()) {
        std::size_t room = txcap > tx.size() ? txcap - tx.size() : 0;
        int in = pick({IN_PUT, IN_READ, IN_READBUF, IN_PROC, IN_PROCBUF});
        if ((in == IN_READBUF || in == IN_PROCBUF) && !(may_read(s) && packet_complete(s)))
          in = IN_PUT;
        if (in == IN_PROCBUF && room < static_cast<std::size_t>(pool->max_ret))
          in = IN_READBUF;
        if ((in == IN_READ || in == IN_PROC) && !may_read(s))
          in = IN_PUT;
        if (in == IN_PROC && !room)
          in = IN_READ;
        switch (in) {
        case IN_READ: op_now(OP_READ, static_cast<i64>(sched.below(IN_COUNT))); break;
        case IN_READBUF: op_now(OP_READBUF, static_cast<i64>(sched.below(BUF_COUNT))); break;
        case IN_PROC:
          op_now(OP_PROCESS, static_cast<i64>(sched.below(IN_COUNT)), static_cast<i64>(sched.below(OUT_COUNT)), static_cast<i64>(room) - 1);
          break;
        case IN_PROCBUF: op_now(OP_PROCBUF, static_cast<i64>(sched.below(4))); break;
        default: op_now(OP_PUT, static_cast<i64>(1 + sched.below(6))); break;
        }
      }
    }
    if ((s.inbox.size() != before_in || tx.size() != before_tx) && (!s.inbox.empty() || s.ref.pending()))
      plan_tick();
  }

  // ----------------------------------------------------------------------------------------------- caller
  void issue() {
    while (next_call < plan.size() && outstanding.size() < depth) {
      const Op &o = *plan[next_call];
      int fn = pool->keyed[static_cast<std::size_t>(o.at(P_A)) % pool->keyed.size()];
      Rng g(static_cast<u64>(o.at(P_SEED)));
      std::vector<u64> args = gen_values(g, format, pool->fns[fn].args);
      std::vector<u8> bytes;
      op_index = static_cast<int>(&o - &spec.ops[0]);
      if (ref_caller) {
        if (sloppy)
          for (std::size_t i = 0; i < args.size(); i++)
            if (g.chance(0.2))
              args[i] = 0;
        put_uint(format, static_cast<u64>(fn), pool->index_size, bytes);
        std::vector<u8> a = encode_sloppy(pool->fns[fn].args, args);
        bytes.insert(bytes.end(), a.begin(), a.end());
      } else {
        op = &o;
        bytes = encode_call(fn, args, static_cast<int>(o.at(P_B)) % (OUT_COUNT + BUF_COUNT));
        op = &none;
      }
      log.ev("send", {}, {static_cast<u64>(fn), now});
      outstanding.push_back(Out{fn, &o});
      if (!dirty)
        to_execute.push_back(Exec{fn, args});
      next_call++;
      for (u8 b : bytes)
        send(0, b);
      settle_void();
      if (next_call < plan.size() && plan[next_call]->at(P_C) > 0) {
        at(now + static_cast<u64>(plan[next_call]->at(P_C)), E_CALL);
        return;
      }
    }
  }
  void settle_void() {
    while (!outstanding.empty() && pool->fns[outstanding.front().fn].retsize == 0) {
      if (!dirty)
        completed++;
      outstanding.pop_front();
    }
  }
  void poll() {
    if (dirty) {
      rx_caller.clear(); // nobody knows what these bytes are
      return;
    }
    while (!outstanding.empty()) {
      settle_void();
      if (outstanding.empty())
        break;
      Out o = outstanding.front();
      std::size_t n = static_cast<std::size_t>(pool->fns[o.fn].retsize);
      if (rx_caller.size() < n)
        break;
      std::vector<u8> bytes(rx_caller.begin(), rx_caller.begin() + static_cast<long>(n));
      rx_caller.erase(rx_caller.begin(), rx_caller.begin() + static_cast<long>(n));
      op_index = static_cast<int>(o.op - &spec.ops[0]);
      while (!returned.empty() && pool->fns[returned.front().fn].retsize == 0)
        returned.pop_front();
      if (returned.empty())
        fail("exactly-once", fmt("the caller got a response for function %d before it was executed", o.fn));
      Ret r = returned.front();
      returned.pop_front();
      if (r.fn != o.fn)
        fail("exactly-once", fmt("the response of function %d arrived in place of that of %d", r.fn, o.fn));
      if (ref_caller) {
        if (decode_values(format, pool->fns[o.fn].ret, bytes.data()) != r.value)
          fail("decoded-value", fmt("the reference peer decodes another value than function %d returned", o.fn));
      } else {
        op = o.op;
        decode_with(o.fn, bytes, r.value, static_cast<int>(o.op->at(P_D) & 7), static_cast<int>(o.op->at(P_D) >> 3));
        op = &none;
      }
      log.ev("done", {}, {static_cast<u64>(o.fn), now});
      outstanding.pop_front();
      completed++;
      settle_void();
    }
    if (outstanding.empty() && !rx_caller.empty())
      fail("exactly-once", fmt("%zu surplus bytes arrived at the caller", rx_caller.size()));
    if (next_call < plan.size() && outstanding.size() < depth)
      at(now + static_cast<u64>(std::max<i64>(0, plan[next_call]->at(P_C))), E_CALL);
  }

  // --------------------------------------------------------------------------------------------- recovery
  void recover() {
    if (!ref_callee && !slot[0].lib) { // the callee is still booting
      at(now + static_cast<u64>(timeout), E_RECOVER);
      return;
    }
    // Break condition: both directions are flushed, the callee resynchronises, the caller forgets
    gen++;
    q = std::priority_queue<Ev>(future_events());
    slot[0].inbox.clear();
    tx.clear(), tx_busy = tick_planned = poll_planned = false;
    held[0] = held[1] = false;
    rx_caller.clear();
    aborted += outstanding.size();
    outstanding.clear(), to_execute.clear(), returned.clear();
    last_up = last_down = now;
    if (ref_callee)
      rc.in.clear();
    else if (slot[0].lib && !plain) {
      op_now(OP_RESYNC);
      if (slot[0].ref.resp_state != R_VOID)
        op_now(OP_WRITE);
      tx.clear();
    } else if (plain)
      slot[0].ref.in.clear();
    gen++; // whatever the drain has planned
    q = std::priority_queue<Ev>(future_events());
    tx_busy = tick_planned = false;
    dirty = false;
    recoveries++;
    stats.hit("event.recovery");
    log.ev("recovered", {}, {now});
    at(now + 1, E_CALL);
  }
  // Planned reboots survive a flush of the link
  std::priority_queue<Ev> future_events() {
    std::priority_queue<Ev> r;
    while (!q.empty()) {
      if (q.top().kind >= E_REBOOT_CALLEE)
        r.push(q.top());
      q.pop();
    }
    return r;
  }

  // -------------------------------------------------------------------------------------------------- run
  bool run(Result &res) {
    setup();
    stall = true, strict = true, duplex = true;
    if (!spec.str("peer").empty())
      peer = find_fw(spec.str("peer"));
    if (!peer)
      peer = fw;
    peer->fw->set_host(this);
    try {
      caller.reset(peer->fw->make_caller());
      if (ref_callee)
        rc.init(*pool, format, false);
      else
        create(0);
      for (auto &o : spec.ops) {
        if (o.kind == OP_CALL)
          plan.push_back(&o);
        else if (o.kind == OP_STEP)
          faults[o.at(P_A) & 1][o.at(P_B)] = Fault{static_cast<int>(o.at(P_C)) % LF_COUNT, o.at(P_D)};
        else if (o.kind == OP_DESTROY)
          at(static_cast<u64>(o.at(P_A)), E_REBOOT_CALLEE);
        else if (o.kind == OP_CREATE)
          at(static_cast<u64>(o.at(P_A)), E_REBOOT_CALLER);
      }
      at(0, E_CALL);
      u64 steps = 0;
      while (!q.empty()) {
        Ev e = q.top();
        q.pop();
        now = e.t;
        if (++steps > 200000)
          fail("no-progress", "the conversation does not end");
        step(e);
        if (has_vio) {
          VioEx x;
          x.v = vio;
          throw x;
        }
      }
      if (dirty)
        fail("harness", "a fault was not followed by a recovery");
      if (next_call < plan.size() || !outstanding.empty())
        fail("no-progress", fmt("%zu calls never sent, %zu never answered although the link lost nothing since the last recovery",
                                plan.size() - next_call, outstanding.size()));
      if (!to_execute.empty())
        fail("exactly-once", fmt("%zu requests sent were never executed", to_execute.size()));
      stats.hit("event.call_completed", completed);
      stats.hit("event.call_aborted", aborted);
      finish();
    } catch (const VioEx &e) {
      res.violated = true;
      res.v = e.v;
      abandon();
    }
    g_alloc = AllocCtl();
    res.hash = log.hash, res.shape = log.shape, res.events = log.events;
    res.sim_us = now;
    res.nontrivial = served > 0;
    return !res.violated;
  }
  void step(const Ev &e) {
    switch (e.kind) {
    case E_CALL: issue(); break;
    case E_UP:
      slot[0].inbox.push_back(e.byte);
      plan_tick();
      break;
    case E_DOWN:
      rx_caller.push_back(e.byte);
      if (!poll_planned)
        poll_planned = true, at(now + sched.below(static_cast<u64>(period)), E_POLL);
      break;
    case E_TICK:
      tick_planned = false;
      tick();
      break;
    case E_TX:
      tx_busy = false;
      if (!tx.empty()) {
        u8 b = tx.front();
        tx.pop_front();
        send(1, b);
      }
      plan_tx();
      plan_tick();
      break;
    case E_POLL:
      poll_planned = false;
      poll();
      if (dirty)
        at(now + static_cast<u64>(period), E_CALL);
      break;
    case E_RECOVER: recover(); break;
    case E_REBOOT_CALLEE:
      // the node loses everything but its program
      fault_happened("fault.callee_reboot");
      log.ev("reboot-callee", {}, {now});
      if (ref_callee)
        rc.in.clear();
      else if (slot[0].lib) {
        op_now(OP_DESTROY);
        tx.clear();
        at(now + 1 + sched.below(static_cast<u64>(timeout) / 2), E_BOOT_CALLEE);
      }
      break;
    case E_BOOT_CALLEE:
      if (!ref_callee && !slot[0].lib) {
        op_now(OP_CREATE); // what arrived while the node was booting is lost
        plan_tick();
      }
      break;
    case E_REBOOT_CALLER: {
      fault_happened("fault.caller_reboot");
      log.ev("reboot-caller", {}, {now});
      // the rest of what it was sending never leaves
      std::priority_queue<Ev> r;
      while (!q.empty()) {
        if (!(q.top().kind == E_UP && q.top().t > now + static_cast<u64>(latency)))
          r.push(q.top());
        q.pop();
      }
      q = r;
      aborted += outstanding.size();
      outstanding.clear();
      rx_caller.clear();
      break;
    }
    }
  }
};

struct LinkProfile {
  double faulty, ref_callee, ref_caller, sloppy, mixed; // probabilities
  bool plain;
  std::vector<int> policies;
};
inline Spec gen_link(const std::string &name, u64 seed, Stats &) {
  Rng g(seed);
  LinkProfile pr = {0, 0, 0, 0, 0.5, true, {P_WEAK, P_ANY}};
  if (name == "linkC02")
    pr.ref_callee = 0.25, pr.ref_caller = 0.35, pr.sloppy = 0.6, pr.mixed = 1, pr.policies = {P_WEAK};
  if (name == "linkC11")
    pr.faulty = 0.9, pr.plain = false;
  Spec s;
  s.world = "link";
  std::vector<const LoadedFw *> cand;
  for (auto &f : g_fws)
    if (f.pool != PL_REPLY && f.pool != PL_REPLYW && f.flavour.empty())
      cand.push_back(&f);
  const LoadedFw *fw = cand[g.below(cand.size())];
  std::vector<const LoadedFw *> peers;
  for (auto f : cand)
    if (f->pool == fw->pool && f->format == fw->format)
      peers.push_back(f);
  const LoadedFw *peer = g.chance(pr.mixed) ? peers[g.below(peers.size())] : fw;
  const Pool &pool = g_pools[fw->pool];
  s.cfg["fw"] = fw->key;
  s.cfg["peer"] = peer->key;
  int kind;
  u64 x = g.below(name == "linkC02" ? 3 : 6);
  if (name == "linkC02")
    kind = x == 2 && pr.plain ? K_PLAIN : K_DOUBLE;
  else
    kind = x == 0 ? K_SINGLE : x == 1 ? K_DOUBLE : x == 2 ? K_PROBE_SINGLE : x == 3 ? K_PROBE_DOUBLE : x == 4 ? K_POLY : pr.plain ? K_PLAIN : K_DOUBLE;
  if (pool.fns.size() > 40 && kind != K_PLAIN && kind != K_SINGLE)
    kind = K_DOUBLE;
  s.set("kind", kind);
  s.set("policy", pr.policies[g.below(pr.policies.size())]);
  s.set("fill", static_cast<i64>(g.below(256)));
  s.set("sched", static_cast<i64>(g.next() >> 8));
  s.set("latency", static_cast<i64>(g.chance(0.5) ? g.below(50) : g.below(5000)));
  s.set("jitter", static_cast<i64>(g.chance(0.4) ? 0 : 1 + g.below(g.chance(0.5) ? 100 : 4000)));
  s.set("byte_time", 1 + static_cast<i64>(g.below(g.chance(0.5) ? 20 : 300)));
  s.set("period", 1 + static_cast<i64>(g.below(g.chance(0.5) ? 30 : 2000)));
  s.set("txcap", 1 + static_cast<i64>(g.below(g.chance(0.5) ? 4 : 64)));
  s.set("depth", 1 + static_cast<i64>(g.below(g.chance(0.5) ? 2 : 8)));
  i64 styles = 0;
  while (!(styles & 31) || !(styles & 224))
    styles = static_cast<i64>(g.below(256));
  s.set("styles", styles);
  if (g.chance(pr.ref_callee))
    s.set("ref_callee", 1);
  else if (g.chance(pr.ref_caller))
    s.set("ref_caller", 1);
  s.set("sloppy", g.chance(pr.sloppy));
  const bool faulty = g.chance(pr.faulty);
  s.set("timeout", 2000 + static_cast<i64>(g.below(40000)));
  int n = 2 + static_cast<int>(g.below(g.chance(0.3) ? 60 : 15));
  i64 estimate = 0, bytes = 0, back = 0;
  for (int i = 0; i < n; i++) {
    Op o;
    o.kind = OP_CALL;
    o.p.assign(9, 0);
    o.p[P_SEED] = static_cast<i64>(g.next() >> 8);
    o.p[P_CBT] = o.p[P_SRC] = o.p[P_SINK] = -1;
    o.p[P_A] = static_cast<i64>(g.below(pool.keyed.size()));
    o.p[P_B] = static_cast<i64>(g.below(OUT_COUNT + BUF_COUNT));
    o.p[P_C] = g.chance(0.5) ? 0 : static_cast<i64>(g.below(3000));
    o.p[P_D] = static_cast<i64>(g.below(7) + 8 * g.below(6));
    estimate += o.p[P_C] + 500;
    const FnSpec &f = pool.fns[pool.keyed[static_cast<std::size_t>(o.p[P_A])]];
    bytes += pool.index_size + f.argsize, back += f.retsize;
    s.ops.push_back(o);
  }
  if (faulty) {
    int k = 1 + static_cast<int>(g.below(5));
    for (int i = 0; i < k; i++) {
      Op o;
      o.p.assign(9, 0);
      o.p[P_CBT] = o.p[P_SRC] = o.p[P_SINK] = -1;
      if (g.chance(0.75)) {
        o.kind = OP_STEP;
        o.p[P_A] = static_cast<i64>(g.chance(0.3));
        o.p[P_B] = static_cast<i64>(g.below(static_cast<u64>((o.p[P_A] ? back : bytes) + 1)));
        o.p[P_C] = static_cast<i64>(g.below(LF_COUNT));
        o.p[P_D] = static_cast<i64>(1 + g.below(255));
      } else {
        o.kind = g.chance(0.6) ? OP_DESTROY : OP_CREATE;
        o.p[P_A] = static_cast<i64>(g.below(static_cast<u64>(estimate) + 1));
      }
      s.ops.push_back(o);
    }
  }
  return s;
}
