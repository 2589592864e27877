// Seeded generation of NodeWorld runs.
#pragma once
#include "node.hpp"

struct Profile {
  std::string name;
  std::vector<int> kinds, policies;
  std::vector<std::pair<int, double>> weights;
  double garbage = 0.05, unknown = 0.05, damage = 0.1; // nature of the bytes fed
  double cbt = 0, srcf = 0, sinkf = 0;                 // failure rates
  double allocf = 0, copyf = 0;
  double stall = 0.3, strict = 1.0;
  double ext = 0;     // failing user-defined conversions
  double nest = 0.08; // user code called by the library using the library
  bool duplex = false, watch_alloc = false, isr = false, target = false, poison3 = false;
  int min_ops = 6, max_ops = 60;
  std::vector<std::string> flavours = {""};
  bool keyed_only = false, nest_replace = true;
};

inline std::vector<u8> gen_packet(Rng &g, const Profile &pr, const Pool &pool, const Format &f, Stats &st) {
  std::vector<u8> r;
  double x = static_cast<double>(g.below(1000)) / 1000;
  if (x < pr.garbage) {
    std::size_t n = 1 + g.below(12);
    for (std::size_t i = 0; i < n; i++)
      r.push_back(static_cast<u8>(g.chance(0.3) ? g.below(pool.fns.size() + 2) : g.next()));
    st.hit("fault.garbage_bytes", n);
    return r;
  }
  if (x < pr.garbage + pr.unknown) {
    u64 lim = pool.index_size == 1 ? 256 : 65536, n = pool.fns.size();
    u64 i = n < lim ? n + (g.chance(0.5) ? 0 : g.below(lim - n)) : lim - 1;
    if (g.chance(0.2))
      i = lim - 1;
    if (i < lim && i >= n) {
      put_uint(f, i, pool.index_size, r);
      st.hit("fault.unknown_index");
      return r;
    }
  }
  int fn = pool.fns.size() > 40 && (pr.keyed_only || g.chance(0.6)) ? pool.keyed[g.below(pool.keyed.size())]
                                                                     : static_cast<int>(g.below(pool.fns.size()));
  std::vector<u64> args = gen_values(g, f, pool.fns[fn].args);
  r = encode_request(pool, f, fn, args);
  if (g.chance(0.1)) // any bytes are a valid payload
    for (std::size_t i = static_cast<std::size_t>(pool.index_size); i < r.size(); i++)
      r[i] = static_cast<u8>(g.next());
  if (g.chance(pr.damage)) {
    switch (g.below(5)) {
    case 0:
      r[g.below(r.size())] ^= static_cast<u8>(1u << g.below(8));
      st.hit("fault.bit_flip");
      break;
    case 1:
      r.erase(r.begin() + static_cast<long>(g.below(r.size())));
      st.hit("fault.byte_lost");
      break;
    case 2: {
      std::size_t k = g.below(r.size());
      r.insert(r.begin() + static_cast<long>(k), r[k]);
      st.hit("fault.byte_duplicated");
      break;
    }
    case 3:
      r.resize(g.below(r.size()));
      st.hit("fault.truncated");
      break;
    default:
      r.insert(r.begin() + static_cast<long>(g.below(r.size() + 1)), static_cast<u8>(g.next()));
      st.hit("fault.byte_inserted");
      break;
    }
  }
  return r;
}

inline Spec gen_node(const Profile &pr, u64 seed, Stats &st) {
  Rng g(seed);
  Spec s;
  s.world = "node";
  std::vector<const LoadedFw *> cand, targets;
  for (auto &f : g_fws) {
    bool ok = false;
    for (auto &fl : pr.flavours)
      ok |= f.flavour == fl;
    if (ok && f.pool != PL_REPLY && f.pool != PL_REPLYW)
      cand.push_back(&f);
  }
  if (cand.empty()) {
    fprintf(stderr, "no firmware for profile %s\n", pr.name.c_str());
    exit(2);
  }
  const LoadedFw *fw = cand[g.below(cand.size())];
  // A key writes its index in the format of its own keyring
  for (auto &f : g_fws)
    if (f.pool == fw->fw->reply_pool && (g_pools[f.pool].index_size == 1 || f.format / 4 == fw->format / 4))
      targets.push_back(&f);
  const Pool &pool = g_pools[fw->pool];
  const Format f(fw->format);
  s.cfg["fw"] = fw->key;
  int kind = pr.kinds[g.below(pr.kinds.size())];
  if (pool.fns.size() > 40 && kind != K_PLAIN && kind != K_SINGLE)
    kind = K_DOUBLE;
  const int policy = pr.policies[g.below(pr.policies.size())];
  s.set("kind", kind);
  s.set("policy", policy);
  s.set("fill", static_cast<i64>(g.below(256)));
  if (pr.watch_alloc)
    s.set("watch_alloc", 1);
  if (pr.duplex)
    s.set("duplex", 1);
  s.set("stall", g.chance(pr.stall));
  s.set("strict", g.chance(pr.strict));
  if (pr.target && !targets.empty())
    s.cfg["target"] = targets[g.below(targets.size())]->key;
  // swarm: each run has its own mix
  std::vector<std::pair<int, double>> w = pr.weights;
  double total = 0;
  for (auto &x : w) {
    if (x.first != OP_FEED && g.chance(0.2))
      x.second = 0;
    else if (g.chance(0.3))
      x.second *= 3;
    total += x.second;
  }
  const double cbt = g.chance(0.6) ? pr.cbt : 0, srcf = g.chance(0.6) ? pr.srcf : 0, sinkf = g.chance(0.6) ? pr.sinkf : 0;
  const double allocf = g.chance(0.6) ? pr.allocf : 0, copyf = g.chance(0.6) ? pr.copyf : 0;
  const double ext = (pool.id == PL_EXT || pool.id == PL_MIX) && g.chance(0.6) ? pr.ext : 0;
  const double nest = g.chance(0.4) ? pr.nest : 0;
  Profile feedp = pr;
  if (g.chance(0.4))
    feedp.damage = feedp.garbage = feedp.unknown = 0;
  const bool rich = g.chance(0.5); // bias towards long I/O
  const int nops = static_cast<int>(g.range(pr.min_ops, pr.max_ops));
  const bool noalloc = pr.watch_alloc;
  auto bufstyle = [&]() -> i64 { return noalloc ? (g.chance(0.5) ? BUF_CONST_POINTER : BUF_SHIFT_POINTER) : static_cast<i64>(g.below(BUF_COUNT)); };
  if (nest > 0 && !pr.isr)
    for (int i = 1; i < 3; i++) {
      Op o;
      o.kind = OP_CREATE;
      o.p.assign(9, -1);
      o.p[P_SLOT] = i;
      s.ops.push_back(o);
    }
  bool first = true;
  for (int i = 0; i < nops; i++) {
    double x = static_cast<double>(g.below(1000000)) / 1000000 * total;
    int k = OP_FEED;
    for (auto &y : w) {
      if (x < y.second) {
        k = y.first;
        break;
      }
      x -= y.second;
    }
    if (first)
      k = OP_FEED;
    first = false;
    Op o;
    o.kind = k;
    o.p.assign(9, 0);
    o.p[P_SLOT] = g.chance(0.75) ? 0 : static_cast<i64>(g.below(3));
    o.p[P_SEED] = static_cast<i64>(g.next() >> 8);
    o.p[P_CBT] = g.chance(cbt) ? static_cast<i64>(0) : -1;
    const bool far = pool.id == PL_LONG && g.chance(0.5); // somewhere in long messages
    o.p[P_SRC] = g.chance(srcf) ? static_cast<i64>(g.below(far ? 300 : 8)) : -1;
    o.p[P_SINK] = g.chance(sinkf) ? static_cast<i64>(g.below(far ? 320 : 8)) : -1;
    if (nest > 0 && k != OP_REPLY && k != OP_FEED && g.chance(nest))
      o.p.push_back(static_cast<i64>(g.below(g.chance(0.5) ? 4 : 16))), o.p.push_back(static_cast<i64>(g.next() >> 16 << NodeWorld::NS_BITS | (pr.nest_replace ? NodeWorld::NS_REPLACE : 0) | (pr.isr ? NodeWorld::NS_DUPLEX_ONLY : 0)));
    if (g.chance(ext) && k != OP_FEED) {
      o.p.resize(P_EXT, -1);
      o.p.push_back(static_cast<i64>(g.below(g.chance(0.7) ? 4 : 12)));
    }
    switch (k) {
    case OP_FEED: {
      int n = rich ? static_cast<int>(1 + g.below(4)) : 1;
      for (int j = 0; j < n; j++) {
        std::vector<u8> b = gen_packet(g, feedp, pool, f, st);
        o.bytes.insert(o.bytes.end(), b.begin(), b.end());
      }
      break;
    }
    case OP_PUT: o.p[P_A] = g.chance(0.5) ? 1 + static_cast<i64>(g.below(3)) : g.chance(0.5) ? 1 + static_cast<i64>(g.below(far ? 400 : 12)) : far ? 400 : 64; break;
    case OP_READ: o.p[P_A] = static_cast<i64>(g.below(IN_COUNT)); break;
    case OP_READBUF: o.p[P_A] = bufstyle(); break;
    case OP_GET: o.p[P_A] = 1 + static_cast<i64>(g.below(far ? 330 : g.chance(0.5) ? 2 : 10)); break;
    case OP_WRITE: o.p[P_A] = static_cast<i64>(g.below(OUT_COUNT)); break;
    case OP_WRITEBUF: o.p[P_A] = noalloc ? BUF_POINTER : static_cast<i64>(g.below(BUF_COUNT)); break;
    case OP_PROCESS:
    case OP_DISPATCH:
      o.p[P_A] = static_cast<i64>(g.below(IN_COUNT)), o.p[P_B] = static_cast<i64>(g.below(OUT_COUNT));
      if (k == OP_DISPATCH) {
        o.p[P_C] = g.chance(0.5) ? static_cast<i64>(noalloc ? 0 : g.below(7)) : -1;
        o.p[P_D] = static_cast<i64>(g.below(64));
        if (noalloc)
          o.p[P_D] = static_cast<i64>(g.below(IN_COUNT));
      }
      break;
    case OP_PROCBUF: o.p[P_A] = static_cast<i64>(g.below(4)); break;
    case OP_REPLY:
      o.p[P_A] = static_cast<i64>(g.below(64)), o.p[P_B] = static_cast<i64>(g.below(OUT_COUNT));
      o.p[P_C] = noalloc ? (g.chance(0.5) ? 0 : 4) : static_cast<i64>(g.below(7));
      o.p[P_D] = static_cast<i64>(g.below(64));
      o.p[P_SRC] = o.p[P_SINK] = o.p[P_CBT] = -1;
      break;
    case OP_CALL:
      o.p[P_A] = static_cast<i64>(g.below(pool.keyed.size()));
      o.p[P_B] = static_cast<i64>(g.below(noalloc ? OUT_COUNT + 1 : OUT_COUNT + BUF_COUNT));
      break;
    case OP_COLLECT:
      o.p[P_A] = static_cast<i64>(g.below(OUT_COUNT));
      o.p[P_B] = noalloc ? (g.chance(0.5) ? 0 : 4) : static_cast<i64>(g.below(7));
      o.p[P_C] = static_cast<i64>(g.below(64));
      o.p[P_SRC] = -1;
      break;
    case OP_REPLACE:
      o.p[P_A] = static_cast<i64>(g.below(pool.keyed.size()));
      o.p[P_B] = static_cast<i64>(g.below(CB_COUNT));
      o.p[P_C] = g.chance(allocf) ? static_cast<i64>(g.below(3)) : -1;
      o.p[P_D] = g.chance(copyf) ? static_cast<i64>(g.below(2)) : -1;
      break;
    case OP_ACTION: {
      o.p[P_A] = static_cast<i64>(g.below(IN_COUNT)), o.p[P_B] = static_cast<i64>(g.below(OUT_COUNT));
      int fn = pool.keyed[g.below(pool.keyed.size())];
      o.p[P_C] = fn;
      o.bytes = encode_values(f, pool.fns[fn].args, gen_values(g, f, pool.fns[fn].args));
      break;
    }
    case OP_SOAK:
      o.p[P_A] = static_cast<i64>(g.chance(0.7) ? 250 + g.below(100) : g.chance(0.8) ? 500 + g.below(1000) : 65500 + g.below(600));
      o.p[P_B] = pr.unknown > 0 ? static_cast<i64>(g.below(4)) : g.chance(0.5) ? 0 : 3;
      if (o.p[P_CBT] >= 0)
        o.p[P_CBT] = 0;
      o.p[P_SRC] = o.p[P_SINK] = -1;
      break;
    case OP_LOOKUP: o.p[P_A] = static_cast<i64>(g.below(IN_COUNT)); break;
    case OP_ASSIGN: o.p[P_A] = static_cast<i64>(g.below(3)), o.p[P_B] = static_cast<i64>(g.below(2)); break;
    case OP_EXCHANGE:
    case OP_FORK: o.p[P_A] = static_cast<i64>(g.below(3)); break;
    case OP_ISR: {
      int n = 1 + static_cast<int>(g.below(3));
      std::vector<i64> p = {o.p[P_SLOT]};
      // before the operation it interrupts
      o.p.assign(9, -1);
      o.p[P_SLOT] = p[0];
      o.p[P_SEED] = static_cast<i64>(g.next() >> 8);
      switch (g.below(6)) {
      case 0: o.kind = OP_GET, o.p[P_A] = 1; break;
      case 1: o.kind = OP_WRITE, o.p[P_A] = static_cast<i64>(g.below(OUT_COUNT)); break;
      case 2: o.kind = OP_WRITEBUF, o.p[P_A] = static_cast<i64>(g.below(BUF_COUNT)); break;
      case 3: o.kind = OP_READ, o.p[P_A] = static_cast<i64>(g.below(IN_COUNT)); break;
      default: o.kind = OP_PUT, o.p[P_A] = 1; break;
      }
      auto pts = fw->points.find(trace_key(o.kind, kind, policy));
      for (int j = 0; j < n; j++) {
        if (fw->flavour != "step")
          p.push_back(1 + static_cast<i64>(g.chance(0.7) ? g.below(20) : g.below(120)));
        else if (pts != fw->points.end())
          p.push_back(point_value(pts->second[g.below(pts->second.size())], g.chance(0.7) ? 1 : 1 + static_cast<int>(g.below(7))));
        else
          p.push_back(1);
        p.push_back(1 + static_cast<i64>(g.below(4)));
      }
      Op q;
      q.kind = OP_ISR;
      q.p = p;
      s.ops.push_back(q);
      break;
    }
    default: break;
    }
    s.ops.push_back(o);
  }
  return s;
}
