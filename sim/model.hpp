// Independent reference: wire format, framing and delivery, from the documentation and the wire schemas only.
#pragma once
#include "core.hpp"
#include "../fw/fw_api.hpp"
#include "../fw/pools.hpp"

struct Field {
  char type; // u, i, b
  int size;
};
struct FnSpec {
  std::vector<Field> args, ret;
  int argsize = 0, retsize = 0;
};
struct Pool {
  int id;
  std::string name;
  std::vector<FnSpec> fns;
  std::vector<int> keyed;
  int index_size;
  int max_args = 0, max_ret = 0;
};
inline std::vector<Field> parse_schema(const char *s, int &size) {
  std::vector<Field> r;
  size = 0;
  while (*s) {
    while (*s == ' ')
      s++;
    if (!*s)
      break;
    Field f = {s[0], s[1] - '0'};
    s += 2;
    int n = 1;
    if (*s == '*')
      n = static_cast<int>(strtol(s + 1, const_cast<char **>(&s), 10));
    for (int i = 0; i < n; i++)
      r.push_back(f), size += f.size;
  }
  return r;
}
inline FnSpec make_fn(const char *args, const char *ret) {
  FnSpec f;
  f.args = parse_schema(args, f.argsize);
  f.ret = parse_schema(ret, f.retsize);
  return f;
}
inline std::vector<Pool> make_pools() {
  std::vector<Pool> r(PL_COUNT);
#define X(ID, SIG, ARGS, RET) p.fns.push_back(make_fn(ARGS, RET));
#define POOL_INIT(NAME)                                                                                                \
  {                                                                                                                    \
    Pool &p = r[PL_##NAME];                                                                                            \
    p.name = #NAME;                                                                                                    \
    POOL_##NAME(X)                                                                                                     \
  }
  POOL_INIT(MIX)
  POOL_INIT(VOID1)
  POOL_INIT(WIDE)
  POOL_INIT(EXT)
  POOL_INIT(TINY)
  POOL_INIT(REPLY)
  POOL_INIT(LONG)
#undef X
#undef POOL_INIT
  const std::pair<int, int> big[] = {{PL_BIG255, 255}, {PL_BIG256, 256}, {PL_BIG300, 300}};
  for (auto &b : big) {
    r[b.first].name = fmt("BIG%d", b.second);
    for (int i = 0; i < b.second; i++)
      r[b.first].fns.push_back(make_fn("u1", "u2"));
    r[b.first].keyed = {0, 1, 127, 128, 200, 253, 254, b.second - 2, b.second - 1};
  }
  r[PL_REPLYW].name = "REPLYW";
  for (int i = 0; i < 300; i++)
    r[PL_REPLYW].fns.push_back(make_fn("u1", "u2"));
#define X(ID, SIG, ARGS, RET) r[PL_REPLYW].fns[ID] = make_fn(ARGS, RET), r[PL_REPLYW].keyed.push_back(ID);
  POOL_REPLYW(X)
#undef X
  for (int i = 0; i < PL_COUNT; i++) {
    Pool &p = r[i];
    p.id = i;
    if (p.keyed.empty())
      for (std::size_t k = 0; k < p.fns.size(); k++)
        p.keyed.push_back(static_cast<int>(k));
    std::sort(p.keyed.begin(), p.keyed.end());
    p.keyed.erase(std::unique(p.keyed.begin(), p.keyed.end()), p.keyed.end());
    p.index_size = p.fns.size() <= 255 ? 1 : 2;
    for (auto &f : p.fns)
      p.max_args = std::max(p.max_args, f.argsize), p.max_ret = std::max(p.max_ret, f.retsize);
  }
  return r;
}
extern const std::vector<Pool> g_pools;

enum Mode { SIGN_MAG, ONES, TWOS, OFFSET };
struct Format {
  bool big;
  int mode;
  explicit Format(int id = 0) : big(id / 4 != 0), mode(id % 4) {}
};
inline void put_uint(const Format &f, u64 v, int size, std::vector<u8> &out) {
  for (int i = 0; i < size; i++)
    out.push_back(static_cast<u8>(v >> 8 * (f.big ? size - 1 - i : i)));
}
inline u64 get_uint(const Format &f, const u8 *p, int size) {
  u64 v = 0;
  for (int i = 0; i < size; i++)
    v |= static_cast<u64>(p[i]) << 8 * (f.big ? size - 1 - i : i);
  return v;
}
inline u64 mask_of(int size) { return size == 8 ? ~0ull : (1ull << 8 * size) - 1; }
inline void encode_value(const Format &f, const Field &fd, u64 v, std::vector<u8> &out) {
  u64 raw = v;
  if (fd.type == 'b')
    raw = v != 0;
  else if (fd.type == 'i') {
    const bool neg = static_cast<i64>(v) < 0;
    const u64 sign = 1ull << (8 * fd.size - 1), mag = neg ? 0 - v : v;
    switch (f.mode) {
    case SIGN_MAG: raw = neg ? mag | sign : mag; break;
    case ONES: raw = neg ? ~mag : mag; break;
    case TWOS: raw = v; break;
    case OFFSET: raw = v + sign; break;
    }
  }
  put_uint(f, raw & mask_of(fd.size), fd.size, out);
}
inline u64 decode_value(const Format &f, const Field &fd, const u8 *p) {
  const u64 raw = get_uint(f, p, fd.size);
  if (fd.type == 'b')
    return raw != 0;
  if (fd.type == 'u')
    return raw;
  const u64 sign = 1ull << (8 * fd.size - 1), m = mask_of(fd.size);
  switch (f.mode) {
  case SIGN_MAG: return raw & sign ? 0 - (raw & ~sign) : raw;
  case ONES: return raw & sign ? 0 - (~raw & m) : raw;
  case TWOS: return raw & sign ? raw | ~m : raw;
  default: return raw - sign;
  }
}
inline std::vector<u8> encode_values(const Format &f, const std::vector<Field> &fs, const std::vector<u64> &v) {
  std::vector<u8> r;
  for (std::size_t i = 0; i < fs.size(); i++)
    encode_value(f, fs[i], v[i], r);
  return r;
}
inline std::vector<u64> decode_values(const Format &f, const std::vector<Field> &fs, const u8 *p) {
  std::vector<u64> r;
  for (auto &fd : fs) {
    r.push_back(decode_value(f, fd, p));
    p += fd.size;
  }
  return r;
}
// A value which the format can represent
inline u64 gen_value(Rng &g, const Format &f, const Field &fd) {
  const u64 m = mask_of(fd.size);
  if (fd.type == 'b')
    return g.below(2);
  u64 raw;
  switch (g.below(6)) {
  case 0: raw = g.below(3); break;
  case 1: raw = m - g.below(3); break;
  case 2: raw = (m >> 1) + g.below(3) - 1; break;
  case 3: raw = 1ull << g.below(8 * fd.size); break;
  default: raw = g.next(); break;
  }
  raw &= m;
  if (fd.type == 'u')
    return raw;
  const u64 sign = 1ull << (8 * fd.size - 1);
  if (raw == sign && (f.mode == SIGN_MAG || f.mode == ONES))
    raw = sign + 1; // the minimum has no representation
  return raw & sign ? raw | ~m : raw;
}
inline std::vector<u64> gen_values(Rng &g, const Format &f, const std::vector<Field> &fs) {
  std::vector<u64> r;
  for (auto &fd : fs)
    r.push_back(gen_value(g, f, fd));
  return r;
}
inline std::vector<u8> encode_request(const Pool &p, const Format &f, int fn, const std::vector<u64> &args) {
  std::vector<u8> r;
  put_uint(f, static_cast<u64>(fn), p.index_size, r);
  std::vector<u8> a = encode_values(f, p.fns[fn].args, args);
  r.insert(r.end(), a.begin(), a.end());
  return r;
}

// ------------------------------------------------------------------------------------------ reference callee
enum RespState { R_NONE, R_PENDING, R_VOID /* overwritten: content unspecified */ };
struct CbModel {
  int kind = fwapi::CB_DEFAULT, who = 0;
  u64 calls = 0;
};
struct RefCallee {
  const Pool *pool = nullptr;
  Format f;
  bool single = false;
  std::vector<u8> in;
  std::vector<u8> resp;
  std::size_t next = 0;
  int resp_state = R_NONE;
  int resp_fn = -1;               // function whose response this is
  std::vector<u64> resp_values;   // and the value returned
  std::vector<CbModel> cb;

  void init(const Pool &p, const Format &fm, bool s) {
    pool = &p, f = fm, single = s;
    cb.resize(p.fns.size());
    for (std::size_t i = 0; i < cb.size(); i++)
      cb[i].who = static_cast<int>(i);
  }
  enum Outcome { LOADING, DROPPED, CALL };
  u64 index() const { return get_uint(f, in.data(), pool->index_size); }
  // What would happen to the next byte
  Outcome peek(u8 b) const {
    if (static_cast<int>(in.size()) + 1 < pool->index_size)
      return LOADING;
    std::vector<u8> t(in);
    t.push_back(b);
    u64 i = get_uint(f, t.data(), pool->index_size);
    if (i >= pool->fns.size())
      return DROPPED;
    return t.size() == static_cast<std::size_t>(pool->index_size + pool->fns[i].argsize) ? CALL : LOADING;
  }
  // After CALL, the request is in `called` / `args`
  int called = -1;
  std::vector<u64> args;
  Outcome put(u8 b) {
    if (single && resp_state == R_PENDING)
      resp_state = R_VOID;
    in.push_back(b);
    if (static_cast<int>(in.size()) < pool->index_size)
      return LOADING;
    u64 i = index();
    if (i >= pool->fns.size()) {
      in.clear();
      return DROPPED;
    }
    if (in.size() < static_cast<std::size_t>(pool->index_size + pool->fns[i].argsize))
      return LOADING;
    called = static_cast<int>(i);
    args = decode_values(f, pool->fns[i].args, in.data() + pool->index_size);
    in.clear();
    resp.clear(), next = 0, resp_state = R_NONE, resp_fn = -1;
    return CALL;
  }
  void returned(const std::vector<u64> &v) {
    resp = encode_values(f, pool->fns[called].ret, v);
    next = 0;
    resp_fn = called;
    resp_values = v;
    resp_state = resp.empty() ? R_NONE : R_PENDING;
  }
  bool pending() const { return resp_state == R_PENDING && next < resp.size(); }
  u8 take() {
    u8 b = resp[next++];
    if (next == resp.size())
      resp_state = R_NONE;
    return b;
  }
  bool at_boundary() const { return in.empty(); }
};
