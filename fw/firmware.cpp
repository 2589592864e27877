// Firmware of the simulated nodes. Compiled once per (pool, build variant, wire format):
//   FW_POOL      name of the pool: MIX, VOID1, WIDE, EXT, TINY, LONG, BIG255, BIG256, BIG300, REPLY, REPLYW
//   FW_ENDIAN    LITTLE or BIG
//   FW_SIGNED    SIGNED_MAGNITUDE, ONES_COMPLEMENT, TWOS_COMPLEMENT or OFFSET_BINARY
//   FW_VARIANT_ID, FW_FORMAT_ID  numbers identifying them
//   FW_KINDS     mask of the dispatcher kinds to compile (default: all)
//   FW_POLICIES  mask of the policies to compile (default: both)
//   FW_NO_REPLACE, FW_NO_REPLY  leave these operations out
// plus -std=c++11 or c++17 and the library's own platform hints.
#include <array>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <new>
#include <utility>

#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>
#include <upd/tuple.hpp>

#include "fw_api.hpp"
#include "pools.hpp"
#include "values.hpp"

#ifndef FW_KINDS
#define FW_KINDS 0xff
#endif
#ifndef FW_POLICIES
#define FW_POLICIES 3
#endif

using namespace fwapi;

namespace {
Host *g_host;
unsigned char g_fill; // content of fresh storage

// The body shared by every callback: report to the host, return what it says.
template<int ID, typename Sig>
struct Body;
template<int ID, typename... A>
struct Body<ID, void(A...)> {
  static void run(int who, std::uint64_t calls, const typename bare<A>::type &...a) {
    std::uint64_t args[Count<A...>::n + 1], ret[1];
    flatten(args, a...);
    g_host->invoke(who, ID, calls, args, Count<A...>::n, ret, 0);
  }
};
template<int ID, typename R, typename... A>
struct Body<ID, R(A...)> {
  typedef typename bare<R>::type value_t;
  static value_t run(int who, std::uint64_t calls, const typename bare<A>::type &...a) {
    std::uint64_t args[Count<A...>::n + 1], ret[Flat<value_t>::n];
    flatten(args, a...);
    g_host->invoke(who, ID, calls, args, Count<A...>::n, ret, Flat<value_t>::n);
    return Flat<value_t>::from(ret);
  }
};
// Makes reference-returning callbacks possible
template<typename R>
struct Keep {
  static R keep(R &&x) { return static_cast<R &&>(x); }
};
template<typename T>
struct Keep<const T &> {
  static const T &keep(T &&x) {
    static T kept[64];
    static unsigned next;
    return kept[next++ % 64] = x;
  }
};
template<>
struct Keep<void> {};

template<int ID, int WHO, typename Sig>
struct Fn;
template<int ID, int WHO, typename... A>
struct Fn<ID, WHO, void(A...)> {
  static void f(A... a) { Body<ID, void(A...)>::run(WHO, 0, a...); }
};
template<int ID, int WHO, typename R, typename... A>
struct Fn<ID, WHO, R(A...)> {
  static R f(A... a) { return Keep<R>::keep(Body<ID, R(A...)>::run(WHO, 0, a...)); }
};

// Callback with static storage duration but an object type
template<int ID, typename Sig>
struct StaticFunctor;
template<int ID, typename R, typename... A>
struct StaticFunctor<ID, R(A...)> {
  R operator()(A... a) const { return Fn<ID, WHO_STATIC + ID, R(A...)>::f(static_cast<A &&>(a)...); }
};
template<int ID, typename Sig>
struct StaticFunctorHolder {
  static StaticFunctor<ID, Sig> instance;
};
template<int ID, typename Sig>
StaticFunctor<ID, Sig> StaticFunctorHolder<ID, Sig>::instance;

// Reports its life cycle to the host
struct Token {
  int who, tag;
  std::uint64_t *alive; // heap cell: a callback used after its end is an invalid access
  std::uint64_t calls;
  explicit Token(int w) : who(w), tag(w), alive(new std::uint64_t(0x600d)), calls(0) { g_host->born(tag); }
  Token(const Token &o) : who(o.who), tag(o.tag), alive(nullptr), calls(o.calls) {
    g_host->copy_point(tag);
    alive = new std::uint64_t(0x600d);
    g_host->born(tag);
  }
  Token(Token &&o) : who(o.who), tag(o.tag), alive(o.alive), calls(o.calls) { o.alive = nullptr; }
  Token &operator=(const Token &) = delete;
  ~Token() {
    if (alive) {
      g_host->died(tag);
      *alive = 0;
      delete alive;
    }
  }
  int use() const { return alive && *alive == 0x600d ? who : -1; }
};
struct MoveOnlyToken : Token {
  explicit MoveOnlyToken(int w) : Token(w) {}
  MoveOnlyToken(MoveOnlyToken &&o) : Token(static_cast<Token &&>(o)) {}
  MoveOnlyToken(const MoveOnlyToken &) = delete;
};

template<int ID, typename T, typename Sig>
struct Stateful;
template<int ID, typename T, typename... A>
struct Stateful<ID, T, void(A...)> {
  T token;
  explicit Stateful(int who) : token(who) {}
  void operator()(A... a) const { Body<ID, void(A...)>::run(token.use(), token.calls, a...); }
};
template<int ID, typename T, typename R, typename... A>
struct Stateful<ID, T, R(A...)> {
  T token;
  explicit Stateful(int who) : token(who) {}
  R operator()(A... a) const { return Keep<R>::keep(Body<ID, R(A...)>::run(token.use(), token.calls, a...)); }
};
// With a state which changes at each call
template<int ID, typename Sig>
struct Mutable;
template<int ID, typename... A>
struct Mutable<ID, void(A...)> {
  Token token;
  explicit Mutable(int who) : token(who) {}
  void operator()(A... a) {
    std::uint64_t n = token.calls++;
    Body<ID, void(A...)>::run(token.use(), n, a...);
  }
};
template<int ID, typename R, typename... A>
struct Mutable<ID, R(A...)> {
  Token token;
  explicit Mutable(int who) : token(who) {}
  R operator()(A... a) {
    std::uint64_t n = token.calls++;
    return Keep<R>::keep(Body<ID, R(A...)>::run(token.use(), n, a...));
  }
};

// -------------------------------------------------------------------------------------------------- I/O styles
struct Getter {
  Source *s;
  u8 operator()() { return s->next(); }
};
struct Putter {
  Sink *s;
  void operator()(u8 b) { s->put(b); }
};
// Single-pass iterators over the simulator's streams. Each position is fetched from the stream exactly once.
class StreamInIt {
  struct State {
    Source *s;
    bool has;
    u8 value;
  };
  State *m;
  struct Proxy {
    u8 value;
    u8 operator*() const { return value; }
  };
  void fetch() const {
    if (!m->has) {
      m->value = m->s->next();
      m->has = true;
    }
  }

public:
  typedef std::input_iterator_tag iterator_category;
  typedef u8 value_type;
  typedef std::ptrdiff_t difference_type;
  typedef const u8 *pointer;
  typedef u8 reference;
  struct Storage : State {};
  StreamInIt(Storage &st, Source &s) : m(&st) {
    st.s = &s;
    st.has = false;
    st.value = 0;
  }
  u8 operator*() const {
    fetch();
    return m->value;
  }
  StreamInIt &operator++() {
    fetch();
    m->has = false;
    return *this;
  }
  Proxy operator++(int) {
    fetch();
    Proxy p = {m->value};
    m->has = false;
    return p;
  }
  friend bool operator==(const StreamInIt &a, const StreamInIt &b) { return a.m == b.m; }
  friend bool operator!=(const StreamInIt &a, const StreamInIt &b) { return a.m != b.m; }
};
class StreamOutIt {
  Sink *s;

public:
  typedef std::output_iterator_tag iterator_category;
  typedef void value_type;
  typedef std::ptrdiff_t difference_type;
  typedef void pointer;
  typedef void reference;
  explicit StreamOutIt(Sink &sink) : s(&sink) {}
  StreamOutIt &operator*() { return *this; }
  StreamOutIt &operator++() { return *this; }
  StreamOutIt &operator++(int) { return *this; }
  StreamOutIt &operator=(u8 b) {
    s->put(b);
    return *this;
  }
};

inline int status(upd::packet_status s) {
  switch (s) {
  case upd::packet_status::LOADING_PACKET: return ST_LOADING;
  case upd::packet_status::DROPPED_PACKET: return ST_DROPPED;
  case upd::packet_status::RESOLVED_PACKET: return ST_RESOLVED;
  }
  return ST_OTHER;
}

#define GUARDED(...)                                                                                                   \
  try {                                                                                                                \
    __VA_ARGS__                                                                                                        \
  } catch (const std::bad_alloc &) {                                                                                   \
    return g_host->handle_failure() ? ST_THREW : ST_OOM;                                                               \
  } catch (...) {                                                                                                      \
    g_host->handle_failure();                                                                                          \
    return ST_THREW;                                                                                                   \
  }

// Calls x.read_from / << in the requested style
template<typename R, typename X>
struct Reader {
  static R read(X &x, Source &src, int style) {
    Getter g = {&src};
    StreamInIt::Storage st;
    switch (style) {
    case IN_LVALUE: return x.read_from(g);
    case IN_STDFUNCTION: {
      std::function<upd::byte_t()> f(g);
      return x.read_from(f);
    }
    case IN_ITERATOR: return x.read_from(StreamInIt(st, src));
    case IN_SHIFT_FUNCTOR: return x << g;
    case IN_SHIFT_ITERATOR: return x << StreamInIt(st, src);
    default: return x.read_from([&]() -> upd::byte_t { return src.next(); });
    }
  }
  static R read_buffer(X &x, const u8 *p, std::size_t n, int style) {
    switch (style) {
    case BUF_CONST_POINTER: return x.read_from(p);
    case BUF_SHIFT_POINTER: return x << p;
    case BUF_LIST: {
      std::list<u8> l(p, p + n);
      return x.read_from(l.begin());
    }
    case BUF_DEQUE: {
      const std::deque<u8> d(p, p + n);
      return x.read_from(d.begin());
    }
    default: {
      std::unique_ptr<u8[]> copy(new u8[n]);
      std::memcpy(copy.get(), p, n);
      return x.read_from(copy.get());
    }
    }
  }
};
template<typename X>
void write_any(X &x, Sink &sink, int style) {
  Putter p = {&sink};
  switch (style) {
  case OUT_LVALUE: x.write_to(p); break;
  case OUT_STDFUNCTION: {
    std::function<void(upd::byte_t)> f(p);
    x.write_to(f);
    break;
  }
  case OUT_ITERATOR: x.write_to(StreamOutIt(sink)); break;
  case OUT_SHIFT_FUNCTOR: x >> p; break;
  case OUT_SHIFT_ITERATOR: x >> StreamOutIt(sink); break;
  default: x.write_to([&](upd::byte_t b) { sink.put(b); }); break;
  }
}
template<typename X>
void write_buffer_any(X &x, u8 *p, std::size_t n, int style) {
  switch (style) {
  case BUF_SHIFT_POINTER: x >> p; break;
  case BUF_LIST: {
    std::list<u8> l(n);
    x.write_to(l.begin());
    std::copy(l.begin(), l.end(), p);
    break;
  }
  case BUF_DEQUE: {
    std::deque<u8> d;
    x.write_to(std::back_inserter(d));
    if (d.size() > n)
      throw 0;
    std::copy(d.begin(), d.end(), p);
    break;
  }
  default: x.write_to(p); break;
  }
}
template<typename R, typename X>
R process_any(X &x, Source &src, Sink &sink, int is, int os) {
  Getter g = {&src};
  Putter p = {&sink};
  StreamInIt::Storage st;
  const bool ii = is == IN_ITERATOR || is == IN_SHIFT_ITERATOR, oi = os == OUT_ITERATOR || os == OUT_SHIFT_ITERATOR;
  if (ii && oi)
    return x(StreamInIt(st, src), StreamOutIt(sink));
  if (ii)
    return x(StreamInIt(st, src), p);
  if (oi)
    return x(g, StreamOutIt(sink));
  if (is == IN_STDFUNCTION) {
    std::function<upd::byte_t()> f(g);
    return x(f, p);
  }
  if (is == IN_LVALUE)
    return x(g, p);
  return x([&]() -> upd::byte_t { return src.next(); }, [&](upd::byte_t b) { sink.put(b); });
}

// ------------------------------------------------------------------------------------------------------ pools
const upd::endianess FORMAT_E = upd::endianess::FW_ENDIAN;
const upd::signed_mode FORMAT_S = upd::signed_mode::FW_SIGNED;
typedef upd::endianess_h<FORMAT_E> E_h;
typedef upd::signed_mode_h<FORMAT_S> S_h;

template<int... Is>
struct Seq {};
template<int N, int... Is>
struct MakeSeq : MakeSeq<N - 1, N - 1, Is...> {};
template<int... Is>
struct MakeSeq<0, Is...> {
  typedef Seq<Is...> type;
};
template<typename T>
struct Id {
  typedef T type;
};

template<int POOL, int I>
struct Sig;
#define X_SIG(POOL, ID, SIG)                                                                                           \
  template<>                                                                                                           \
  struct Sig<POOL, ID> {                                                                                               \
    typedef Id<SIG>::type type;                                                                                        \
  };
#define X_COUNT(...) +1
#define X(ID, SIG, ARGS, RET) X_SIG(PL_MIX, ID, SIG)
POOL_MIX(X)
#undef X
#define X(ID, SIG, ARGS, RET) X_SIG(PL_VOID1, ID, SIG)
POOL_VOID1(X)
#undef X
#define X(ID, SIG, ARGS, RET) X_SIG(PL_WIDE, ID, SIG)
POOL_WIDE(X)
#undef X
#define X(ID, SIG, ARGS, RET) X_SIG(PL_EXT, ID, SIG)
POOL_EXT(X)
#undef X
#define X(ID, SIG, ARGS, RET) X_SIG(PL_TINY, ID, SIG)
POOL_TINY(X)
#undef X
#define X(ID, SIG, ARGS, RET) X_SIG(PL_REPLY, ID, SIG)
POOL_REPLY(X)
#undef X
#define X(ID, SIG, ARGS, RET) X_SIG(PL_LONG, ID, SIG)
POOL_LONG(X)
#undef X
#define X(ID, SIG, ARGS, RET) X_SIG(PL_REPLYW, ID, SIG)
POOL_REPLYW(X)
#undef X
template<int I>
struct Sig<PL_REPLYW, I> {
  typedef std::uint16_t type(std::uint8_t);
};
template<int I>
struct Sig<PL_BIG255, I> {
  typedef std::uint16_t type(std::uint8_t);
};
template<int I>
struct Sig<PL_BIG256, I> : Sig<PL_BIG255, I> {};
template<int I>
struct Sig<PL_BIG300, I> : Sig<PL_BIG255, I> {};

template<int POOL>
struct PoolSize;
#define POOL_SIZE(NAME, N)                                                                                             \
  template<>                                                                                                           \
  struct PoolSize<PL_##NAME> {                                                                                         \
    enum { value = N };                                                                                                \
  };
POOL_SIZE(MIX, POOL_MIX(X_COUNT))
POOL_SIZE(VOID1, POOL_VOID1(X_COUNT))
POOL_SIZE(WIDE, POOL_WIDE(X_COUNT))
POOL_SIZE(EXT, POOL_EXT(X_COUNT))
POOL_SIZE(TINY, POOL_TINY(X_COUNT))
POOL_SIZE(REPLY, POOL_REPLY(X_COUNT))
POOL_SIZE(LONG, POOL_LONG(X_COUNT))
POOL_SIZE(BIG255, 255)
POOL_SIZE(BIG256, 256)
POOL_SIZE(BIG300, 300)
POOL_SIZE(REPLYW, 300)

#define FW_CAT2(a, b) a##b
#define FW_CAT(a, b) FW_CAT2(a, b)
enum { POOL = FW_CAT(PL_, FW_POOL), SIZE = PoolSize<POOL>::value };

#define UNEVAL(...) upd::unevaluated<decltype(&__VA_ARGS__), &__VA_ARGS__>
// Reference to the default callback of a function
template<int P, int I>
struct H {
  typedef typename Sig<P, I>::type sig;
  typedef upd::unevaluated<sig *, &Fn<I, I, sig>::f> type;
};
template<int P, typename S>
struct Ring;
template<int P, int... Is>
struct Ring<P, Seq<Is...>> {
  typedef upd::flist_t<typename H<P, Is>::type...> list;
#if __cplusplus >= 201703L
  typedef decltype(upd::keyring{list{}, E_h{}, S_h{}}) type;
#else
  typedef decltype(upd::make_keyring(list{}, E_h{}, S_h{})) type;
#endif
};
typedef Ring<POOL, MakeSeq<SIZE>::type>::type keyring_t;
#if !defined(FW_REPLY_POOL)
#define FW_REPLY_POOL PL_REPLY
#endif
enum { REPLY_POOL = FW_REPLY_POOL };
typedef Ring<REPLY_POOL, MakeSeq<PoolSize<REPLY_POOL>::value>::type>::type reply_keyring_t;

// Functions for which there is a key
template<int P, int N>
struct Keyed : MakeSeq<N> {};
template<int N>
struct KeyedBig {
  typedef Seq<0, 1, 127, 128, 200, 253, 254, N - 2, N - 1> type;
};
template<int N>
struct Keyed<PL_BIG255, N> : KeyedBig<N> {};
template<int N>
struct Keyed<PL_BIG256, N> : KeyedBig<N> {};
template<int N>
struct Keyed<PL_BIG300, N> : KeyedBig<N> {};
template<int N>
struct Keyed<PL_REPLYW, N> {
  typedef Seq<3, 258, 298, 299> type;
};
typedef Keyed<REPLY_POOL, PoolSize<REPLY_POOL>::value>::type reply_keyed_t;
typedef Keyed<POOL, SIZE>::type keyed_t;

template<typename Keyring, int P, int I>
auto key_of() -> decltype(Keyring{}.get(typename H<P, I>::type{})) {
#if __cplusplus >= 201703L
  constexpr Keyring k;
  return k.template get<Fn<I, I, typename Sig<P, I>::type>::f>();
#else
  return Keyring{}.get(typename H<P, I>::type{});
#endif
}

// ------------------------------------------------------------------------------------------------------ callee
// Replaces the action I of a dispatcher
template<typename D, int I, bool ANY>
struct Replace {
  typedef typename Sig<POOL, I>::type sig;
  static int run(D &d, int cbkind, int who) {
    switch (cbkind) {
    case CB_DEFAULT: d.template replace<I>(typename H<POOL, I>::type{}); return ST_NONE;
    case CB_ALT_FUNCTION:
#if __cplusplus >= 201703L
      d.template replace<I, Fn<I, WHO_ALT + I, sig>::f>();
#else
      d.template replace<I>(upd::unevaluated<sig *, &Fn<I, WHO_ALT + I, sig>::f>{});
#endif
      return ST_NONE;
    case CB_STATIC_FUNCTOR:
#if __cplusplus >= 201703L
      d.template replace<I, StaticFunctorHolder<I, sig>::instance>();
#else
      d.template replace<I>(
          upd::unevaluated<StaticFunctor<I, sig> &, StaticFunctorHolder<I, sig>::instance>{});
#endif
      return ST_NONE;
    default: return Replace::any(d, cbkind, who, std::integral_constant<bool, ANY>{});
    }
  }
  static int any(D &d, int cbkind, int, std::false_type) {
    if (cbkind != CB_ASSIGNED)
      return ST_OTHER;
    d[I] = upd::no_storage_action(upd::unevaluated<sig *, &Fn<I, WHO_ALT + I, sig>::f>{}, E_h{}, S_h{});
    return ST_NONE;
  }
  static int any(D &d, int cbkind, int who, std::true_type) {
    switch (cbkind) {
    case CB_LAMBDA: d.template replace<I>(Stateful<I, Token, sig>(who)); return ST_NONE;
    case CB_LVALUE: {
      Stateful<I, Token, sig> named(who);
      d.template replace<I>(named);
      named.token.who = -2; // the original changes, then ends its life
      *named.token.alive = 0xbad;
      return ST_NONE;
    }
    case CB_MUTABLE: d.template replace<I>(Mutable<I, sig>(who)); return ST_NONE;
    case CB_MOVE_ONLY: d.template replace<I>(Stateful<I, MoveOnlyToken, sig>(who)); return ST_NONE;
    case CB_FUNCTION: d.template replace<I>(Fn<I, WHO_ALT + I, sig>::f); return ST_NONE;
    case CB_POINTER: {
      sig *volatile chosen = &Fn<I, I, sig>::f; // known at run time only, and changed afterwards
      sig *pointer = chosen;
      d.template replace<I>(pointer);
      pointer = nullptr;
      return ST_NONE;
    }
    case CB_STDFUNCTION: d.template replace<I>(std::function<sig>(Stateful<I, Token, sig>(who))); return ST_NONE;
    case CB_ASSIGNED: d[I] = upd::action(Stateful<I, Token, sig>(who), E_h{}, S_h{}); return ST_NONE;
    default: return ST_OTHER;
    }
  }
};
template<typename D, bool ANY, typename S>
struct ReplaceTable;
template<typename D, bool ANY, int... Is>
struct ReplaceTable<D, ANY, Seq<Is...>> {
  static int run(D &d, int index, int cbkind, int who) {
    typedef int (*fn)(D &, int, int);
    static const fn table[] = {&Replace<D, Is, ANY>::run...};
    static const int id[] = {Is...};
    for (std::size_t i = 0; i < sizeof id / sizeof *id; i++)
      if (id[i] == index)
        return table[i](d, cbkind, who);
    return ST_OTHER;
  }
};

// Derived classes with their own storage
template<typename Disp, bool DOUBLE>
class probe : public upd::buffered_dispatcher<probe<Disp, DOUBLE>, Disp> {
  typedef upd::buffered_dispatcher<probe<Disp, DOUBLE>, Disp> base_t;
  friend base_t;
  enum : std::size_t {
    isize = DOUBLE ? static_cast<std::size_t>(upd::double_buffered_dispatcher<Disp>::input_buffer_size)
                   : static_cast<std::size_t>(upd::single_buffered_dispatcher<Disp>::buffer_size),
    osize = DOUBLE ? static_cast<std::size_t>(upd::double_buffered_dispatcher<Disp>::output_buffer_size) : isize
  };
  // Heap blocks of exactly the sizes which the library announces
  struct Free {
    void operator()(u8 *p) const { std::free(p); }
  };
  std::unique_ptr<u8[], Free> m_i, m_o;
  static u8 *block(std::size_t n) { return static_cast<u8 *>(std::memset(std::malloc(n), g_fill, n)); }
  upd::byte_t *ibuf_begin() { return m_i.get(); }
  upd::byte_t *obuf_begin() { return DOUBLE ? m_o.get() : m_i.get(); }
  void copy(const probe &o) {
    std::memcpy(m_i.get(), o.m_i.get(), isize);
    if (DOUBLE && osize)
      std::memcpy(m_o.get(), o.m_o.get(), osize);
  }

public:
  probe() : m_i(block(isize)), m_o(block(DOUBLE ? osize : 0)) {}
  probe(const probe &o) : base_t(o), m_i(block(isize)), m_o(block(DOUBLE ? osize : 0)) { copy(o); }
  probe(probe &&o) : base_t(static_cast<base_t &&>(o)), m_i(block(isize)), m_o(block(DOUBLE ? osize : 0)) { copy(o); }
  probe &operator=(const probe &o) {
    base_t::operator=(o);
    copy(o);
    return *this;
  }
  probe &operator=(probe &&o) {
    base_t::operator=(static_cast<base_t &&>(o));
    copy(o);
    return *this;
  }
  std::size_t isz() const { return isize; }
  std::size_t osz() const { return osize; }
  bool intact() const { return true; }
};
struct Front {
  std::uint64_t front[3];
  Front() : front{0x1111, 0x2222, 0x3333} {}
  virtual ~Front() {}
};
// Polymorphic, with the dispatcher neither first in the object nor at the address of the class
template<typename Disp>
class poly : public Front, public upd::buffered_dispatcher<poly<Disp>, Disp> {
  typedef upd::buffered_dispatcher<poly<Disp>, Disp> base_t;
  friend base_t;
  enum : std::size_t {
    isize = upd::double_buffered_dispatcher<Disp>::input_buffer_size,
    osize = upd::double_buffered_dispatcher<Disp>::output_buffer_size
  };
  enum { PAD = 16 };
  u8 m_o0;
  u8 m_pad0[PAD], m_i[isize], m_pad1[PAD], m_o[osize ? osize : 1], m_pad2[PAD];
  virtual upd::byte_t *ibuf_begin() { return m_i; }
  virtual upd::byte_t *obuf_begin() { return m_o; }

public:
  poly() {
    std::memset(m_pad0, 0xa5, PAD);
    std::memset(m_pad1, 0xa5, PAD);
    std::memset(m_pad2, 0xa5, PAD);
    std::memset(m_i, g_fill, sizeof m_i);
    std::memset(m_o, g_fill, sizeof m_o);
    m_o0 = m_o[0];
  }
  poly(const poly &) = default;
  poly(poly &&) = default;
  poly &operator=(const poly &) = default;
  poly &operator=(poly &&) = default;
  std::size_t isz() const { return isize; }
  std::size_t osz() const { return osize; }
  bool intact() const {
    for (int i = 0; i < PAD; i++)
      if (m_pad0[i] != 0xa5 || m_pad1[i] != 0xa5 || m_pad2[i] != 0xa5)
        return false;
    return front[0] == 0x1111 && front[1] == 0x2222 && front[2] == 0x3333 && (osize || m_o[0] == m_o0);
  }
};
template<typename Disp>
struct single : upd::single_buffered_dispatcher<Disp> {
  using upd::single_buffered_dispatcher<Disp>::single_buffered_dispatcher;
  std::size_t isz() const { return single::buffer_size; }
  std::size_t osz() const { return single::buffer_size; }
  bool intact() const { return true; }
};
template<typename Disp>
struct twin : upd::double_buffered_dispatcher<Disp> {
  using upd::double_buffered_dispatcher<Disp>::double_buffered_dispatcher;
  std::size_t isz() const { return twin::input_buffer_size; }
  std::size_t osz() const { return twin::output_buffer_size; }
  bool intact() const { return true; }
};

// A heap block of exactly the size of the object
template<typename T>
struct Box {
  T *p;
  Box() : p(nullptr) {}
  ~Box() { clear(); }
  void *place(unsigned char fill) {
    void *raw = std::malloc(sizeof(T)); // not operator new, whose use by the library is watched
    std::memset(raw, fill, sizeof(T));
    g_fill = fill;
    return raw;
  }
  template<typename... A>
  void make(unsigned char fill, A &&...a) {
    void *raw = place(fill);
    try {
      p = new (raw) T(static_cast<A &&>(a)...);
    } catch (...) {
      std::free(raw);
      throw;
    }
  }
  void clear() {
    if (p) {
      p->~T();
      std::free(p);
    }
    p = nullptr;
  }
};
template<typename T>
T *clone(const T &, void *, std::false_type) {
  return nullptr;
}
template<typename T>
T *clone(const T &x, void *raw, std::true_type) {
  return new (raw) T(x);
}
template<typename T>
int copy_assign(T &, const T &, std::false_type) {
  return ST_OTHER;
}
template<typename T>
int copy_assign(T &a, const T &b, std::true_type) {
  a = b;
  return ST_NONE;
}

template<typename T, bool ANY>
struct CalleeBase : Callee {
  static void *operator new(std::size_t n) { return std::malloc(n); }
  static void operator delete(void *p) { std::free(p); }
  typedef std::integral_constant<bool, !ANY> copyable;
  Box<T> box;
  T &d() { return *box.p; }
  int replace(int index, int cbkind, int who) override {
#if defined(FW_NO_REPLACE)
    return (void)index, (void)cbkind, (void)who, static_cast<int>(ST_OTHER);
#else
    GUARDED(return (ReplaceTable<T, ANY, keyed_t>::run(d(), index, cbkind, who));)
#endif
  }
  int action_call(int index, Source &src, Sink &sink, int is, int os) override {
    GUARDED(
        auto &a = d()[static_cast<typename T::index_t>(index)]; if ((is + os + index) & 1) {
          const auto &c = a;
          process_any<void>(c, src, sink, is, os);
        } else process_any<void>(a, src, sink, is, os);
        return ST_NONE;)
  }
  std::size_t input_size(int index) override { return d()[static_cast<typename T::index_t>(index)].input_size(); }
  std::size_t output_size(int index) override { return d()[static_cast<typename T::index_t>(index)].output_size(); }
  int relocate() override {
    GUARDED(Box<T> fresh; fresh.make(0x5a, static_cast<T &&>(d())); std::swap(box.p, fresh.p); return ST_NONE;)
  }
  int assign(Callee &from, bool move) override {
    GUARDED(T &o = static_cast<CalleeBase &>(from).d(); if (move) {
      d() = static_cast<T &&>(o);
      return ST_NONE;
    } return copy_assign(d(), o, copyable{});)
  }
  int exchange(Callee &other) override {
    GUARDED(std::swap(d(), static_cast<CalleeBase &>(other).d()); return ST_NONE;)
  }
};

template<typename T, bool ANY>
struct BufferedCallee : CalleeBase<T, ANY> {
  typedef CalleeBase<T, ANY> base;
  using base::d;
  int put(u8 b) override { GUARDED(return status(d().put(b));) }
  u8 get() override { return d().get(); }
  bool loaded() override { return d().is_loaded(); }
  int read(Source &s, int style) override { GUARDED(return status(Reader<upd::packet_status, T>::read(d(), s, style));) }
  int read_buffer(const u8 *p, std::size_t n, int style) override {
    GUARDED(return status(Reader<upd::packet_status, T>::read_buffer(d(), p, n, style));)
  }
  int write(Sink &s, int style) override { GUARDED(write_any(d(), s, style); return ST_NONE;) }
  int write_buffer(u8 *p, std::size_t n, int style) override {
    GUARDED(write_buffer_any(d(), p, n, style); return ST_NONE;)
  }
  int process(Source &s, Sink &o, int is, int os) override {
    GUARDED(return status(process_any<upd::packet_status>(d(), s, o, is, os));)
  }
  int process_buffer(const u8 *p, u8 *q, int style) override {
    GUARDED(if (style == BUF_CONST_POINTER) return status(d()(p, q));
            // a byte source as functor and a buffer as destination, and the other way round
            if (style == BUF_LIST) return status(d()([&]() -> upd::byte_t { return *p++; }, q));
            if (style == BUF_DEQUE) return status(d()(p, [&](upd::byte_t b) { *q++ = b; }));
            return status(d()(const_cast<u8 *>(p), q));)
  }
  int reply(Sink &s, int keyslot, int style, bool *ok) override {
#if defined(FW_NO_REPLY)
    return (void)s, (void)keyslot, (void)style, (void)ok, static_cast<int>(ST_OTHER);
#else
    GUARDED(*ok = reply_any(s, keyslot, style, reply_keyed_t{}); return ST_NONE;)
#endif
  }
  template<int... Is>
  bool reply_any(Sink &s, int keyslot, int style, Seq<Is...>) {
    typedef bool (*fn)(T &, Sink &, int);
    static const fn table[] = {&BufferedCallee::template reply_one<Is>...};
    return table[keyslot](d(), s, style);
  }
  template<int I>
  static bool reply_one(T &d, Sink &sink, int style) {
    auto k = key_of<reply_keyring_t, REPLY_POOL, I>();
    Putter p = {&sink};
    switch (style) {
    case OUT_LVALUE: return d.reply(p, k);
    case OUT_ITERATOR:
    case OUT_SHIFT_ITERATOR: return d.reply(StreamOutIt(sink), k);
    default: return d.reply([&](upd::byte_t b) { sink.put(b); }, k);
    }
  }
  std::size_t ibuf_size() override { return d().isz(); }
  std::size_t obuf_size() override { return d().osz(); }
  int dispatch(Source &, Sink &, int, int, std::uint64_t *) override { return ST_OTHER; }
  int lookup(Source &, int, int *) override { return ST_OTHER; }
  bool intact() override { return d().intact(); }
  Callee *fork(unsigned char fill) override {
    if (ANY)
      return nullptr;
    BufferedCallee *c = new BufferedCallee;
    void *raw = c->box.place(fill);
    c->box.p = clone(d(), raw, typename base::copyable{});
    return c;
  }
};

template<typename T, bool ANY>
struct PlainCallee : CalleeBase<T, ANY> {
  typedef CalleeBase<T, ANY> base;
  using base::d;
  int put(u8) override { return ST_OTHER; }
  u8 get() override { return 0; }
  bool loaded() override { return false; }
  int read(Source &, int) override { return ST_OTHER; }
  int read_buffer(const u8 *, std::size_t, int) override { return ST_OTHER; }
  int write(Sink &, int) override { return ST_OTHER; }
  int write_buffer(u8 *, std::size_t, int) override { return ST_OTHER; }
  int process(Source &, Sink &, int, int) override { return ST_OTHER; }
  int process_buffer(const u8 *, u8 *, int) override { return ST_OTHER; }
  int reply(Sink &, int, int, bool *) override { return ST_OTHER; }
  std::size_t ibuf_size() override { return 0; }
  std::size_t obuf_size() override { return 0; }
  int dispatch(Source &s, Sink &o, int is, int os, std::uint64_t *index) override {
    GUARDED(*index = process_any<typename T::index_t>(d(), s, o, is, os); return ST_NONE;)
  }
  int lookup(Source &src, int style, int *index) override {
    GUARDED(Getter g = {&src}; typename T::action_t * a;
            if (style == IN_LVALUE) a = d().get_action(g);
            else if (style == IN_STDFUNCTION) {
              std::function<upd::byte_t()> f(g);
              a = d().get_action(f);
            } else a = d().get_action([&]() -> upd::byte_t { return src.next(); });
            *index = a ? static_cast<int>(a - &d()[0]) : -1; return ST_NONE;)
  }
  bool intact() override { return true; }
  Callee *fork(unsigned char fill) override {
    if (ANY)
      return nullptr;
    PlainCallee *c = new PlainCallee;
    void *raw = c->box.place(fill);
    c->box.p = clone(d(), raw, typename base::copyable{});
    return c;
  }
};

template<typename T, typename C, typename... A>
Callee *make(unsigned char fill, A &&...a) {
  std::unique_ptr<C> c(new C);
  c->box.make(fill, static_cast<A &&>(a)...);
  return c.release();
}
template<int KIND, typename D>
struct Model; // dispatcher type of each kind, wrapped for the simulator
template<typename D>
struct Model<K_SINGLE, D> {
  typedef single<D> type;
};
template<typename D>
struct Model<K_DOUBLE, D> {
  typedef twin<D> type;
};
template<typename D>
struct Model<K_PROBE_SINGLE, D> {
  typedef probe<D, false> type;
};
template<typename D>
struct Model<K_PROBE_DOUBLE, D> {
  typedef probe<D, true> type;
};
template<typename D>
struct Model<K_POLY, D> {
  typedef poly<D> type;
};
template<typename D>
struct Model<K_PLAIN, D> {
  typedef D type;
};
template<int KIND, upd::action_features AF, bool ENABLED>
struct Make {
  static const bool ANY = AF == upd::action_features::ANY;
  typedef typename Model<KIND, upd::dispatcher<keyring_t, AF>>::type T;
  typedef upd::action_features_h<AF> policy_t;
  static Callee *run(unsigned char fill) { return pick(fill, std::integral_constant<int, KIND>{}); }
  template<int K>
  static Callee *pick(unsigned char fill, std::integral_constant<int, K>) {
    return make<T, BufferedCallee<T, ANY>>(fill);
  }
  static Callee *pick(unsigned char fill, std::integral_constant<int, K_SINGLE>) {
    return make<T, BufferedCallee<T, ANY>>(fill, keyring_t{}, policy_t{});
  }
  static Callee *pick(unsigned char fill, std::integral_constant<int, K_DOUBLE>) {
    return make<T, BufferedCallee<T, ANY>>(fill, keyring_t{}, policy_t{});
  }
  static Callee *pick(unsigned char fill, std::integral_constant<int, K_PLAIN>) {
    return make<T, PlainCallee<T, ANY>>(fill, keyring_t{}, policy_t{});
  }
};
template<int KIND, upd::action_features AF>
struct Make<KIND, AF, false> {
  static Callee *run(unsigned char) { return nullptr; }
};
template<upd::action_features AF, bool ENABLED>
Callee *make_policy(int kind, unsigned char fill) {
#define CASE(K)                                                                                                        \
  case K: return Make<K, AF, ENABLED && ((FW_KINDS >> K) & 1) != 0>::run(fill);
  switch (kind) {
    CASE(K_SINGLE) CASE(K_DOUBLE) CASE(K_PLAIN) CASE(K_PROBE_SINGLE) CASE(K_PROBE_DOUBLE) CASE(K_POLY)
  default: return nullptr;
  }
#undef CASE
}
Callee *make_callee(int kind, int policy, unsigned char fill) {
  try {
    return policy == P_WEAK ? make_policy<upd::action_features::WEAK_REFERENCE, (FW_POLICIES & 1) != 0>(kind, fill)
                            : make_policy<upd::action_features::ANY, (FW_POLICIES & 2) != 0>(kind, fill);
  } catch (...) {
    return nullptr;
  }
}

// ------------------------------------------------------------------------------------------------------ caller
// Parameter type of hooks on a response
template<typename R>
struct HookSig {
  typedef void type(const typename bare<R>::type &);
};
template<>
struct HookSig<void> {
  typedef void type();
};

template<int I, typename S>
struct Call;
template<int I, typename R, typename... A>
struct Call<I, R(A...)> {
  typedef decltype(key_of<keyring_t, POOL, I>()) key_t;
  typedef typename HookSig<R>::type hook_sig;
  template<typename W, int... Js>
  static void with(const std::uint64_t *args, W &&w, Seq<Js...>) {
    // offsets of the arguments in the flat list
    const int width[] = {Flat<typename bare<A>::type>::n..., 0};
    int offset[sizeof...(A) + 1] = {0};
    for (std::size_t i = 1; i < sizeof...(A); i++)
      offset[i] = offset[i - 1] + width[i - 1];
    (void)offset;
    const key_t k = key_of<keyring_t, POOL, I>();
    w(k(Held<typename bare<A>::type>(args + offset[Js]).value...));
  }
  struct Write {
    Sink *s;
    int style;
    template<typename M>
    void operator()(M &&m) const {
      const M &c = m;
      if ((style + I) & 1)
        write_any(c, *s, style);
      else
        write_any(m, *s, style);
    }
  };
  struct WriteBuffer {
    u8 *p;
    std::size_t n;
    int style;
    template<typename M>
    void operator()(M &&m) const {
      const M &c = m;
      if ((style + I) & 1)
        write_buffer_any(c, p, n, style);
      else
        write_buffer_any(m, p, n, style);
    }
  };
  static int encode(const std::uint64_t *args, Sink &s, int style) {
    GUARDED(Write w = {&s, style}; with(args, w, typename MakeSeq<sizeof...(A)>::type{}); return ST_NONE;)
  }
  static int encode_buffer(const std::uint64_t *args, u8 *p, std::size_t n, int style) {
    GUARDED(WriteBuffer w = {p, n, style}; with(args, w, typename MakeSeq<sizeof...(A)>::type{}); return ST_NONE;)
  }
  template<typename V, typename F>
  static void store(std::uint64_t *ret, F &&f, Id<V>) {
    flatten(ret, f());
  }
  template<typename F>
  static void store(std::uint64_t *, F &&f, Id<void>) {
    f();
  }
  typedef typename key_t::return_t return_t;
  static int decode(Source &s, std::uint64_t *ret, int style) {
    GUARDED(
        if ((style + I) % 2) {
          const key_t k = key_of<keyring_t, POOL, I>();
          store(ret, [&]() { return Reader<return_t, const key_t>::read(k, s, style); }, Id<return_t>{});
        } else {
          key_t k = key_of<keyring_t, POOL, I>();
          store(ret, [&]() { return Reader<return_t, key_t>::read(k, s, style); }, Id<return_t>{});
        } return ST_NONE;)
  }
  static int decode_buffer(const u8 *p, std::size_t n, std::uint64_t *ret, int style) {
    GUARDED(
        if ((style + I) % 2) {
          const key_t k = key_of<keyring_t, POOL, I>();
          store(ret, [&]() { return Reader<return_t, const key_t>::read_buffer(k, p, n, style); }, Id<return_t>{});
        } else {
          key_t k = key_of<keyring_t, POOL, I>();
          store(ret, [&]() { return Reader<return_t, key_t>::read_buffer(k, p, n, style); }, Id<return_t>{});
        } return ST_NONE;)
  }
  static std::size_t payload_length() { return key_t::payload_length; }
  static std::uint64_t index() { return key_t::index; }
  template<typename Act>
  static void feed(const Act &a, Source &s, int style) {
    struct Null : Sink {
      void put(u8) override {}
    } null;
    process_any<void>(a, s, null, style, OUT_LAMBDA);
  }
  static void feed1(const upd::action &a, Source &s, int style) {
    StreamInIt::Storage st;
    Getter g = {&s};
    if (style == IN_ITERATOR || style == IN_SHIFT_ITERATOR)
      a(StreamInIt(st, s));
    else if (style == IN_LVALUE)
      a(g);
    else
      a([&]() -> upd::byte_t { return s.next(); });
  }
  static int hook(int kind, int who, Source &s, int style) {
    GUARDED(
        const key_t k = key_of<keyring_t, POOL, I>(); if (kind == 0) {
          const upd::action a = k.with_hook(Stateful<HOOK + I, Token, hook_sig>(who));
          feed1(a, s, style);
        } else if (kind == 1) {
          upd::action a;
          {
            Stateful<HOOK + I, Token, hook_sig> named(who);
            a = k.with_hook(named);
            named.token.who = -2;
            *named.token.alive = 0xbad;
          }
          feed(a, s, style);
        } else if (kind == 3) {
          feed(k.with_hook(Fn<HOOK + I, WHO_STATIC + I, hook_sig>::f), s, style);
        } else if (kind == 4) {
          upd::action a;
          a = k.with_hook(std::function<hook_sig>(Stateful<HOOK + I, Token, hook_sig>(who)));
          feed1(a, s, style);
        } else {
#if __cplusplus >= 201703L
          feed(k.template with_hook<Fn<HOOK + I, WHO_STATIC + I, hook_sig>::f>(), s, style);
#else
          feed(k.with_hook(upd::unevaluated<hook_sig *, &Fn<HOOK + I, WHO_STATIC + I, hook_sig>::f>{}), s, style);
#endif
        } return ST_NONE;)
  }
};

struct CallEntry {
  int fn;
  int (*encode)(const std::uint64_t *, Sink &, int);
  int (*encode_buffer)(const std::uint64_t *, u8 *, std::size_t, int);
  int (*decode)(Source &, std::uint64_t *, int);
  int (*decode_buffer)(const u8 *, std::size_t, std::uint64_t *, int);
  std::size_t (*payload_length)();
  std::uint64_t (*index)();
  int (*hook)(int, int, Source &, int);
};
template<typename S>
struct CallTable;
template<int... Is>
struct CallTable<Seq<Is...>> {
  template<int I>
  static CallEntry entry() {
    typedef Call<I, typename Sig<POOL, I>::type> C;
    CallEntry e = {I,         &C::encode,         &C::encode_buffer, &C::decode, &C::decode_buffer,
                   &C::payload_length, &C::index, &C::hook};
    return e;
  }
  static const CallEntry *find(int fn) {
    static const CallEntry table[] = {entry<Is>()...};
    for (std::size_t i = 0; i < sizeof table / sizeof *table; i++)
      if (table[i].fn == fn)
        return table + i;
    return nullptr;
  }
};

struct CallerImpl : Caller {
  static void *operator new(std::size_t n) { return std::malloc(n); }
  static void operator delete(void *p) { std::free(p); }
  static const CallEntry *at(int fn) { return CallTable<keyed_t>::find(fn); }
  int encode(int fn, const std::uint64_t *args, Sink &s, int style) override {
    return at(fn) ? at(fn)->encode(args, s, style) : ST_OTHER;
  }
  int encode_buffer(int fn, const std::uint64_t *args, u8 *p, std::size_t n, int style) override {
    return at(fn) ? at(fn)->encode_buffer(args, p, n, style) : ST_OTHER;
  }
  int decode(int fn, Source &s, std::uint64_t *ret, int style) override {
    return at(fn) ? at(fn)->decode(s, ret, style) : ST_OTHER;
  }
  int decode_buffer(int fn, const u8 *p, std::size_t n, std::uint64_t *ret, int style) override {
    return at(fn) ? at(fn)->decode_buffer(p, n, ret, style) : ST_OTHER;
  }
  std::size_t payload_length(int fn) override { return at(fn) ? at(fn)->payload_length() : 0; }
  std::uint64_t index(int fn) override { return at(fn) ? at(fn)->index() : 0; }
  int hook(int fn, int kind, int who, Source &s, int style) override {
    return at(fn) ? at(fn)->hook(kind, who, s, style) : ST_OTHER;
  }
};
Caller *make_caller() { return new CallerImpl; }
void at_extension(int what) { g_host->extension_point(what); }
void set_host(Host *h) { g_host = h, extension_hook = at_extension; }

#define FW_STR2(x) #x
#define FW_STR(x) FW_STR2(x)
const Firmware firmware = {API_VERSION,
                           POOL,
                           REPLY_POOL,
                           FW_VARIANT_ID,
                           FW_FORMAT_ID,
                           FW_STR(FW_POOL) " " FW_STR(FW_ENDIAN) " " FW_STR(FW_SIGNED),
                           make_callee,
                           make_caller,
                           set_host};
} // namespace

extern "C" __attribute__((visibility("default"))) const Firmware *upd_firmware() { return &firmware; }
