// Tuples and tuple views of the real library, for the simulator. Macros as in firmware.cpp.
#include <deque>
#include <iterator>
#include <list>
#include <new>
#include <utility>

#include <upd/tuple.hpp>

#include "tuples_api.hpp"
#include "values.hpp"

using namespace twapi;

namespace {
const upd::endianess E0 = upd::endianess::FW_ENDIAN;
const upd::signed_mode S0 = upd::signed_mode::FW_SIGNED;
// another format
const upd::endianess E1 = E0 == upd::endianess::LITTLE ? upd::endianess::BIG : upd::endianess::LITTLE;
const upd::signed_mode S1 = S0 == upd::signed_mode::OFFSET_BINARY ? upd::signed_mode::ONES_COMPLEMENT
                                                                  : upd::signed_mode::OFFSET_BINARY;
enum { ALT_FORMAT = (E1 == upd::endianess::BIG ? 4 : 0) + (S1 == upd::signed_mode::OFFSET_BINARY ? 3 : 1) };

template<typename... Ts>
struct List {};

// Iterator over the registers
struct Reg {
  Medium *m;
  long at;
  operator u8() const { return m->read(at); }
  const Reg &operator=(u8 v) const {
    m->write(at, v);
    return *this;
  }
  Reg(Medium *m, long at) : m(m), at(at) {}
  Reg(const Reg &) = default;
  const Reg &operator=(const Reg &o) const { return *this = static_cast<u8>(o); }
};
struct RegIt {
  typedef std::forward_iterator_tag iterator_category;
  typedef u8 value_type;
  typedef std::ptrdiff_t difference_type;
  typedef void pointer;
  typedef Reg reference;
  Medium *m;
  long at;
  RegIt() : m(nullptr), at(0) {}
  RegIt(Medium *m, long at) : m(m), at(at) {}
  Reg operator*() const { return Reg(m, at); }
  RegIt &operator++() {
    at++;
    return *this;
  }
  RegIt operator++(int) {
    RegIt r = *this;
    at++;
    return r;
  }
  bool operator==(const RegIt &o) const { return m == o.m && at == o.at; }
  bool operator!=(const RegIt &o) const { return !(*this == o); }
};

// What an object of one kind is made of
template<int KIND, typename L>
struct Body;
template<typename... Ts>
struct Body<O_OWN, List<Ts...>> {
  typedef upd::tuple<E0, S0, Ts...> type;
};
template<typename... Ts>
struct Body<O_ALT, List<Ts...>> {
  typedef upd::tuple<E1, S1, Ts...> type;
};
template<typename... Ts>
struct Body<O_POINTER, List<Ts...>> {
  typedef upd::tuple_view<u8 *, E0, S0, Ts...> type;
};
template<typename... Ts>
struct Body<O_LIST, List<Ts...>> {
  typedef upd::tuple_view<std::list<u8>::iterator, E0, S0, Ts...> type;
};
template<typename... Ts>
struct Body<O_DEQUE, List<Ts...>> {
  typedef upd::tuple_view<std::deque<u8>::iterator, E0, S0, Ts...> type;
};
template<typename... Ts>
struct Body<O_REGISTERS, List<Ts...>> {
  typedef upd::tuple_view<RegIt, E0, S0, Ts...> type;
};

template<int... Is>
struct Seq {};
template<int N, int... Is>
struct MakeSeq : MakeSeq<N - 1, N - 1, Is...> {};
template<int... Is>
struct MakeSeq<0, Is...> {
  typedef Seq<Is...> type;
};
template<int I, typename T, typename... Ts>
struct Offset { // of a field, in flat values
  enum { n = static_cast<int>(Flat<T>::n) + static_cast<int>(Offset<I - 1, Ts...>::n) };
};
template<typename T, typename... Ts>
struct Offset<0, T, Ts...> {
  enum { n = 0 };
};

// Runs code which an exception may leave
#define GUARD(...)                                                                                                     \
  try {                                                                                                                \
    __VA_ARGS__;                                                                                                       \
    return fwapi::ST_NONE;                                                                                             \
  } catch (...) {                                                                                                      \
    return fwapi::ST_THREW;                                                                                            \
  }

template<typename T>
struct FieldOps {
  int (*get)(T &, std::uint64_t *, int style);
  int (*set)(T &, const std::uint64_t *, int style);
};
template<typename T, int I, typename F>
int field_get(T &t, std::uint64_t *out, int style) {
  const T &c = t;
  switch (style & 3) {
  case 0: GUARD(Flat<F>::to(t.template get<I>(), out));
  case 1: GUARD(Flat<F>::to(c.template get<I>(), out));
  case 2: GUARD(Flat<F>::to(upd::get<I>(t), out));
  default: GUARD(Flat<F>::to(upd::get<I>(c), out));
  }
}
template<typename T, int I, typename F>
int field_set(T &t, const std::uint64_t *in, int style) {
  F v = Flat<F>::from(in);
  const F cv = v;
  switch (style % 3) {
  case 0: GUARD(t.template set<I>(v));
  case 1: GUARD(upd::set<I>(t, cv));
  default: GUARD(upd::set<I>(t, Flat<F>::from(in)));
  }
}

struct Flatten {
  std::uint64_t *out;
  int *calls;
};
template<typename... Ts>
struct Invoked {
  static std::uint64_t *out;
  static int calls;
  static int f(const Ts &...xs) {
    flatten(out, xs...);
    calls++;
    return 4711;
  }
};
template<typename... Ts>
std::uint64_t *Invoked<Ts...>::out;
template<typename... Ts>
int Invoked<Ts...>::calls;

template<typename T, typename... Ts>
int invoke_on(T &t, std::uint64_t *out) {
  Invoked<Ts...>::out = out;
  Invoked<Ts...>::calls = 0;
  int r;
  try {
    r = t.invoke(&Invoked<Ts...>::f);
  } catch (...) {
    return fwapi::ST_THREW;
  }
  return r == 4711 && Invoked<Ts...>::calls == 1 ? fwapi::ST_NONE : fwapi::ST_OTHER;
}

// Slices: (first, count) pairs instantiated for a tuple of N fields
template<int F, int C>
struct Slice {};
template<int N>
struct Slices {
  typedef List<Slice<0, N>, Slice<0, 1>, Slice<1, N - 1>, Slice<N - 1, 1>, Slice<1, (N > 2 ? 2 : N - 1)>> type;
};
template<>
struct Slices<1> {
  typedef List<Slice<0, 1>> type;
};

template<int I, typename T, typename... Ts>
struct At : At<I - 1, Ts...> {};
template<typename T, typename... Ts>
struct At<0, T, Ts...> {
  typedef T type;
};
// Types I... of a list
template<typename L, typename S, int FIRST>
struct SubList;
template<typename... Ts, int... Is, int FIRST>
struct SubList<List<Ts...>, Seq<Is...>, FIRST> {
  typedef List<typename At<FIRST + Is, Ts...>::type...> type;
};

template<typename V, typename L>
struct ViewOps;
template<typename V, typename... Ts>
struct ViewOps<V, List<Ts...>> {
  template<int... Is>
  static int get(V &v, int j, std::uint64_t *out, int style, Seq<Is...>) {
    static int (*const table[])(V &, std::uint64_t *, int) = {&field_get<V, Is, Ts>...};
    return table[j](v, out, style);
  }
  template<int... Is>
  static int set(V &v, int j, const std::uint64_t *in, int style, Seq<Is...>) {
    static int (*const table[])(V &, const std::uint64_t *, int) = {&field_set<V, Is, Ts>...};
    return table[j](v, in, style);
  }
  template<int... Is>
  static int assign(V &v, const std::uint64_t *in, Seq<Is...>) {
    GUARD(v = (upd::tuple<E1, S1, Ts...>(Flat<Ts>::from(in + Offset<Is, Ts...>::n)...)))
  }
};

template<typename Own, typename L, typename S>
struct SliceOps;
template<typename Own, typename L, int F, int C>
struct SliceOps<Own, L, Slice<F, C>> {
  typedef typename SubList<L, typename MakeSeq<C>::type, F>::type types;
  static int get(Own &t, int j, std::uint64_t *out, int style) {
    const Own &c = t;
    if (style & 4) {
      auto v = style & 8 ? c.template view<F, C>() : upd::make_view<F, C>(c);
      return ViewOps<decltype(v), types>::get(v, j, out, style, typename MakeSeq<C>::type());
    }
    auto v = style & 8 ? t.template view<F, C>() : upd::make_view<F, C>(t);
    return ViewOps<decltype(v), types>::get(v, j, out, style, typename MakeSeq<C>::type());
  }
  static int set(Own &t, int j, const std::uint64_t *in, int style) {
    auto v = style & 8 ? t.template view<F, C>() : upd::make_view<F, C>(t);
    return ViewOps<decltype(v), types>::set(v, j, in, style & 3, typename MakeSeq<C>::type());
  }
  static int bytes(Own &t, u8 *out, std::size_t max, std::size_t *n) {
    auto v = t.template view<F, C>();
    *n = 0;
    for (auto b : v)
      if (*n < max)
        out[(*n)++] = b;
    return v.end() - v.begin() == static_cast<long>(v.size) ? fwapi::ST_NONE : fwapi::ST_OTHER;
  }
  template<typename V, typename... Ts>
  static int invoke_impl(V &v, std::uint64_t *out, List<Ts...>) {
    return invoke_on<V, Ts...>(v, out);
  }
  static int invoke(Own &t, std::uint64_t *out) {
    auto v = t.template view<F, C>();
    return invoke_impl(v, out, types());
  }
  static int assign(Own &t, const std::uint64_t *in) {
    auto v = t.template view<F, C>();
    return ViewOps<decltype(v), types>::assign(v, in, typename MakeSeq<C>::type());
  }
};
template<typename Own>
struct SliceEntry {
  int first, count;
  int (*get)(Own &, int, std::uint64_t *, int);
  int (*set)(Own &, int, const std::uint64_t *, int);
  int (*bytes)(Own &, u8 *, std::size_t, std::size_t *);
  int (*invoke)(Own &, std::uint64_t *);
  int (*assign)(Own &, const std::uint64_t *);
};
template<typename Own, typename L, typename SL>
struct SliceTable;
template<typename Own, typename L, int... Fs, int... Cs>
struct SliceTable<Own, L, List<Slice<Fs, Cs>...>> {
  enum { n = sizeof...(Fs) };
  static const SliceEntry<Own> &at(int c) {
    static const SliceEntry<Own> table[] = {{Fs, Cs, &SliceOps<Own, L, Slice<Fs, Cs>>::get, &SliceOps<Own, L, Slice<Fs, Cs>>::set,
                                             &SliceOps<Own, L, Slice<Fs, Cs>>::bytes, &SliceOps<Own, L, Slice<Fs, Cs>>::invoke,
                                             &SliceOps<Own, L, Slice<Fs, Cs>>::assign}...};
    return table[c];
  }
};

// Assignment between overlapping views, where all fields are alike
template<typename...>
struct Alike : std::false_type {};
template<typename T, typename U>
struct Alike<T, U> : std::is_same<T, U> {};
template<typename T, typename U, typename... Ts>
struct Alike<T, U, Ts...> : std::integral_constant<bool, std::is_same<T, U>::value && Alike<U, Ts...>::value> {};
template<typename T, int N>
int shift_in(T &t, bool up, std::true_type) {
  const T &c = t;
  if (up) {
    auto to = t.template view<1, N - 1>();
    auto from = c.template view<0, N - 1>();
    GUARD(to = std::move(from))
  }
  auto to = t.template view<0, N - 1>();
  auto from = c.template view<1, N - 1>();
  GUARD(to = std::move(from))
}
template<typename T, int N>
int shift_in(T &, bool, std::false_type) {
  return fwapi::ST_OTHER;
}

// Storage of the objects: exactly as large as needed, so that AddressSanitizer sees any excess
void *storage(std::size_t n, unsigned char fill) {
  void *p = std::malloc(n ? n : 1);
  std::memset(p, fill, n);
  return p;
}

template<typename... Ts>
struct Layout;
struct AnyObject : Object {
  int kind, layout;
};

template<int KIND, int LAYOUT, typename L>
struct Obj;

template<int LAYOUT, typename L>
struct Source2 { // hands an object over to an assignment, as the type it is
  template<typename D>
  static int assign_to(D &d, AnyObject &from) {
    switch (from.kind) {
    case O_OWN: return static_cast<Obj<O_OWN, LAYOUT, L> &>(from).give(d);
    case O_ALT: return static_cast<Obj<O_ALT, LAYOUT, L> &>(from).give(d);
    case O_POINTER: return static_cast<Obj<O_POINTER, LAYOUT, L> &>(from).give(d);
    case O_LIST: return static_cast<Obj<O_LIST, LAYOUT, L> &>(from).give(d);
    case O_REGISTERS: return static_cast<Obj<O_REGISTERS, LAYOUT, L> &>(from).give(d);
    }
    return fwapi::ST_OTHER;
  }
};

template<int KIND, int LAYOUT, typename... Ts>
struct Obj<KIND, LAYOUT, List<Ts...>> : AnyObject {
  typedef List<Ts...> list;
  typedef typename Body<KIND, list>::type type;
  enum { N = sizeof...(Ts), OWNING = KIND == O_OWN || KIND == O_ALT };
  typedef typename MakeSeq<N>::type seq;
  typedef SliceTable<type, list, typename Slices<N>::type> slice_table;
  type *t;
  // bytes behind a view
  u8 *raw;
  std::list<u8> chain;
  std::deque<u8> deque;

  template<int... Is>
  void construct(void *p, int ctor, const std::uint64_t *v, Seq<Is...>, std::integral_constant<int, 1>) {
    const upd::endianess e = KIND == O_OWN ? E0 : E1;
    const upd::signed_mode s = KIND == O_OWN ? S0 : S1;
    switch (ctor) {
    case C_DEFAULT: t = new (p) type; break;
    case C_VALUES: t = new (p) type(Flat<Ts>::from(v + Offset<Is, Ts...>::n)...); break;
    case C_MAKE: t = new (p) type(upd::make_tuple(upd::endianess_h<e>{}, upd::signed_mode_h<s>{}, Flat<Ts>::from(v + Offset<Is, Ts...>::n)...)); break;
    default:
#if __cplusplus >= 201703L
      t = new (p) type(upd::endianess_h<e>{}, upd::signed_mode_h<s>{}, Flat<Ts>::from(v + Offset<Is, Ts...>::n)...);
#else
      t = new (p) type(upd::make_tuple(upd::endianess_h<e>{}, upd::signed_mode_h<s>{}, Flat<Ts>::from(v + Offset<Is, Ts...>::n)...));
#endif
    }
  }
  void bind(void *p, u8 *, std::integral_constant<int, O_POINTER>, Medium *) {
    t = new (p) type(upd::make_view<Ts...>(upd::endianess_h<E0>{}, upd::signed_mode_h<S0>{}, raw));
  }
  void bind(void *p, u8 *, std::integral_constant<int, O_LIST>, Medium *) { t = new (p) type(chain.begin()); }
  void bind(void *p, u8 *, std::integral_constant<int, O_DEQUE>, Medium *) {
    t = new (p) type(upd::make_view<Ts...>(upd::endianess_h<E0>{}, upd::signed_mode_h<S0>{}, deque.begin()));
  }
  void bind(void *p, u8 *, std::integral_constant<int, O_REGISTERS>, Medium *m) { t = new (p) type(RegIt(m, 0)); }
  template<int... Is>
  void build(int, const std::uint64_t *, const u8 *initial, Medium *m, unsigned char fill, Seq<Is...>, std::integral_constant<int, 0>) {
    const std::size_t n = type::size;
    if (KIND == O_POINTER) {
      raw = static_cast<u8 *>(storage(n, fill));
      std::memcpy(raw, initial, n);
    } else if (KIND == O_LIST)
      chain.assign(initial, initial + n);
    else if (KIND == O_DEQUE)
      deque.assign(initial, initial + n);
    bind(storage(sizeof(type), fill), raw, std::integral_constant<int, KIND>(), m);
  }
  template<int... Is>
  void build(int ctor, const std::uint64_t *v, const u8 *, Medium *, unsigned char fill, Seq<Is...> s, std::integral_constant<int, 1> o) {
    construct(storage(sizeof(type), fill), ctor, v, s, o);
  }
  Obj(int ctor, const std::uint64_t *v, const u8 *initial, Medium *m, unsigned char fill) : t(nullptr), raw(nullptr) {
    kind = KIND, layout = LAYOUT;
    build(ctor, v, initial, m, fill, seq(), std::integral_constant<int, OWNING>());
  }
  Obj(const Obj &o, unsigned char fill) : t(nullptr), raw(nullptr) {
    kind = KIND, layout = LAYOUT;
    t = new (storage(sizeof(type), fill)) type(*o.t);
  }
  ~Obj() {
    t->~type();
    std::free(t);
    std::free(raw);
  }
  std::size_t size() override { return type::size; }
  long extent() override { return static_cast<long>(std::distance(t->begin(), t->end())); }
  int get(int field, std::uint64_t *out, int style) override { return ViewOps<type, list>::get(*t, field, out, style, seq()); }
  int set(int field, const std::uint64_t *in, int style) override { return ViewOps<type, list>::set(*t, field, in, style, seq()); }

  // assignment from a temporary, in the type of the source
  template<typename D>
  int give(D &d) {
    return give_impl(d, std::integral_constant<bool, !OWNING && std::is_same<D, type>::value>());
  }
  template<typename D>
  int give_impl(D &d, std::false_type) {
    type copy(*t); // of the view or of the tuple
    GUARD(d = std::move(copy));
  }
  template<typename D>
  int give_impl(D &, std::true_type) { // a view of the very same type: rebinding or copying is not specified
    return fwapi::ST_OTHER;
  }
  int assign(Object &from) override { return Source2<LAYOUT, list>::assign_to(*t, static_cast<AnyObject &>(from)); }
  int invoke(std::uint64_t *out, bool through_const) override {
    const type &c = *t;
    return through_const ? invoke_on<const type, Ts...>(c, out) : invoke_on<type, Ts...>(*t, out);
  }
  u8 peek_impl(std::size_t i, int style, std::integral_constant<int, 1>) {
    const type &c = *t;
    switch (style & 3) {
    case 0: return (*t)[i];
    case 1: return c[i];
    case 2: return *(c.begin() + i);
    default: return *(c.end() - (type::size - i));
    }
  }
  u8 peek_impl(std::size_t i, int, std::integral_constant<int, 0>) { return *std::next(t->begin(), static_cast<long>(i)); }
  u8 peek(std::size_t i, int style) override { return peek_impl(i, style, std::integral_constant<int, OWNING>()); }
  void poke_impl(std::size_t i, u8 v, int style, std::integral_constant<int, 1>) {
    switch (style % 3) {
    case 0: (*t)[i] = v; break;
    case 1: t->begin()[i] = v; break;
    default: *(t->end() - (type::size - i)) = v; break;
    }
  }
  void poke_impl(std::size_t i, u8 v, int, std::integral_constant<int, 0>) { *std::next(t->begin(), static_cast<long>(i)) = v; }
  void poke(std::size_t i, u8 v, int style) override { poke_impl(i, v, style, std::integral_constant<int, OWNING>()); }
  int stream_in(Source &src, std::size_t skip, std::size_t n) override {
    std::size_t k = 0;
    GUARD(for (auto &&b
               : *t) {
      if (k >= skip && k < skip + n)
        b = src.next();
      k++;
    })
  }
  int stream_out(Sink &dest, bool through_const) override {
    const type &c = *t;
    if (through_const)
      GUARD(for (auto &&b : c) dest.put(b))
    GUARD(for (auto &&b : *t) dest.put(b))
  }
  // ---- slices
  template<int O, typename D = void>
  struct Sl { // owning tuples
    static int n() { return slice_table::n; }
    static const SliceEntry<type> &at(int c) { return slice_table::at(c); }
  };
  template<typename D>
  struct Sl<0, D> {
    static int n() { return 0; }
    static const SliceEntry<type> &at(int) {
      static SliceEntry<type> none;
      return none;
    }
  };
  typedef Sl<OWNING> sl;
  int slices() override { return sl::n(); }
  void slice(int c, int *first, int *count) override { *first = sl::at(c).first, *count = sl::at(c).count; }
  int slice_get(int c, int j, std::uint64_t *out, int style) override { return sl::at(c).get(*t, j, out, style); }
  int slice_set(int c, int j, const std::uint64_t *in, int style) override { return sl::at(c).set(*t, j, in, style); }
  int slice_bytes(int c, u8 *out, std::size_t max, std::size_t *n) override { return sl::at(c).bytes(*t, out, max, n); }
  int slice_invoke(int c, std::uint64_t *out) override { return sl::at(c).invoke(*t, out); }
  int slice_assign(int c, const std::uint64_t *in) override { return sl::at(c).assign(*t, in); }
  int shift(bool up) override { return shift_in<type, N>(*t, up, std::integral_constant<bool, OWNING && Alike<Ts...>::value>()); }
  int clone(unsigned char fill, Object **out) override {
    if (!OWNING)
      return fwapi::ST_OTHER;
    *out = new Obj(*this, fill);
    return fwapi::ST_NONE;
  }
};

template<int LAYOUT, typename L>
Object *make_kind(int kind, int ctor, const std::uint64_t *v, const u8 *init, Medium *m, unsigned char fill) {
  switch (kind) {
  case O_OWN: return new Obj<O_OWN, LAYOUT, L>(ctor, v, init, m, fill);
  case O_ALT: return new Obj<O_ALT, LAYOUT, L>(ctor, v, init, m, fill);
  case O_POINTER: return new Obj<O_POINTER, LAYOUT, L>(ctor, v, init, m, fill);
  case O_LIST: return new Obj<O_LIST, LAYOUT, L>(ctor, v, init, m, fill);
  case O_DEQUE: return new Obj<O_DEQUE, LAYOUT, L>(ctor, v, init, m, fill);
  case O_REGISTERS: return new Obj<O_REGISTERS, LAYOUT, L>(ctor, v, init, m, fill);
  }
  return nullptr;
}
template<typename... Ts>
struct Typelist;
struct End;
// List of the types of a layout macro
template<typename L, typename T>
struct Push;
template<typename... Ts, typename T>
struct Push<List<Ts...>, T> {
  typedef List<Ts..., T> type;
};
template<typename... Ts>
struct DropEnd;
template<typename L, typename... Ts>
struct DropEndImpl;
template<typename... Ds>
struct DropEndImpl<List<Ds...>, End> {
  typedef List<Ds...> type;
};
template<typename... Ds, typename T, typename... Ts>
struct DropEndImpl<List<Ds...>, T, Ts...> : DropEndImpl<List<Ds..., T>, Ts...> {};
#define TYPE(T, S) T,
#define LAYOUT_TYPES(N) DropEndImpl<List<>, TW_LAYOUT_##N(TYPE) End>::type

Object *make(int layout, int kind, int ctor, const std::uint64_t *v, const u8 *init, Medium *m, unsigned char fill) {
  switch (layout) {
  case 0: return make_kind<0, LAYOUT_TYPES(0)>(kind, ctor, v, init, m, fill);
  case 1: return make_kind<1, LAYOUT_TYPES(1)>(kind, ctor, v, init, m, fill);
  case 2: return make_kind<2, LAYOUT_TYPES(2)>(kind, ctor, v, init, m, fill);
  case 3: return make_kind<3, LAYOUT_TYPES(3)>(kind, ctor, v, init, m, fill);
  case 4: return make_kind<4, LAYOUT_TYPES(4)>(kind, ctor, v, init, m, fill);
  case 5: return make_kind<5, LAYOUT_TYPES(5)>(kind, ctor, v, init, m, fill);
  case 6: return make_kind<6, LAYOUT_TYPES(6)>(kind, ctor, v, init, m, fill);
  }
  return nullptr;
}
const TupleWare ware = {TW_VERSION, FW_FORMAT_ID, ALT_FORMAT, TW_LAYOUTS, &make};
} // namespace

extern "C" __attribute__((visibility("default"))) const twapi::TupleWare *upd_tupleware() { return &ware; }
