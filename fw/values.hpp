// Types of the values exchanged by simulated nodes, and their conversion from/to the simulator's flat values.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <type_traits>

#include <upd/tuple.hpp>

namespace {
// ---------------------------------------------------------------------------------------------------- types
typedef std::array<std::int16_t, 3> ArrI16x3;
typedef std::array<std::uint32_t, 2> ArrU32x2;
typedef std::array<std::int32_t, 4> ArrI32x4;
typedef std::array<std::int8_t, 4> ArrI8x4;
typedef std::array<std::uint8_t, 4> ArrU8x4;
typedef std::array<std::uint8_t, 1> ArrU8x1;
typedef std::array<std::uint8_t, 300> ArrU8x300;
typedef std::array<std::uint8_t, 255> ArrU8x255;
typedef std::array<std::uint8_t, 256> ArrU8x256;
typedef std::array<std::uint32_t, 80> ArrU32x80;
typedef std::array<std::int64_t, 30> ArrI64x30;

// User-defined conversions report to the host, and may fail there
void (*extension_hook)(int);
void extension_point(int what) {
  if (extension_hook)
    extension_hook(what);
}

// Serialized form smaller than the object because of padding
struct Padded {
  std::uint8_t a;
  std::uint16_t b, c;
};
// Serialized form larger than the object (handle on data held elsewhere)
struct PackedData {
  std::uint8_t a;
  std::int32_t b;
  Padded p;
};
PackedData packed_table[2048];
unsigned packed_next;
struct Packed {
  std::uint16_t slot;
};
Packed pack(const PackedData &d) {
  packed_next = packed_next % 2047 + 1; // slot 0 stays zero: default-constructed values
  packed_table[packed_next] = d;
  Packed p;
  p.slot = static_cast<std::uint16_t>(packed_next);
  return p;
}
// Serialized form much smaller than the object
struct Sparse {
  std::uint64_t cache[5];
  std::uint16_t v;
};
} // namespace

template<>
struct upd_extension<Padded> {
  template<typename View>
  static void serialize(const Padded &o, View &view) {
    extension_point(1);
    upd::set<0>(view, o.a);
    upd::set<1>(view, o.b);
    upd::set<2>(view, o.c);
  }
  static Padded unserialize(std::uint8_t a, std::uint16_t b, std::uint16_t c) {
    extension_point(0);
    Padded o;
    o.a = a, o.b = b, o.c = c;
    return o;
  }
};
template<>
struct upd_extension<Packed> {
  template<typename View>
  static void serialize(const Packed &o, View &view) {
    extension_point(1);
    const PackedData &d = packed_table[o.slot];
    upd::set<0>(view, d.a);
    upd::set<1>(view, d.b);
    upd::set<2>(view, d.p);
  }
  static Packed unserialize(std::uint8_t a, std::int32_t b, Padded p) {
    extension_point(0);
    PackedData d;
    d.a = a, d.b = b, d.p = p;
    return pack(d);
  }
};
template<>
struct upd_extension<Sparse> {
  template<typename View>
  static void serialize(const Sparse &o, View &view) {
    extension_point(1);
    upd::set<0>(view, o.v);
  }
  static Sparse unserialize(std::uint16_t v) {
    extension_point(0);
    Sparse o = Sparse();
    o.v = v;
    return o;
  }
};

namespace {
// ------------------------------------------------------- conversion from/to the simulator's flat 64-bit values
template<typename T>
struct Flat {
  enum { n = 1 };
  static void to(const T &x, std::uint64_t *out) { *out = static_cast<std::uint64_t>(static_cast<std::int64_t>(x)); }
  static T from(const std::uint64_t *in) { return static_cast<T>(*in); }
};
template<>
struct Flat<std::uint64_t> {
  enum { n = 1 };
  static void to(const std::uint64_t &x, std::uint64_t *out) { *out = x; }
  static std::uint64_t from(const std::uint64_t *in) { return *in; }
};
template<>
struct Flat<bool> {
  enum { n = 1 };
  static void to(const bool &x, std::uint64_t *out) {
    unsigned char c; // a bool holding another representation than 0 or 1 must not go unnoticed
    std::memcpy(&c, &x, 1);
    *out = c;
  }
  static bool from(const std::uint64_t *in) { return *in != 0; }
};
template<typename T, std::size_t N>
struct Flat<std::array<T, N>> {
  enum { n = N };
  static void to(const std::array<T, N> &x, std::uint64_t *out) {
    for (std::size_t i = 0; i < N; i++)
      Flat<T>::to(x[i], out + i);
  }
  static std::array<T, N> from(const std::uint64_t *in) {
    std::array<T, N> r;
    for (std::size_t i = 0; i < N; i++)
      r[i] = Flat<T>::from(in + i);
    return r;
  }
};
template<typename T, std::size_t N>
struct Flat<T[N]> {
  enum { n = N };
  static void to(const T (&x)[N], std::uint64_t *out) {
    for (std::size_t i = 0; i < N; i++)
      Flat<T>::to(x[i], out + i);
  }
};
template<>
struct Flat<Padded> {
  enum { n = 3 };
  static void to(const Padded &x, std::uint64_t *out) { out[0] = x.a, out[1] = x.b, out[2] = x.c; }
  static Padded from(const std::uint64_t *in) {
    Padded o;
    o.a = static_cast<std::uint8_t>(in[0]), o.b = static_cast<std::uint16_t>(in[1]);
    o.c = static_cast<std::uint16_t>(in[2]);
    return o;
  }
};
template<>
struct Flat<Packed> {
  enum { n = 5 };
  static void to(const Packed &x, std::uint64_t *out) {
    const PackedData &d = packed_table[x.slot];
    out[0] = d.a, out[1] = static_cast<std::uint64_t>(static_cast<std::int64_t>(d.b));
    Flat<Padded>::to(d.p, out + 2);
  }
  static Packed from(const std::uint64_t *in) {
    PackedData d;
    d.a = static_cast<std::uint8_t>(in[0]), d.b = static_cast<std::int32_t>(in[1]);
    d.p = Flat<Padded>::from(in + 2);
    return pack(d);
  }
};
template<>
struct Flat<Sparse> {
  enum { n = 1 };
  static void to(const Sparse &x, std::uint64_t *out) { out[0] = x.v; }
  static Sparse from(const std::uint64_t *in) {
    Sparse o = Sparse();
    o.v = static_cast<std::uint16_t>(in[0]);
    return o;
  }
};

template<typename T>
struct bare {
  typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type;
};

// Holder of one argument, able to make arrays too
template<typename T>
struct Held {
  T value;
  explicit Held(const std::uint64_t *in) : value(Flat<T>::from(in)) {}
};
template<typename T, std::size_t N>
struct Held<T[N]> {
  T value[N];
  explicit Held(const std::uint64_t *in) {
    for (std::size_t i = 0; i < N; i++)
      value[i] = Flat<T>::from(in + i);
  }
};

template<typename...>
struct Count;
template<>
struct Count<> {
  enum { n = 0 };
};
template<typename T, typename... Ts>
struct Count<T, Ts...> {
  enum { n = static_cast<int>(Flat<typename bare<T>::type>::n) + static_cast<int>(Count<Ts...>::n) };
};

inline void flatten(std::uint64_t *) {}
template<typename T, typename... Ts>
void flatten(std::uint64_t *out, const T &x, const Ts &...xs) {
  Flat<T>::to(x, out);
  flatten(out + Flat<T>::n, xs...);
}
} // namespace
