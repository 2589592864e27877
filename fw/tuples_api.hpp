// Interface between the simulator and tuples.cpp (tuples and views compiled from /repo/include).
#pragma once
#include <cstddef>
#include <cstdint>

#include "fw_api.hpp"

namespace twapi {
typedef unsigned char u8;
using fwapi::Sink;
using fwapi::Source;

// A register file owned by the simulator. Both accesses may throw.
struct Medium {
  virtual u8 read(long at) = 0;
  virtual void write(long at, u8 v) = 0;

protected:
  ~Medium() {}
};

// OWN: the tuple itself. ALT: a tuple in another wire format. Others: views over bytes reached through an iterator.
enum ObjKind { O_OWN, O_ALT, O_POINTER, O_LIST, O_DEQUE, O_REGISTERS, O_COUNT };
enum Ctor { C_DEFAULT, C_VALUES, C_MAKE, C_NAMED, C_COUNT };

// Throwing operations return fwapi::ST_THREW if an exception left the library, ST_NONE otherwise, ST_OTHER if unsupported.
struct Object {
  virtual ~Object() {}
  virtual std::size_t size() = 0;
  virtual long extent() = 0; // distance from begin() to end()
  virtual int get(int field, std::uint64_t *out, int style) = 0;
  virtual int set(int field, const std::uint64_t *in, int style) = 0;
  virtual int assign(Object &from) = 0;
  virtual int invoke(std::uint64_t *out, bool through_const) = 0;
  virtual u8 peek(std::size_t i, int style) = 0;
  virtual void poke(std::size_t i, u8 v, int style) = 0;
  virtual int stream_in(Source &, std::size_t skip, std::size_t n) = 0; // user code copying bytes in, by iteration
  virtual int stream_out(Sink &, bool through_const) = 0;
  // sub-views (slices of an owning tuple): the `c`-th slice supported
  virtual int slices() = 0;
  virtual void slice(int c, int *first, int *count) = 0;
  virtual int slice_get(int c, int j, std::uint64_t *out, int style) = 0;
  virtual int slice_set(int c, int j, const std::uint64_t *in, int style) = 0;
  virtual int slice_bytes(int c, u8 *out, std::size_t max, std::size_t *n) = 0;
  virtual int slice_invoke(int c, std::uint64_t *out) = 0;
  virtual int slice_assign(int c, const std::uint64_t *in) = 0; // from a tuple of the slice's fields
  // the fields but the first become those but the last (up) or the reverse, by assignment between two views of this tuple
  virtual int shift(bool up) = 0;
  virtual int clone(unsigned char fill, Object **) = 0;         // copy construction
};

struct TupleWare {
  int api_version;
  int format, alt_format;
  int layouts;
  // fill: previous content of the object's memory. values: all fields (constructors other than C_DEFAULT). For views the
  // bytes hold `initial`.
  Object *(*make)(int layout, int kind, int ctor, const std::uint64_t *values, const u8 *initial, Medium *, unsigned char fill);
};
enum { TW_VERSION = 1 };

// The layouts and, independently, their schemas (one per field)
// clang-format off
#define TW_LAYOUT_0(X) X(std::uint8_t, "u1") X(std::int16_t, "i2") X(bool, "b1") X(std::uint64_t, "u8")
#define TW_LAYOUT_1(X) X(std::int8_t, "i1") X(std::int32_t, "i4") X(std::int64_t, "i8") X(std::uint16_t, "u2") X(std::uint32_t, "u4")
#define TW_LAYOUT_2(X) X(ArrU32x2, "u4*2") X(bool, "b1") X(ArrI16x3, "i2*3")
#define TW_LAYOUT_3(X) X(std::uint8_t, "u1") X(Padded, "u1 u2 u2") X(std::int32_t, "i4") X(Sparse, "u2")
#define TW_LAYOUT_4(X) X(Packed, "u1 i4 u1 u2 u2") X(std::int16_t, "i2")
#define TW_LAYOUT_5(X) X(std::int64_t, "i8")
#define TW_LAYOUT_6(X) X(std::int16_t, "i2") X(std::int16_t, "i2") X(std::int16_t, "i2") X(std::int16_t, "i2")
// clang-format on
enum { TW_LAYOUTS = 7 };
} // namespace twapi
