// The pools of functions offered by simulated nodes: C++ signature, and - independently - the wire layout of the
// parameters and of the return value ("u" unsigned, "i" signed, "b" boolean, followed by the size in bytes and an
// optional repetition count).
#pragma once
// clang-format off
#define POOL_MIX(X) \
  X(0,  std::uint8_t(std::uint8_t),                                   "u1", "u1") \
  X(1,  void(),                                                       "", "") \
  X(2,  std::uint32_t(std::uint16_t, std::int8_t),                    "u2 i1", "u4") \
  X(3,  std::int64_t(std::int64_t, std::uint64_t),                    "i8 u8", "i8") \
  X(4,  void(std::int16_t, bool),                                     "i2 b1", "") \
  X(5,  std::uint64_t(),                                              "", "u8") \
  X(6,  bool(const std::int32_t &, std::uint8_t),                     "i4 u1", "b1") \
  X(7,  std::int8_t(std::int8_t, std::int16_t, std::int32_t, const std::int64_t), "i1 i2 i4 i8", "i1") \
  X(8,  Padded(Padded, std::uint8_t),                                 "u1 u2 u2 u1", "u1 u2 u2") \
  X(9,  ArrI16x3(const ArrU32x2 &),                                   "u4*2", "i2*3") \
  X(10, std::int32_t(const std::uint16_t (&)[3], std::int32_t),       "u2*3 i4", "i4") \
  X(11, Packed(const Packed &),                                       "u1 i4 u1 u2 u2", "u1 i4 u1 u2 u2") \
  X(12, std::uint16_t(bool, ArrI8x4, char),                           "b1 i1*4 i1", "u2") \
  X(13, const std::int16_t &(std::uint32_t),                          "u4", "i2") \
  X(14, long long(unsigned long long, char16_t, wchar_t, signed char), "u8 u2 i4 i1", "i8")

#define POOL_VOID1(X) \
  X(0, void(), "", "")

#define POOL_WIDE(X) \
  X(0, std::uint64_t(std::uint8_t),   "u1", "u8") \
  X(1, ArrI32x4(std::uint16_t),       "u2", "i4*4") \
  X(2, std::int16_t(),                "", "i2")

#define POOL_EXT(X) \
  X(0, void(Packed),                          "u1 i4 u1 u2 u2", "") \
  X(1, Sparse(Padded, const Sparse &),        "u1 u2 u2 u2", "u2") \
  X(2, Padded(Sparse),                        "u2", "u1 u2 u2") \
  X(3, Packed(),                              "", "u1 i4 u1 u2 u2") \
  X(4, std::uint8_t(Padded, Padded, Padded),  "u1 u2 u2 u1 u2 u2 u1 u2 u2", "u1") \
  X(5, Packed(Packed, Packed),                "u1 i4 u1 u2 u2 u1 i4 u1 u2 u2", "u1 i4 u1 u2 u2")

#define POOL_TINY(X) \
  X(0, std::uint8_t(std::uint8_t),    "u1", "u1") \
  X(1, std::uint16_t(std::uint16_t),  "u2", "u2") \
  X(2, void(std::int32_t),            "i4", "") \
  X(3, std::int8_t(),                 "", "i1") \
  X(4, void(),                        "", "") \
  X(5, std::int32_t(bool),            "b1", "i4")

// Messages longer than 255 bytes, and of exactly 255 and 256 bytes
#define POOL_LONG(X) \
  X(0, std::uint16_t(const ArrU8x300 &),      "u1*300", "u2") \
  X(1, ArrU32x80(std::uint8_t),               "u1", "u4*80") \
  X(2, ArrU8x256(ArrU8x255),                  "u1*255", "u1*256") \
  X(3, void(),                                "", "") \
  X(4, std::int8_t(const std::int16_t (&)[128], std::uint16_t, bool), "i2*128 u2 b1", "i1") \
  X(5, std::uint8_t(std::uint8_t),            "u1", "u1") \
  X(6, ArrU8x255(ArrU8x256),                  "u1*256", "u1*255") \
  X(7, std::uint64_t(std::uint64_t, ArrI32x4, std::uint64_t, ArrI64x30, std::int8_t, std::uint32_t), \
       "u8 i4*4 u8 i8*30 i1 u4", "u8")

// Functions whose sole parameter is a byte buffer, used as targets of forwarded replies
#define POOL_REPLY(X) \
  X(0, void(const std::uint8_t (&)[16]),      "u1*16", "") \
  X(1, std::uint8_t(const std::uint8_t (&)[8]), "u1*8", "u1") \
  X(2, void(ArrU8x4),                         "u1*4", "") \
  X(3, void(const ArrU8x1 &),                 "u1*1", "") \
  X(4, std::uint16_t(const std::uint8_t (&)[2]), "u1*2", "u2")

// The same among 300 functions: the other ones are of type std::uint16_t(std::uint8_t)
#define POOL_REPLYW(X) \
  X(3, void(const std::uint8_t (&)[16]),      "u1*16", "") \
  X(258, std::uint8_t(const std::uint8_t (&)[8]), "u1*8", "u1") \
  X(298, std::uint16_t(const std::uint8_t (&)[2]), "u1*2", "u2") \
  X(299, void(const ArrU8x4 &),               "u1*4", "")
// clang-format on

enum PoolId { PL_MIX, PL_VOID1, PL_WIDE, PL_EXT, PL_TINY, PL_BIG255, PL_BIG256, PL_BIG300, PL_REPLY, PL_LONG, PL_REPLYW, PL_COUNT };
// Big pools hold n functions of type std::uint16_t(std::uint8_t), of which only those below have real keys:
#define BIG_KEYS(N) {0, 1, 127, 128, 200, 253, 254, N - 2, N - 1}
