// Extension module of the simulated Python nodes: keyrings and dispatchers exposed through the real include/upd/python.hpp.
// The native callbacks report to the simulator, and so does the lifetime of nothing else.
#include <array>
#include <cstdint>

#include <upd/keyring.hpp>
#include <upd/python.hpp>

static pybind11::object *host = nullptr;

template<typename R, typename... Args>
static R ask(int fn, const Args &...args) {
  pybind11::object r = (*host)(fn, args...);
  if constexpr (!std::is_void_v<R>)
    return r.cast<R>();
}

typedef std::array<std::int16_t, 3> I16x3;
typedef std::array<std::uint8_t, 4> U8x4;
typedef std::array<std::uint32_t, 2> U32x2;

// Global names: they become the names of the keys
std::uint16_t a0(std::uint16_t x) { return ask<std::uint16_t>(0, x); }
void a1(std::int32_t x) { ask<void>(1, x); }
std::int64_t a2() { return ask<std::int64_t>(2); }
void a3() { ask<void>(3); }
bool a4(bool x, std::uint8_t y) { return ask<bool>(4, x, y); }
std::int8_t a5(std::int8_t x, std::int16_t y, std::uint32_t z, std::uint64_t t) { return ask<std::int8_t>(5, x, y, z, t); }

I16x3 b0(U8x4 x, std::int32_t y) { return ask<I16x3>(100, x, y); }
std::int32_t b1(const std::int32_t &x) { return ask<std::int32_t>(101, x); }
std::uint64_t b2(std::uint64_t x) { return ask<std::uint64_t>(102, x); }
U32x2 b3() { return ask<U32x2>(103); }
std::uint8_t b4(std::uint8_t x, std::uint8_t y) { return ask<std::uint8_t>(104, x, y); }
void b5(I16x3 x) { ask<void>(105, x); }
std::int16_t b6(std::int64_t x) { return ask<std::int16_t>(106, x); }

void c0(std::uint8_t x) { ask<void>(200, x); }
void c1() { ask<void>(201); }

std::int32_t d0(std::int32_t x) { return ask<std::int32_t>(300, x); }
std::int64_t d1(std::int64_t x) { return ask<std::int64_t>(301, x); }

constexpr upd::keyring ring_a{upd::flist<a0, a1, a2, a3, a4, a5>, upd::big_endian, upd::ones_complement};
constexpr upd::keyring ring_b{upd::flist<b0, b1, b2, b3, b4, b5, b6>, upd::little_endian, upd::signed_magnitude};
constexpr upd::keyring ring_c{upd::flist<c0, c1>, upd::little_endian, upd::twos_complement};
constexpr upd::keyring ring_d{upd::flist<d0, d1>, upd::big_endian, upd::offset_binary};

PYBIND11_MODULE(updsim, pymodule) {
  pymodule.def("set_host", [](pybind11::object f) {
    if (!host)
      host = new pybind11::object; // never destroyed
    *host = f;
  });
  upd::py::declare_dispatcher(pymodule, "DispatcherA", ring_a);
  upd::py::declare_dispatcher(pymodule, "DispatcherB", ring_b);
  upd::py::declare_dispatcher(pymodule, "DispatcherC", ring_c);
  upd::py::declare_dispatcher(pymodule, "DispatcherD", ring_d);
}
