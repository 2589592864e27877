From fb083ca7a04be6686883e0617c624128b570166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 01/13] fix: measure requests and responses by their serialized
 size

The sizes of the parameters and of the return value of a callback were taken
with sizeof, which differs from the number of bytes on the wire for types with
a user-defined extension: keys announced a wrong payload length, no-storage
actions waited for a wrong number of bytes and buffers were wrongly sized.
---
 include/upd/detail/type_traits/signature.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index 661b5f0..90dee4c 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -6,6 +6,7 @@
 #include <type_traits>
 
 #include "detector.hpp"
+#include "remove_cv_ref.hpp"
 #include "typelist.hpp"
 
 #include "../../upd.hpp"
@@ -13,6 +14,9 @@
 namespace upd {
 namespace detail {
 
+template<typename>
+struct serialization_size; // IWYU pragma: keep
+
 //! \name
 //! \brief Allows to hold a function signature
 //!
@@ -98,13 +102,13 @@ template<typename F>
 struct is_invocable : decltype(is_invocable_impl<F>(0)) {};
 
 //! \name
-//! \brief Sums the sizes of the parameters of `F`
+//! \brief Sums the sizes in bytes of the parameters of `F` when serialized
 //! @{
 
 template<typename F>
 struct parameters_size : parameters_size<signature_t<F>> {};
 template<typename R, typename... Args>
-struct parameters_size<R(Args...)> : sum<detail::tlist_t<std::integral_constant<std::size_t, sizeof(Args)>...>> {};
+struct parameters_size<R(Args...)> : sum<detail::tlist_t<serialization_size<remove_cv_ref_t<Args>>...>> {};
 
 //! @}
 
@@ -119,11 +123,12 @@ struct map_parameters_size<tlist_t<Fs...>> : tlist_t<parameters_size<Fs>...> {};
 
 //! @}
 
-//! \brief Gets the size of the return type of `F`
+//! \brief Gets the size in bytes of the return value of `F` when serialized
 template<typename F>
 struct return_type_size : return_type_size<detail::signature_t<F>> {};
 template<typename R, typename... Args>
-struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof(R)> {};
+struct return_type_size<R(Args...)>
+    : std::integral_constant<std::size_t, serialization_size<remove_cv_ref_t<R>>::value> {};
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
-- 
2.43.0


From 9dd8305411887a13e849b0820e0449f789619a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 02/13] fix: size the output buffer for the largest response

The output buffer of buffered dispatchers was sized for the largest request,
so that a callback returning more bytes than any request holds made the
dispatcher write past the end of its buffer.
---
 include/upd/buffered_dispatcher.hpp          |  6 ++++--
 include/upd/detail/type_traits/signature.hpp | 11 +++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 081f0b0..9510520 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -20,6 +20,7 @@
 #include "detail/type_traits/typelist.hpp"
 
 // IWYU pragma: no_forward_declare upd::detail::map_parameters_size
+// IWYU pragma: no_forward_declare upd::detail::map_return_type_size
 
 namespace upd {
 namespace detail {
@@ -33,7 +34,7 @@ using needed_input_buffer_size =
 
 //! \brief How many bytes that would be needed to represent any action response of `Keyring`
 template<typename Keyring>
-using needed_output_buffer_size = detail::max<detail::map_parameters_size<typename Keyring::signatures_t::type>>;
+using needed_output_buffer_size = detail::max<detail::map_return_type_size<typename Keyring::signatures_t::type>>;
 
 } // namespace detail
 
@@ -377,7 +378,8 @@ public:
   double_buffered_dispatcher() = default;
 
 private:
-  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size];
+  // An array cannot be empty, even if no action returns anything
+  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size > 0 ? output_buffer_size : 1];
 };
 
 #if __cplusplus >= 201703L
diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index 90dee4c..959b897 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -132,6 +132,17 @@ struct return_type_size<R(Args...)>
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
+//! \name
+//! \brief Map `return_type_size` over a typelist of invocable type
+//! @{
+
+template<typename>
+struct map_return_type_size;
+template<typename... Fs>
+struct map_return_type_size<tlist_t<Fs...>> : tlist_t<return_type_size<Fs>...> {};
+
+//! @}
+
 UPD_DETAIL_MAKE_DETECTOR(
     has_signature_impl,
     UPD_PACK(typename F, typename R, typename... Args),
-- 
2.43.0


From 67cc2bbd97bc5fa9883b273c31d6ec2e0bd1e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 03/13] fix: stay usable when a callback throws

An exception leaving a callback skipped the reset of the input state: the
remaining byte count of the request wrapped around and every byte put
afterwards was stored past the end of the input buffer.
---
 include/upd/buffered_dispatcher.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 9510520..e4c6f1a 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -264,12 +264,14 @@ private:
 
     auto *ibuf_ptr = derived().ibuf_begin();
     auto index = get_index([&]() { return *ibuf_ptr++; });
-    m_dispatcher[index]([&]() { return *ibuf_ptr++; },
-                        [&](byte_t byte) { derived().obuf_begin()[m_obuf_bottom++] = byte; });
 
+    // The input state is reset first so that the dispatcher is ready for a new request even if the callback throws
     m_is_index_loaded = false;
     m_load_count = sizeof(index_t);
     m_ibuf_next = 0;
+
+    m_dispatcher[index]([&]() { return *ibuf_ptr++; },
+                        [&](byte_t byte) { derived().obuf_begin()[m_obuf_bottom++] = byte; });
   }
 
   //! \copydoc dispatcher::get_index
-- 
2.43.0


From 88e6f4fda310f22f6b6a444a2e135c6a6f231424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 04/13] fix: find the buffers of any class derived from
 buffered_dispatcher

reinterpret_cast gives a wrong address as soon as the buffered_dispatcher base
is not at offset zero, e.g. when the derived class is polymorphic.
---
 include/upd/buffered_dispatcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index e4c6f1a..7b4e3bd 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -70,8 +70,8 @@ class buffered_dispatcher : public detail::immediate_reader<buffered_dispatcher<
                             public detail::immediate_process<buffered_dispatcher<D, Dispatcher>, packet_status> {
   using this_t = buffered_dispatcher<D, Dispatcher>;
 
-  D &derived() { return reinterpret_cast<D &>(*this); }
-  const D &derived() const { return reinterpret_cast<const D &>(*this); }
+  D &derived() { return static_cast<D &>(*this); }
+  const D &derived() const { return static_cast<const D &>(*this); }
 
 public:
   //! \copydoc dispatcher::index_t
-- 
2.43.0


From 228eba9c70697d67a8777d62b93b01044df9f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 05/13] fix: do not send uninitialized bytes in replies

reply() sends the whole fixed-size buffer, of which only the beginning was
written to when the response is shorter.
---
 include/upd/buffered_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 7b4e3bd..b51c157 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -240,7 +240,7 @@ public:
 
     using buf_t = typename Key::tuple_t::template arg_t<0>;
 
-    buf_t buf;
+    buf_t buf{};
     write_to(std::begin(buf));
     k(buf).write_to(UPD_FWD(output));
 
-- 
2.43.0


From b37018b150420762c0b106c279ad751ae1a6fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 06/13] fix: keep a copy of callbacks given as lvalues

action is documented to wrap a copy of the callback it is given, but it kept a
reference to the callback when it was an lvalue, which dangles once the callback
goes out of scope.
---
 include/upd/action.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 611a33b..ad47b93 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 
 #include "format.hpp"
 #include "tuple.hpp"
@@ -76,7 +77,8 @@ template<typename F, endianess Endianess, signed_mode Signed_Mode>
 struct action_model_impl {
   using tuple_t = input_tuple<Endianess, Signed_Mode, F>;
 
-  explicit action_model_impl(F &&ftor) : ftor{UPD_FWD(ftor)} {}
+  template<typename G>
+  explicit action_model_impl(G &&ftor) : ftor(UPD_FWD(ftor)) {}
 
   F ftor;
 };
@@ -105,7 +107,8 @@ class action_model : public action_concept {
   using tuple_t = typename impl_t::tuple_t;
 
 public:
-  explicit action_model(F &&ftor) : m_impl{UPD_FWD(ftor)} {
+  template<typename G>
+  explicit action_model(G &&ftor) : m_impl{UPD_FWD(ftor)} {
     action_model::input_size = tuple_t::size;
     action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, return_t<F>>::size;
   }
@@ -157,7 +160,8 @@ public:
   //! \param ftor Callback to be wrapped
   template<endianess Endianess, signed_mode Signed_Mode, typename F, UPD_REQUIREMENT(invocable, F)>
   explicit action(F &&ftor, endianess_h<Endianess>, signed_mode_h<Signed_Mode>)
-      : m_concept_uptr{new detail::action_model<F, Endianess, Signed_Mode>{UPD_FWD(ftor)}} {}
+      : m_concept_uptr{
+            new detail::action_model<typename std::decay<F>::type, Endianess, Signed_Mode>{UPD_FWD(ftor)}} {}
 
   UPD_SFINAE_FAILURE_CTOR(action, UPD_ERROR_NOT_INVOCABLE(ftor))
 
-- 
2.43.0


From 2c41fffff51afd64919285613696bc2f9edb5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 07/13] fix: let callbacks of no-storage actions return
 std::array

The unqualified call to make_tuple picked std::make_tuple through
argument-dependent lookup.
---
 include/upd/action.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index ad47b93..e54ebaa 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -36,7 +36,7 @@ template<endianess Endianess, signed_mode Signed_Mode, typename T, UPD_REQUIREME
 void insert(dest_t &dest, const T &value) {
   using namespace upd;
 
-  auto output = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, value);
+  auto output = upd::make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, value);
   for (byte_t byte : output)
     dest(byte);
 }
@@ -138,7 +138,7 @@ void static_storage_duration_callback_wrapper(src_t &&src, dest_t &&dest) {
   input_tuple<Endianess, Signed_Mode, F> parameters_tuple;
   for (auto &byte : parameters_tuple)
     byte = src();
-  auto return_tuple = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
+  auto return_tuple = upd::make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
   for (auto byte : return_tuple)
     dest(byte);
 }
-- 
2.43.0


From 7dbb52ad286ad0ad9b25d06aa190d2fa7869e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 08/13] fix: let callbacks of actions return references

Keyrings, keys and no-storage actions already accepted them.
---
 include/upd/action.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index e54ebaa..ef46ffc 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -17,6 +17,7 @@
 #include "detail/static_error.hpp"
 #include "detail/type_traits/flatten_tuple.hpp"
 #include "detail/type_traits/input_tuple.hpp"
+#include "detail/type_traits/remove_cv_ref.hpp"
 #include "detail/type_traits/require.hpp"
 #include "detail/type_traits/signature.hpp"
 
@@ -110,7 +111,7 @@ public:
   template<typename G>
   explicit action_model(G &&ftor) : m_impl{UPD_FWD(ftor)} {
     action_model::input_size = tuple_t::size;
-    action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, return_t<F>>::size;
+    action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, remove_cv_ref_t<return_t<F>>>::size;
   }
 
   void operator()(src_t &&src, dest_t &&dest) final { return detail::call<tuple_t>(src, dest, UPD_FWD(m_impl.ftor)); }
-- 
2.43.0


From 0be9db99ff04d3657317742793a4a0f420edd4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 09/13] fix: access as many bytes as the serialization holds
 through iterators

Reading or writing a value through an iterator other than a plain pointer took
sizeof bytes, which differs from the serialized size of types with a
user-defined extension: the following values were overwritten.
---
 include/upd/detail/serialization.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index 37130b0..25d5305 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -21,6 +21,9 @@ class tuple_view; // IWYU pragma: keep
 
 namespace detail {
 
+template<typename>
+struct serialization_size; // IWYU pragma: keep
+
 //! \brief Make a tuple view suitable for functors of the provided signature to invoke on
 template<endianess Endianess, signed_mode Signed_Mode, typename It, typename... Args, typename R>
 tuple_view<It, Endianess, Signed_Mode, Args...> make_view_for(const It &it, signature<R(Args...)>) {
@@ -86,7 +89,7 @@ T read_as(const byte_t *sequence) {
 }
 template<typename T, endianess Endianess, signed_mode Signed_Mode, typename It, detail::require_not_pointer<It> = 0>
 decltype(read_as<T, Endianess, Signed_Mode>(std::declval<byte_t *>())) read_as(It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
   for (byte_t &byte : buf)
     byte = *it++;
   return read_as<T, Endianess, Signed_Mode>(buf);
@@ -149,7 +152,7 @@ void write_as(const T &x, byte_t *sequence) {
 }
 template<endianess Endianess, signed_mode Signed_Mode, typename T, typename It, detail::require_not_pointer<It> = 0>
 void write_as(const T &value, It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
 
   write_as<Endianess, Signed_Mode>(value, buf);
   for (const byte_t &byte : buf)
-- 
2.43.0


From 1cb405379da4be3fa3f61381e243443977d9d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 10/13] fix: do not copy arbitrary bytes into a bool

When the platform endianess is provided, integers are read with memcpy. A byte
other than 0 and 1 is not a valid bool.
---
 include/upd/detail/endianess.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/endianess.hpp b/include/upd/detail/endianess.hpp
index 14561ef..23f1b3a 100644
--- a/include/upd/detail/endianess.hpp
+++ b/include/upd/detail/endianess.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <cstring>
+#include <type_traits>
 
 #include "../format.hpp"
 #include "../type.hpp"
@@ -37,14 +38,20 @@ T from_endianess_impl(const byte_t *raw_data, std::size_t n) {
 }
 
 //! \brief Interpret a sequence of byte as an integer according to the provided endianess
-template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess == Endianess)>
+//!
+//! `bool` is never copied from the byte sequence, as not every byte is a valid object representation of `bool`.
+template<typename T,
+         endianess Endianess,
+         UPD_REQUIRE(platform_info.endianess == Endianess && !std::is_same<T, bool>::value)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   auto retval = T(0);
   memcpy(&retval, raw_data, n);
 
   return retval;
 }
-template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess != Endianess)>
+template<typename T,
+         endianess Endianess,
+         UPD_REQUIRE(platform_info.endianess != Endianess || std::is_same<T, bool>::value)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   return from_endianess_impl<T, Endianess>(raw_data, n);
 }
-- 
2.43.0


From 2393508da724ad5e2bb956635a3ac2037f7d58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 11/13] fix: report unimplemented Client.new_request as such

NotImplemented is not an exception, so that raising it was a TypeError.
---
 py/unpadded/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/unpadded/client.py b/py/unpadded/client.py
index fdc6a9f..b4e7990 100644
--- a/py/unpadded/client.py
+++ b/py/unpadded/client.py
@@ -1,6 +1,6 @@
 class Client:
     def new_request(self, payload):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     async def call(self, key, *args):
         response = await self.new_request(key.encode(*args))
-- 
2.43.0


From 501a8130fe8d407a1b61cb7a137e10b12c45804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 12/13] fix: reject keys of other keyrings in the Python
 dispatchers

replace() used the index of any key without checking that the dispatcher has an
action with that index, nor that it takes and returns as many bytes.
---
 include/upd/python.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/upd/python.hpp b/include/upd/python.hpp
index 1c5beb9..e0fe2ae 100644
--- a/include/upd/python.hpp
+++ b/include/upd/python.hpp
@@ -170,7 +170,15 @@ void declare_dispatcher(pybind11::module &pymodule, const char *name, Keyring ke
       .def("get", &dispatcher_t::get)
       .def("is_loaded", &dispatcher_t::is_loaded)
       .def("replace", [](dispatcher_t &self, pybind11::object pykey, pybind11::function pyfunction) {
-        self[pykey.attr("index")().cast<std::size_t>()] = pykey.attr("__make_action")(pyfunction).cast<action>();
+        auto index = pykey.attr("index")().cast<std::size_t>();
+        auto new_action = pykey.attr("__make_action")(pyfunction).cast<action>();
+
+        // Keys of other keyrings may be out of bound or designate an action which has another signature
+        if (!(index < Keyring::size) || new_action.input_size() != self[index].input_size() ||
+            new_action.output_size() != self[index].output_size())
+          throw pybind11::value_error{"the key does not match any action of the dispatcher"};
+
+        self[index] = std::move(new_action);
       });
 
   unpack_keyring(pymodule, keyring);
-- 
2.43.0


From 93482ca154493611e60b8114c1d7a72d8d533e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:14 +0000
Subject: [PATCH 13/13] fix: report short payloads instead of crashing the
 Python interpreter

Decoding a payload shorter than the serialized value dereferenced a null
object.
---
 include/upd/python.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/upd/python.hpp b/include/upd/python.hpp
index e0fe2ae..285224d 100644
--- a/include/upd/python.hpp
+++ b/include/upd/python.hpp
@@ -86,6 +86,8 @@ void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Ind
              auto it = pybytes.begin();
              return k.read_from([&]() {
                ++it;
+               if (it == pybytes.end())
+                 throw pybind11::value_error{"the payload is too short"};
                return it->cast<byte_t>();
              });
            })
-- 
2.43.0

