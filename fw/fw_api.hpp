// Interface between the simulator and the "firmware": code compiled from /repo/include, once per
// build variant (language standard, platform hints, wire format), loaded as a shared object.
// Everything here is C++11 and knows nothing about the library under test.
#pragma once
#include <cstddef>
#include <cstdint>

namespace fwapi {
typedef unsigned char u8;

// Outcome of an operation. ST_THREW: an exception left the library call.
enum Status { ST_LOADING = 0, ST_DROPPED = 1, ST_RESOLVED = 2, ST_THREW = 3, ST_NONE = 4, ST_OOM = 5, ST_OTHER = 6 };

// Simulator-owned byte source and sink. Both may throw (injected I/O failure).
struct Source {
  virtual u8 next() = 0;

protected:
  ~Source() {}
};
struct Sink {
  virtual void put(u8) = 0;

protected:
  ~Sink() {}
};

// What the callbacks running on the node report to. `who` identifies the callback instance, `calls` counts
// the calls made on that instance. May throw (injected callback failure).
struct Host {
  virtual void invoke(int who, int fn, uint64_t calls, const uint64_t *args, int nargs, uint64_t *ret, int nret) = 0;
  virtual void born(int who) = 0; // an instance of a stateful callback was constructed
  virtual void died(int who) = 0;
  virtual void copy_point(int who) = 0; // may throw: copying a callback fails
  virtual void extension_point(int what) = 0; // a user-defined conversion (0 from, 1 to bytes), may throw
  virtual bool handle_failure() = 0; // in a handler: whether the exception was thrown by the simulator

protected:
  ~Host() {}
};

// How bytes are moved in and out.
enum InStyle { IN_LAMBDA, IN_LVALUE, IN_STDFUNCTION, IN_ITERATOR, IN_SHIFT_FUNCTOR, IN_SHIFT_ITERATOR, IN_COUNT };
enum OutStyle {
  OUT_LAMBDA,
  OUT_LVALUE,
  OUT_STDFUNCTION,
  OUT_ITERATOR,
  OUT_SHIFT_FUNCTOR,
  OUT_SHIFT_ITERATOR,
  OUT_COUNT
};
// Variants reading from / writing to complete memory buffers
enum BufStyle { BUF_POINTER, BUF_CONST_POINTER, BUF_LIST, BUF_DEQUE, BUF_SHIFT_POINTER, BUF_COUNT };

enum Kind { K_SINGLE, K_DOUBLE, K_PROBE_SINGLE, K_PROBE_DOUBLE, K_POLY, K_PLAIN, K_COUNT };
enum Policy { P_WEAK, P_ANY, P_COUNT };

enum CallbackKind { CB_DEFAULT, CB_ALT_FUNCTION, CB_STATIC_FUNCTOR, CB_LAMBDA, CB_LVALUE, CB_MUTABLE, CB_MOVE_ONLY, CB_FUNCTION, CB_POINTER,
                    CB_STDFUNCTION, CB_ASSIGNED, CB_COUNT };

struct Callee {
  virtual ~Callee() {}
  // buffered kinds
  virtual int put(u8) = 0;
  virtual u8 get() = 0;
  virtual bool loaded() = 0;
  virtual int read(Source &, int style) = 0;
  virtual int read_buffer(const u8 *, std::size_t n, int style) = 0;
  virtual int write(Sink &, int style) = 0;
  // Writes into a buffer of exactly n bytes
  virtual int write_buffer(u8 *, std::size_t n, int style) = 0;
  virtual int process(Source &, Sink &, int istyle, int ostyle) = 0;
  virtual int process_buffer(const u8 *, u8 *, int style) = 0;
  // keyslot: which key of the reply pool. ok: value returned by the library.
  virtual int reply(Sink &, int keyslot, int style, bool *ok) = 0;
  virtual std::size_t ibuf_size() = 0;
  virtual std::size_t obuf_size() = 0;
  // plain kind
  virtual int dispatch(Source &, Sink &, int istyle, int ostyle, uint64_t *index) = 0;
  // every kind
  virtual int replace(int index, int cbkind, int who) = 0;
  virtual int action_call(int index, Source &, Sink &, int istyle, int ostyle) = 0;
  virtual std::size_t input_size(int index) = 0;
  virtual std::size_t output_size(int index) = 0;
  virtual int lookup(Source &, int style, int *index) = 0; // plain: get_action; index -1 if none
  // Continues in a move-constructed object at another address; the former object is destroyed.
  virtual int relocate() = 0;
  // Assignment from (and exchange with) a callee of the same kind and policy. After a move, `from` may only be
  // destroyed or assigned to. Returns ST_NONE, or ST_OTHER if not supported (copies under the any-callback policy).
  virtual int assign(Callee &from, bool move) = 0;
  virtual int exchange(Callee &other) = 0;
  // Weak only: an independent copy, else null.
  virtual Callee *fork(unsigned char fill) = 0;
  virtual bool intact() = 0; // memory of derived classes around their buffers is unaltered
};

struct Caller {
  virtual ~Caller() {}
  virtual int encode(int fn, const uint64_t *args, Sink &, int style) = 0;
  virtual int encode_buffer(int fn, const uint64_t *args, u8 *, std::size_t n, int style) = 0;
  virtual int decode(int fn, Source &, uint64_t *ret, int style) = 0;
  virtual int decode_buffer(int fn, const u8 *, std::size_t n, uint64_t *ret, int style) = 0;
  virtual std::size_t payload_length(int fn) = 0;
  virtual uint64_t index(int fn) = 0;
  // Build a hook from the key (kind: 0 temporary, 1 named object destroyed before use, 2 static) and let it process a
  // response. Reported to the host as function fn + HOOK.
  virtual int hook(int fn, int kind, int who, Source &, int style) = 0;
};
enum { HOOK = 5000, WHO_ALT = 10000, WHO_STATIC = 20000, WHO_STATEFUL = 100000 };

// Entry point of each shared object: extern "C" const fwapi::Firmware *upd_firmware();
struct Firmware {
  int api_version;
  int pool;
  int reply_pool; // the functions replies may be forwarded to
  int variant, format;
  const char *description;
  // The dispatcher lives in a heap block of exactly its size, filled with `fill` beforehand
  Callee *(*make_callee)(int kind, int policy, unsigned char fill);
  Caller *(*make_caller)();
  void (*set_host)(Host *);
};
enum { API_VERSION = 4 };
} // namespace fwapi
