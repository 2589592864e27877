"""Foundations of the Python worlds: randomness, event log, run specifications, reference model of the wire."""
import hashlib
import random


class Violation(Exception):
    def __init__(self, cls, detail, op=-1):
        super().__init__(cls, detail)
        self.cls, self.detail, self.op = cls, detail, op


class SimFault:
    """A failure injected by the simulator: mixed in exceptions of several kinds"""

    def __init__(self, serial):
        super().__init__(serial)
        self.serial = serial


FAULTS = [type("SimFault_" + b.__name__, (SimFault, b), {}) for b in
          (Exception, Exception, RuntimeError, ValueError, TypeError, LookupError, AttributeError, ImportError, MemoryError,
           RecursionError, AssertionError, BaseException)]
# These mean something to coroutines and event loops
CONTROL = [type("SimFault_" + b.__name__, (SimFault, b), {}) for b in (StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit)]


def sim_fault(serial, choice, control=False):
    kinds = FAULTS + CONTROL if control else FAULTS
    return kinds[h64("fault", choice) % len(kinds)](serial)


class Op:
    __slots__ = ("kind", "p", "data")

    def __init__(self, kind, *p, data=b""):
        self.kind, self.p, self.data = kind, list(p), data

    def at(self, i, dflt=0):
        return self.p[i] if i < len(self.p) else dflt


class Spec:
    def __init__(self, world, **cfg):
        self.world, self.cfg, self.ops = world, {k: str(v) for k, v in cfg.items()}, []

    def num(self, k, dflt=0):
        return int(self.cfg.get(k, dflt))

    def text(self):
        r = ["world " + self.world]
        r += ["cfg %s %s" % c for c in sorted(self.cfg.items())]
        for o in self.ops:
            l = "op " + " ".join([o.kind] + [str(x) for x in o.p])
            r.append(l + (" : " + o.data.hex() if o.data else ""))
        return "\n".join(r) + "\n"


def parse_specs(text):
    for part in text.split("run\n"):
        s = None
        for line in part.splitlines():
            if not line or line.startswith("#"):
                continue
            w = line.split(" ")
            if w[0] == "world":
                s = Spec(w[1])
            elif w[0] == "cfg":
                s.cfg[w[1]] = " ".join(w[2:])
            elif w[0] == "op":
                data = b""
                if ":" in w:
                    k = w.index(":")
                    data = bytes.fromhex(w[k + 1]) if k + 1 < len(w) else b""
                    w = w[:k]
                s.ops.append(Op(w[1], *[int(x) for x in w[2:]], data=data))
        if s:
            yield s


def h64(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "little")


class Log:
    def __init__(self, verbose=False):
        self.full, self.shape, self.verbose = hashlib.blake2b(digest_size=8), hashlib.blake2b(digest_size=8), verbose
        self.events = 0

    def ev(self, tag, values=(), shaped=()):
        self.events += 1
        self.shape.update(repr((tag, shaped)).encode())
        self.full.update(repr((tag, shaped, values)).encode())
        if self.verbose:
            print("  %-10s %s | %s" % (tag, " ".join(map(str, shaped)), " ".join(map(str, values))), flush=True)

    def hash(self):
        return self.full.hexdigest()


class Result:
    violation = None
    nontrivial = False
    sim_us = 0


def rng(seed):
    return random.Random(seed)


# ------------------------------------------------------------------------------------------------ wire format
class Format:
    def __init__(self, big, mode):
        self.big, self.mode = big, mode

    def put(self, v, size):
        return (v & ((1 << 8 * size) - 1)).to_bytes(size, "big" if self.big else "little")

    def encode_int(self, v, size):
        sign = 1 << (8 * size - 1)
        if self.mode == "sm":
            v = v if v >= 0 else sign | -v
        elif self.mode == "oc":
            v = v if v >= 0 else ~-v
        elif self.mode == "ob":
            v = v + sign
        return self.put(v, size)

    def decode_uint(self, b):
        return int.from_bytes(b, "big" if self.big else "little")

    def decode_int(self, b):
        raw, sign = self.decode_uint(b), 1 << (8 * len(b) - 1)
        if self.mode == "sm":
            return -(raw & ~sign) if raw & sign else raw
        if self.mode == "oc":
            return -(~raw & (2 * sign - 1)) if raw & sign else raw
        if self.mode == "tc":
            return raw - 2 * sign if raw & sign else raw
        return raw - sign


class T:
    """A type on the wire: kind u, i or b, size, and length for arrays (0: not an array)"""

    def __init__(self, name):
        n = name.split("*")
        self.kind, self.item, self.n = n[0][0], int(n[0][1]), int(n[1]) if len(n) > 1 else 0
        self.size = self.item * max(1, self.n)

    def encode1(self, f, v):
        if self.kind == "i":
            return f.encode_int(v, self.item)
        return f.put(int(v), self.item)

    def encode(self, f, v):
        return b"".join(self.encode1(f, x) for x in v) if self.n else self.encode1(f, v)

    def decode1(self, f, b):
        if self.kind == "i":
            return f.decode_int(b)
        v = f.decode_uint(b)
        return v != 0 if self.kind == "b" else v

    def decode(self, f, b):
        if self.n:
            return [self.decode1(f, b[i:i + self.item]) for i in range(0, self.size, self.item)]
        return self.decode1(f, b)

    def gen1(self, g, f):
        if self.kind == "b":
            return g.random() < 0.5
        m = 1 << 8 * self.item
        raw = g.choice([g.randrange(3), m - 1 - g.randrange(3), m // 2 - 1 + g.randrange(3), 1 << g.randrange(8 * self.item),
                        g.randrange(m), g.randrange(m)])
        if self.kind == "u":
            return raw
        v = raw - m if raw >= m // 2 else raw
        if v == -m // 2 and f.mode in ("sm", "oc"):
            v += 1
        return v

    def gen(self, g, f):
        return [self.gen1(g, f) for _ in range(self.n)] if self.n else self.gen1(g, f)

    def bad(self, g):
        """Something which does not convert, whatever the rules of conversion in use"""
        c = [object(), "x", (), {}, None, 1.5j]
        if self.n:
            c += [[0] * (self.n + 1), [0] * (self.n - 1), ["x"] * self.n, 3]
        elif self.kind == "b":
            c = ["x", object(), [1, 2], (), {}]
        else:
            c += [1 << 8 * self.item, -(1 << 8 * self.item), 1.5, "1", [1]]
        return g.choice(c)


def same(a, b):
    if isinstance(b, list):
        return isinstance(a, (list, tuple)) and list(a) == b
    return type(a) is type(b) and a == b


class Fn:
    def __init__(self, name, ret, *args):
        self.name, self.ret, self.args = name, T(ret) if ret else None, [T(a) for a in args]
        self.argsize, self.retsize = sum(a.size for a in self.args), self.ret.size if self.ret else 0


class Ring:
    def __init__(self, name, base, f, *fns):
        self.name, self.base, self.f, self.fns = name, base, f, fns

    def request(self, i, args):
        return bytes([i]) + b"".join(t.encode(self.f, a) for t, a in zip(self.fns[i].args, args))

    def args(self, i, b):
        r = []
        for t in self.fns[i].args:
            r.append(t.decode(self.f, b[:t.size]))
            b = b[t.size:]
        return r

    def response(self, i, v):
        return self.fns[i].ret.encode(self.f, v) if self.fns[i].ret else b""

    def value(self, i, b):
        t = self.fns[i].ret
        return t.decode(self.f, b[:t.size]) if t else None


RINGS = [
    Ring("A", 0, Format(True, "oc"), Fn("a0", "u2", "u2"), Fn("a1", "", "i4"), Fn("a2", "i8"), Fn("a3", ""),
         Fn("a4", "b1", "b1", "u1"), Fn("a5", "i1", "i1", "i2", "u4", "u8")),
    Ring("B", 100, Format(False, "sm"), Fn("b0", "i2*3", "u1*4", "i4"), Fn("b1", "i4", "i4"), Fn("b2", "u8", "u8"),
         Fn("b3", "u4*2"), Fn("b4", "u1", "u1", "u1"), Fn("b5", "", "i2*3"), Fn("b6", "i2", "i8")),
    Ring("C", 200, Format(False, "tc"), Fn("c0", "", "u1"), Fn("c1", "")),
    Ring("D", 300, Format(True, "ob"), Fn("d0", "i4", "i4"), Fn("d1", "i8", "i8")),
]


class RefCallee:
    LOADING, DROPPED, RESOLVED = "LOADING_PACKET", "DROPPED_PACKET", "RESOLVED_PACKET"

    def __init__(self, ring):
        self.ring, self.buf, self.resp, self.next = ring, b"", b"", 0
        self.fresh = False

    def peek(self, b):
        """What the next byte leads to"""
        t = self.buf + bytes([b])
        if t[0] >= len(self.ring.fns):
            return self.DROPPED
        return self.RESOLVED if len(t) == 1 + self.ring.fns[t[0]].argsize else self.LOADING

    def put(self, b):
        s = self.peek(b)
        self.buf += bytes([b])
        self.called = None
        if s == self.DROPPED:
            self.buf = b""
        elif s == self.RESOLVED:
            i = self.buf[0]
            self.called = (i, self.ring.args(i, self.buf[1:]))
            self.buf, self.resp, self.next = b"", b"", 0
        return s

    def returned(self, v):
        self.resp, self.next = self.ring.response(self.called[0], v), 0

    def loaded(self):
        return self.next < len(self.resp)

    def take(self):
        self.next += 1
        return self.resp[self.next - 1]
