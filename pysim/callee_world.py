"""CalleeWorld (C15): dispatchers exposed to Python, driven by Python sources and sinks, with failing and replaced callables."""
import functools
import gc
import weakref

from simlib import RINGS, Op, RefCallee, Result, SimFault, Spec, Violation, h64, rng, same, sim_fault

KINDS = ["request", "noise", "put", "badput", "read", "write", "get", "replace", "badreplace", "renew", "loaded", "decode"]
# Parameters: slot, seed, then the place of a failure (-1: none) and its kind, then others
SLOT, SEED, FAIL, FKIND, A, B = range(6)


class Functor:
    def __init__(self, world, who):
        self.world, self.who = world, who

    def __call__(self, *args):
        return self.world.invoked(self.who, None, args)

    def method(self, *args):
        return self.world.invoked(self.who, None, args)


class FakeKey:
    def __init__(self, world, index, make):
        self.world, self._index, self._make = world, index, make

    def index(self):
        if self._index == "raise":
            raise sim_fault(self.world.op_index, self.world.choice, True)
        return self._index


setattr(FakeKey, "__make_action", lambda s, f: s._make(f))


class Callee:
    def __init__(self, env, spec, log, stats, states):
        self.env, self.spec, self.log, self.stats, self.states = env, spec, log, stats, states
        self.slots = []
        self.expected = None
        self.problem = None
        self.alive = {}  # serial of a callable: weak reference
        self.serial = 0
        self.served = 0
        self.depth = 0
        self.op_index = self.choice = 0

    def fail(self, cls, detail):
        raise Violation(cls, detail, self.op_index)

    # ---- inside a callable
    def invoked(self, who, fn, args):
        e, self.expected = self.expected, None
        if e is None:
            self.problem = self.problem or ("phantom-call", "callable %s invoked while no request was complete" % (who,))
            return None
        slot, efn, eargs, ewho, fault = e
        if who != ewho or (fn is not None and fn != efn):
            self.problem = self.problem or ("wrong-callable", "callable %s of function %s invoked instead of %s of %s" % (who, fn, ewho, efn))
            return None
        if len(args) != len(eargs) or not all(same(a, b) for a, b in zip(args, eargs)):
            self.problem = self.problem or ("wrong-arguments", "function %d got %r instead of %r" % (efn, args, eargs))
            return None
        self.served += 1
        t = slot.ring.fns[efn].ret
        self.log.ev("call", (repr(args),), (slot.k, efn, who[0]))
        # the callable may itself use the dispatchers
        if fault[2]:
            self.nested(slot, efn, fault[2])
        if fault[0] == 1:
            self.stats["fault.callable_raise"] += 1
            self.called = ("raise", None)
            raise sim_fault(self.op_index, self.choice, True)
        g = rng(h64("ret", fault[1], efn))
        if fault[0] == 2 and t is not None:
            self.stats["fault.bad_result"] += 1
            self.called = ("bad", None)
            return t.bad(g)
        if t is None:
            self.called = ("value", None)
            return g.choice([None, 3, "ignored", object()])
        v = t.gen(g, slot.ring.f)
        self.called = ("value", v)
        return tuple(v) if t.n and g.random() < 0.3 else list(v) if t.n else v

    def nested(self, slot, fn, what):
        if what == 1:
            if slot.lib.is_loaded():
                self.problem = self.problem or ("loaded", "the former response is still there while a request is being served")
        elif what == 2:  # replace another function of the same dispatcher
            other = (fn + 1) % len(slot.ring.fns)
            if other != fn:
                self.replace(slot, other, 0)
                self.stats["event.nested_replace"] += 1
        elif what == 3 and self.depth == 0:  # serve a request with another dispatcher
            for o in self.slots:
                if o is not slot and not o.ref.buf:
                    self.depth += 1
                    try:
                        g = rng(h64("nested", self.op_index))
                        saved = self.inbox_of(o)
                        o.inbox = bytearray(self.make_request(o, g))
                        self.do_put(o, len(o.inbox), (0, g.randrange(1 << 40), 0))
                        o.inbox = saved
                    finally:
                        self.depth -= 1
                    self.stats["event.nested_request"] += 1
                    break

    @staticmethod
    def inbox_of(o):
        return o.inbox

    def make_callable(self, flavour, fn):
        """A callable, the object whose lifetime is followed, and its identity"""
        self.serial += 1
        who = ("py", self.serial)
        world = self
        if flavour == 0:
            def f(*args):
                return world.invoked(who, None, args)
            return f, f, who
        if flavour == 1:
            o = Functor(world, who)
            return o, o, who
        if flavour == 2:
            o = Functor(world, who)
            return o.method, o, who
        h = Functor(world, who)
        return functools.partial(Functor.method, h), h, who

    def replace(self, slot, fn, flavour):
        f, owner, who = self.make_callable(flavour, fn)
        self.alive[who[1]] = weakref.ref(owner)
        del owner
        r = slot.lib.replace(self.env.key(slot.ring.fns[fn].name), f)
        del f
        slot.who[fn] = who
        self.log.ev("replace", (), (slot.k, fn, flavour))
        if r is not None:
            self.fail("result", "replace() returned something")

    # ---- expectations
    def guard(self, call, *args):
        """Runs library code: (result, exception)"""
        try:
            return call(*args), None
        except Violation:
            raise
        except BaseException as e:
            if self.problem:
                self.fail(*self.problem)
            if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, SimFault):
                raise
            e.__traceback__ = None
            return None, e

    def step(self, slot, b, fault):
        """The reference receives b; sets what callable is expected"""
        s = slot.ref.put(b)
        self.called = None
        if s == RefCallee.RESOLVED:
            fn, args = slot.ref.called
            self.expected = (slot, fn, args, slot.who[fn], fault)
        return s

    def settle(self, slot, s, r, e, fault_expected, what):
        """Outcome of the operation which completed (or not) a request"""
        if self.problem:
            self.fail(*self.problem)
        if s == RefCallee.RESOLVED:
            if self.expected is not None:
                self.fail("lost-call", "%s: the callable of function %d was not invoked" % (what, self.expected[1]))
            kind, v = self.called
            slot.sent = []
            if kind == "value":
                slot.ref.returned(v)
                slot.last = (slot.ref.called[0], v)
            else:
                slot.ref.resp, slot.ref.next, slot.last = b"", 0, None
            if kind == "raise":
                if not isinstance(e, SimFault) or e.serial != self.op_index:
                    self.fail("exception", "%s: the exception of the callable did not arrive (%r)" % (what, type(e)))
                return
            if kind == "bad":
                if e is None:
                    self.fail("exception", "%s: a result which does not convert was accepted" % what)
                return
        if e is not None and not fault_expected:
            self.fail("exception", "%s: unexpected %s: %s" % (what, type(e).__name__, str(e)[:200]))
        if e is None and fault_expected:
            self.fail("exception", "%s: a failure was swallowed" % what)
        if e is None and getattr(r, "name", None) != s:
            self.fail("status", "%s returned %s, expected %s" % (what, r, s))

    def check(self, slot):
        want = slot.ref.loaded()
        got = slot.lib.is_loaded()
        if got is not want:
            self.fail("loaded", "is_loaded() is %s, expected %s" % (got, want))

    # ---- operations
    def make_request(self, slot, g):
        ring = slot.ring
        i = g.randrange(len(ring.fns))
        args = [t.gen(g, ring.f) for t in ring.fns[i].args]
        ref = ring.request(i, args)
        lib = self.env.key(ring.fns[i].name).encode(*args)
        if lib != ref:
            self.fail("encoding", "%s.encode(%r) gave %s, expected %s" % (ring.fns[i].name, args, lib.hex(), ref.hex()))
        return ref

    def do_put(self, slot, n, fault):
        while n > 0 and slot.inbox:
            b = slot.inbox.pop(0)
            n -= 1
            s = self.step(slot, b, fault)
            r, e = self.guard(slot.lib.put, b)
            self.settle(slot, s, r, e, False, "put")
            self.check(slot)
            self.log.ev("put", (b,), (slot.k, s, type(e).__name__))

    def do_read(self, slot, fail_at, fkind, fault):
        n = [0]
        state = {"s": RefCallee.LOADING, "fault": None}

        def src():
            if state["s"] != RefCallee.LOADING:
                self.problem = self.problem or ("overread", "a byte was requested after the end of the packet")
                raise sim_fault(-1, 0)
            k = n[0]
            n[0] += 1
            if k == fail_at or not slot.inbox:
                state["fault"] = fkind if k == fail_at else 0
                self.stats["fault.source_raise" if state["fault"] == 0 else "fault.source_bad_value"] += 1
                if state["fault"] == 0:
                    raise sim_fault(self.op_index, self.choice, True)
                return [256, -1, "x", None][fkind % 4]
            b = slot.inbox.pop(0)
            state["s"] = self.step(slot, b, fault)
            return b

        r, e = self.guard(slot.lib.read_from, src)
        f = state["fault"]
        if f == 0 and self.problem is None and state["s"] == RefCallee.LOADING and not (isinstance(e, SimFault) and e.serial == self.op_index):
            self.fail("exception", "read_from: the exception of the source did not arrive")
        self.settle(slot, state["s"], r, e, f is not None, "read_from")
        if f is None and state["s"] == RefCallee.LOADING:
            self.fail("status", "read_from returned before the end of the packet")
        self.check(slot)
        self.log.ev("read", (), (slot.k, n[0], state["s"], type(e).__name__))

    def do_write(self, slot, fail_at):
        got = []

        def sink(b):
            if not slot.ref.loaded():
                self.problem = self.problem or ("surplus-output", "a byte was output after the end of the response")
                raise sim_fault(-1, 0)
            w = slot.ref.take()
            if w != b:
                self.problem = self.problem or ("wrong-output", "byte %d of the response is %r, expected %r" % (len(got), b, w))
            got.append(b)
            slot.sent.append(b)
            if len(got) - 1 == fail_at:
                self.stats["fault.sink_raise"] += 1
                raise sim_fault(self.op_index, self.choice, True)

        whole = slot.ref.next == 0 and slot.ref.loaded()
        if whole:
            slot.sent = []
        r, e = self.guard(slot.lib.write_to, sink)
        if self.problem:
            self.fail(*self.problem)
        failed = 0 <= fail_at < len(got)
        if failed != (e is not None) or (failed and not (isinstance(e, SimFault) and e.serial == self.op_index)):
            self.fail("exception", "write_to: %s" % (repr(e) if e else "the exception of the sink did not arrive"))
        if not failed and slot.ref.loaded():
            self.fail("short-output", "write_to left a part of the response")
        self.check(slot)
        self.log.ev("write", (bytes(got).hex(),), (slot.k, len(got), failed))
        if not failed and r is not None:
            self.fail("result", "write_to() returned something")

    def do_get(self, slot, n):
        for _ in range(n):
            p = slot.ref.loaded()
            if p and slot.ref.next == 0:
                slot.sent = []
            b, e = self.guard(slot.lib.get)
            if e is not None:
                self.fail("exception", "get: %r" % e)
            if p:
                w = slot.ref.take()
                slot.sent.append(w)
                if b != w:
                    self.fail("wrong-output", "get() gave %r, expected %r" % (b, w))
            self.check(slot)
            self.log.ev("get", (b if p else 0,), (slot.k, p))

    def do_decode(self, slot):
        """The caller decodes the response it received completely"""
        if slot.last is None or slot.ref.loaded() or len(slot.sent) != slot.ring.fns[slot.last[0]].retsize:
            return
        fn, v = slot.last
        got, e = self.guard(self.env.key(slot.ring.fns[fn].name).decode, bytes(slot.sent))
        if e is not None:
            self.fail("exception", "decode: %r" % e)
        if not (got is None if v is None else same(got, v)):
            self.fail("value", "%s.decode gave %r, the callable had returned %r" % (slot.ring.fns[fn].name, got, v))
        self.log.ev("decode", (repr(v),), (slot.k, fn))

    def do_badreplace(self, slot, g, what, fn):
        name = slot.ring.fns[fn].name
        key = self.env.key(name)
        good, owner, who = self.make_callable(0, fn)
        del owner
        ref = weakref.ref(good)
        make = getattr(key, "__make_action")
        if what == 0:  # keys of another ring which match no action
            cands = []
            for r in RINGS:
                if r is slot.ring:
                    continue
                for i, f in enumerate(r.fns):
                    if i >= len(slot.ring.fns) or f.argsize != slot.ring.fns[i].argsize or f.retsize != slot.ring.fns[i].retsize:
                        cands.append(f.name)
            args = (self.env.key(g.choice(cands)), good)
        elif what == 1:
            args = (key, g.choice([3, None, "f"]))
        elif what == 2:
            args = (g.choice([3, None, object()]), good)
        elif what == 3:
            args = (FakeKey(self, "raise", make), good)
        elif what == 4:
            args = (FakeKey(self, g.choice([-1, "x", 1 << 70, len(slot.ring.fns), 1 << 40, 255]), make), good)
        elif what == 5:
            def bad_make(f):
                raise sim_fault(self.op_index, self.choice, True)
            args = (FakeKey(self, fn, bad_make), good)
        else:
            args = (FakeKey(self, fn, lambda f: g.choice([None, 3])), good)
        r, e = self.guard(slot.lib.replace, *args)
        if e is None:
            self.fail("replace", "replace() with something unsuitable (%d) was accepted" % what)
        if what in (3, 5) and not isinstance(e, SimFault):
            self.fail("exception", "the exception of the key did not arrive")
        self.stats["fault.bad_replace"] += 1
        self.log.ev("badreplace", (), (slot.k, what, fn))
        del good, args, e, make
        if what == 5:
            del bad_make
        if ref() is not None:
            gc.collect()  # cycles of this function itself
            if ref() is not None:
                self.fail("callable-lifetime", "a refused callable is kept alive")

    def check_lifetimes(self):
        installed = {w[1] for s in self.slots for w in s.who if w[0] == "py"}
        for serial in list(self.alive):
            live = self.alive[serial]() is not None
            if serial in installed and not live:
                self.fail("callable-lifetime", "an installed callable was destroyed")
            if serial not in installed:
                if live:
                    self.fail("callable-lifetime", "a callable is kept alive although it is not installed any more")
                del self.alive[serial]

    class Slot:
        pass

    def renew(self, k, ring):
        s = self.Slot()
        s.k, s.ring, s.lib, s.ref = k, ring, getattr(self.env.ext, "Dispatcher" + ring.name)(), RefCallee(ring)
        s.inbox, s.who, s.sent, s.last = bytearray(), [("native", i) for i in range(len(ring.fns))], [], None
        return s

    def host(self, fn, *args):
        for r in RINGS:
            if r.base <= fn < r.base + 100:
                return self.invoked(("native", fn - r.base), fn - r.base, args)

    def run_op(self, o):
        slot = self.slots[o.at(SLOT) % len(self.slots)]
        g = rng(o.at(SEED))
        fault = (o.at(FKIND) % 3 if o.at(FAIL, -1) >= 0 and o.kind in ("put", "read") and o.at(FKIND) >= 10 else 0, o.at(SEED), o.at(B) % 6)
        k = o.kind
        if k == "request":
            r = bytearray(self.make_request(slot, g))
            d = o.at(A)
            if d == 1 and r:
                del r[g.randrange(len(r))]
            elif d == 2 and r:
                r[g.randrange(len(r))] ^= 1 << g.randrange(8)
            elif d == 3:
                r.insert(g.randrange(len(r) + 1), g.randrange(256))
            if d in (1, 2, 3):
                self.stats["fault.damage"] += 1
            slot.inbox += r
        elif k == "noise":
            slot.inbox += o.data
        elif k == "put":
            self.do_put(slot, max(1, o.at(A)), fault)
        elif k == "badput":
            r, e = self.guard(slot.lib.put, *[(256,), (-1,), ("x",), (), (1, 2), (None,), (1.5,)][o.at(A) % 7])
            if e is None:
                self.fail("exception", "put() accepted something else than a byte")
            self.check(slot)
            self.stats["fault.bad_put"] += 1
        elif k == "read":
            self.do_read(slot, o.at(FAIL, -1) if o.at(FKIND) < 10 else -1, o.at(FKIND) % 5, fault)
        elif k == "write":
            self.do_write(slot, o.at(FAIL, -1))
        elif k == "get":
            self.do_get(slot, max(1, o.at(A)))
        elif k == "replace":
            self.replace(slot, o.at(A) % len(slot.ring.fns), o.at(B) % 4)
        elif k == "badreplace":
            self.do_badreplace(slot, g, o.at(A) % 7, o.at(B) % len(slot.ring.fns))
            self.check(slot)
        elif k == "renew":
            i = slot.k
            self.slots[i] = None
            del slot
            self.slots = [s if s else self.renew(i, RINGS[o.at(A) % len(RINGS)]) for s in self.slots]
        elif k == "loaded":
            self.check(slot)
        elif k == "decode":
            self.do_decode(slot)
        self.check_lifetimes()

    def run(self):
        res = Result()
        gc.disable()
        self.env.ext.set_host(self.host)
        try:
            s = None
            for i, r in enumerate(self.spec.cfg.get("rings", "0").split(",")):
                self.slots.append(self.renew(i, RINGS[int(r) % len(RINGS)]))
            for i, o in enumerate(self.spec.ops):
                self.op_index, self.choice = i, o.at(1)
                if self.log.verbose:
                    print("%3d %s" % (i, o.kind))
                self.run_op(o)
                if self.states is not None and len(self.states) < 300000:
                    s = self.slots[o.at(SLOT) % len(self.slots)]
                    self.states.add(h64(o.kind, s.ring.name, bytes(s.ref.buf[:1]), len(s.ref.buf), len(s.ref.resp) - s.ref.next,
                                        [w[0] for w in s.who]))
                    s = None
            # whatever happened, each dispatcher serves each of its functions
            for s in self.slots:
                s.inbox = bytearray()
                while s.ref.buf:  # resynchronise
                    s.inbox += b"\xff"
                    self.do_put(s, 1, (0, 1, 0))
                for fn in range(len(s.ring.fns)):
                    self.op_index += 1
                    g = rng(h64("final", fn))
                    args = [t.gen(g, s.ring.f) for t in s.ring.fns[fn].args]
                    s.inbox += s.ring.request(fn, args)
                    self.do_read(s, -1, 0, (0, fn, 0))
                    self.do_write(s, -1)
                    self.do_decode(s)
            s = None
            self.slots = []
            self.check_lifetimes()
        except Violation as v:
            res.violation = v
        finally:
            self.env.ext.set_host(None)
            self.slots = []
        res.nontrivial = self.served > 0
        return res


def generate(profile, seed, stats):
    g = rng(h64("C15", seed))
    s = Spec("callee", rings=",".join(str(g.randrange(len(RINGS))) for _ in range(g.choice([1, 1, 2, 3]))))
    w = dict(request=8, noise=1, put=8, badput=0.5, read=6, write=4, get=4, replace=2, badreplace=1, renew=0.3, loaded=0.5, decode=2)
    w = {k: v * (0 if k not in ("request", "put", "read") and g.random() < 0.2 else g.uniform(0.3, 1.7)) for k, v in w.items()}
    faults = g.choice([0, 0.05, 0.2, 0.5])
    damage = g.choice([0, 0, 0.1, 0.4])
    nest = g.choice([0, 0, 0.3])
    kinds, weights = list(w), list(w.values())
    for _ in range(g.choice([10, 30, 80])):
        k = g.choices(kinds, weights)[0]
        o = Op(k, g.randrange(3), g.randrange(1 << 40), -1, 0, 0, 0)
        if g.random() < faults:
            o.p[FAIL] = g.choice([0, 0, 1, 2, g.randrange(12)])
            o.p[FKIND] = g.choice([0, 0, 1, 2, 3, 4, 10, 11, 10, 11, 13, 14])
        if k == "request":
            o.p[A] = g.choice([1, 2, 3]) if g.random() < damage else 0
        elif k == "noise":
            o.data = bytes(g.choice([g.randrange(256), g.randrange(8)]) for _ in range(g.randrange(1, 6)))
        elif k in ("put", "get"):
            o.p[A] = g.choice([1, 1, 2, 5, 30])
        else:
            o.p[A] = g.randrange(1000)
        if k in ("put", "read"):
            o.p[B] = g.choice([1, 2, 3]) if g.random() < nest else 0
        elif k in ("replace", "badreplace"):
            o.p[B] = g.randrange(1000)
        s.ops.append(o)
    return s
