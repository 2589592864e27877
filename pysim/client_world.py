"""ClientWorld (C14): asynchronous calls in flight on real clients, over a simulated event loop, clock and transport."""
import asyncio
import contextvars
import logging

from simlib import RINGS, Op, Result, SimFault, Spec, Violation, h64, rng, same, sim_fault

logging.getLogger("asyncio").disabled = True

# Parameters of a call
CLIENT, START, KEY, SEED, MODE, OUTCOME, DELAY, CANCEL, LIMIT, ARGS = range(10)
N_CLIENTS = 6  # 0, 1: plain, 2: asynchronous method, 3: owns a constructor, 4: base class, 5: transport left out
MODES = ["coroutine", "future", "done_future", "awaitable", "sync_raise", "layered", "eager_task", "stubborn"]
OUTCOMES = ["right", "callee", "object", "short", "surplus", "fault", "oserror", "never", "cancelled", "empty", "timeout"]
KEYS = [(r, i) for r in RINGS for i in range(len(r.fns))]
FAKES = 4
OBJECTS = [None, 0, 1, "", "text", [], [1, 2], {}, (), False, True, 0.0, bytearray(b"\x01\x02\x03\x04\x05\x06\x07\x08"), bytearray(),
           memoryview(b"\x01\x02\x03\x04"), NotImplemented, Ellipsis, object(), ValueError("a value"), ValueError]
call_id = contextvars.ContextVar("call_id", default=None)


class Stall(Exception):
    pass


class SimSelector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        if timeout is None:
            raise Stall()
        if timeout > 0:
            self.loop.now += max(1, round(timeout * 1e6))
        return []


class SimLoop(asyncio.BaseEventLoop):
    """An event loop whose clock advances to the next timer when nothing is ready; the I/O selector is a stub"""

    def __init__(self):
        super().__init__()
        self.now = 0
        self._selector = SimSelector(self)
        self._clock_resolution = 1e-7

    def time(self):
        return self.now / 1e6

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        pass

    def after(self, us, f, *args):
        return self.call_at((self.now + us) / 1e6, f, *args)


class FakeKey:
    """A key whose conversions are followed, and may fail"""

    def __init__(self, world, call):
        self.world, self.call, self.encoded, self.decoded = world, call, 0, 0
        self.payload = b"payload %d" % call.n if call.g.random() < 0.8 else object()
        self.value = call.g.choice([None, 0, 3, b"bytes", "x", object()])
        self.fail_encode = call.bad_args
        self.fail_decode = not call.bad_args and call.g.random() < 0.2

    def encode(self, *args):
        c = self.call
        self.encoded += 1
        if self.encoded > 1 or len(args) != len(c.args) or any(a is not b for a, b in zip(args, c.args)):
            self.world.trouble("encoding", "call %d encoded %r instead of %r (%d times)" % (c.n, args, c.args, self.encoded))
        if self.fail_encode:
            raise sim_fault(c.n, c.op.at(SEED))
        return self.payload

    def decode(self, payload):
        c = self.call
        self.decoded += 1
        if self.decoded > 1 or payload is not c.delivered:
            self.world.trouble("decoding", "call %d decoded another response than its own (%d times)" % (c.n, self.decoded))
        if self.fail_decode:
            raise sim_fault(c.n, c.op.at(SEED))
        return self.value


class Call:
    pass


class Awaitable:
    def __init__(self, make):
        self.make = make

    def __await__(self):
        return (yield from self.make().__await__())


class Client:
    def __init__(self, env, spec, log, stats, states):
        self.env, self.spec, self.log, self.stats, self.states = env, spec, log, stats, states
        self.problem = None
        self.calls = []
        self.callees = {}
        self.done = 0
        self.sim_us = 0

    def trouble(self, cls, detail):
        self.problem = self.problem or (cls, detail)

    def fail(self, cls, detail, op=-1):
        raise Violation(cls, detail, op)

    # ---- real clients over the simulated transport
    def make_clients(self):
        base = self.env.module("client").Client
        world = self

        class Plain(base):
            def new_request(self, payload):
                return world.submit(self, payload)

        class Asynchronous(base):
            async def new_request(self, payload):
                return await world.submit(self, payload)

        class Constructed(base):
            def __init__(self, port):
                self.port = port

            def new_request(self, payload):
                return world.submit(self, payload)

        class Missing(base):
            def open(self):
                pass

        self.clients = [Plain(), Plain(), Asynchronous(), Constructed("/dev/null"), base(), Missing()]

        class Inner(base):
            def new_request(self, payload):
                return world.transport(call_id.get(), payload)

        class Same:
            """Key of a layered transport: the payload is opaque"""

            @staticmethod
            def encode(payload):
                return payload

            @staticmethod
            def decode(response):
                return response

        self.inner, self.same = Inner(), Same()

    def submit(self, client, payload):
        c = call_id.get()
        if c is None:
            self.trouble("phantom-request", "a request is submitted outside of any call")
            raise sim_fault(-1, 0)
        c.submitted += 1
        self.log.ev("submit", (payload if type(payload) is bytes else "object",), (c.n, c.op.at(MODE) % len(MODES)))
        if c.submitted > 1:
            self.trouble("exactly-once", "call %d submitted %d requests" % (c.n, c.submitted))
        if client is not c.client:
            self.trouble("wrong-client", "call %d was submitted on another client" % c.n)
        if c.bad_args:
            self.trouble("submission", "call %d submitted a request although its arguments cannot be encoded" % c.n)
        if c.fake and payload is not c.fake.payload or not c.fake and not (type(payload) is bytes and payload == c.payload):
            self.trouble("encoding", "call %d submitted %r instead of %r" % (c.n, payload, c.payload))
        mode = c.mode
        if mode == "sync_raise":
            self.stats["fault.transport_raise"] += 1
            c.ended = ("raise", sim_fault(c.n, c.op.at(SEED)))
            raise c.ended[1]
        if mode == "layered":
            return self.inner.call(self.same, payload)
        return self.transport(c, payload)

    def transport(self, c, payload):
        mode = c.mode
        if mode == "future":
            return self.pending(c, payload)
        if mode == "eager_task":
            return self.loop.create_task(self.waiting(c, payload))
        if mode == "done_future":
            f = self.loop.create_future()
            self.deliver(c, f, payload)
            return f
        if mode == "awaitable":
            return Awaitable(lambda: self.pending(c, payload))
        return self.waiting(c, payload)

    async def waiting(self, c, payload):
        g = c.g
        if g.random() < 0.3:
            await asyncio.sleep(0)
        if g.random() < 0.2:
            await asyncio.sleep(g.randrange(50) / 1e6)
        try:
            return await self.pending(c, payload)
        except asyncio.CancelledError:
            if c.mode != "stubborn" or c.outcome == "never":
                raise
            # this transport completes the exchange nevertheless
            f = self.loop.create_future()
            self.stats["event.cancellation_ignored"] += 1
            self.deliver(c, f, payload)
            return await f

    def pending(self, c, payload):
        f = self.loop.create_future()
        if c.outcome != "never":
            self.loop.after(c.op.at(DELAY), self.deliver, c, f, payload)
        else:
            self.stats["fault.no_answer"] += 1
        return f

    def deliver(self, c, f, payload):
        if f.done():
            self.stats["event.late_response"] += 1
            self.log.ev("late", (), (c.n,))
            return
        o = c.outcome
        g = c.g
        self.log.ev("deliver", (), (c.n, o))
        if o in ("fault", "oserror", "timeout"):
            self.stats["fault.transport_" + o] += 1
            e = sim_fault(c.n, c.op.at(SEED)) if o == "fault" else OSError(5, "input/output error %d" % c.n) if o == "oserror" else asyncio.TimeoutError()
            c.ended = ("raise", e)
            f.set_exception(e)
        elif o == "cancelled":
            self.stats["fault.transport_cancelled"] += 1
            c.ended = ("cancelled", None)
            f.cancel()
        elif o == "object":
            v = g.choice(OBJECTS)
            self.stats["event.object"] += 1
            c.ended = ("is", v)
            f.set_result(v)
        else:
            self.respond(c, f, payload)

    def respond(self, c, f, payload):
        o, g = c.outcome, c.g
        if c.fake:
            b = bytes(g.randrange(256) for _ in range(g.randrange(1, 5)))
            c.ended = ("raise", None) if c.fake.fail_decode else ("is", c.fake.value)
        else:
            ring, i = c.key
            t = ring.fns[i].ret
            v = t.gen(g, ring.f) if t else None
            b = self.exchange(c, payload, v) if o == "callee" else ring.response(i, v)
            c.ended = ("value", v)
            if o == "short" and b:
                self.stats["fault.short_response"] += 1
                b = b[:g.randrange(len(b))]
                c.ended = ("malformed", None)
            elif o == "empty" and b:
                self.stats["fault.short_response"] += 1
                b, c.ended = b"", ("malformed", None)
            elif o == "surplus":
                self.stats["fault.long_response"] += 1
                b += bytes(g.randrange(256) for _ in range(g.randrange(1, 9)))
                c.ended = ("surplus", v)
        c.delivered = b
        f.set_result(b)

    def exchange(self, c, payload, v):
        """The request is served by a real dispatcher"""
        ring, i = c.key
        d = self.callees.get(ring.name)
        if d is None:
            d = self.callees[ring.name] = getattr(self.env.ext, "Dispatcher" + ring.name)()
        self.serving = (c, v)
        it = iter(payload)
        s = d.read_from(lambda: next(it))
        if s.name != "RESOLVED_PACKET" or self.serving is not None:
            self.trouble("callee", "the request of call %d did not reach its callback" % c.n)
        r = bytearray()
        d.write_to(r.append)
        self.stats["event.real_callee"] += 1
        return bytes(r)

    def host(self, fn, *args):
        (c, v), self.serving = self.serving, None
        ring, i = c.key
        if fn != ring.base + i or len(args) != len(c.args) or not all(same(a, b) for a, b in zip(args, c.args)):
            self.trouble("callee", "call %d reached callback %d with %r instead of %d with %r" % (c.n, fn, args, ring.base + i, c.args))
        return v

    # ---- calls
    def make_call(self, n, o):
        c = Call()
        c.n, c.op, c.g = n, o, rng(o.at(SEED))
        c.mode, c.outcome = MODES[o.at(MODE) % len(MODES)], OUTCOMES[o.at(OUTCOME) % len(OUTCOMES)]
        c.client = self.clients[o.at(CLIENT) % N_CLIENTS]
        c.unimplemented = o.at(CLIENT) % N_CLIENTS >= 4
        c.submitted, c.ended, c.delivered, c.fake, c.cancelled = 0, None, None, None, False
        c.bad_args = o.at(ARGS) > 0
        k = o.at(KEY) % (len(KEYS) + FAKES)
        g = c.g
        if k >= len(KEYS):
            c.args = [g.choice([1, None, object(), [1], "x"]) for _ in range(g.randrange(4))]
            c.payload = None
            c.fake = c.key_object = FakeKey(self, c)
            if c.outcome in ("callee", "short", "empty", "surplus"):
                c.outcome = "right"
        else:
            ring, i = c.key = KEYS[k]
            c.key_object = self.env.key(ring.fns[i].name)
            types = ring.fns[i].args
            c.args = [t.gen(g, ring.f) for t in types]
            c.payload = ring.request(i, c.args)
            c.given = [tuple(a) if isinstance(a, list) and g.random() < 0.3 else a for a in c.args]
            if c.bad_args:
                w = g.randrange(3)
                if w == 0 or not types:
                    c.given = c.given + [g.choice([0, None, "x"])]
                elif w == 1:
                    c.given = c.given[:-1]
                else:
                    j = g.randrange(len(types))
                    c.given[j] = types[j].bad(g)
        if c.fake:
            c.given = c.args
        return c

    async def body(self, c):
        """What the user's task does"""
        call_id.set(c)
        coro = c.client.call(c.key_object, *c.given)
        if c.op.at(LIMIT, -1) >= 0:
            try:
                return await asyncio.wait_for(coro, c.op.at(LIMIT) / 1e6)
            except asyncio.TimeoutError as e:
                if c.ended and c.ended[1] is e:
                    raise
                c.timed_out = True
                raise
        return await coro

    def start(self, c):
        self.log.ev("start", (), (c.n, c.op.at(CLIENT) % N_CLIENTS))
        c.timed_out = False
        c.task = self.loop.create_task(self.body(c))
        c.task.add_done_callback(lambda t: self.finished(c, t))

    def cancel(self, c):
        if c.task is None or c.task.done():
            return
        self.stats["fault.cancelled_call"] += 1
        c.cancelled = True
        self.log.ev("cancel", (), (c.n,))
        c.task.cancel()

    def finished(self, c, t):
        """Checks the outcome of a call"""
        self.done += 1
        c.finished = True
        n = c.n
        if t.cancelled():
            got = ("cancelled", None)
        elif t.exception() is not None:
            got = ("raise", t.exception())
        else:
            got = ("value", t.result())
        self.log.ev("end", (repr(got[1]) if type(got[1]) in (int, bool, list, str, bytes) else type(got[1]).__name__,), (n, got[0]))
        if self.states is not None and len(self.states) < 300000:
            self.states.add(h64(c.mode, c.outcome, c.cancelled, c.timed_out, c.bad_args, got[0], c.op.at(CLIENT), c.submitted,
                                min(6, sum(1 for x in self.calls if x.task is not None and not x.finished))))
        what = "call %d (%s, %s)" % (n, c.mode, c.outcome)
        if not c.submitted and (c.cancelled and got[0] == "cancelled" or c.timed_out and got[0] == "raise"):
            return  # given up before it started
        if c.bad_args:
            if got[0] != "raise" or (c.fake and not (isinstance(got[1], SimFault) and got[1].serial == n)):
                self.trouble("bad-arguments", "%s: arguments which cannot be encoded ended with %r" % (what, got))
            return
        if c.unimplemented:
            if got[0] != "raise" or not isinstance(got[1], NotImplementedError):
                self.trouble("unimplemented", "%s: a client without transport ended with %r" % (what, got))
            return
        if c.submitted != 1:
            self.trouble("exactly-once", "%s: ended after %d submissions" % (what, c.submitted))
            return
        e = c.ended
        if (c.cancelled and got[0] == "cancelled") or (c.timed_out and got[0] == "raise"):
            return  # legitimate, even if a response was on its way
        if e is None:
            self.trouble("outcome", "%s: ended with %r before its transport did" % (what, got))
        elif e[0] == "value":
            if got[0] != "value" or not (got[1] is None if e[1] is None else same(got[1], e[1])):
                self.trouble("outcome", "%s: ended with %r instead of the value %r" % (what, got, e[1]))
        elif e[0] == "is":
            if got[0] != "value" or got[1] is not e[1]:
                self.trouble("outcome", "%s: ended with %r instead of the very object %r" % (what, got, e[1]))
        elif e[0] == "raise":
            ok = got[0] == "raise" and (got[1] is e[1] if e[1] is not None else isinstance(got[1], SimFault) and got[1].serial == n)
            if not ok:
                self.trouble("outcome", "%s: ended with %r instead of the exception %r" % (what, got, e[1]))
        elif e[0] == "cancelled":
            if got[0] != "cancelled":
                self.trouble("outcome", "%s: ended with %r although its transport was cancelled" % (what, got))
        elif e[0] == "malformed":
            if got[0] != "raise":
                self.trouble("outcome", "%s: a response which is too short gave %r" % (what, got))
        elif e[0] == "surplus":
            if got[0] == "cancelled" or (got[0] == "value" and not (got[1] is None if e[1] is None else same(got[1], e[1]))):
                self.trouble("outcome", "%s: ended with %r instead of the value %r" % (what, got, e[1]))

    def phase(self, calls):
        """One event loop"""
        self.loop = loop = SimLoop()
        loop.set_exception_handler(lambda l, ctx: None)
        try:
            for c in calls:
                loop.after(c.op.at(START), self.start, c)
                if c.op.at(CANCEL, -1) >= 0:
                    loop.after(c.op.at(START) + c.op.at(CANCEL), self.cancel, c)
            for attempt in range(3):
                try:
                    loop.run_forever()
                except Stall:
                    pass
                if self.problem:
                    self.fail(*self.problem)
                left = [c for c in calls if not c.finished]
                if not left:
                    break
                for c in left:
                    if c.outcome != "never" or c.task is None or attempt:
                        self.fail("stuck", "call %d (%s, %s) never ends" % (c.n, c.mode, c.outcome))
                    self.cancel(c)
            self.sim_us += loop.now
        finally:
            asyncio.events._set_running_loop(None)
            for c in calls:
                if c.task is not None and not c.task.done():
                    c.task._log_destroy_pending = False
            loop.close()

    def run(self):
        res = Result()
        self.env.ext.set_host(self.host)
        try:
            self.make_clients()
            phases = [[]]
            for i, o in enumerate(self.spec.ops):
                if o.kind == "call":
                    c = self.make_call(i, o)
                    c.task, c.finished = None, False
                    phases[-1].append(c)
                elif o.kind == "loop" and phases[-1]:
                    phases.append([])
            for p in phases:
                self.calls = p
                self.phase(p)
        except Violation as v:
            res.violation = v
        finally:
            self.env.ext.set_host(None)
        res.nontrivial = self.done > 0
        res.sim_us = self.sim_us
        return res


def generate(profile, seed, stats):
    g = rng(h64("C14", seed))
    s = Spec("client")
    span = g.choice([1, 20, 1000, 100000])
    delay = g.choice([1, 30, 1000, 50000])
    faults = g.choice([0, 0.1, 0.5])
    cancels = g.choice([0, 0, 0.2, 0.5])
    clients = g.sample(range(N_CLIENTS), g.choice([1, 2, N_CLIENTS])) if g.random() < 0.7 else [0]
    keys = g.sample(range(len(KEYS) + FAKES), g.choice([1, 2, 5, len(KEYS) + FAKES]))
    modes = g.sample(range(len(MODES)), g.choice([1, 3, len(MODES)]))
    for _ in range(g.choice([1, 3, 8, 20, 60]) if g.random() < 0.99 else 260 + g.randrange(800)):
        bad = g.random() < faults
        o = Op("call", g.choice(clients), g.randrange(span), g.choice(keys), g.randrange(1 << 40), g.choice(modes),
               g.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]) if bad else g.choice([0, 1, 2]), g.choice([0, g.randrange(delay + 1), g.randrange(delay + 1)]),
               -1, -1, 0)
        if MODES[o.p[MODE]] == "sync_raise" and not bad:
            o.p[MODE] = 0
        if g.random() < cancels:
            if g.random() < 0.7:
                o.p[CANCEL] = g.choice([0, 1, g.randrange(delay + 2), g.randrange(delay + 2)])
            else:
                o.p[LIMIT] = g.choice([0, 1, g.randrange(delay + 2), g.randrange(delay + 2)])
        if g.random() < faults * 0.3:
            o.p[ARGS] = 1
        s.ops.append(o)
        if g.random() < 0.03:
            s.ops.append(Op("loop"))
    return s
