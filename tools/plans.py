"""Which builds, profiles and budgets decide each property."""

SINGLE, DOUBLE, PSINGLE, PDOUBLE, POLY, PLAIN = 1, 2, 4, 8, 16, 32
BUFFERED = SINGLE | DOUBLE | PSINGLE | PDOUBLE | POLY
WEAK, ANY = 1, 2

SM_LE, OC_LE, TC_LE, OB_LE, SM_BE, OC_BE, TC_BE, OB_BE = range(8)


def fw(pool, variant, fmt, **kw):
    d = dict(pool=pool, variant=variant, fmt=fmt)
    d.update(kw)
    return d


def family(kinds=None, big=True, reply=False, void=True, nor=True):
    """A set of builds covering all pools, both standards, and the wire formats"""
    k = {} if kinds is None else {"kinds": kinds}
    lite = dict(k, defs=["FW_NO_REPLY"]) if nor else k
    r = [fw("MIX", "v11n", OC_BE, **lite), fw("MIX", "v17b", SM_LE, **lite), fw("WIDE", "v17n", OB_BE, **lite),
         fw("EXT", "v11b", TC_BE, **lite), fw("TINY", "v17n", TC_LE, **lite), fw("TINY", "v11n", SM_BE, **lite),
         fw("LONG", "v11n", TC_BE, **lite)]
    if void:
        r.append(fw("VOID1", "v11n", TC_LE, **lite))
    if big:
        r += [fw("BIG256", "v11n", OB_LE, **lite), fw("BIG300", "v17n", TC_BE, **lite)]
    if reply:
        for d in r: # forwarding to one of many functions, with an index of two bytes
            if (d["pool"], d["fmt"]) in (("TINY", SM_BE), ("LONG", TC_BE)):
                d["defs"] = ["FW_REPLY_POOL=PL_REPLYW"]
        r += [fw("REPLYW", "v17n", OC_BE, kinds=DOUBLE, policies=WEAK, defs=["FW_NO_REPLY"]),
              fw("REPLY", "v17b", OC_LE, kinds=DOUBLE, policies=WEAK, defs=["FW_NO_REPLY"]),
              fw("REPLY", "v11n", TC_BE, kinds=DOUBLE, policies=WEAK, defs=["FW_NO_REPLY"])]
    return r


def thorough(kinds=None, reply=False):
    k = {} if kinds is None else {"kinds": kinds}
    r = []
    variants = ["v11n", "v17b", "v17n", "v11b", "v17e", "v17s"]
    i = 0
    for fmt in range(8):
        for pool in ("MIX", "TINY", "EXT", "WIDE"):
            r.append(fw(pool, variants[i % 6], fmt, **k))
            i += 1
        i += 1
    r += [fw("VOID1", "v11n", 2, **k), fw("VOID1", "v17b", 5, **k), fw("BIG255", "v17n", TC_BE, **k),
          fw("BIG256", "v11n", OB_LE, **k), fw("BIG300", "v17b", SM_BE, **k)]
    for fmt in range(8):
        r.append(fw("LONG", variants[(fmt * 5 + fmt // 4) % 6], fmt, **k))
    if reply:
        for d in r:
            if d["pool"] == "TINY" or (d["pool"], d["fmt"]) in (("LONG", OC_BE), ("EXT", TC_LE)):
                d["defs"] = ["FW_REPLY_POOL=PL_REPLYW"]
        r += [fw("REPLYW", "v17b", OC_LE, kinds=DOUBLE, policies=WEAK, defs=["FW_NO_REPLY"]),
              fw("REPLYW", "v11n", SM_BE, kinds=DOUBLE, policies=WEAK, defs=["FW_NO_REPLY"])]
        for f in range(8):
            r.append(fw("REPLY", variants[f % 6], f, kinds=DOUBLE, policies=WEAK, defs=["FW_NO_REPLY"]))
    return r


NODE_RULE = ("Each run draws, from its seed, a build of the library, a dispatcher kind and storage policy, and a history of operations "
             "and faults with swarm-style weights; every operation is executed by the real dispatcher and refined step by step against "
             "the reference callee.")

PLANS = {}


def plan(prop, profiles, fws, rule=NODE_RULE, **kw):
    d = dict(profiles=profiles, fw=fws, rule=rule)
    d.update(kw)
    PLANS[prop] = d


LINK_RULE = ("Link runs draw, from the seed, builds for both peers, loop and link parameters (latency, jitter, byte time, buffer sizes, "
             "pipelining depth, I/O styles), the calls and the faults; a discrete-event clock orders everything. ")

plan("C01", ["linkC01", "C01", "linkC01", "C01p"], family(nor=True) + [fw("TINY", "v17b", OC_LE, defs=["FW_NO_REPLY"])],
     thorough_fw=thorough(), rule=LINK_RULE + NODE_RULE)
plan("C02", ["linkC02", "C02", "linkC02", "C02p"],
     [fw("MIX", v, f, kinds=DOUBLE | PLAIN, policies=WEAK, defs=["FW_NO_REPLACE", "FW_NO_REPLY"], opt="-O0") for v in
      ("v11n", "v11b", "v17n", "v17b", "v17e", "v17s") for f in range(8)] +
     [fw(p, v, f, kinds=DOUBLE | PLAIN, policies=WEAK, defs=["FW_NO_REPLACE", "FW_NO_REPLY"], opt="-O0") for p, v, f in
      (("BIG256", "v11n", TC_BE), ("BIG256", "v17b", TC_BE), ("BIG256", "v17n", SM_LE), ("BIG256", "v11b", SM_LE),
       ("BIG255", "v17n", OB_BE), ("BIG255", "v11b", OB_BE), ("EXT", "v11n", OC_BE), ("EXT", "v17s", OC_BE), ("EXT", "v17e", SM_LE),
       ("EXT", "v11b", SM_LE), ("WIDE", "v11b", OB_LE), ("WIDE", "v17n", OB_LE), ("LONG", "v17b", SM_BE), ("LONG", "v11n", SM_BE),
       ("LONG", "v11b", TC_LE), ("LONG", "v17n", TC_LE))],
     rule=LINK_RULE + NODE_RULE + " The builds are all combinations of 6 compilations and 8 wire formats for the most varied pool, and pairs of "
          "compilations for wide indexes, long messages and user-defined types.")
plan("C11", ["linkC11", "C11"], family(BUFFERED), thorough_fw=thorough(BUFFERED), rule=LINK_RULE + NODE_RULE)
plan("C03", ["C03"], family(BUFFERED), thorough_fw=thorough(BUFFERED))
plan("C04", ["C04"], family(BUFFERED), thorough_fw=thorough(BUFFERED))
ISR = dict(kinds=DOUBLE | PDOUBLE | POLY, defs=["FW_NO_REPLY", "FW_NO_REPLACE"], flavour="isr")
STEP = dict(ISR, flavour="step")
plan("C05", ["C05"],
     [fw("MIX", "v17b", OC_BE, **ISR), fw("TINY", "v11n", TC_LE, **ISR), fw("EXT", "v11n", SM_BE, **ISR), fw("WIDE", "v17n", OB_LE, **ISR),
      fw("BIG256", "v11n", TC_BE, **dict(ISR, kinds=DOUBLE)),
      fw("MIX", "v17n", TC_LE, **STEP), fw("TINY", "v17b", OB_BE, opt="-O2", **STEP), fw("LONG", "v11n", SM_LE, opt="-Os", **STEP),
      fw("BIG256", "v17n", OC_LE, **dict(STEP, kinds=DOUBLE)), fw("TINY", "v11b", TC_LE, opt="-O0", **STEP)],
     rule=NODE_RULE + " Interrupts fall between any two memory accesses (instrumented builds) or any two machine instructions (builds at "
     "-O0, -O1, -O2 and -Os, interrupted by breakpoints in the search and by single-stepping in replays) of the interrupted operation.")
plan("C06", ["C06", "C06p"], family(), thorough_fw=thorough())
plan("C07", ["C07", "C07p"], family(), thorough_fw=thorough())
plan("C08", ["C08", "C08p"], family(SINGLE | DOUBLE | PDOUBLE | POLY | PLAIN), thorough_fw=thorough(SINGLE | DOUBLE | PDOUBLE | POLY | PLAIN))
plan("C09", ["C09", "C09p"], family(), thorough_fw=thorough())
plan("C10", ["C10"], family(BUFFERED, reply=True, nor=False), thorough_fw=thorough(BUFFERED, reply=True))
plan("C12", ["C12"], family(PLAIN), thorough_fw=thorough(PLAIN))
plan("C18", ["C18", "C18p"], family(reply=True, nor=False), thorough_fw=thorough(None, True))

TUPLE_RULE = ("Tuple runs draw, from the seed, a build, a layout and a history over four objects - tuples, tuples of another format, views of "
              "memory, lists, deques and register files whose accesses may fail at any point - of partial transfers, accesses to fields, "
              "assignments, invocations, slices and copies, each compared byte for byte and access for access with the reference. ")
VARIANTS6 = ["v11n", "v17b", "v17n", "v11b", "v17e", "v17s"]
plan("C13", ["tupleC13"], [fw("TUPLES", VARIANTS6[(f * 5 + f // 4) % 6], f) for f in range(8)],
     thorough_fw=[fw("TUPLES", v, f) for f in range(8) for v in VARIANTS6], rule=TUPLE_RULE)
plan("C17", ["C17", "tupleC17"], family(reply=True, nor=False) + [fw("TUPLES", "v11n", OC_BE), fw("TUPLES", "v17n", OB_LE)],
     thorough_fw=thorough(None, True) + [fw("TUPLES", VARIANTS6[f % 6], f) for f in range(8)], rule=TUPLE_RULE + NODE_RULE +
     " Each run is executed three times with other contents of stack, heap and object storage, which must not show.")

PY_REAL = "include/upd/** through include/upd/python.hpp, compiled from /repo by the check, py/unpadded/_details.cpp"
plan("C14", ["C14"], [], python="extensions",
     rule="Each run draws, from its seed, clients, calls (keys, arguments, transports, outcomes, delays), cancellations, time limits and "
          "failures; the calls run on the real asyncio tasks and futures over a simulated clock.",
     real=PY_REAL + ", py/unpadded/client.py, asyncio's tasks, futures and base event loop",
     stub="the selector, the clock, the transports and, for part of the calls, the callee (the others are served by a real dispatcher)")
plan("C15", ["C15"], [], python="extensions",
     rule="Each run draws, from its seed, dispatchers and a history of requests, damaged bytes, replacements and drains with failing Python "
          "callables, sources and sinks, compared step by step with the reference callee.",
     real=PY_REAL, stub="the Python callables, sources and sinks")
plan("C16", ["C16"], [], python="hook",
     rule="Each run draws, from its seed, a tree of extension modules and headers and a history of imports, edits, failures at any file "
          "operation or stage of build and load, interruptions at any line of cppimport, and crashes.",
     real="py/unpadded/hook.py, importlib, cppimport (lookup, templating, checksum, locking, loading), mako, filelock",
     stub="the compiler (cppimport.build_module), the dynamic loader of extension modules and the clock of the lock; the tree is a real "
          "scratch directory whose operations may fail")
