"""Simulator of the Python parts: world.py batch|gen|exec ... (same interface as sim/main.cpp)"""
import collections
import faulthandler
import importlib
import importlib.machinery
import importlib.util
import mmap
import os
import struct
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import simlib  # noqa: E402

WORLDS = {"C14": "client_world", "C15": "callee_world", "C16": "hook_world"}
BY_WORLD = {"client": ("client_world", "Client"), "callee": ("callee_world", "Callee"), "hook": ("hook_world", "HookWorld")}


class Env:
    """Real code under simulation"""

    def __init__(self, listing):
        self.paths = {}
        for l in open(listing):
            w = l.split()
            if w:
                self.paths.setdefault(w[0], w[1])
        self.repo = self.paths["repo"]
        self._ext = None

    @property
    def ext(self):
        if self._ext is None:
            pkg = importlib.machinery.ModuleSpec("unpadded", None, is_package=True)
            mod = importlib.util.module_from_spec(pkg)
            mod.__path__ = [self.repo + "/py/unpadded"]
            sys.modules["unpadded"] = mod
            for name, key in (("unpadded._details", "details"), ("updsim", "ext")):
                loader = importlib.machinery.ExtensionFileLoader(name, self.paths[key])
                spec = importlib.util.spec_from_file_location(name, self.paths[key], loader=loader)
                m = importlib.util.module_from_spec(spec)
                sys.modules[name] = m
                loader.exec_module(m)
            self._ext = sys.modules["updsim"]
        return self._ext

    def key(self, name):
        return getattr(self.ext, name)

    def module(self, name):
        """A Python module of the package, from /repo"""
        self.ext
        return importlib.import_module("unpadded." + name)


def generate(profile, seed, stats):
    return importlib.import_module(WORLDS[profile[:3]]).generate(profile, seed, stats)


def execute(env, spec, verbose, stats, states):
    mod, cls = BY_WORLD[spec.world]
    log = simlib.Log(verbose)
    r = getattr(importlib.import_module(mod), cls)(env, spec, log, stats, states).run()
    r.hash, r.shape, r.events = log.hash(), int(log.shape.hexdigest(), 16), log.events
    return r


def oneline(s):
    return " ".join(str(s).split())[:600]


def main():
    cmd = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    env = Env(opt["--fw"])
    stats = collections.Counter()
    if cmd == "gen":
        parts = []
        for j in opt["--jobs"].split(","):
            profile, seed = j.split(":")
            parts.append("# profile %s seed %s\n%s" % (profile, seed, generate(profile, int(seed), stats).text()))
        print("run\n".join(parts), end="")
        return 0
    if cmd == "exec":
        specs = list(simlib.parse_specs(open(opt["--spec"]).read()))
        chain, events = "", 0
        for i, s in enumerate(specs):
            faulthandler.dump_traceback_later(25, exit=True)
            r = execute(env, s, opt.get("--verbose") == "1" and i == len(specs) - 1, stats, None)
            chain = "%016x" % simlib.h64(chain, r.hash)
            events += r.events
            if r.violation:
                v = r.violation
                print("VIOLATED %s op=%d hash=%s run=%d %s" % (v.cls, v.op, chain, i + 1, oneline(v.detail)), flush=True)
                os._exit(1)
        print("HELD hash=%s events=%d" % (chain, events), flush=True)
        os._exit(0)
    base, step, count = int(opt["--base"]), int(opt["--step"]), int(opt["--count"])
    profs = opt["--profile"].split(",")
    with open(opt["--progress"], "wb") as f:
        f.write(bytes(64))
    pf = open(opt["--progress"], "r+b")
    progress = mmap.mmap(pf.fileno(), 64)
    t0 = time.monotonic()
    states, shapes = set(), set()
    runs = nontrivial = events = sim_us = violations = 0
    chain = ""
    for i in range(count):
        if i % 8 == 0 and time.monotonic() - t0 > float(opt["--seconds"]):
            break
        seed, prof = base + i * step, profs[i % len(profs)]
        progress[:24] = struct.pack("<QQQ", seed, i % len(profs), 1)
        faulthandler.dump_traceback_later(25, exit=True)
        s = generate(prof, seed, stats)
        r = execute(env, s, False, stats, states)
        runs += 1
        nontrivial += r.nontrivial
        events += r.events
        sim_us += r.sim_us
        chain = "%016x" % simlib.h64(chain, r.hash)
        if r.nontrivial:
            shapes.add(r.shape)
        if opt.get("--hashes") == "1":
            print("H %s %d %s" % (prof, seed, r.hash))
        if r.violation:
            v = r.violation
            print("V %s %d %d %s %s %s" % (prof, seed, v.op, r.hash, v.cls, oneline(v.detail)), flush=True)
            violations += 1
            if violations >= 3:
                break
    print("R runs %d nontrivial %d events %d sim_us %d chain %s" % (runs, nontrivial, events, sim_us, chain))
    for k in sorted(stats):
        print("S %s %d" % (k, stats[k]))
    with open(opt["--out"], "wb") as f:
        f.write(struct.pack("<Q", len(shapes)))
        for v in sorted(shapes):
            f.write(struct.pack("<Q", v))
        for v in sorted(states):
            f.write(struct.pack("<Q", v))
    sys.stdout.flush()
    os._exit(1 if violations else 0)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BaseException as e:
        if isinstance(e, SystemExit) and e.code in (0, None):
            raise
        import traceback
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(3)
