#!/usr/bin/env python3
"""Decides one property by deterministic simulation of the library in /repo.

  check.py <property> [--tier quick|thorough]     seeded search; exit 0, or 1 with a VIOLATION line
  check.py <property> --replay <file>             re-executes a replay file; exit 1 if it still violates

Every choice derives from VERIF_SEED. Anything other than a decision (a build or determinism problem) exits with 2.
"""
import argparse
import ctypes
import hashlib
import json
import mmap
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from plans import PLANS  # noqa: E402

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("UPD_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
REPLAYS = os.path.join(ROOT, "replays")
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")
CXX = "g++-11"
PYTHON = "/opt/vp/venv/bin/python"
JOBS = 8


class CheckError(Exception):
    pass


class Rejected(CheckError):
    """The compiler rejects a program of a simulated node, which uses nothing but the documented interface"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------------------------------- building
def tree_digest(paths):
    h = hashlib.sha256()
    for base in paths:
        files = []
        if os.path.isfile(base):
            files = [base]
        else:
            for d, dirs, names in os.walk(base):
                dirs[:] = sorted(x for x in dirs if x not in ("__pycache__",))
                files += [os.path.join(d, n) for n in sorted(names) if n.endswith((".hpp", ".cpp", ".h", ".py"))]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def run_build(cmd, out, env=None, own=False):
    """own: the program is made of the simulator's code only"""
    tmp = out + ".%d.tmp" % os.getpid()
    t = time.time()
    r = subprocess.run([x if x != "@OUT@" else tmp for x in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if r.returncode != 0:
        text = r.stdout.decode(errors="replace")
        lines = [l[:400] for l in text.splitlines() if "error" in l][:5]
        bad_luck = re.search(r"No space left|annot allocate|out of memory|Killed|internal compiler error|error writing|No such file", text)
        raise (Rejected if not own and re.search(r": error: ", text) and not bad_luck and r.returncode > 0 else CheckError)(
            "build failed: %s\n%s" % (" ".join(cmd), "\n".join(lines)))
    os.rename(tmp, out)
    return time.time() - t


ENDIAN = {0: "LITTLE", 1: "BIG"}
SIGNED = {0: "SIGNED_MAGNITUDE", 1: "ONES_COMPLEMENT", 2: "TWOS_COMPLEMENT", 3: "OFFSET_BINARY"}
HINTS = {
    "n": [],
    "b": ["-DUPD_PLATFORM_ENDIANESS=LITTLE", "-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT"],
    "e": ["-DUPD_PLATFORM_ENDIANESS=LITTLE"],
    "s": ["-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT"],
}
VARIANTS = ["v11n", "v11b", "v17n", "v17b", "v17e", "v17s"]


def firmware_job(d, digest):
    """d: pool, variant (v<std><hints>), fmt, and optionally flavour, kinds, policies, defs, opt"""
    std, hints = d["variant"][1:3], d["variant"][3]
    flavour = d.get("flavour", "-")
    src = "tuples.cpp" if d["pool"] == "TUPLES" else "firmware.cpp"
    flags = ["-std=c++" + std, d.get("opt", "-O1"), "-g1", "-fPIC", "-fvisibility=hidden", "-fno-gnu-unique",
             "-fno-lifetime-dse", "-w", "-I" + REPO + "/include", "-I" + ROOT + "/fw", "-DFW_ENDIAN=" + ENDIAN[d["fmt"] // 4],
             "-DFW_SIGNED=" + SIGNED[d["fmt"] % 4], "-DFW_VARIANT_ID=%d" % VARIANTS.index(d["variant"]),
             "-DFW_FORMAT_ID=%d" % d["fmt"]] + HINTS[hints]
    if src == "firmware.cpp":
        flags.append("-DFW_POOL=" + d["pool"])
    if "kinds" in d:
        flags.append("-DFW_KINDS=%d" % d["kinds"])
    if "policies" in d:
        flags.append("-DFW_POLICIES=%d" % d["policies"])
    flags += ["-D" + x for x in d.get("defs", [])]
    key = hashlib.sha256((digest + " ".join(flags) + flavour).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "fw_%s.so" % key)

    def make():
        if flavour == "step": # interrupts fall between any two instructions
            run_build([CXX] + flags + ["-shared", "-Wl,-z,now", os.path.join(ROOT, "fw", src), "-o", "@OUT@"], out)
        elif flavour == "isr":
            # instrumented memory accesses call back into the simulator, which provides the __tsan_* functions
            obj = out + ".%d.o" % os.getpid()
            run_build([CXX] + flags + ["-fsanitize=thread", "-c", os.path.join(ROOT, "fw", src), "-o", "@OUT@"], obj)
            run_build([CXX, "-shared", obj, "-o", "@OUT@"], out)
            os.unlink(obj)
        else:
            run_build([CXX] + flags + ["-shared", "-fsanitize=address", os.path.join(ROOT, "fw", src), "-o", "@OUT@"], out)

    if src == "tuples.cpp":
        line = "tw %s %s %d" % (out, d["variant"], d["fmt"])
    else:
        line = "fw %s %s %s %d %s" % (out, d["pool"], d["variant"], d["fmt"], flavour)
    name = "%s/%s/%d/%s" % (d["pool"], d["variant"], d["fmt"], "" if flavour == "-" else flavour)
    return name, line, out, make


def cost(d):
    return {"MIX": 20, "LONG": 16, "BIG255": 18, "BIG256": 18, "BIG300": 19, "EXT": 14, "TINY": 12, "WIDE": 11, "REPLY": 11, "REPLYW": 15,
            "VOID1": 8, "TUPLES": 14}.get(d["pool"], 10) + (5 if d.get("flavour") == "isr" else 0)


def build_native(fws):
    """Builds the simulator and the firmwares; returns the list file and {firmware name: (definition, list line)}"""
    os.makedirs(BUILD, exist_ok=True)
    digest = tree_digest([REPO + "/include", ROOT + "/fw"])
    jobs, table, lines = [], {}, []
    sim_key = hashlib.sha256(tree_digest([ROOT + "/sim", ROOT + "/fw/fw_api.hpp", ROOT + "/fw/pools.hpp",
                                          ROOT + "/fw/tuples_api.hpp"]).encode()).hexdigest()[:24]
    for d in fws:
        name, line, out, make = firmware_job(d, digest + (sim_key if d.get("flavour") == "step" else ""))
        table[name] = (d, line)
        lines.append(line)
        jobs.append((cost(d), out, make))
    sim = os.path.join(BUILD, "sim_" + sim_key)
    jobs.append((100, sim, lambda: run_build(
        [CXX, "-std=c++17", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w",
         os.path.join(ROOT, "sim", "main.cpp"), "-o", "@OUT@", "-rdynamic", "-ldl"], sim, own=True)))
    jobs = [j for j in sorted(jobs, key=lambda j: -j[0]) if not os.path.exists(j[1])]
    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(j[2]) for j in jobs]:
            f.result()

        def trace(name, line, out): # the instructions at which interrupts may fall
            fwlist = out + ".%d.list" % os.getpid()
            with open(fwlist, "w") as f:
                f.write(line + "\n")
            r = subprocess.run([sim, "trace", "--fw", fwlist, "--profile", "C05", "--count", "120"], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=sim_env(), preexec_fn=child_setup, timeout=300)
            text = r.stdout.decode()
            if r.returncode != 0 or not text.endswith("end\n"):
                # the operations themselves fail: the search finds out how, without interrupts in this build
                log("no trace of %s: %s" % (name, crash_class(r.returncode, r.stderr.decode(errors="replace"))))
                text = "end\n"
            with open(out + ".trace.%d.tmp" % os.getpid(), "w") as f:
                f.write(text)
            os.rename(out + ".trace.%d.tmp" % os.getpid(), out + ".trace")
            os.unlink(fwlist)

        todo = [(n, l, l.split()[1]) for n, (d, l) in table.items() if d.get("flavour") == "step"]
        for f in [ex.submit(trace, *t) for t in todo if not os.path.exists(t[2] + ".trace")]:
            f.result()
    return [sim], table, lines


def build_python(extensions):
    """The simulator of the Python parts, with the extension modules built from the tree if they take part in it"""
    os.makedirs(BUILD, exist_ok=True)
    argv = [PYTHON, "-S", os.path.join(ROOT, "pysim", "world.py")]
    lines, table = ["repo " + REPO], {}
    if extensions:
        suffix, pybind, python = subprocess.check_output(
            [PYTHON, "-c", "import sysconfig, pybind11;print(sysconfig.get_config_var('EXT_SUFFIX'), pybind11.get_include(), "
                           "sysconfig.get_paths()['include'])"]).decode().split()
        jobs = []
        for name, src in (("updsim", ROOT + "/pysim/updsim.cpp"), ("_details", REPO + "/py/unpadded/_details.cpp")):
            flags = ["-std=c++17", "-O1", "-g1", "-fPIC", "-shared", "-fvisibility=hidden", "-w", "-fsanitize=address", "-I" + REPO + "/include",
                     "-I" + pybind, "-I" + python]
            key = hashlib.sha256((tree_digest([REPO + "/include", src]) + " ".join(flags) + suffix).encode()).hexdigest()[:24]
            d = os.path.join(BUILD, "py_" + key)
            os.makedirs(d, exist_ok=True)
            out = os.path.join(d, name + suffix)
            lines.append("%s %s" % ("ext" if name == "updsim" else "details", out))
            if not os.path.exists(out):
                jobs.append((flags + [src], out))
        with ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(run_build, [CXX] + j[0] + ["-o", "@OUT@"], j[1]) for j in jobs]:
                f.result()
        libs = [subprocess.check_output([CXX, "-print-file-name=" + x]).decode().strip() for x in ("libasan.so", "libstdc++.so.6")]
        argv = ["env", "LD_PRELOAD=" + ":".join(libs), "PYTHONMALLOC=malloc"] + argv
    return argv, table, lines


# ------------------------------------------------------------------------------------------------ running
def child_setup():
    # same addresses in each process
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def sim_env():
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
    env["ASAN_OPTIONS"] = ("detect_leaks=0:alloc_dealloc_mismatch=0:malloc_context_size=4:quarantine_size_mb=16:"
                           "detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=190:"
                           "exitcode=77:abort_on_error=0:handle_abort=1")
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return env


def crash_class(rc, err):
    if rc == 79 or "HANG" in err or re.search(r"^Timeout \(", err, re.M):
        return "hang"
    m = re.search(r"AddressSanitizer:? (?:ERROR: )?([a-zA-Z-]+)", err)
    if m:
        k = re.search(r"ERROR: AddressSanitizer: ([A-Za-z-]+)", err)
        return "asan-" + (k.group(1) if k else m.group(1)).lower()
    if rc < 0:
        return "signal-%d" % -rc
    return "exit-%d" % rc


def crash_detail(err):
    m = re.search(r"^SUMMARY: (.*)$", err, re.M)
    if m:
        return m.group(1)
    return err.strip().splitlines()[-1] if err.strip() else ""


class Outcome:
    def __init__(self, violated, cls="", detail="", h="", op=-1):
        self.violated, self.cls, self.detail, self.hash, self.op = violated, cls, detail, h, op


class Backend:
    def __init__(self, argv, lines, scratch):
        self.argv, self.scratch, self.n = argv, scratch, 0
        self.fwlist = os.path.join(scratch, "fw.list")
        with open(self.fwlist, "w") as f:
            f.write("\n".join(lines) + "\n")

    def gen(self, jobs):
        return subprocess.run(self.argv + ["gen", "--fw", self.fwlist, "--jobs", ",".join("%s:%d" % j for j in jobs)],
                              stdout=subprocess.PIPE, check=True, env=sim_env(), preexec_fn=child_setup).stdout.decode()

    def execute(self, text, verbose=False):
        self.n += 1
        p = os.path.join(self.scratch, "spec%d_%d" % (os.getpid(), self.n))
        with open(p, "w") as f:
            f.write(text)
        try:
            r = subprocess.run(self.argv + ["exec", "--fw", self.fwlist, "--spec", p] + (["--verbose", "1"] if verbose else []),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=sim_env(), preexec_fn=child_setup, timeout=120)
            rc, out, err = r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, out, err = 79, "", "HANG"
        finally:
            os.unlink(p)
        self.last_output = out + err
        last = out.strip().splitlines()[-1] if out.strip() else ""
        if rc == 0 and last.startswith("HELD"):
            return Outcome(False, h=last)
        if rc == 1 and last.startswith("VIOLATED"):
            w = last.split(" ", 5)
            cls = w[1]
            return Outcome(True, cls, w[5] if len(w) > 5 else "", w[3], int(w[2].split("=")[1]))
        if rc in (2, 3):
            raise CheckError("the simulator failed: " + err[-2000:])
        return Outcome(True, crash_class(rc, err), crash_detail(err), "")


class Worker:
    def __init__(self, argv, fwlist, scratch, ident, profiles, base, step, count, seconds, extra=()):
        self.progress = os.path.join(scratch, "progress.%s" % ident)
        self.out = os.path.join(scratch, "out.%s" % ident)
        self.stdout_path = os.path.join(scratch, "stdout.%s" % ident)
        self.err_path = os.path.join(scratch, "stderr.%s" % ident)
        self.base, self.step, self.profiles = base, step, profiles
        with open(self.stdout_path, "wb") as o, open(self.err_path, "wb") as e:
            self.p = subprocess.Popen(argv + ["batch", "--fw", fwlist, "--profile", ",".join(profiles), "--base", str(base),
                                              "--step", str(step), "--count", str(count), "--seconds", str(seconds),
                                              "--progress", self.progress, "--out", self.out] + list(extra),
                                      stdout=o, stderr=e, env=sim_env(), preexec_fn=child_setup)

    def finish(self, timeout):
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            rc = 79
        self.stats, self.violations, self.r, self.hashes, self.samples = {}, [], {}, [], []
        out = open(self.stdout_path, errors="replace").read()
        err = open(self.err_path, errors="replace").read()
        for line in out.splitlines():
            w = line.split(" ")
            if w[0] == "R":
                self.r = dict(zip(w[1::2], w[2::2]))
            elif w[0] == "S":
                self.stats[w[1]] = int(w[2])
            elif w[0] == "H":
                self.hashes.append(line)
            elif w[0] == "V":
                self.violations.append((w[1], int(w[2]), w[5], " ".join(w[6:])))
        if rc == 2 or rc == 3:
            raise CheckError("the simulator failed: " + err[-2000:])
        if rc not in (0, 1) or not self.r:
            try:
                with open(self.progress, "rb") as f:
                    seed, prof, _ = struct.unpack("<QQQ", f.read(24))
            except Exception:
                raise CheckError("the simulator died before the first run: %s\n%s" % (crash_class(rc, err), err[-3000:]))
            self.violations.append((self.profiles[prof], seed, crash_class(rc, err), crash_detail(err)))
        self.shapes, self.states = set(), set()
        if os.path.exists(self.out):
            data = open(self.out, "rb").read()
            v = struct.unpack("<%dQ" % (len(data) // 8), data)
            if v:
                self.shapes, self.states = set(v[1:1 + v[0]]), set(v[1 + v[0]:])
        return self


# --------------------------------------------------------------------------------------------- minimisation
def split_spec(text):
    head, ops = [], []
    for l in text.splitlines():
        if not l.strip() or l.startswith("#"):
            continue
        (ops if l.startswith("op ") else head).append(l)
    return head, ops


def minimise(be, text, cls, deadline):
    """Shrinks the operations of the last run, keeping the class of the violation"""
    tries = [0]

    def fails(h, o):
        if time.time() > deadline:
            return False
        tries[0] += 1
        try:
            r = be.execute("\n".join(h + o) + "\n")
        except CheckError:
            return False
        return r.violated and r.cls == cls

    head, ops = split_spec(text)
    if not fails(head, ops):
        return text, tries[0]
    n = 2
    while len(ops) >= 2 and time.time() < deadline:
        size = max(1, len(ops) // n)
        cut = False
        i = 0
        while i < len(ops):
            t = ops[:i] + ops[i + size:]
            if t and fails(head, t):
                ops, cut = t, True
            else:
                i += size
        if not cut:
            if size == 1:
                break
            n = min(len(ops), n * 2)
        else:
            n = max(2, n - 1)
    # simpler parameters: no faults, no data
    for i in range(len(ops)):
        w = ops[i].split(" ")
        if ":" in w:
            k = w.index(":")
            data = w[k + 1]
            size = len(data) // 4 * 2
            while size >= 2 and time.time() < deadline:
                j = 0
                while j < len(data):
                    t = data[:j] + data[j + size:]
                    cand = ops[:i] + [" ".join(w[:k] + ([":", t] if t else []))] + ops[i + 1:]
                    if fails(head, cand):
                        data, ops = t, cand
                    else:
                        j += size
                size = size // 4 * 2
        w = ops[i].split(" ")
        end = w.index(":") if ":" in w else len(w)
        for j in range(3, end):
            for v in ("0", "-1", "1"):
                if w[j] != v and time.time() < deadline and not (w[j] in ("0", "-1") and v == "1"):
                    t = w[:j] + [v] + w[j + 1:]
                    cand = ops[:i] + [" ".join(t)] + ops[i + 1:]
                    if fails(head, cand):
                        w, ops = t, cand
                        break
    return "\n".join(head + ops) + "\n", tries[0]


# ------------------------------------------------------------------------------------------------- known findings
def known_findings(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r.append((re.compile(m.group(2).replace("\\s", " ")), m.group(3).strip()))
    return r


# ------------------------------------------------------------------------------------------------------- main
def confirm(be, prop, plan, worker, v, profiles, deadline):
    """Gates a violation found by a worker: it must reproduce in fresh processes, twice the same"""
    profile, seed, cls, detail = v
    text = be.gen([(profile, seed)])
    a, b = be.execute(text), be.execute(text)
    if a.violated and b.violated and a.cls == b.cls and a.hash == b.hash:
        return text, a
    # it may need what earlier runs of the same process left behind
    index = (seed - worker.base) // worker.step
    k = 1
    while True:
        first = max(0, index - k)
        jobs = [(profiles[i % len(profiles)], worker.base + i * worker.step) for i in range(first, index + 1)]
        text = be.gen(jobs)
        a, b = be.execute(text), be.execute(text)
        if a.violated and b.violated and a.cls == b.cls and a.hash == b.hash:
            return text, a
        if first == 0 or time.time() > deadline:
            return None, (a, b)
        k *= 8


def shrink_runs(be, text, cls, deadline):
    """Drops earlier runs of a violation which spans several, then shrinks nothing else"""
    runs = text.split("run\n")
    n = len(runs) - 1
    i = 0
    size = max(1, n // 2)
    while size >= 1 and time.time() < deadline:
        i = 0
        while i < len(runs) - 1 and time.time() < deadline:
            t = runs[:i] + runs[min(i + size, len(runs) - 1):]
            r = be.execute("run\n".join(t))
            if r.violated and r.cls == cls:
                runs = t
            else:
                i += size
        size //= 2
    return "run\n".join(runs)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    t0 = time.time()
    prop = args.property
    plan = PLANS[prop]
    tier = "thorough" if args.tier == "thorough" else "quick"
    scratch = tempfile.mkdtemp(prefix="updsim.")
    try:
        if args.replay:
            return replay(args, prop, plan, scratch)
        return search(args, prop, plan, tier, scratch, t0)
    except Rejected as e:
        # nodes which could be built against the interface of the library cannot any more: their calls are not served
        if args.replay:
            print("%s\nVIOLATION property=%s replay=%s" % (e, prop, args.replay))
            return 1
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-rejected.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "violation": {"class": "program-rejected", "detail": str(e), "hash": "", "op": -1}, "spec": "",
                       "how": "python3 /verif/check.py %s --replay %s" % (prop, path), "firmwares": plan.get(tier + "_fw", plan.get("fw", []))}, f, indent=1)
        print("property %s violated: program-rejected: %s\nVIOLATION property=%s replay=%s" % (prop, e, prop, path), flush=True)
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def prepare(plan, fws):
    if plan.get("python"):
        return build_python(plan["python"] == "extensions")
    return build_native(fws)


def replay(args, prop, plan, scratch):
    rep = json.load(open(args.replay))
    argv, table, lines = prepare(plan, rep["firmwares"])
    if not rep["spec"]:
        print("held: the programs build")
        return 0
    be = Backend(argv, lines, scratch)
    a = be.execute(rep["spec"], verbose=True)
    print(be.last_output)
    if a.violated:
        same = a.cls == rep["violation"]["class"] and a.hash == rep["violation"]["hash"]
        print("%s (%s)" % ("reproduced exactly" if same else "violated differently", a.cls))
        print("VIOLATION property=%s replay=%s" % (prop, args.replay))
        return 1
    print("held: the replay no longer violates %s" % prop)
    return 0


def search(args, prop, plan, tier, scratch, t0):
    fws = plan.get(tier + "_fw", plan.get("fw", []))
    argv, table, lines = prepare(plan, fws)
    built = time.time() - t0
    profiles = plan["profiles"]
    seconds = args.seconds or plan.get(tier + "_seconds", 40 if tier == "quick" else 500)
    be = Backend(argv, lines, scratch)
    base = (args.seed * 1000003) % (1 << 40) * 100000000
    # determinism: the same seeds in two processes give the same event logs
    n = plan.get("determinism_runs", 96)
    probe = [Worker(argv, be.fwlist, scratch, "det%d" % i, profiles, base, 1, n, 60, ["--hashes", "1"]) for i in range(2)]
    probe = [w.finish(180) for w in probe]
    found = [(w, v) for w in probe for v in w.violations]
    if not found and (probe[0].hashes != probe[1].hashes or len(probe[0].hashes) < n):
        raise CheckError("the simulation is not deterministic: %r" % [
            x for x in zip(probe[0].hashes, probe[1].hashes) if x[0] != x[1]][:3])
    t1 = time.time()
    workers = []
    if not found:
        workers = [Worker(argv, be.fwlist, scratch, str(i), profiles, base + i, JOBS, 1 << 40, seconds) for i in range(JOBS)]
        workers = [w.finish(seconds + 120) for w in workers]
        found = [(w, v) for w in workers for v in w.violations]
    else:
        workers = probe
    search_s = time.time() - t1
    known = known_findings(prop)
    rc, reported = 0, 0
    trouble = []
    deadline = time.time() + 150
    hits = set()
    seen = set()
    for w, v in sorted(found, key=lambda x: (x[1][2], x[1][1])):
        if v[2] in seen or reported:
            continue
        step = w.step
        text, a = confirm(be, prop, plan, w, v, profiles, deadline)
        if text is None:
            trouble.append("%s seed %d: %s did not reproduce (%s)" % (v[0], v[1], v[2], [x.cls for x in a]))
            continue
        seen.add(v[2])
        tries = 0
        if "run\n" in text:
            small = shrink_runs(be, text, a.cls, time.time() + 60)
        else:
            small, tries = minimise(be, text, a.cls, time.time() + 60)
        b, c = be.execute(small), be.execute(small)
        if not (b.violated and c.violated and b.cls == c.cls == a.cls and b.hash == c.hash):
            small, b = text, a
        be.execute(small, verbose=True)
        trace = [re.sub(r"0x[0-9a-f]+|==\d+==", "", l) for l in be.last_output.splitlines()][-60:]
        sig = "%s %s %s" % (v[0], b.cls, b.detail)
        k = [i for i, (rx, _) in enumerate(known) if rx.search(sig)]
        if k:
            hits.update(k)
            continue
        names = set(re.findall(r"^cfg (?:fw|target|peer\d*|ware) (\S+)", small, re.M))
        need = [table[x][0] for x in sorted(names) if x in table and table[x][0]] or fws
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%d.json" % (prop, v[0], v[1]))
        with open(path, "w") as f:
            json.dump({"property": prop, "profile": v[0], "seed": v[1], "verif_seed": args.seed,
                       "violation": {"class": b.cls, "detail": b.detail, "hash": b.hash, "op": b.op},
                       "how": "python3 /verif/check.py %s --replay %s" % (prop, path), "firmwares": need, "spec": small,
                       "original_spec": text if len(text) < 200000 else "", "shrink_attempts": tries, "trace": trace}, f, indent=1)
        print("property %s violated: profile %s seed %d: %s: %s" % (prop, v[0], v[1], b.cls, b.detail))
        for l in small.splitlines()[:60]:
            print("    " + l)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        reported += 1
        rc = 1
    for _, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
    if not reported and trouble:
        raise CheckError("violations which do not reproduce:\n" + "\n".join(trouble))
    write_evidence(args, prop, plan, tier, be, workers, probe, profiles, base, seconds, search_s, built, t0, reported, table, fws, found)
    if rc == 0:
        print("property %s held (%s, seed %d)" % (prop, tier, args.seed))
    return rc


NODE_STATE = ("hash of (operation, dispatcher kind, policy, bytes received of the current request, its first byte, bytes of the response "
              "left, failure injected, pool and format) after each operation")
TEXTS = {
    "cpp": ("at least one callback was executed, or one transfer made", NODE_STATE),
    "C13": ("at least one transfer was made", "hash of (operation, kind of object, its layout, wire format, byte at which it was to fail and whether it did) after each operation"),
    "C14": ("at least one call ended", "hash of (transport, outcome, cancellation, time limit, bad arguments, result, client, "
            "submissions, calls in flight) at the end of each call"),
    "C15": ("at least one Python callable was invoked", "hash of (operation, keyring, first byte and number of bytes received of the current "
            "request, bytes of the response left, kinds of callables installed) after each operation"),
    "C16": ("at least one module was loaded", "hash of (module, what was on disk before, its source, opt-in, template, loading, defect, "
            "outcome, failures that happened, other importers) after each import"),
}


def write_evidence(args, prop, plan, tier, be, workers, probe, profiles, base, seconds, search_s, built, t0, reported, table, fws, found):
    runs = sum(int(w.r.get("runs", 0)) for w in workers)
    nontrivial = sum(int(w.r.get("nontrivial", 0)) for w in workers)
    events = sum(int(w.r.get("events", 0)) for w in workers)
    sim_us = sum(int(w.r.get("sim_us", 0)) for w in workers)
    shapes, states, stats = set(), set(), {}
    for w in workers:
        shapes |= w.shapes
        states |= w.states
        for k, n in w.stats.items():
            stats[k] = stats.get(k, 0) + n
    samples = []
    for i, p in enumerate(profiles[:3]):
        samples.append({"profile": p, "seed": base + i, "spec": be.gen([(p, base + i)]).splitlines()[:40]})
    hours = max(search_s, 0.001) / 3600
    world = prop if prop in TEXTS else "cpp"
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(shapes),
        "rule": plan["rule"] + " A run is non-trivial if %s; it is distinct if its event log without data values (the "
                               "interleaving of operations, statuses and faults) differs from those of all other runs." % TEXTS[world][0],
        "samples": samples,
        "nontrivial_runs": nontrivial,
        "runs_per_hour": int(runs / hours),  # one seed is one run
        "simulated_events": events,
        "interleaving_measure": "distinct_nontrivial counts distinct interleavings; each seed is one run",
        "distinct_interleavings_rate": round(len(shapes) / max(runs, 1), 3),
        "distinct_interleavings_capped": any(len(w.shapes) >= 300000 for w in workers),
        "distinct_states": len(states),
        "state_measure": TEXTS[world][1],
        "faults_injected": {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("fault.")},
        "events_hit": {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("event.")},
        "determinism": "%d runs executed in two processes with identical event logs" % sum(1 for _ in probe[0].hashes),
        "profiles": profiles,
        "firmwares": sorted(table),
        "real_components": plan.get("real", "all of include/upd/** reached by dispatchers, actions, keys and tuples, compiled "
                                            "from /repo by the check"),
        "stub_components": plan.get("stub", "callbacks, byte sources and sinks, links, allocator (operator new) and interrupt "
                                            "controller are the simulator's; reference peer and oracle are independent code"),
        "search_seconds": round(search_s, 1),
        "build_seconds": round(built, 1),
    }
    if sim_us:
        cov["simulated_seconds"] = sim_us / 1e6
        cov["simulated_time"] = "discrete event clock"
    else:
        cov["simulated_time"] = "no clock in this world: time is the sequence of %d events" % events
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": args.seed, "level": "exploration", "coverage": cov,
          "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": reported}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        log("ERROR: %s" % e)
        sys.exit(2)
