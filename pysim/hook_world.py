"""HookWorld (C16): the real import hook over real cppimport code, with a simulated compiler, extension loader, failures and reboots.

The file tree is a scratch directory; only file operations below it are subject to faults."""
import builtins
import errno
import importlib
import importlib.machinery
import json
import logging
import os
import shutil
import sys
import sysconfig
import tempfile
import types

from simlib import Op, Result, Spec, Violation, h64, rng

MODULES = [("src0", "sim_m0"), ("src0", "sim_m1"), ("src1", "sim_m2"), ("src0", "simpkg.sim_in"), ("src1", "sim_m3")]
HEADERS = 2
INCS = 3
EXT = sysconfig.get_config_var("EXT_SUFFIX")
KINDS = ["none", "EIO", "EACCES", "ENOSPC", "ENOENT", "memory", "interrupt", "exit", "import", "crash", "value"]
TEMPLATES = ["plain", "plain", "plain", "plain", "own_before", "own_after", "import_error", "key_error", "syntax", "std_after"]
LOADS = ["fine", "fine", "fine", "fine", "ImportError", "ValueError", "SystemExit"]
# Parameters of operations
A, B, C = range(3)

real = types.SimpleNamespace()


class SimCrash(BaseException):
    """The machine stops here"""


class InjectedValue(Exception):
    pass


def preload(repo):
    """Everything the hook needs besides itself, once per process"""
    if hasattr(real, "ready"):
        return
    site = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(sys.executable))), "lib",
                        "python%d.%d" % sys.version_info[:2], "site-packages")
    sys.path.append(site)
    for m in ("cppimport", "cppimport.find", "cppimport.importer", "cppimport.templating", "cppimport.build_module", "cppimport.checksum",
              "mako.template", "mako.lookup", "mako.runtime", "mako.exceptions", "pybind11", "setuptools", "setuptools._distutils", "filelock",
              "pathlib", "traceback", "shutil", "tempfile", "importlib.util", "linecache", "tokenize"):
        importlib.import_module(m)
    sys.path.remove(site)
    import mako.lookup
    import mako.template
    mako.template.Template("<% x = 1 %>${x}").render()
    logging.getLogger("cppimport").setLevel(logging.CRITICAL + 1)
    logging.getLogger("unpadded").setLevel(logging.CRITICAL + 1)
    importer, find = sys.modules["cppimport.importer"], sys.modules["cppimport.find"]
    real.importer, real.find = importer, find
    real.steps = {"find_module_cpppath": (find, find.find_module_cpppath), "setup_module_data": (importer, importer.setup_module_data),
                  "build_safely": (importer, importer.build_safely), "load_module": (importer, importer.load_module)}
    real.fs = {"listdir": os.listdir, "scandir": os.scandir, "remove": os.remove, "unlink": os.unlink, "rename": os.rename,
               "replace": os.replace}
    real.open = builtins.open
    real.ready = True


class SimLoader:
    def __init__(self, world, path, binary):
        self.world, self.path, self.binary = world, path, binary

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.binary:
            self.world.load(module, self.path)
        else:
            with real.open(self.path) as f:
                exec(compile(f.read(), self.path, "exec"), module.__dict__)


class SimFinder:
    """What the path-based finder does for a directory of the scratch tree, without caches"""

    def __init__(self, world, path):
        self.world, self.path = world, path

    def find_spec(self, fullname, target=None):
        tail = fullname.rpartition(".")[2]
        base = os.path.join(self.path, tail)
        if os.path.isdir(base) and os.path.exists(base + "/__init__.py"):
            s = importlib.machinery.ModuleSpec(fullname, SimLoader(self.world, base + "/__init__.py", False), origin=base, is_package=True)
            s.submodule_search_locations.append(base)
            return s
        for suffix, binary in ((EXT, True), (".py", False)):
            if os.path.exists(base + suffix):
                return importlib.machinery.ModuleSpec(fullname, SimLoader(self.world, base + suffix, binary), origin=base + suffix)
        return None

    def invalidate_caches(self):
        pass


class Mod:
    """What the simulated user knows about a module"""

    def __init__(self, d, name):
        self.dir, self.name = d, name
        self.rel = d + "/" + "/".join(name.split("."))
        self.version = 0
        self.source = self.optin = self.broken = self.fallback = False
        self.template, self.load, self.headers, self.nested = "plain", "fine", [], []


class HookWorld:
    def __init__(self, env, spec, log, stats, states):
        self.env, self.spec, self.log, self.stats, self.states = env, spec, log, stats, states
        self.problem = None
        self.op_index = 0
        self.fault = None
        self.loaded = 0
        self.now = 0.0
        preload(env.repo)

    def trouble(self, cls, detail):
        self.problem = self.problem or (cls, detail)

    def fail(self, cls, detail):
        raise Violation(cls, detail, self.op_index)

    # ---- seams
    def seam(self, what, path=""):
        """A place where the simulated machine may fail"""
        if self.crashed:
            raise SimCrash()
        if not self.active:
            return
        self.seams += 1
        self.log.ev("seam", (), (what,))
        if self.seams > 4000:
            self.trouble("stuck", "the import does not end")
            raise SimCrash()
        if self.fault and self.fault[1] == self.seams - 1:
            kind = self.fault[0]
            if what == "remove" and not os.path.lexists(path):
                self.fault = None  # nothing to remove: fails anyway
                return
            if kind == "ENOENT" and what == "remove":
                real.fs["remove"](path)  # somebody else has removed it in the meantime
            if kind == "import" and what not in ("compile", "link", "linked", "load", "loaded"):
                kind = "EIO"  # file operations do not raise ImportError
            self.fault = None
            self.fired, self.fired_step = (kind, what), self.step
            self.stats["fault.%s_at_%s" % (kind, what)] += 1
            self.log.ev("fault", (), (kind, what))
            if kind == "crash":
                self.crashed = True
                raise SimCrash()
            if kind.startswith("E"):
                e = OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)), "simulated")
            else:
                e = {"memory": MemoryError, "interrupt": KeyboardInterrupt, "exit": SystemExit, "import": ImportError,
                     "value": InjectedValue}[kind]("injected")
            self.injected = e
            raise e

    def inside(self, path):
        try:
            return isinstance(path, (str, os.PathLike)) and os.path.abspath(path).startswith(self.root)
        except Exception:
            return False

    def install(self):
        def wrap(name, f):
            def g(*args, **kw):
                if args and self.inside(args[0]):
                    self.seam("remove" if name == "unlink" else name, os.fspath(args[0]))
                return f(*args, **kw)
            return g

        for name, f in real.fs.items():
            setattr(os, name, wrap(name, f))

        def sim_open(file, mode="r", *args, **kw):
            if self.inside(file):
                self.seam("create" if set(mode) & set("wax+") else "open")
            return real.open(file, mode, *args, **kw)

        builtins.open = sim_open
        for name, (mod, f) in real.steps.items():
            setattr(mod, name, self.step_of(name, f))
        real.importer.build_module = self.compile
        real.importer.time, real.importer.sleep = self.time, self.sleep
        self.old_path, self.old_hooks, self.old_meta = list(sys.path), list(sys.path_hooks), list(sys.meta_path)
        sys.path[:] = [self.root + "/src0", self.root + "/src1"] + sys.path
        sys.path_hooks.insert(0, self.path_hook)
        self.path = list(sys.path)

    def uninstall(self):
        for name, f in real.fs.items():
            setattr(os, name, f)
        builtins.open = real.open
        for name, (mod, f) in real.steps.items():
            setattr(mod, name, f)
        sys.path[:], sys.path_hooks[:], sys.meta_path[:] = self.old_path, self.old_hooks, self.old_meta
        self.forget()
        sys.modules.pop("unpadded.hook", None)
        sys.modules.pop("unpadded", None)
        for k in [k for k in sys.path_importer_cache if k.startswith(self.root)]:
            del sys.path_importer_cache[k]

    def path_hook(self, path):
        if path.startswith(self.root):
            return SimFinder(self, path)
        raise ImportError("not simulated")

    def time(self):
        self.now += 0.001
        return self.now

    def sleep(self, s):
        self.now += s
        self.seam("sleep")

    def step_of(self, name, f):
        """Follows the steps of an import"""
        def g(*args, **kw):
            if not self.active:
                return f(*args, **kw)
            if self.step:
                self.trouble("re-entered", "the hook runs %s for a module imported while it is in %s" % (name, self.step))
                raise SimCrash()
            self.step = name
            try:
                return f(*args, **kw)
            except BaseException as e:
                if not isinstance(e, SimCrash):
                    self.escaped = (name, e)
                    self.injected_escaped = self.injected_escaped or e is self.injected
                raise
            finally:
                self.step = None
        return g

    # ---- stubs of the compiler and of the dynamic loader
    def compile(self, data):
        self.seam("compile")
        self.builds[data["fullname"]] = self.builds.get(data["fullname"], 0) + 1
        cfg = data["cfg"]
        dirs = [d if os.path.isabs(d) else os.path.join(data["filedirname"], d) for d in cfg.get("include_dirs", [])]
        data["extra_source_filepaths"] = []
        with real.open(data["rendered_src_filepath"]) as f:
            text = f.read()
        b = {"name": data["fullname"], "headers": {}, "args": list(cfg.get("extra_compile_args", [])), "dirs": dirs, "directives": []}
        for line in text.splitlines():
            w = line.split()
            if line.startswith("#include"):
                h = w[1].strip('"')
                for d in dirs + [data["filedirname"]]:
                    if os.path.exists(os.path.join(d, h)):
                        with real.open(os.path.join(d, h)) as f:
                            b["headers"][h] = f.read()
                        break
                else:
                    raise SystemExit("error: %s: no such file" % h)
            elif line.startswith("//version"):
                b["version"] = int(w[1])
            elif line.startswith("//broken"):
                raise SystemExit("error: command failed")
            elif line.startswith("//@"):
                b["directives"].append(w)
        image = json.dumps(b) + "\n"
        with real.open(data["ext_path"], "w") as f:
            f.write(image[:len(image) // 2])
        self.seam("link")
        with real.open(data["ext_path"], "w") as f:
            f.write(image)
        self.seam("linked")

    def load(self, module, path):
        self.seam("load")
        with real.open(path, "rb") as f:
            raw = f.readline()
        try:
            b = json.loads(raw)
        except ValueError:
            raise ImportError("invalid ELF header") from None
        self.loaded += 1
        self.log.ev("load", (), (b["name"], b.get("version")))
        module.image = b
        for w in b["directives"]:
            if w[0] == "//@import":
                importlib.import_module(w[1])
            elif w[0] == "//@raise":
                raise {"ImportError": ImportError, "ValueError": ValueError, "SystemExit": SystemExit}[w[1]]("raised by the module")
        self.seam("loaded")

    # ---- the machine
    def forget(self):
        for k in [k for k in sys.modules if k.startswith("sim_") or k.split(".")[0] == "simpkg"]:
            del sys.modules[k]

    def boot(self):
        self.crashed = False
        self.step = None
        self.forget()
        sys.path[:] = self.path
        sys.meta_path[:] = self.old_meta
        pkg = types.ModuleType("unpadded")
        pkg.__path__ = [self.env.repo + "/py/unpadded"]
        sys.modules["unpadded"] = pkg
        sys.modules.pop("unpadded.hook", None)
        self.hook = importlib.import_module("unpadded.hook")
        if len(sys.meta_path) != len(self.old_meta) + 1:
            self.fail("registration", "importing the package registers %d importers" % (len(sys.meta_path) - len(self.old_meta)))
        if self.extras is not None:
            self.given = list(self.extras)
            self.hook.set_extra_include_dirs(self.given)
        else:
            self.given = None

    def write(self, rel, text):
        p = os.path.join(self.root, rel)
        with real.open(p, "w") as f:
            f.write(text)

    def write_source(self, m):
        p = os.path.join(self.root, m.rel + ".cpp")
        if not m.source:
            if os.path.exists(p):
                real.fs["remove"](p)
            return
        t = m.template
        body = {"own_before": "cfg['include_dirs'] += ['own']\ncfg['extra_compile_args'] += ['-DOWN=1']\n", "import_error": "import sim_missing\n",
                "key_error": "{}['missing']\n", "syntax": "if:\n"}.get(t, "")
        after = {"own_after": "cfg['include_dirs'] += ['own']\ncfg['extra_compile_args'] += ['-DOWN=1']\n",
                 "std_after": "cfg['extra_compile_args'] += ['-std=c++20']\n"}.get(t, "")
        lines = ["/*cppimport" if m.optin else "/*", "<%", body + "setup_unpadded(cfg)", after + "%>", "*/", "//version %d" % m.version]
        lines += ['#include "h%d.hpp"' % h for h in m.headers]
        lines += ["//broken"] if m.broken else []
        lines += ["//@import %s" % x for x in m.nested]
        lines += ["//@raise " + m.load] if m.load != "fine" else []
        self.write(m.rel + ".cpp", "\n".join(lines) + "\n")

    def expected_header(self, m, h):
        d = list(self.extras or []) + [os.path.dirname(os.path.join(self.root, m.rel))]
        own = os.path.join(os.path.dirname(os.path.join(self.root, m.rel)), "own")
        if m.template == "own_before":
            d.insert(0, own)
        elif m.template == "own_after":
            d.insert(len(d) - 1, own)
        for x in d:
            p = os.path.join(x, "h%d.hpp" % h)
            if os.path.exists(p):
                with real.open(p) as f:
                    return f.read()
        return None

    def healthy(self, m, seen=()):
        """Whether nothing about the module itself prevents its import"""
        if m.name in seen:
            return True
        return (m.source and m.optin and not m.broken and m.load == "fine" and m.template not in ("import_error", "key_error", "syntax") and
                all(self.expected_header(m, h) is not None for h in m.headers) and
                all(self.healthy(self.mods[x], seen + (m.name,)) and self.no_old_binary(self.mods[x]) for x in m.nested if x in self.mods) and
                all(x in self.mods or x == "sim_helper" for x in m.nested))

    def no_old_binary(self, m):
        """Modules imported while another one is being loaded are not built: their old binary, if any, is what the importers find"""
        try:
            with real.open(os.path.join(self.root, m.rel + EXT), "rb") as f:
                return json.loads(f.readline())["version"] == m.version
        except FileNotFoundError:
            return True
        except ValueError:
            return False

    def check_image(self, m, module):
        """The module which has been imported is built from what the tree contains now"""
        b = getattr(module, "image", None)
        if b is None:
            if getattr(module, "fallback", None) == m.name:
                return "fallback"
            self.fail("wrong-module", "importing %s gave another module" % m.name)
        if b["name"] != m.name or b.get("version") != m.version:
            self.fail("stale", "importing %s gave version %s of %s, the source is at version %d" % (m.name, b.get("version"), b["name"], m.version))
        for h in m.headers:
            want = self.expected_header(m, h)
            if b["headers"].get("h%d.hpp" % h) != want:
                self.fail("stale", "%s was built with %r as h%d.hpp instead of %r" % (m.name, b["headers"].get("h%d.hpp" % h), h, want))
        std = [x for x in b["args"] if x.startswith("-std=")]
        if not std or std[-1] != ("-std=c++20" if m.template == "std_after" else "-std=c++17"):
            self.fail("build-settings", "%s was built with %s" % (m.name, std))
        real_dirs = [os.path.realpath(d) for d in b["dirs"]]
        if os.path.realpath(os.path.join(os.path.dirname(self.hook.__file__), "include")) not in real_dirs:
            self.fail("build-settings", "%s was built without the headers of the library" % m.name)
        mine = [d for d in b["dirs"] if d.startswith(self.root + "/inc")]
        if mine != list(self.extras or []):
            self.fail("build-settings", "%s was built with the extra directories %s instead of %s" % (
                m.name, [os.path.basename(d) for d in mine], [os.path.basename(d) for d in self.extras or []]))
        if m.template.startswith("own"):
            if "-DOWN=1" not in b["args"] or not any(d.endswith("/own") for d in b["dirs"]):
                self.fail("build-settings", "the own settings of %s were dropped" % m.name)
        if self.given is not None and self.given != self.extras:
            self.fail("build-settings", "the list given to set_extra_include_dirs() was altered")
        return "image"

    def do_import(self, m, fault, line):
        """One import by the user's code"""
        for k in ("sim_helper",):
            sys.modules.pop(k, None)
        sys.modules.pop(m.name, None)
        for x in m.nested:
            sys.modules.pop(x, None)
        self.fault, self.fired, self.injected, self.escaped = fault, None, None, None
        self.injected_escaped, self.seams, self.builds = False, 0, {}
        self.step = None
        before = os.path.exists(os.path.join(self.root, m.rel + EXT))
        self.active = True
        if line is not None:
            self.countdown = line
            sys.settrace(self.tracer)
        module = error = None
        try:
            module = importlib.import_module(m.name)
        except BaseException as e:
            error = e
        finally:
            if line is not None:
                sys.settrace(None)
            self.active = False
        self.fault = None
        sys.path[:] = self.path
        if self.problem:
            self.fail(*self.problem)
        fired = self.fired
        name = m.name
        self.log.ev("import", (), (name, type(error).__name__, fired, sorted(self.builds.items())))
        if self.states is not None and len(self.states) < 300000:
            self.states.add(h64(name, before, m.source, m.optin, m.template, m.load, m.broken, type(error).__name__, fired, m.fallback,
                                self.escaped and (self.escaped[0], type(self.escaped[1]).__name__)))
        if self.crashed:
            self.boot()
            return
        chain = []
        e = error
        while e is not None and e not in chain:
            chain.append(e)
            e = e.__cause__ or e.__context__
        if fired == ("ENOENT", "remove") and self.injected not in chain:
            fired = self.injected = None  # the binary is not there any more, which is what was wanted: not a failure
        try:
            self.judge(m, module, error, chain, fired, before)
        finally:
            for e in chain:
                e.__traceback__ = None
            self.injected = self.escaped = None

    def judge(self, m, module, error, chain, fired, before):
        name = m.name
        esc = self.escaped
        if error is None:
            if not (m.source and m.optin):
                if name in self.builds:
                    self.fail("unwanted-build", "%s has no source to import and was built" % name)
                if not hasattr(module, "image") and getattr(module, "fallback", None) != name:
                    self.fail("wrong-module", "importing %s gave another module" % name)
                return
            what = self.check_image(m, module)
            if what == "image" and name not in self.builds:
                self.fail("stale", "%s was loaded without being built from the current sources" % name)
            if what == "fallback" and not (esc and isinstance(esc[1], ImportError)) and not fired:
                self.fail("wrong-module", "%s was imported from its fallback although nothing failed" % name)
            if sys.modules.get(name) is not module:
                self.fail("wrong-module", "%s is not the registered module" % name)
            if esc and not isinstance(esc[1], ImportError):
                self.fail("swallowed", "%s of %s was swallowed" % (type(esc[1]).__name__, esc[0]))
            return
        if esc and esc[1] is error and isinstance(error, ImportError):
            self.fail("not-left", "a failure to import in %s was not left to the other importers" % esc[0])
        if self.injected is not None and not isinstance(self.injected, ImportError):
            # the steps themselves may cope with a failure; the hook may not
            if self.injected not in chain and (not self.fired_step or self.injected_escaped):
                self.fail("swallowed", "%s at %s ended as %s" % (fired[0], fired[1], type(error).__name__))
            return
        if esc and not isinstance(esc[1], ImportError) and esc[1] not in chain:
            self.fail("swallowed", "%s of %s ended as %s: %s" % (type(esc[1]).__name__, esc[0], type(error).__name__, error))
        if fired:
            return
        # nothing was injected: the outcome follows from the tree
        if not (m.source and m.optin):
            if not isinstance(error, ImportError) and not before:  # an old binary may do anything while it is loaded
                self.fail("not-left", "%s has no source and its import ends with %s: %s" % (name, type(error).__name__, error))
            if m.fallback and not before:
                self.fail("not-left", "%s has no source but another importer finds it, and its import failed" % name)
            return
        if self.healthy(m):
            self.fail("import-failed", "nothing prevents the import of %s, which ends with %s: %s" % (name, type(error).__name__, error))
        if m.fallback and m.template == "import_error":
            self.fail("not-left", "the failure to import %s was not left to the other importers" % name)

    def tracer(self, frame, event, arg):
        if "/cppimport/" not in frame.f_code.co_filename:
            return None

        def local(frame, event, arg):
            if event == "line" and self.countdown is not None:
                self.countdown -= 1
                if self.countdown < 0:
                    self.countdown = None
                    self.fired, self.fired_step = ("interrupt", "line"), self.step
                    self.stats["fault.interrupt_at_line"] += 1
                    self.log.ev("fault", (), ("interrupt", frame.f_code.co_name))
                    self.injected = KeyboardInterrupt("injected")
                    raise self.injected
            return local
        return local

    # ---- operations
    def edit(self, m, g):
        m.version += 1
        m.source, m.optin = g.random() < 0.93, g.random() < 0.93
        rough = g.random() < self.rough
        m.broken = rough and g.random() < 0.3
        m.template = g.choice(TEMPLATES) if rough else g.choice(["plain", "plain", "own_before", "own_after", "std_after"])
        m.load = g.choice(LOADS) if rough else "fine"
        m.headers = sorted(g.sample(range(HEADERS), g.randrange(HEADERS + 1)))
        m.nested = []
        if g.random() < 0.3:
            later = [x.name for x in list(self.mods.values())[list(self.mods).index(m.name) + 1:]]
            m.nested = g.sample(later + ["sim_helper"], 1) + (["sim_missing"] if rough and g.random() < 0.3 else [])
        self.write_source(m)

    def run_op(self, o):
        names = list(self.mods)
        k = o.kind
        m = self.mods[names[o.at(A) % len(names)]]
        g = rng(o.at(B))
        if k == "import":
            self.do_import(m, (KINDS[o.at(B) % len(KINDS)], o.at(C)) if KINDS[o.at(B) % len(KINDS)] != "none" else None, None)
        elif k == "interrupt":
            self.do_import(m, None, o.at(C))
        elif k == "edit":
            self.edit(m, g)
            self.log.ev("edit", (), (m.name, m.source, m.optin, m.template, m.load, m.broken))
        elif k == "header":
            where = ["inc0", "inc1", "inc2", "src0", "src1", "src0/own", "src1/own", "src0/simpkg"][o.at(A) % 8]
            p = "%s/h%d.hpp" % (where, g.randrange(HEADERS))
            if g.random() < 0.2:
                if os.path.exists(self.root + "/" + p):
                    real.fs["remove"](self.root + "/" + p)
            else:
                self.write(p, "header %d %s\n" % (o.at(B), where))
            self.log.ev("header", (), (p,))
        elif k == "extras":
            self.extras = [self.root + "/inc%d" % i for i in g.sample(range(INCS), g.randrange(INCS + 1))]
            self.given = list(self.extras)
            self.hook.set_extra_include_dirs(self.given)
            self.log.ev("extras", (), (len(self.extras),))
        elif k == "reboot":
            self.boot()
            self.log.ev("reboot")
        elif k == "save":
            p = os.path.join(self.root, m.rel + EXT)
            if os.path.exists(p):
                with real.open(p, "rb") as f:
                    self.backups[m.name] = f.read()
        elif k == "restore":
            p = os.path.join(self.root, m.rel + EXT)
            d = self.backups.get(m.name)
            if d is not None:
                if o.at(C) % 4 == 0:
                    d = d[:g.randrange(len(d) + 1)]
                with real.open(p, "wb") as f:
                    f.write(d)
                self.stats["fault.old_binary_restored"] += 1
                self.log.ev("restore", (), (m.name,))
        elif k == "fallback":
            m.fallback = not m.fallback
            p = os.path.join(self.root, m.rel + ".py")
            if m.fallback:
                self.write(m.rel + ".py", "fallback = %r\n" % m.name)
            elif os.path.exists(p):
                real.fs["remove"](p)
        elif k == "other":
            # names which have no source anywhere
            try:
                self.active, self.seams, self.fault, self.injected = True, 0, None, None
                self.injected_escaped, self.escaped = False, None
                sys.modules.pop("sim_helper", None)
                importlib.import_module("sim_helper")
                if self.hook is not sys.modules["unpadded.hook"]:
                    self.fail("wrong-module", "the hook was imported again")
                try:
                    importlib.import_module("sim_nowhere")
                    self.fail("wrong-module", "a module which does not exist was imported")
                except ModuleNotFoundError:
                    pass
            except ImportError as e:
                self.fail("not-left", "a plain Python module cannot be imported: %s" % e)
            finally:
                self.active = False
            sys.path[:] = self.path

    def run(self):
        res = Result()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.root = tempfile.mkdtemp(prefix="updhook", dir=base)
        self.active = self.crashed = False
        self.extras, self.given, self.backups = None, None, {}
        self.rough = self.spec.num("rough") / 100
        self.mods = {n: Mod(d, n) for d, n in MODULES}
        installed = False
        try:
            for d in ["src0", "src1", "inc0", "inc1", "inc2", "src0/own", "src1/own", "src0/simpkg"]:
                os.mkdir(self.root + "/" + d)
            self.write("src0/simpkg/__init__.py", "")
            self.write("src1/sim_helper.py", "helper = 1\n")
            self.install()
            installed = True
            self.boot()
            g = rng(self.spec.num("tree"))
            for h in range(HEADERS):
                self.write("inc0/h%d.hpp" % h, "header\n")
                self.write("src0/h%d.hpp" % h, "header\n")
            for m in self.mods.values():
                self.edit(m, g)
            for i, o in enumerate(self.spec.ops):
                self.op_index = i
                if self.log.verbose:
                    print("%3d %s %s" % (i, o.kind, o.p))
                self.run_op(o)
            # once everything is repaired, each module is imported from its current sources
            self.op_index += 1
            for h in range(HEADERS):
                for d in ("src0", "src1", "src0/simpkg"):
                    self.write("%s/h%d.hpp" % (d, h), "final header\n")
            for m in self.mods.values():
                m.version += 1
                m.source, m.optin, m.broken, m.template, m.load = True, True, False, "plain", "fine"
                m.nested = [x for x in m.nested if x != "sim_missing"]
                self.write_source(m)
            for m in reversed(list(self.mods.values())):
                self.do_import(m, None, None)
                if getattr(sys.modules.get(m.name), "image", None) is None:
                    self.fail("import-failed", "%s cannot be imported once everything is repaired" % m.name)
        except Violation as v:
            res.violation = v
        finally:
            self.active = False
            self.crashed = False
            if installed:
                self.uninstall()
            shutil.rmtree(self.root, ignore_errors=True)
        res.nontrivial = self.loaded > 0
        res.sim_us = int(self.now * 1e6)
        return res


def generate(profile, seed, stats):
    g = rng(h64("C16", seed))
    s = Spec("hook", tree=g.randrange(1 << 40), rough=g.choice([0, 0, 20, 60]))
    w = dict({"import": 8}, interrupt=g.choice([0, 0, 3]), edit=3, header=2, extras=1, reboot=0.5, save=1, restore=1, fallback=0.5, other=0.4)
    w = {k: v * g.uniform(0.3, 1.7) for k, v in w.items()}
    faults = g.choice([0, 0.2, 0.6])
    kinds, weights = list(w), list(w.values())
    few = g.choice([1, 2, len(MODULES)])
    allowed = g.sample(range(1, len(KINDS)), g.choice([1, 3, len(KINDS) - 1]))
    for _ in range(g.choice([4, 10, 25])):
        k = g.choices(kinds, weights)[0]
        o = Op(k, g.randrange(few) if k not in ("header", "extras") else g.randrange(100), g.randrange(1 << 40), g.randrange(1000))
        if k == "import":
            o.p[B], o.p[C] = (g.choice(allowed), g.choice([g.randrange(6), g.randrange(25), g.randrange(40)])) if g.random() < faults else (0, 0)
        elif k == "interrupt":
            o.p[C] = g.choice([g.randrange(20), g.randrange(150), g.randrange(400)])
        s.ops.append(o)
    return s
