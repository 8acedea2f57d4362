"""One simulated process: files from a plan, loads, events, outcomes."""
import _thread
import builtins
import copy
import copyreg
import gc
import hashlib
import io
import json
import os
import pathlib
import posixpath as pp
import random
import resource
import signal
import sys
import threading
import time
import tracemalloc
import types
import warnings
from pathlib import Path

import canon as C
import expect as X
import sim as S
from fs import ROOT, SimFS
from render import render

PT = None      # the package under test, set by boot()


class Cancelled(BaseException):
    """The host program cancels the load."""


class Aborted(Exception):
    """An asynchronous exception class that is no ValueError and no OSError."""


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
       "Cancelled": Cancelled, "Aborted": Aborted, "SystemExit": SystemExit}


class Outcome:
    def __init__(self):
        self.value = None
        self.exc = None
        self.ctx = None
        self.canon = None
        self.open_after = 0

    @property
    def raised(self):
        return self.exc is not None


class Recorder(io.TextIOBase):
    def __init__(self, name):
        self.name = name
        self.n = 0

    @property
    def encoding(self):
        return S.CUR.encoding if S.CUR is not None else "utf-8"

    @property
    def errors(self):
        return "strict"

    def writable(self):
        return True

    def write(self, s):
        self.n += len(s)
        if S.in_load():
            S.CUR.effects.append(("print to " + self.name, s[:60]))
        return len(s)

    def flush(self):
        pass


class Env:
    def __init__(self, plan):
        self.plan = plan
        self.fs = SimFS()
        self.files = plan["files"]
        self.violations = []
        self.cache = {}
        self.cur = {}
        self.during = {}          # fid -> versions current at some instant of the load
        self.exists_hist = None
        self.fs.mkdirs(plan["cwd"])
        for d in plan.get("dirs", []):
            self.fs.mkdirs(d)
        for a, t in plan.get("links", []):
            self.fs.symlink(a, t)
        for p, kind in plan.get("specials", []):
            self.fs.special(p, kind)
        for p, text in plan.get("extra", []):
            self.fs.write(p, text.encode("utf-8"))
        for p, other in plan.get("hard", []):
            self.fs.hardlink(p, other)
        for p, fid, doc in plan.get("decoys", []):
            # another valid document of the same kind, its references intact
            f = self.files[fid]
            v = f["versions"][0]
            self.fs.write(p, render(doc, v["fmt"], v["style"], lambda a, b, p=p: pp.relpath(
                self.files[b]["path"], pp.dirname(p)), fid))
        for fid in self.files:
            if self.files[fid].get("store"):
                self.fs.symlink(self.files[fid]["path"], self.files[fid]["store"])
            if self.files[fid].get("start", 0) is None:
                self.cur[fid] = None
            else:
                self.save(fid, self.files[fid].get("start", 0))
        for p in plan.get("noperm", []):
            n = self.fs.exists(p)
            if n is not None:
                n.perm = False
        for p, mtime, size in plan.get("looks", []):
            n = self.fs.exists(p)
            if n is not None and n.kind == "f":
                n.mtime = mtime
                if not n.perm:
                    n.claim = size
        self.sim = S.Sim(self.fs, plan["cwd"], plan)
        self.sim.on_event = self.event
        self.interrupts = []
        self.dir_hist = None
        self.loads = 0
        self.frozen = None
        self.digest = hashlib.sha256()

    # -- documents -------------------------------------------------------
    def refstr(self, a, b):
        ov = self.plan.get("refs", {}).get("%s|%s" % (a, b))
        if ov is not None:
            return ov
        fa, fb = self.files[a]["path"], self.files[b]["path"]
        return pp.relpath(fb, pp.dirname(fa))

    def raw(self, fid, v):
        k = (fid, v)
        if k not in self.cache:
            ver = self.files[fid]["versions"][v]
            if "bytes" in ver:
                data = bytes.fromhex(ver["bytes"])
            else:
                data = render(ver["doc"], ver["fmt"], ver["style"], self.refstr, fid)
            dm = ver.get("damage")
            if dm:
                data = damage(data, dm)
            self.cache[k] = data
        return self.cache[k]

    def bytes(self, fid, v):
        data = self.raw(fid, v)
        if self.plan.get("pad"):
            n = max(len(self.raw(fid, i)) for i in range(len(self.files[fid]["versions"])))
            data = data + b" " * (n - len(data) - 1) + b"\n" if len(data) < n else data
        return data

    def save(self, fid, v, how="replace"):
        f = self.files[fid]
        where = f.get("store", f["path"])
        old = self.fs.exists(where, "/")
        self.fs.clock += 1_000_000_007
        node_kw = {}
        if old is not None and how in ("frozen", "frozen-inode"):
            node_kw["mtime"] = old.mtime
        if old is not None and how in ("frozen-inode", "inplace"):
            node_kw["ino"] = old.ino
        if how == "backward":
            node_kw["mtime"] = (old.mtime if old else self.fs.clock) - 86400 * 10 ** 9
        self.fs.frozen = how in ("frozen", "frozen-inode")
        self.fs.write(where, self.bytes(fid, v), v, **node_kw)
        self.fs.frozen = False
        self.cur[fid] = v
        if fid in self.during:
            self.during[fid].add(v)

    def delete(self, fid):
        f = self.files[fid]
        self.fs.unlink(f.get("store", f["path"]))
        self.cur[fid] = None

    def ver(self, fid, v=None):
        v = self.cur[fid] if v is None else v
        return self.files[fid]["versions"][v]

    def needed(self, fid, seen=None):
        """Every file id a load of fid reads, in its current version."""
        seen = [] if seen is None else seen
        if fid in seen:
            return seen
        seen.append(fid)
        v = self.cur[fid]
        if v is None:
            return seen
        ver = self.ver(fid)
        if "bytes" in ver or ver.get("damage"):
            return seen
        for r in doc_refs(ver["doc"]):
            self.needed(r, seen)
        return seen

    def state_of(self, fid):
        """'ok', or 'missing'/'damaged' if a load of fid cannot be exact"""
        st = "ok"
        for f in self.needed(fid):
            if self.cur[f] is None:
                return "missing"
            ver = self.ver(f)
            if "bytes" in ver or ver.get("damage"):
                st = "damaged"
        return st

    def expected(self, fid, given, choose=None):
        cwd = self.sim.cwd
        kind = self.files[fid]["kind"]
        ch = choose or (lambda occ, f: (self.ver(f)["doc"], self.ver(f)["fmt"]))
        m = X.Model(ch, self.refstr, lambda p: self.fs.realpath(p, "/"), cwd)
        if kind == "map":
            return m.map(fid, given)
        if kind == "tileset":
            return m.tileset_file(fid, given)
        raise S.SimError(kind)

    # -- world files -------------------------------------------------------
    def regular_names(self, dirpath):
        d = self.fs.exists(dirpath, self.sim.cwd)
        out = set()
        if d is not None and d.kind == "d":
            for n, node in d.entries.items():
                if node.kind == "l":
                    node = self.fs.exists(dirpath + "/" + n, self.sim.cwd)
                if node is not None and node.kind == "f":
                    out.add(n)
        return out

    def world_diff(self, fid, given, got, must=None, may=None, ver=None):
        doc = (self.ver(fid) if ver is None else self.ver(fid, ver))["doc"]
        if must is None:
            must = may = self.regular_names(pp.dirname(given) or ".")
        exp = X.world(doc, given, [(must, may)] * len(doc["patterns"]))
        return X.check_world(exp, got, C.diff)

    def diff(self, fid, given, got):
        if self.files[fid]["kind"] == "world":
            return self.world_diff(fid, given, got)
        return C.diff(self.expected(fid, given), got)

    def entry(self, do, path, tick):
        """A file of no interest appears or disappears; tick: does the clock
        advance enough for the directory's time stamp to show it?"""
        self.fs.clock += 1_000_000_007
        self.fs.frozen = not tick
        node = self.fs.exists(path, "/")
        if do == "mk" and node is None:
            self.fs.write(path, b"x")
        elif do == "mkdir" and node is None:
            self.fs.special(path, "d")
        elif do == "rm" and node is not None and not node.entries:
            self.fs.unlink(path)
        self.fs.frozen = False

    # -- events ------------------------------------------------------------
    def event(self, c, e):
        do = e["do"]
        k = do[0]
        if k == "interrupt":
            exc = EXC[do[1]]("injected %d" % len(self.interrupts))
            self.interrupts.append(exc)
            c.interrupt = exc
            raise exc
        if k == "save":
            self.save(do[1], do[2], do[3] if len(do) > 3 else "replace")
        elif k == "delete":
            self.delete(do[1])
        elif k == "create":
            self.fs.write(do[1], do[2].encode())
            self.note_dir()
        elif k == "remove":
            self.fs.unlink(do[1]) if self.fs.exists(do[1], "/") else None
            self.note_dir()
        elif k == "mkdir":
            if self.fs.exists(do[1], "/") is None:
                self.fs.special(do[1], "d")
            self.note_dir()
        elif k == "move":
            if self.fs.exists(do[1], "/"):
                self.fs.rename(do[1], do[2])
            self.note_dir()
        elif k == "chdir":
            self.sim.cwd = do[1]
        elif k == "clock":
            self.sim.clock += do[1]
        else:
            raise S.SimError("event " + k)

    def note_dir(self):
        if self.dir_hist is not None:
            self.dir_hist.append(self.regular_names(self.dir_watch))

    # -- loading -------------------------------------------------------------
    def load(self, fid, given, idx=None, trace=None, raw_canon=True):
        idx = self.loads if idx is None else idx
        self.loads += 1
        kind = self.files[fid]["kind"]
        fn = getattr(PT, {"map": "parse_map", "tileset": "parse_tileset", "world": "parse_world"}[kind])
        arg = Path(given)
        before = str(arg)
        out = Outcome()
        out.ctx = c = self.sim.begin(idx)
        self.during = {f: {v} for f, v in self.cur.items() if v is not None}
        if trace:
            sys.settrace(trace)
        try:
            try:
                out.value = fn(arg)
            except BaseException as e:  # noqa
                out.exc = e
            finally:
                if trace:
                    sys.settrace(None)
        finally:
            self.sim.end()
        out.open_after = len([r for r in c.opened if not r.closed])
        if str(arg) != before:
            self.sim.effects.append(("argument modified", "%s -> %s" % (before, arg)))
        if out.exc is None and raw_canon:
            out.canon = C.canon(out.value)
        self.digest.update(repr((idx, type(out.exc).__name__, C.short(out.canon) if out.exc is None else "")).encode())
        if out.exc is None:
            self.digest.update(json.dumps(out.canon, sort_keys=True).encode())
        return out

    def fail(self, cls, detail):
        self.violations.append({"class": cls, "detail": str(detail)[:600]})

    def chain(self, exc):
        seen = []
        todo = [exc]
        while todo:
            e = todo.pop()
            if e is None or any(e is x for x in seen):
                continue
            seen.append(e)
            todo.append(e.__cause__)
            if not e.__suppress_context__:
                todo.append(e.__context__)
            for sub in getattr(e, "exceptions", ()) or ():
                todo.append(sub)
        return seen

    def carries(self, exc, injected):
        for e in self.chain(exc):
            for i in injected:
                if e is i or (isinstance(e, OSError) and e.errno == i.errno):
                    return True
        return False


def doc_refs(doc):
    if doc["kind"] == "map":
        out = [t["ref"] for t in doc["tilesets"] if "ref" in t]
        todo = list(doc["layers"])
        while todo:
            L = todo.pop(0)
            if L["type"] == "group":
                todo = list(L["layers"]) + todo
            elif L["type"] == "objectgroup":
                out += [o["ref"] for o in L["objects"] if o["shape"] == "template"]
        return out
    if doc["kind"] == "template":
        return [doc["tileset"]] if doc["tileset"] else []
    return []


def damage(data, dm):
    """What a crash during saving leaves: dm = [kind, ...]"""
    k = dm[0]
    if k == "cut":
        return data[:int(dm[1] * len(data)) if isinstance(dm[1], float) else dm[1]]
    if k == "after":
        ends = [i + 1 for i, b in enumerate(data) if b == ord(dm[1])]
        if dm[2] > 0.6:
            ends = ends[-6:]
        return data[:ends[int(dm[2] * 997) % len(ends)]] if ends else data[:len(data) // 2]
    if k == "empty":
        return b""
    if k == "nul":
        a = int(dm[1] * len(data)) if isinstance(dm[1], float) else dm[1]
        a = min(a, max(0, len(data) - 1))
        b = min(len(data), a + max(1, dm[2]))
        return data[:a] + b"\0" * (b - a) + data[b:]
    if k == "nultail":
        a = int(dm[1] * len(data))
        a = min(a, max(0, len(data) - 1))
        return data[:a] + b"\0" * (len(data) - a)
    if k == "nulall":
        return b"\0" * max(1, len(data))
    raise S.SimError("damage " + k)


# ---------------------------------------------------------------------------
_DECODER = json._default_decoder


def decimal_state(c):
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, sorted(k.__name__ for k, v in c.traps.items() if v))


STDLIB = ("json", "json.decoder", "json.encoder", "json.scanner", "xml.etree.ElementTree", "zlib", "gzip", "base64",
          "binascii", "re", "os", "os.path", "pathlib", "locale", "decimal", "math", "struct", "array", "io", "codecs",
          "builtins", "typing", "importlib.util", "copy", "collections", "functools", "itertools", "string", "fnmatch",
          "glob", "time", "warnings", "logging", "threading", "gc", "sys", "attr", "datetime", "contextlib", "stat",
          "errno", "unicodedata", "signal", "xml.parsers.expat")
CLASSES = (json.JSONDecoder, json.JSONEncoder, pathlib.PurePath, pathlib.Path, pathlib.PosixPath, io.TextIOWrapper)
IGNORED = {("sys", n) for n in ("last_exc", "last_type", "last_value", "last_traceback", "stdout", "stderr", "stdin")} | {
    ("builtins", "_")}


def stdlib_state():
    """What the process' shared modules and classes hold: a load patches none of them."""
    out = {}
    for m in STDLIB:
        mod = sys.modules.get(m)
        for k, v in (vars(mod).items() if mod is not None else ()):
            if k[0] != "_" and (m, k) not in IGNORED and not isinstance(v, types.ModuleType):
                out[m, k] = repr(v) if isinstance(v, (int, str, float)) else id(v)
    for c in CLASSES:
        for k, v in vars(c).items():
            if callable(v):
                out[c.__name__, k] = id(v)
    return out


RLIMITS = sorted(k for k in dir(resource) if k.startswith("RLIMIT_"))


def frozen(env):
    """Objects exempt from collection: more only by gc.freeze(), all gone only by gc.unfreeze()."""
    n = gc.get_freeze_count()
    if env.frozen is None:
        env.frozen = n
    odd = n > env.frozen or n < env.frozen // 2
    env.frozen = n
    return odd


def process_state(env):
    import atexit
    import csv
    import decimal
    import faulthandler
    import locale
    import logging
    import socket
    import xml.etree.ElementTree as ET
    return {
        "cwd": env.sim.cwd,
        "environ": dict(os.environ),
        "stdin/out/err": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "int digits limit": sys.get_int_max_str_digits() if hasattr(sys, "get_int_max_str_digits") else 0,
        "sys.path": list(sys.path),
        "sys.argv": list(sys.argv),
        "meta_path": [id(x) for x in sys.meta_path],
        "random": random.getstate(),
        "threads": (threading.active_count(), _thread._count()),
        "signals": tuple(repr(signal.getsignal(s)) for s in range(1, 32) if s not in (9, 19)),
        "umask": env.sim.umask,
        "locale": locale.setlocale(locale.LC_ALL),
        "warnings": [repr(x) for x in warnings.filters],
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), frozen(env)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(threading.excepthook)),
        "trace/profile": (sys.getprofile(),),
        "builtins": (id(builtins.open), id(builtins.print), id(builtins.__import__)),
        "logging": (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
        "socket timeout": socket.getdefaulttimeout(),
        "rlimits": [resource.getrlimit(getattr(resource, k)) for k in RLIMITS],
        "priority": (os.getpriority(os.PRIO_PROCESS, 0), os.sched_getscheduler(0)),
        "time zone": (time.tzname, time.timezone),
        "tracing": (tracemalloc.is_tracing(), sys.get_asyncgen_hooks() == (None, None), sys.get_coroutine_origin_tracking_depth()),
        "import machinery": ([id(x) for x in sys.path_hooks], sys.getdlopenflags(), id(sys.breakpointhook)),
        "copying": (len(copyreg.dispatch_table), len(copy._deepcopy_dispatch)),
        "xml namespaces": dict(ET._namespace_map),
        "parser functions": (id(json.load), id(json.loads), id(ET.parse), id(ET.XMLParser), id(ET.fromstring),
                             json._default_decoder is _DECODER),
        "numbers": (decimal_state(decimal.getcontext()), decimal_state(decimal.DefaultContext),
                    csv.field_size_limit()),
        "library functions": stdlib_state(),
        "atexit": atexit._ncallbacks(),
        "faulthandler": faulthandler.is_enabled(),
        "bytecode flag": sys.dont_write_bytecode,
        "stack size": threading.stack_size(),
        "alarm": signal.getitimer(signal.ITIMER_REAL),
    }


def state_diff(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                x, y = ({q: d[q] for q in d if d[q] != e.get(q)} for d, e in ((x, y), (y, x)))
            out.append("%s: %s -> %s" % (k, C.short(x), C.short(y)))
    return out
