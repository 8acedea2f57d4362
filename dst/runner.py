"""Boot the library under the simulator; execute plans, one forked child each."""
import gc
import hashlib
import importlib
import json
import os
import pkgutil
import random
import resource
import select
import signal
import sys
import traceback

import sim as S

CPU_LIMIT = 30          # CPU seconds one run may use
WALL_LIMIT = 180        # wall seconds before the harness gives up on a run
REPO = os.environ.get("VERIF_REPO", "/repo")


class Harness(Exception):
    """Something is wrong with the harness or the sandbox, not a verdict."""


def boot():
    """Import the package under test from REPO with every seam in place."""
    import env
    import scen                     # noqa: F401  (imports canon, gen, render, ...)
    import zstdstub                 # noqa: F401
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    # what the library or its dependencies import lazily
    import concurrent.futures, copy, csv, glob, gzip, importlib.util, lzma, bz2  # noqa
    import locale, logging, pickle, queue, shelve, sqlite3, tempfile, threading  # noqa
    import xml.etree.ElementTree, xml.dom.minidom, xml.sax, zlib, json.decoder   # noqa
    import weakref, functools, fnmatch, stat, hashlib, contextlib, mmap           # noqa
    import multiprocessing, subprocess, shutil, asyncio, socket, string, decimal  # noqa
    import encodings
    for m in pkgutil.iter_modules(encodings.__path__):
        if m.name in ("mbcs", "oem"):
            continue
        try:
            importlib.import_module("encodings." + m.name)
        except Exception:
            pass
    for e in scen.ENCODINGS:
        "x".encode(e)
    S.install()
    import pytiled_parser as PT
    S.PKG = os.path.dirname(os.path.abspath(PT.__file__)) + os.sep
    want = os.path.realpath(os.path.join(REPO, "pytiled_parser")) + os.sep
    if os.path.realpath(S.PKG) + os.sep != want:
        raise Harness("pytiled_parser came from %s, not from %s" % (S.PKG, want))
    for m in pkgutil.walk_packages(PT.__path__, "pytiled_parser."):
        if m.name.rsplit(".", 1)[-1] == "__main__":
            continue
        importlib.import_module(m.name)
    env.PT = PT
    for mod in list(sys.modules.values()):
        f = getattr(mod, "__file__", None)
        if f and mod.__name__.split(".")[0] == "pytiled_parser" and not f.startswith(S.PKG):
            raise Harness("module %s comes from %s" % (mod.__name__, f))
    gc.collect()
    gc.freeze()


# ---------------------------------------------------------------------------
def child_main(prop, plan, mode, w):
    """Runs in the forked child; never returns."""
    import env as E
    import scen
    sent = []

    def send(obj):
        if sent:
            return
        sent.append(1)
        b = json.dumps(obj).encode()
        while b:
            n = S.REAL["os.write"](w, b)
            b = b[n:]
    out = {"violations": [], "stats": {}, "digest": "", "hist": "", "error": None}
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        signal.signal(signal.SIGINT, signal.default_int_handler)
        mem = os.memfd_create("out")
        null = S.REAL["os.open"]("/dev/null", os.O_RDONLY)
        S.REAL["os.dup2"](null, 0)
        S.REAL["os.dup2"](mem, 1)
        S.REAL["os.dup2"](mem, 2)
        sys.stdout = sys.__stdout__ = E.Recorder("stdout")
        sys.stderr = sys.__stderr__ = E.Recorder("stderr")
        sys.unraisablehook = lambda a: None
        gc.set_threshold(0)         # no collection of its own accord, but "enabled"
        random.seed(plan.get("sseed", 0))
        if plan.get("zstd"):
            import zstdstub
            E.PT = zstdstub.install()
        ev = E.Env(plan)
        sim = ev.sim

        def hard(why):
            ev.fail("not-terminating", "keeps going after " + why)
            out["violations"] = ev.violations
            send(out)
        S.REAL["hard_stop_cb"] = hard
        S.audit(None)
        S.CUR = sim
        if mode == "probe":
            if plan.get("ask"):
                sim.absent = []
            out["logs"], out["steps"], out["places"] = run_probe(ev, plan)
            out["absent"] = sim.absent
        else:
            scen.RUN[prop](ev, plan)
            if sys.gettrace() is not None:
                sys.settrace(None)
            if os.fstat(mem).st_size and prop == "C06":
                ev.fail("effect:fd write", os.pread(mem, 60, 0))
        S.CUR = None
        out["violations"] = ev.violations
        out["digest"] = ev.digest.hexdigest()
        out["hist"] = hashlib.sha256(repr(sim.history).encode()).hexdigest()[:16]
        sim.stats["ops"] = len(sim.history)
        sim.stats["sim_ms"] = int(sim.elapsed * 1000)
        sim.stats["loads"] = ev.loads
        sim.stats["faults fired"] = len(sim.fired_faults)
        out["stats"] = sim.stats
        out["switches"] = plan.get("recorded_switches")
        out["fired"] = sim.fired_faults
    except BaseException as e:  # noqa: harness problem
        S.CUR = None
        sys.settrace(None)
        out["error"] = "".join(traceback.format_exception(e))[-3000:]
    send(out)
    os._exit(0)


def run_probe(ev, plan):
    seen = {}
    tr = S.make_tracer(plan["trace"], seen if plan.get("places") else None) if plan.get("trace") else None
    logs, steps, places = [], [], []
    for op in plan["ops"]:
        if op[0] == "load":
            o = ev.load(op[1], op[2], trace=tr, raw_canon=False)
            logs.append(o.ctx.log)
            steps.append(o.ctx.steps)
            places.append({"%s:%d" % k: v for k, v in seen.items()})
            seen.clear()
            o.exc = None
        elif op[0] == "save":
            ev.save(op[1], op[2], op[3])
        elif op[0] == "delete":
            ev.delete(op[1])
        elif op[0] == "chdir":
            ev.sim.cwd = op[1]
        elif op[0] == "swap":
            ev.fs.swap(op[1], op[2])
    return logs, steps, places


def execute(prop, plan, mode="run"):
    """Fork, run the plan, return its result dict.  status: ok/hang/died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        S.REAL["os.close"](r)
        try:
            child_main(prop, plan, mode, w)
        finally:
            os._exit(98)
    os.close(w)
    buf = []
    hung = False
    while True:
        ready, _, _ = select.select([r], [], [], WALL_LIMIT)
        if not ready:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if hung:
        return {"violations": [], "stats": {}, "error": "wall", "digest": "", "hist": ""}
    try:
        return json.loads(b"".join(buf))
    except ValueError:
        pass
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
        return {"violations": [], "stats": {}, "error": "cpu" if os.WTERMSIG(st) == signal.SIGXCPU else "killed",
                "digest": "", "hist": ""}
    return {"violations": [], "stats": {}, "error": "child ended with status %d" % st, "digest": "", "hist": ""}


def run_plan(prop, plan):
    """execute() plus the verdict on runs that never end."""
    res = execute(prop, plan)
    if res["error"] == "cpu":
        # a loop inside the library: count steps to get an exact verdict
        p2 = dict(plan, trace="line", step_budget=3_000_000)
        if prop != "C09":
            r2 = execute(prop, p2)
            if r2["violations"]:
                return r2
        res["violations"] = [{"class": "not-terminating", "detail": "one run used %d CPU seconds" % CPU_LIMIT}]
        res["error"] = None
    return res


def make_probe(prop):
    def probe(plan):
        p = {k: v for k, v in plan.items() if plan.get("ask") or k not in ("faults", "rate", "events")}
        p["ops"] = [op for op in plan["ops"]]
        res = execute(prop, p, "probe")
        if res.get("error") or "logs" not in res:
            n = sum(1 for op in plan["ops"] if op[0] == "load")
            if res.get("error") in ("cpu",) or (res.get("violations")):
                return {"logs": [[["open", ""]]] * n, "steps": [100] * n, "places": [{}] * n}
            raise Harness("probe: %s" % res.get("error"))
        return res
    return probe


def seed_of(master, prop, index):
    return int.from_bytes(hashlib.sha256(("%s/%s/%d" % (master, prop, index)).encode()).digest()[:8], "big")


def make_plan(prop, master, index):
    import scen
    r = random.Random(seed_of(master, prop, index))
    plan = scen.GEN[prop](r, make_probe(prop))
    plan = json.loads(json.dumps(plan))
    plan.setdefault("step_budget", 5_000_000)
    return plan
