"""Command line: check | replay | batch | determinism | show."""
import collections
import hashlib
import json
import os
import re
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import runner as R      # noqa: E402

WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(2, min(16, os.cpu_count() or 8))
QUICK = {"C01": 20000, "C02": 20000, "C03": 20000, "C04": 20000, "C05": 16000, "C06": 14000, "C07": 16000,
         "C08": 16000, "C09": 11000, "C10": 24000, "C11": 20000, "C12": 13000, "C13": 16000, "C14": 13000,
         "C15": 20000, "C16": 18000}
THOROUGH_FACTOR = 20
SOFT_DEADLINE = {"quick": 420.0, "thorough": 6 * 3600.0}
INTERPRETERS = [
    ("hash seed 1", [], {"PYTHONHASHSEED": "1"}),
    ("hash seed 4242, -O", ["-O"], {"PYTHONHASHSEED": "4242"}),
    ("hash seed 77, -OO", ["-OO"], {"PYTHONHASHSEED": "77"}),
    ("C locale, no UTF-8 mode", ["-X", "utf8=0"], {"PYTHONHASHSEED": "9", "LC_ALL": "C", "LANG": "C",
                                                   "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}),
    ("UTF-8 mode, dev warnings", ["-X", "utf8=1", "-W", "always"], {"PYTHONHASHSEED": "123"}),
]


def say(*a):
    print(*(x.encode("utf-8", "backslashreplace").decode() if isinstance(x, str) else x for x in a), flush=True)


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") and not k.startswith("LC_")}
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8")
    return e


def spawn(args, flags=(), extra=None, **kw):
    env = base_env()
    env.update(extra or {})
    return subprocess.Popen([sys.executable, *flags, os.path.join(HERE, "check.py"), *args], env=env, **kw)


# ---------------------------------------------------------------------------
def campaign(prop, master, indices, deadline=None, stop_after=24, on_result=None, keep=False):
    """Run the plans of the given indices on all workers; yields result dicts."""
    procs = []
    n = min(WORKERS, max(1, len(indices)))
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for _, rr in procs:
                    os.close(rr)
                worker(prop, master, indices[w::n], wr, deadline)
            except BaseException as e:  # noqa
                try:
                    os.write(wr, (json.dumps({"i": -1, "fatal": repr(e)[:500]}) + "\n").encode())
                except OSError:
                    pass
                code = 3
            os._exit(code)
        os.close(wr)
        procs.append((pid, r))
    live = {r: b"" for _, r in procs}
    results = []
    bad = 0
    stopped = False
    while live:
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for r in ready:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                del live[r]
                continue
            *lines, rest = (live[r] + b).split(b"\n")
            live[r] = rest
            for ln in lines:
                d = json.loads(ln)
                results.append(d)
                if d.get("violations"):
                    bad += 1
        if bad >= stop_after and not stopped:
            stopped = True
            for pid, _ in procs:
                try:
                    os.kill(pid, signal.SIGTERM)
                except ProcessLookupError:
                    pass
    for pid, _ in procs:
        os.waitpid(pid, 0)
    return results, stopped


def worker(prop, master, indices, wr, deadline):
    stop = []
    signal.signal(signal.SIGTERM, lambda *a: stop.append(1))
    for i in indices:
        if stop or (deadline and time.monotonic() > deadline):
            break
        d = {"i": i}
        try:
            plan = R.make_plan(prop, master, i)
            res = R.run_plan(prop, plan)
            d.update({k: res.get(k) for k in ("violations", "digest", "hist", "stats", "error")})
            d["plan"] = hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:16]
            d["switches"] = hashlib.sha256(json.dumps(res.get("switches")).encode()).hexdigest()[:16]
        except R.Harness as e:
            d["error"] = str(e)
        b = (json.dumps(d) + "\n").encode()
        while b:
            b = b[os.write(wr, b):]


# ---------------------------------------------------------------------------
def load_known():
    try:
        with open(os.path.join(VERIF, "known-findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def known_match(known, prop, cls, detail):
    for k in known["known"]:
        if k["property"] == prop and k["class"] == cls and re.search(k["match"], detail or "", re.S):
            return k
    return None


def write_replay(prop, cls, detail, plan, master, index, interp=None):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "class": cls, "detail": detail, "seed": master, "index": index,
            "run_seed": R.seed_of(master, prop, index), "interpreter": interp, "plan": plan}
    name = "%s-%s-%s.json" % (prop, re.sub(r"\W+", "_", cls), hashlib.sha256(
        json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1, ensure_ascii=True)
    return path


def cmd_check(prop, tier, master, count=None):
    import scen
    import shrink
    t0 = time.monotonic()
    R.boot()
    n = count or (QUICK[prop] * (THOROUGH_FACTOR if tier == "thorough" else 1))
    deadline = t0 + SOFT_DEADLINE[tier]
    results, stopped = campaign(prop, master, list(range(n)), deadline)
    extra_cov = {}
    interp_viol = []
    if prop == "C13":
        extra_cov, interp_viol = interpreters(prop, master, results, tier)
    t_run = time.monotonic() - t0
    fatal = [d for d in results if "fatal" in d]
    errors = [d for d in results if d.get("error")]
    viol = sorted((d for d in results if d.get("violations")), key=lambda d: d["i"])
    known = load_known()
    # one report per kind of violation
    byc = {}
    for d in viol:
        for v in d["violations"]:
            byc.setdefault(v["class"], []).append((d["i"], v["detail"]))
    reported = []
    known_seen = {}
    budget = 120.0
    for cls, items in sorted(byc.items(), key=lambda x: x[1][0][0]):
        fresh = []
        for i, detail in items:
            k = known_match(known, prop, cls, detail)
            if k:
                known_seen[k["id"]] = k
            else:
                fresh.append((i, detail))
        if not fresh:
            continue
        if len(reported) >= 4:
            reported.append((cls, fresh[0][1], None, fresh[0][0], len(fresh)))
            continue
        i, detail = fresh[0]
        plan = R.make_plan(prop, master, i)
        t1 = time.monotonic()
        small, det, runs = shrink.minimise(prop, plan, cls, max_runs=800, max_s=max(5.0, budget / 2))
        budget -= time.monotonic() - t1
        if det is None:
            small, det = plan, detail
            errors.append({"i": i, "error": "violation %s of run %d did not repeat" % (cls, i)})
        path = write_replay(prop, cls, det, small, master, i)
        reported.append((cls, det, path, i, len(fresh)))
        rc = replay_rc(path)
        if rc != 1:
            errors.append({"i": i, "error": "replay of %s ended with %s" % (path, rc)})
    for cls, detail, path, i in interp_viol:
        reported.append((cls, detail, path, i, 1))
    for k in known_seen.values():
        say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for cls, det, path, i, cnt in reported:
        if path is None:
            say("  also: %s (%d runs, first run %d): %s" % (cls, cnt, i, det))
            continue
        say("VIOLATION property=%s replay=%s" % (prop, path))
        say("  %s (%d of %d runs, first run %d): %s" % (cls, cnt, len(results), i, det))
    wall = time.monotonic() - t0
    evidence(prop, tier, master, results, n, wall, t_run, reported, stopped, errors, extra_cov)
    say("%s %s: %d runs in %.1f s (%.0f runs/h), %d distinct histories, %d violations, %d harness errors" % (
        prop, tier, len(results), wall, len(results) / t_run * 3600,
        len({d.get("hist") for d in results}), len(reported), len(errors) + len(fatal)))
    for d in (fatal + errors)[:5]:
        say("HARNESS ERROR run %s: %s" % (d.get("i"), d.get("fatal") or d.get("error")))
    if reported:
        return 1
    return 2 if errors or fatal else 0


def interpreters(prop, master, results, tier):
    """The same seeds in differently configured interpreters must give the same results."""
    k = 800 if tier == "quick" else 8000
    base = {d["i"]: d for d in results if d["i"] < k and d["i"] >= 0}
    procs = []
    for name, flags, env in INTERPRETERS:
        env = dict(env, VERIF_WORKERS="2")
        procs.append((name, flags, env, spawn(["batch", prop, str(master), str(k)], flags, env,
                                              stdout=subprocess.PIPE)))
    out = []
    compared = 0
    for name, flags, env, p in procs:
        data, _ = p.communicate()
        if p.returncode:
            results.append({"i": -1, "fatal": "interpreter %s: exit %d" % (name, p.returncode)})
            continue
        for ln in data.splitlines():
            d = json.loads(ln)
            b = base.get(d["i"])
            if b is None:
                continue
            compared += 1
            interp = {"name": name, "flags": flags, "env": env}
            if d.get("violations") and not b.get("violations"):
                v = d["violations"][0]
                cls, det = "interpreter:" + v["class"], "%s: %s" % (name, v["detail"])
            elif d["digest"] != b["digest"] or d["hist"] != b["hist"]:
                cls, det = "interpreter-dependence", "run %d differs under %s" % (d["i"], name)
            else:
                continue
            if len(out) < 2 and not any(o[0] == cls for o in out):
                plan = R.make_plan(prop, master, d["i"])
                out.append((cls, det, write_replay(prop, cls, det, plan, master, d["i"], interp), d["i"]))
    return {"interpreter_configurations": [x[0] for x in INTERPRETERS],
            "interpreter_comparisons": compared}, out


def cmd_batch(prop, master, k):
    R.boot()
    results, _ = campaign(prop, master, list(range(k)), stop_after=10 ** 9)
    for d in sorted(results, key=lambda d: d["i"]):
        d.pop("stats", None)
        say(json.dumps(d))
    return 3 if any("fatal" in d for d in results) else 0


def replay_rc(path):
    p = spawn(["replay", path], stdout=subprocess.DEVNULL)
    return p.wait()


def cmd_replay(path):
    with open(path) as f:
        body = json.load(f)
    prop, cls, plan = body["property"], body["class"], body["plan"]
    interp = body.get("interpreter")
    if interp and os.environ.get("VERIF_INNER") is None:
        base = R_inner(path, [], {})
        other = R_inner(path, interp["flags"], interp["env"])
        if base != other:
            say("REPRODUCED property=%s %s under %s\n  default: %s\n  there:   %s" % (
                prop, cls, interp["name"], base, other))
            return 1
        say("not reproduced: same result %s" % (base,))
        return 0
    R.boot()
    res = R.run_plan(prop, plan)
    if os.environ.get("VERIF_INNER"):
        say(json.dumps([res["digest"], res["hist"], res["violations"]]))
        return 0
    say("history %s result %s" % (res["hist"], res["digest"][:16]))
    if res["error"]:
        say("HARNESS ERROR: " + res["error"])
        return 2
    for v in res["violations"]:
        say("  %s: %s" % (v["class"], v["detail"]))
    if any(v["class"] == cls for v in res["violations"]):
        say("REPRODUCED property=%s %s (run seed %s)" % (prop, cls, body.get("run_seed")))
        return 1
    say("not reproduced")
    return 0


def R_inner(path, flags, env):
    p = spawn(["replay", path], flags, dict(env, VERIF_INNER="1"), stdout=subprocess.PIPE)
    out, _ = p.communicate()
    return out.decode().strip()


# ---------------------------------------------------------------------------
REAL_PARTS = ["pytiled_parser (all modules, from the working tree)", "json", "xml.etree.ElementTree + expat",
              "zlib", "gzip", "base64", "re", "pathlib", "io.TextIOWrapper / io.BufferedReader", "attrs",
              "os.path, os.walk, glob (on simulated primitives)", "threads (real ones, parked and released)"]
STUB_PARTS = ["file system (in memory: inodes, directories, links, handles, versions, timestamps)",
              "working directory", "default text encoding", "directory enumeration order",
              "clock and sleep", "threading.Lock / RLock", "thread scheduler", "standard streams",
              "the editor / other programs changing files", "sender of Ctrl-C and cancellations"]
RULES = {
    "C01": "a run whose load involved at least one open of a simulated file and was compared with the model",
}


def evidence(prop, tier, master, results, planned, wall, t_run, reported, stopped, errors, extra):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    stats = collections.Counter()
    peaks = {}
    for d in results:
        for k, v in (d.get("stats") or {}).items():
            if k.startswith("peak "):
                peaks[k] = max(peaks.get(k, 0), v)
            elif k != "schedule" and isinstance(v, (int, float)):
                stats[k] += v
    hist = {d.get("hist") for d in results if d.get("hist") and (d.get("stats") or {}).get("ops")}
    sched = {(d.get("stats") or {}).get("schedule") for d in results} - {None}
    faults = {k: v for k, v in sorted(stats.items()) if k.startswith(("fault ", "event ", "short read", "fd limit"))}
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(hist),
        "rule": "an evaluation is one simulated run (one seed, one forked process); it is non-trivial if the "
                "library performed at least one simulated storage operation, and two runs are distinct if their "
                "complete histories (per call: every storage operation with its path, every fault and every "
                "event, in global order) differ",
        "samples": ["run %d: seed %d, %s loads, %s storage operations, history %s" % (
            d["i"], R.seed_of(master, prop, d["i"]), (d.get("stats") or {}).get("loads"),
            (d.get("stats") or {}).get("ops"), d.get("hist"))
            for d in sorted(results, key=lambda d: d["i"])[:5] if d["i"] >= 0],
        "runs_planned": planned,
        "runs_per_hour": int(len(results) / max(t_run, .01) * 3600),
        "stopped_early": stopped or len(results) < planned,
        "simulated_seconds": round(stats.get("sim_ms", 0) / 1000.0, 1),
        "loads": stats.get("loads", 0),
        "storage_operations": stats.get("ops", 0),
        "faults_and_events_injected": faults,
        "other_counts": {k: v for k, v in sorted(stats.items())
                         if k not in faults and k not in ("sim_ms", "loads", "ops")},
        "distinct_schedules": len(sched),
        "peak_open_handles": peaks.get("peak handles", 0),
        "peak_share_of_the_storage_bound_percent": peaks.get("peak share of the storage bound, %", 0),
        "distinct_result_digests": len({d.get("digest") for d in results}),
        "real_code": REAL_PARTS, "simulated": STUB_PARTS,
        "harness_errors": len(errors),
        "workers": WORKERS,
    }
    cov.update(extra)
    ev = {
        "property": prop, "tier": tier, "seed": int(master) if str(master).isdigit() else 0,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "the library reaches storage, clock, locks and process state only through Python's os/io/time/"
            "threading modules (audit events watch for other routes)",
            "documents come from the generator's supported Tiled feature set (exclusions in DESIGN.md)",
            "CPython 3.12 with reference counting",
        ],
        "wall_s": round(wall, 2),
        "violations": [{"class": c, "detail": d, "replay": p, "run": i, "runs_failing": n}
                       for c, d, p, i, n in reported],
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


# ---------------------------------------------------------------------------
def cmd_determinism(n):
    """Same seeds, different worker counts and hash seeds: identical plans,
    histories, schedules and results."""
    import scen
    ok = True
    for prop in scen.PROPS:
        outs = []
        for env in ({"VERIF_WORKERS": "8"}, {"VERIF_WORKERS": "1"}, {"VERIF_WORKERS": "3", "PYTHONHASHSEED": "31337"}):
            p = spawn(["batch", prop, "7", str(n)], (), env, stdout=subprocess.PIPE)
            out, _ = p.communicate()
            outs.append([tuple(json.loads(x).get(k) for k in ("i", "plan", "hist", "digest", "switches"))
                         for x in out.splitlines()])
        same = outs[0] == outs[1] == outs[2] and len(outs[0]) == n
        ok = ok and same
        say("%s: %d runs x 3 configurations %s" % (prop, n, "identical" if same else "DIFFER"))
        if not same:
            for a, b, c in zip(*outs):
                if not a == b == c:
                    say("   first difference:", a, b, c)
                    break
    return 0 if ok else 2


def cmd_selftest():
    """The simulator works here: every property's scenario runs, twice alike."""
    import scen
    R.boot()
    bad = 0
    for prop in scen.PROPS:
        for i in range(3):
            try:
                a = R.run_plan(prop, R.make_plan(prop, "selftest", i))
                b = R.run_plan(prop, R.make_plan(prop, "selftest", i))
            except R.Harness as e:
                a = b = {"error": str(e)}
            if a["error"] or a != b:
                bad += 1
                say("%s run %d: %s" % (prop, i, a["error"] or "two executions differ"))
    say("selftest: %d properties, %d problems" % (len(scen.PROPS), bad))
    return 0    # a verdict is the business of the checks


def main(argv):
    cmd = argv[0]
    master = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if cmd in ("check", "determinism", "selftest", "hunt") and os.environ.get("PYTHONHASHSEED") != "0":
        return spawn(argv).wait()
    if cmd == "check":
        count = None
        for a in argv[2:]:
            if a in ("quick", "thorough"):
                tier = a
            elif a.isdigit():
                count = int(a)
        return cmd_check(argv[1], tier, master, count)
    if cmd == "replay":
        if os.environ.get("PYTHONHASHSEED") is None:
            return spawn(argv).wait()
        return cmd_replay(argv[1])
    if cmd == "selftest":
        return cmd_selftest()
    if cmd == "batch":
        return cmd_batch(argv[1], argv[2], int(argv[3]))
    if cmd == "hunt":
        # hunt C01:2500 C11:800 ...: which property's runs notice first (for tools/mutants.py)
        R.boot()
        for a in argv[1:]:
            prop, k = a.split(":")
            results, _ = campaign(prop, master, list(range(int(k))), stop_after=1)
            hit = [d for d in results if d.get("violations")]
            if hit:
                say("%s %s" % (prop, json.dumps(hit[0]["violations"][0])[:300]))
                return 1
            odd = [d for d in results if d.get("error") or "fatal" in d]
            if odd:
                say("ODD %s %s" % (prop, json.dumps(odd[0])[:300]))
                return 2
        say("none")
        return 0
    if cmd == "determinism":
        return cmd_determinism(int(argv[1]) if len(argv) > 1 else 150)
    say(__doc__)
    return 2


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except R.Harness as e:
        say("HARNESS ERROR: %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc if isinstance(rc, int) else 2)
