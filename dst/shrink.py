"""Greedy minimisation of a failing plan, keeping the same kind of violation."""
import copy
import json
import time

import runner as R

OPT_KEYS = {"tint", "offset", "parallaxx", "parallaxy", "repeatx", "repeaty", "start", "transparent",
            "animation", "wangsets", "tileoffset", "grid", "transformations", "backgroundcolor",
            "objectalignment", "tilerendersize", "fillmode", "hexsidelength", "staggeraxis",
            "staggerindex", "parallaxoriginx", "parallaxoriginy", "class", "offsetX", "offsetY"}
DOC_LISTS = {"layers", "objects", "tilesets", "tiles", "properties", "chunks", "wangsets", "colors",
             "animation", "maps", "patterns"}


def refs_in(plan):
    import env
    used = set()
    for op in plan.get("ops", []) + plan.get("after", []):
        if op[0] in ("load", "save", "delete"):
            used.add(op[1])
    for th in plan.get("threads", []):
        for f, _ in th:
            used.add(f)
    for e in plan.get("events", []):
        if e["do"][0] in ("save", "delete"):
            used.add(e["do"][1])
    if plan.get("victim"):
        used.add(plan["victim"])
    todo = list(used)
    while todo:
        f = todo.pop()
        for v in plan["files"].get(f, {}).get("versions", []):
            if "doc" in v:
                for x in env.doc_refs(v["doc"]):
                    if x not in used:
                        used.add(x)
                        todo.append(x)
    return used


def candidates(plan):
    """Yield functions plan -> smaller plan, big steps first."""
    p = plan
    if p.get("io"):
        yield lambda q: q.update(io={})
        for k in list(p["io"]):
            yield lambda q, k=k: q["io"].pop(k, None)
    for k in ("environ", "links", "specials", "extra", "noperm", "looks", "decoys", "dirs", "faults", "events"):
        if p.get(k):
            yield lambda q, k=k: q.update({k: type(q[k])()})
    for k in ("rate", "pad", "warm", "mtimes", "adversarial_env", "trace", "fd_limit", "refs", "machine", "localeconv", "numbers"):
        if p.get(k):
            yield lambda q, k=k: q.pop(k, None)
    for k, v in (("list_seed", 0), ("encoding", "utf-8"), ("clock0", 1.7e9), ("hold", False)):
        if p.get(k, v) != v:
            yield lambda q, k=k, v=v: q.update({k: v})
    # files nobody mentions
    unused = [f for f in p["files"] if f not in refs_in(p)]
    if unused:
        def drop(q):
            for f in unused:
                q["files"].pop(f, None)
        yield drop
        for f in unused:
            yield lambda q, f=f: q["files"].pop(f, None)
    for k in ("ops", "faults", "events", "extra", "specials", "links", "noperm", "looks", "decoys", "dirs", "gone", "after", "threads"):
        lst = p.get(k) or []
        n = len(lst)
        step = max(1, n // 2)
        while n and step:
            for a in range(0, n, step):
                if k == "ops" and step == 1 and lst[a][0] == "load":
                    yield lambda q, a=a: drop_load(q, a)
                yield lambda q, k=k, a=a, s=step: q[k].__delitem__(slice(a, a + s))
            step //= 2
    for i, th in enumerate(p.get("threads") or []):
        for j in range(len(th)):
            if len(th) > 1:
                yield lambda q, i=i, j=j: q["threads"][i].pop(j)
    sw = p.get("switches")
    if sw:
        n = len(sw)
        step = max(1, n // 2)
        while step:
            for a in range(0, n, step):
                yield lambda q, a=a, s=step: q["switches"].__delitem__(slice(a, a + s))
            step //= 2
    # documents
    for f, x in p["files"].items():
        for vi, v in enumerate(x["versions"]):
            if "doc" not in v:
                continue
            yield from doc_steps(v["doc"], ["files", f, "versions", vi, "doc"])


def drop_load(q, a):
    """Remove the a-th op (a load) and renumber the calls after it."""
    call = sum(1 for op in q["ops"][:a] if op[0] == "load")
    q["ops"].pop(a)
    for key in ("faults", "events"):
        out = []
        for e in q.get(key) or []:
            if e["call"] == call:
                continue
            e = dict(e)
            if e["call"] > call:
                e["call"] -= 1
            out.append(e)
        if key in q:
            q[key] = out


def at(q, path):
    for k in path:
        q = q[k]
    return q


def doc_steps(d, path):
    if isinstance(d, dict):
        for k in list(d):
            v = d[k]
            if k in DOC_LISTS and isinstance(v, list) and v:
                n = len(v)
                step = n
                while step:
                    for a in range(0, n, step):
                        yield lambda q, k=k, a=a, s=step: at(q, path)[k].__delitem__(slice(a, a + s))
                    step //= 2
                if k == "properties":
                    yield lambda q, k=k: at(q, path).update({k: None})
            elif k == "over" and v:
                for kk in list(v):
                    yield lambda q, kk=kk: at(q, path)["over"].pop(kk, None)
            elif k in OPT_KEYS and k in d:
                yield lambda q, k=k: at(q, path).pop(k, None)
            elif k == "objects" and isinstance(v, dict):
                yield lambda q: at(q, path).pop("objects", None)
            elif k == "tiles" and d.get("name") is not None and not isinstance(v, list):
                pass
            if isinstance(v, (dict, list)):
                yield from doc_steps(v, path + [k])
        if "enc" in d and "raw" not in d and not any("raw" in c for c in d.get("chunks") or []) and d["enc"] != "csv":
            yield lambda q: at(q, path).update(enc="csv")
    elif isinstance(d, list):
        if d and isinstance(d[0], (int, float, str)):
            return
        for i, x in enumerate(d):
            if isinstance(x, (dict, list)):
                yield from doc_steps(x, path + [i])


def minimise(prop, plan, cls, max_runs=1500, max_s=90, log=None):
    """Smaller plan with a violation of class cls; returns (plan, detail, runs)."""
    t0 = time.monotonic()
    runs = [0]
    detail = [None]

    def fails(q):
        runs[0] += 1
        res = R.run_plan(prop, q)
        for v in res["violations"]:
            if v["class"] == cls:
                detail[0] = v["detail"]
                return res
        return None

    cur = plan
    res = fails(cur)
    if res is None:
        return plan, None, runs[0]
    # explicit faults instead of rates, explicit switches instead of a PRNG
    if cur.get("rate") and res.get("fired") is not None:
        q = json.loads(json.dumps(cur))
        q["faults"] = res["fired"]
        q.pop("rate")
        if fails(q):
            cur = q
    if cur.get("sched") and not cur.get("switches") and res.get("switches") is not None:
        q = json.loads(json.dumps(cur))
        q["switches"] = res["switches"]
        if fails(q):
            cur = q
    again = True
    while again and runs[0] < max_runs and time.monotonic() - t0 < max_s:
        again = False
        done = set()
        progress = True
        while progress:
            progress = False
            for idx, step in enumerate(candidates(cur)):
                if runs[0] >= max_runs or time.monotonic() - t0 >= max_s:
                    break
                if idx in done:
                    continue
                q = copy.deepcopy(cur)
                try:
                    step(q)
                except (KeyError, IndexError, TypeError):
                    done.add(idx)
                    continue
                if json.dumps(q) == json.dumps(cur):
                    done.add(idx)
                    continue
                if fails(q):
                    cur = q
                    again = progress = True
                    done = {i for i in done if i < idx}
                    break
                done.add(idx)
    fails(cur)
    return cur, detail[0], runs[0]
