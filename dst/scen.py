"""Per property: how a run is generated from its seed (gen_*) and how it is
executed and judged (run_*).

A generator returns a plan: a JSON-able dict that completely determines the run.
Some generators need to know how many storage operations / steps a load takes;
they call probe(plan), which executes the plan fault-free in a throw-away process.
"""
import copy
import decimal
import gc
import locale
import os
import posixpath as pp
import random
import sys
import time
import unicodedata
import warnings

import canon as C
import sim as S
import zstdstub
from env import Env, damage, doc_refs, process_state, state_diff
from fs import ROOT
from gen import ASCII_WORDS, G, UNI_WORDS, span, walk_layers

BASE = ROOT + "/proj"
EXT = {("map", "tmx"): [".tmx"], ("map", "json"): [".json", ".tmj"],
       ("tileset", "tmx"): [".tsx"], ("tileset", "json"): [".json", ".tsj"],
       ("template", "tmx"): [".tx"], ("template", "json"): [".json", ".tj"],
       ("world", "json"): [".world"]}
DIRS = ["", "maps", "tiles", "tpl", "maps/sub", "a b", "dàta", "maps/地図"]
ODD_DIRS = ["$HOME", "~", "${USER}x", "%TMP%", "a#b", "x%20y", "e\u0301", "\u00e9", "[1]", "a;b&c", "-x", "c:",
            "maps.tmx", ".hidden", "~root", "MAPS", "a\\b", " ", "x ", "...", "{0}", "%s", "C:", "file:"]
ODD_STEMS = ["$HOME", "~", "~root", "lvl${USER}", "$TMPDIR.", "%HOME%", "a&b", "q?", "x%20y", "#1", "e\u0301", "\u00e9",
             "a.b", ".dot", "[ab]", "it's", "-", "M", "m.tmx", "x.json", "\\", "a\\b", "\\\\srv\\a", " ", "  m", "a\u00a0", "\u2028",
             "..", "...", "%", "%s", "{0}", "{", "a\tb", "'", "\"", "<", ",", "!", "http:", "file:", "C:"]


class Proj:
    def __init__(self, rng, cfg=None):
        self.r = rng
        self.c = dict(nmaps=(1, 2), nts=(0, 3), ntpl=(0, 2), p_tplts=0.6, p_tplnew=0.5,
                      fmt=None, gen={}, flat=False, odd=0.04)
        self.c.update(cfg or {})
        self.g = G(rng, self.c["gen"])
        self.files = {}
        self.n = 0

    def path(self, kind, fmt):
        r = self.r
        self.n += 1
        d = "" if self.c["flat"] else r.choice(DIRS)
        stem = r.choice(["m", "level", "ts", "Tiles", "x y", "карта" if r.random() < 0.3 else "f"]) + str(self.n)
        if r.random() < self.c["odd"]:
            d = pp.join(d, r.choice(ODD_DIRS))
        if r.random() < self.c["odd"]:
            stem = r.choice(ODD_STEMS) + str(self.n)
        ext = r.choice(EXT[(kind, fmt)])
        if r.random() < self.c["odd"]:
            ext = r.choice(["", " ", ext + " ", ".", "..", ext + "\\", ".xml", ".txt", ".TMX", ".JSON", ".tmx", ".json", ".tsx", ".tj", ".bak", "."])
        return pp.join(BASE, d, stem + ext)

    def style(self):
        return self.r.randrange(1 << 30)

    def add(self, kind, fmt, doc):
        p = self.path(kind, fmt)
        fid = "%s%d" % (kind, self.n)
        self.files[fid] = {"path": p, "kind": kind,
                           "versions": [{"fmt": fmt, "doc": doc, "style": self.style()}]}
        return fid

    def fmt(self):
        return self.c["fmt"] or self.r.choice(["tmx", "json"])

    def tileset(self, fmt=None):
        return self.add("tileset", fmt or self.fmt(), self.g.tileset())

    def build(self):
        r, c = self.r, self.c
        self.tilesets = [self.tileset() for _ in range(r.randint(*c["nts"]))]
        self.templates = {"tmx": [], "json": []}
        for _ in range(r.randint(*c["ntpl"])):
            self.template(self.fmt())
        self.maps = []
        for _ in range(r.randint(*c["nmaps"])):
            self.maps.append(self.map(self.fmt()))
        return self

    def template(self, fmt):
        r = self.r
        ts = None
        n = 1
        if r.random() < self.c["p_tplts"]:
            if self.tilesets and r.random() >= self.c["p_tplnew"]:
                ts = r.choice(self.tilesets)
            else:
                ts = self.tileset()
            n = self.doc(ts)["tilecount"]
        f = self.add("template", fmt, self.g.template(ts, n))
        self.g.tpl_shape[f] = self.doc(f)["object"]["shape"]
        self.templates[fmt].append(f)
        return f

    def doc(self, fid, v=0):
        return self.files[fid]["versions"][v]["doc"]

    def map_doc(self, fmt, tilesets=None):
        r = self.r
        if tilesets is None:
            k = r.randint(0, len(self.tilesets))
            tilesets = r.sample(self.tilesets, k)
        ext = [(f, span(self.doc(f))) for f in tilesets]
        return self.g.map(ext, self.templates[fmt])

    def map(self, fmt, tilesets=None):
        return self.add("map", fmt, self.map_doc(fmt, tilesets))

    def world(self, names=None):
        w = {"kind": "world", "maps": [], "patterns": [], "only": self.r.choice([None, True, False])}
        for m in self.r.sample(self.maps, self.r.randint(0, len(self.maps))):
            w["maps"].append(dict(fid=m))
        for m in w["maps"]:
            fid = m.pop("fid")
            m["fileName"] = self.files[fid]["path"]
        fid = self.add("world", "json", w)
        d = pp.dirname(self.files[fid]["path"])
        for m in w["maps"]:
            m["fileName"] = pp.relpath(m["fileName"], d)
            m.update(geometry(self.r))
        for _ in range(self.r.choice([0, 0, 1])):
            w["patterns"].append(pattern(self.r)[0])
        return fid

    def plan(self):
        return {"files": self.files, "cwd": ROOT, "dirs": [], "links": [], "specials": [],
                "extra": [], "noperm": [], "io": {}, "faults": [], "events": [],
                "sseed": self.r.randrange(1 << 30), "ops": []}


def geometry(r):
    return {"x": r.randint(-4000, 4000), "y": r.choice([0, r.randint(-999, 999), 12.5]),
            "width": r.choice([0, r.randint(1, 4096), r.randint(1, 4096), 640.5]),
            "height": r.choice([0, r.randint(1, 4096), r.randint(1, 4096)])}


PATTERNS = [
    (r"map_(\d+)_(\d+)\.tmx", lambda a, b: "map_%d_%d.tmx" % (a, b), False),
    (r"world-p(-?\d+)-n(-?\d+)-o0000\.tmx", lambda a, b: "world-p%d-n%d-o0000.tmx" % (a, b), True),
    (r"level(\d+)x(\d+)\.(?:json|tmj)", lambda a, b: "level%dx%d.%s" % (a, b, "json" if (a + b) % 2 else "tmj"), False),
    (r"^(\d+)-(\d+) größe\.tmx$", lambda a, b: "%d-%d größe.tmx" % (a, b), False),
    (r"[a-z]+(-?\d+),(-?\d+)\.tmx", lambda a, b: "ow%d,%d.tmx" % (a, b), True),
    (r"(\d+)_(\d+)", lambda a, b: "%d_%d.json" % (a, b), False),
    (r"(?i)MAP(?P<x>\d+)[-_](?P<y>\d+)\.TMX", lambda a, b: ("Map%d-%d.tmx" if a % 2 else "mAP%03d_%d.TMX") % (a, b),
     False),
    (r"z(\d+\.\d+)x(\d+\.?\d*)\.tmx", lambda a, b: "z%d.5x%d.tmx" % (a, b), False),
    (r"r(\d+)c(\d+)(?:_v(\d+))?\.json", lambda a, b: "r%03dc%d%s.json" % (a, b, "_v2" if b % 2 else ""), False),
    (r"0*(\d+) 0*(\d+)\.(tmx|tmj)$", lambda a, b: "%05d %03d.%s" % (a, b, "tmj" if a % 3 == 0 else "tmx"), False),
    ("cafe\u0301(\\d+)_(\\d+)", lambda a, b: "cafe\u0301%d_%d.tmx" % (a, b), False),
    (r"(?:map)?\D*?(\d+)_(\d+)", lambda a, b: ("%d_%d.tmx" if a % 2 else "map%d_%d.tmj") % (a, b), False),
    (r"(?s).*?(-?\d+)\W(-?\d+)", lambda a, b: "b (%d,%d).tmx" % (a, b), True),
    (r"(\d+)_(\d+)\.json$|(?!)", lambda a, b: "%d_%d.json" % (a, b), False),
]


def pattern(r):
    rx, mk, neg = r.choice(PATTERNS)
    p = {"regexp": rx, "multiplierX": r.choice([1, 16, 640, 512, 0.5]),
         "multiplierY": r.choice([1, 16, 480, 512, -32])}
    if r.random() < 0.5:
        p["offsetX"] = r.randint(-100, 100)
    if r.random() < 0.5:
        p["offsetY"] = r.choice([0, r.randint(-100, 100), 0.5])
    return p, mk, neg


def random_io(r):
    io = {}
    k = r.random()
    if k < 0.2:
        pass
    elif k < 0.4:
        io["chunk"] = ["fixed", r.choice([1, 2, 3, 7, 64, 511, 4096])]
    elif k < 0.7:
        io["chunk"] = ["rand", r.choice([3, 17, 200, 3000])]
    else:
        io["chunk"] = ["mix", r.choice([2, 30, 500])]
    if r.random() < 0.4:
        io["eintr"] = r.choice([0.02, 0.1, 0.3])
    if r.random() < 0.5:
        io["lat"] = r.choice([0.001, 0.05, 3.0])
    if r.random() < 0.5:
        io["bufsize"] = r.choice([1, 2, 16, 100, 512, 4096, 65536, 1 << 20])
    return io


ENCODINGS = ["utf-8", "cp1252", "ascii", "latin-1", "cp932", "gbk", "cp1251", "koi8-r",
             "cp437", "utf-16", "iso8859-15", "big5"]


def env_mix(r, plan, hostile=False):
    if hostile or r.random() < 0.2:
        plan["list_seed"] = r.choice([0, 1, r.randrange(2, 1 << 20)])
    plan["clock0"] = r.choice([1.7e9, 0.0, 4e9, 1.2e9])
    return plan


def given_path(r, plan, fid, absolute=None):
    p = plan["files"][fid]["path"]
    if absolute or (absolute is None and r.random() < 0.5):
        return p
    rel = pp.relpath(p, plan["cwd"])
    if r.random() < 0.2:
        rel = "./" + rel
    return rel


def inhabit(r, p, plan, w, chance=0.7):
    """Give the world patterns, and its directory names which they match."""
    if r.random() > chance:
        return w
    d = pp.dirname(p.files[w]["path"])
    used = {f["path"] for f in p.files.values()}
    doc = p.doc(w)
    doc["patterns"] = []
    for _ in range(r.choice([1, 1, 2])):
        pt, mk, _ = pattern(r)
        doc["patterns"].append(pt)
        for i in range(r.choice([0, 1, 3])):
            path = pp.join(d, mk(r.randint(0, 12), i))
            if path not in used:
                used.add(path)
                plan["extra"].append([path, "x"])
    return w


def loadable(p):
    return [f for f, x in p.files.items() if x["kind"] in ("map", "tileset")]


def rng_cfg(r):
    """swarm: which features this run uses"""
    g = {"p_uni": r.choice([0, 0.2, 0.6]), "p_opt": r.choice([0.1, 0.35, 0.7]),
         "p_props": r.choice([0, 0.3, 0.8]), "max_layers": r.choice([1, 3, 5]),
         "max_objs": r.choice([1, 4, 6]), "max_depth": r.choice([0, 1, 3]),
         "max_tiles": r.choice([1, 4]), "p_wang": r.choice([0, 0.4])}
    return g


def small_cfg(r):
    return {"p_uni": 0.2, "p_opt": 0.25, "p_props": 0.25, "max_layers": 2, "max_objs": 2,
            "max_depth": 1, "max_tiles": 2, "p_wang": 0.15, "dim": 3}


def stale_doc(r, doc):
    """A document of the same kind which loads as something else."""
    import copy
    d = copy.deepcopy(doc)
    if d["kind"] == "tileset":
        d["columns"] = d["columns"] + 31
        d["spacing"] = d["spacing"] + 5
    elif d["kind"] == "map":
        d["nextobjectid"] += 1000
    elif d["kind"] == "template":
        d["object"]["name"] = "STALE"
    else:
        d["maps"] = d["maps"][:-1]
    return d


LEFTOVERS = ["{0}~", "{0}.bak", "{0}.tmp", "{0}.orig", "{0}.old", "{0}.1", ".{0}.swp", "#{0}#", ".#{0}", "{0}.cache",
             "{0}.lock", "{0}.gz", "~{0}", "{1}.tmx", "{1}.tsx", "{1}.tx", "{1}.json", "{1}.tmj", "{1}.tsj", "{1}.tj",
             "{1}.xml", "backup/{0}", "{0}.part", "{0}.new", "{0}.autosave", "{2}", "{3}", "{1}.bak", "{1}.bak{4}"]


def leftovers(r, plan, need):
    """What editors, backup tools and synchronisers leave beside a file."""
    used = occupied(plan)
    for fid in need:
        path = plan["files"][fid]["path"]
        d, b = pp.split(path)
        stem, ext = pp.splitext(b)
        for pat in LEFTOVERS:
            if r.random() < 0.6:
                p = pp.join(d, pat.format(b, stem, b.lower(), b.upper(), ext))
                put_decoy(r, plan, used, p, fid)


def occupied(plan):
    out = set(plan["dirs"]) | {plan["cwd"]}
    for f in plan["files"].values():
        out |= {f["path"], f.get("store", f["path"])}
    for k in ("extra", "links", "specials", "decoys"):
        out |= {x[0] for x in plan.get(k, [])}
    return out


def put_decoy(r, plan, used, path, fid):
    if path in used or not path.startswith(ROOT + "/") or len(pp.basename(path).encode("utf-8", "replace")) > 255:
        return False
    if any(u.startswith(path + "/") for u in used) or any(
            path.startswith(u + "/") for u in used if u not in plan["dirs"] and u != plan["cwd"]):
        return False
    used.add(path)
    plan.setdefault("decoys", []).append([path, fid, stale_doc(r, plan["files"][fid]["versions"][0]["doc"])])
    return True


def curious(r, plan, probe, need, victims=None):
    """Whatever name the load asks for in vain exists, and holds another
    document: what a file beside the document says must not matter."""
    used = occupied(plan)
    for _ in range(2):
        res = probe(dict(plan, ask=True))
        more = False
        for path in (res.get("absent") or [])[:40]:
            near = [f for f in victims or need
                    if pp.splitext(pp.basename(plan["files"][f]["path"]))[0][:3].lower() in path.lower()]
            more |= put_decoy(r, plan, used, path, r.choice(near or victims or need))
        if not more:
            break


def file_links(r, plan, fids, p=0.5):
    """The files lie elsewhere; what has their name is a symbolic link."""
    for i, fid in enumerate(fids):
        f = plan["files"][fid]
        if r.random() < p and "store" not in f and f.get("start", 0) is not None:
            f["store"] = r.choice([ROOT + "/store/%d/" % i + pp.basename(f["path"]), ROOT + "/store/blob%d" % i,
                                   pp.join(pp.dirname(f["path"]), "real%d" % i)])


def swappable(plan, need, cwds):
    """Directories that can become links without moving a working directory."""
    out = set()
    for f in need:
        for q in (plan["files"][f]["path"], plan["files"][f].get("store")):
            while q and pp.dirname(q) not in (ROOT, "/"):
                q = pp.dirname(q)
                out.add(q)
    return sorted(d for d in out if not any((c + "/").startswith(d + "/") for c in cwds))


# ===========================================================================
# C01
def gen_C01(r, probe):
    g = rng_cfg(r)
    if r.random() < 0.03:
        g["huge"] = 0.5
    if r.random() < 0.05:
        g["big"], g["huge"] = 0.15, g.get("huge", 0.0)
    if r.random() < 0.08:
        g["many"] = 1.0
    c = {"gen": g, "odd": r.choice([0, 0, 0.2])}
    if r.random() < 0.06:
        c.update(templates_heavy(r, g))
    zstd = r.random() < 0.03
    if zstd:
        g["codecs"] = ["zstd", "zstd", "zlib", "b64"]
    p = Proj(r, c).build()
    plan = p.plan()
    if zstd:
        plan["zstd"] = True
    ids = list(p.maps) * 3 + loadable(p)
    if r.random() < 0.15 and p.maps:
        ids = [inhabit(r, p, plan, p.world())]
    plan["cwd"] = r.choice([ROOT, BASE, BASE + "/maps", ROOT + "/elsewhere"])
    plan["io"] = random_io(r)
    if ("huge" in g or "many" in g) and "chunk" in plan["io"]:
        plan["io"]["chunk"][1] = max(64, plan["io"]["chunk"][1])
    if "huge" in g and "bufsize" in plan["io"]:
        plan["io"]["bufsize"] = max(100, plan["io"]["bufsize"])
    for fid in [r.choice(ids) for _ in range(r.choice([1, 1, 2]))]:
        plan["ops"].append(["load", fid, given_path(r, plan, fid)])
    need = sorted({x for o in plan["ops"] for x in needed_static(p, o[1])})
    if r.random() < 0.08:
        file_links(r, plan, need)
    if r.random() < 0.05:
        leftovers(r, plan, need)
    elif r.random() < 0.06:
        curious(r, plan, probe, need)
    return plan


def templates_heavy(r, g):
    """Several templates with tilesets of their own, used in many places of the map."""
    g.update(p_inst=0.85, max_depth=2, max_layers=5, max_objs=max(2, g["max_objs"]), max_tiles=1)
    return {"ntpl": (3, 5), "p_tplts": 0.9, "p_tplnew": r.choice([0.5, 0.9]), "nmaps": (1, 1),
            "fmt": r.choice(["tmx", "json"])}


def run_C01(env, plan):
    for _, fid, given in plan["ops"]:
        o = env.load(fid, given)
        judge_exact(env, o, fid, given, "C01")


def judge_exact(env, o, fid, given, tag, cls_err="spurious-error"):
    if o.raised:
        env.fail("not-terminating" if isinstance(o.exc, S.SimBudget) else cls_err,
                 "load of %s raised %r" % (given, o.exc))
        return False
    d = env.diff(fid, given, o.canon)
    if d:
        env.fail("wrong-document", "%s%s" % (given, d))
        return False
    return True


# ===========================================================================
# C02
ERRS = ["open:EACCES", "open:EIO", "open:ENOENT", "open:EMFILE", "open:ENFILE", "open:ENOMEM",
        "open:ENOTDIR", "open:ENAMETOOLONG", "open:EBUSY", "open:EISDIR", "open:EOVERFLOW",
        "open:ESTALE", "open:EPERM", "open:ETIMEDOUT", "open:ELOOP", "open:EINTR", "open:EAGAIN",
        "read:EIO", "read:ESTALE", "read:ETIMEDOUT", "read:EISDIR", "read:ENOMEM", "read:EBADF",
        "read:ENXIO", "list:EIO", "list:EACCES", "list:EMFILE", "list:ESTALE", "list:ENOENT"]


def fault_for(r, kind):
    return r.choice([e for e in ERRS + ["stat:EIO", "stat:EACCES"] if e.startswith(kind + ":")])


def pick_io_points(r, log, n, kinds=("open", "read", "list")):
    pts = [(i + 1, k) for i, (k, _) in enumerate(log) if k in kinds]
    return sorted(r.sample(pts, min(n, len(pts))))


def gen_C02(r, probe):
    p = Proj(r, {"gen": small_cfg(r), "nts": (0, 3), "ntpl": (0, 3)}).build()
    plan = p.plan()
    if r.random() < 0.2:
        fid = p.world()
        for i in range(r.randint(1, 3)):
            plan["extra"].append([pp.join(pp.dirname(p.files[fid]["path"]), "map_%d_%d.tmx" % (i, i)), "x"])
        if r.random() < 0.4:
            p.doc(fid)["patterns"] = [pattern(r)[0]]
        else:
            inhabit(r, p, plan, fid)
    else:
        fid = r.choice(list(p.maps) * 4 + loadable(p))
    plan["cwd"] = r.choice([ROOT, BASE])
    if r.random() < 0.7:
        plan["io"] = random_io(r)
        if plan["io"].get("chunk", [0, 0])[1] < 60 and "chunk" in plan["io"]:
            plan["io"]["chunk"][1] = r.choice([200, 700])
    given = given_path(r, plan, fid)
    plan["ops"] = [["load", fid, given]]
    log = probe(plan)["logs"][0]
    mode = r.random()
    if mode < 0.12:
        # every point in turn, one load each
        pts = pick_io_points(r, log, 25)
        plan["ops"] = [["load", fid, given] for _ in pts]
        plan["faults"] = [{"call": i, "at": at, "kind": fault_for(r, kind)} for i, (at, kind) in enumerate(pts)]
        return plan
    if mode < 0.6:
        n = 1
    elif mode < 0.8:
        n = 2
    else:
        n = 0
    for at, kind in pick_io_points(r, log, n):
        plan["faults"].append({"call": 0, "at": at, "kind": fault_for(r, kind)})
    if n == 1 and plan["faults"] and r.random() < 0.4:
        # the condition persists: the retry of the same operation fails too
        f = plan["faults"][0]
        for k in range(1, 12):
            plan["faults"].append({"call": 0, "at": f["at"] + k, "kind": f["kind"]})
    if n == 0:
        plan["rate"] = {"p": r.choice([0.05, 0.2, 0.5]), "kinds": r.sample(ERRS, 8), "calls": [0]}
        if r.random() < 0.4:
            plan["rate"] = sick_file(r, plan, r.choice(needed_static(p, fid)), [0])
    if r.random() < 0.3:
        plan["ops"].append(["load", fid, given])
    k = r.random()
    if k < 0.15:
        plan["noperm"] = [plan["files"][r.choice(list(plan["files"]))]["path"]]
    elif k < 0.3:
        broken(r, plan, r.choice(needed_static(p, fid)))
    elif k < 0.4:
        # a file vanishes while the load runs
        if r.random() < 0.7:
            plan["faults"], plan["rate"] = [], {}
        plan["events"].append({"call": r.randrange(sum(1 for o in plan["ops"] if o[0] == "load")), "unit": "op",
                               "at": r.randint(1, len(log) + 1), "do": ["delete", r.choice(needed_static(p, fid))]})
    beside(r, plan, probe, needed_static(p, fid))
    return plan


def beside(r, plan, probe, need, p=0.12):
    """Files beside those the load needs which a fallback might turn to."""
    k = r.random()
    gone = [f for f in need if plan["files"][f].get("start", 0) is None or
            plan["files"][f]["path"] in plan["noperm"]]
    if gone and k < 3 * p or k < p:
        if r.random() < 0.5:
            leftovers(r, plan, need)
        else:
            curious(r, plan, probe, need, gone)


def sick_file(r, plan, victim, calls):
    """One file which cannot be opened or read, for one reason."""
    return {"p": 1.0, "kinds": [r.choice([e for e in ERRS if e.startswith(("open:", "open:", "read:"))])],
            "calls": calls, "name": pp.basename(plan["files"][victim]["path"])}


def broken(r, plan, victim):
    """Something at the file's place which cannot be opened."""
    f = plan["files"][victim]
    f["start"] = None
    k = r.choice(["missing", "missing", "dir", "dangling", "loop"])
    if k == "dir":
        plan["specials"].append([f["path"], "d"])
    elif k == "dangling":
        plan["links"].append([f["path"], "nowhere/" + pp.basename(f["path"])])
    elif k == "loop":
        plan["links"].append([f["path"], pp.basename(f["path"])])


def run_C02(env, plan):
    for _, fid, given in plan["ops"]:
        before = dict(env.cur)
        need = env.needed(fid)
        no = any(env.cur[f] is None or env.files[f]["path"] in plan.get("noperm", []) for f in need)
        o = env.load(fid, given)
        gone = [f for f in need if env.cur[f] is None and before[f] is not None]
        if gone:
            # vanished meanwhile: complete, or an error that tells
            now, env.cur = env.cur, before
            if not o.raised:
                judge_fault(env, o, fid, given, no)
            elif isinstance(o.exc, S.SimBudget):
                env.fail("not-terminating", repr(o.exc))
            elif not any(isinstance(e, OSError) for e in env.chain(o.exc)):
                env.fail("fault-not-in-chain", "%s deleted, load raised %r with chain %r" % (
                    gone, o.exc, env.chain(o.exc)))
            env.cur = now
            continue
        judge_fault(env, o, fid, given, no)


def judge_fault(env, o, fid, given, perm=False):
    """perm: a file the load needs cannot be opened at all."""
    inj = o.ctx.injected
    if not o.raised:
        d = env.diff(fid, given, o.canon) if not perm else "unreadable"
        if perm:
            env.fail("fault-swallowed", "%s loaded although a file it needs cannot be opened" % given)
        elif d and inj:
            env.fail("fault-swallowed", "%s%s although %r failed" % (given, d, inj))
        elif d:
            env.fail("wrong-document", given + d)
        return
    if isinstance(o.exc, S.SimBudget):
        env.fail("not-terminating", repr(o.exc))
        return
    if perm and not inj:
        if not any(isinstance(e, OSError) for e in env.chain(o.exc)):
            env.fail("fault-not-in-chain", "a needed file cannot be opened, load raised %r with chain %r" % (
                o.exc, env.chain(o.exc)))
    elif inj:
        if not isinstance(o.exc, Exception):
            env.fail("fault-not-reported", "raised %r" % (o.exc,))
        elif not env.carries(o.exc, inj) and not (perm and any(isinstance(e, OSError) for e in env.chain(o.exc))):
            env.fail("fault-not-in-chain", "%r injected, load raised %r with chain %r" % (
                inj, o.exc, env.chain(o.exc)))
    else:
        env.fail("spurious-error", "no fault fired, load raised %r" % (o.exc,))


# ===========================================================================
# C03
def gen_C03(r, probe):
    p = Proj(r, {"gen": small_cfg(r) if r.random() < 0.8 else rng_cfg(r), "nts": (0, 2), "ntpl": (0, 2)}).build()
    plan = p.plan()
    fid = p.world() if r.random() < 0.08 and p.maps else r.choice(list(p.maps) * 3 + loadable(p))
    plan["cwd"] = r.choice([ROOT, BASE])
    plan["io"] = random_io(r) if r.random() < 0.3 else {}
    need = needed_static(p, fid)
    victim = fid if r.random() < 0.5 else r.choice(need)
    tpls = [f for f in need if p.files[f]["kind"] == "template"]
    if tpls and r.random() < 0.4:
        victim = r.choice(tpls)
    f = plan["files"][victim]
    good = f["versions"][0]
    for _ in range(r.choice([1, 1, 1, 4, 10])):
        f["versions"].append(dict(good, damage=torn(r)))
    given = given_path(r, plan, fid)
    # the old version loads, the save crashes, loads, the editor saves again
    plan["ops"] = []
    if r.random() < 0.2:
        plan["ops"].append(["load", fid, given])
    for i in range(1, len(f["versions"])):
        plan["ops"] += [["save", victim, i, r.choice(["replace", "inplace", "frozen"])], ["load", fid, given]]
        if i > 1 and r.random() < 0.2:
            plan["ops"] += [["save", victim, 0, "replace"], ["load", fid, given]]
    if r.random() < 0.5:
        plan["ops"] += [["save", victim, 0, "replace"], ["load", fid, given]]
    plan["victim"] = victim
    beside(r, plan, probe, need)
    return plan


def torn(r):
    """What a crash during a save leaves."""
    k = r.random()
    if k < 0.2:
        # where a writer's pieces end
        dm = ["after", r.choice('}}]]>>",\n1'), r.random()]
    elif k < 0.62:
        dm = ["cut", r.random()]
        if r.random() < 0.35:
            dm = ["cut", r.choice([1, 2, 3, 5, 38, 39, 40, 41, 60, 512, 4096])]
        elif r.random() < 0.3:
            dm = ["cut", -r.randint(1, 12)]
    elif k < 0.7:
        dm = ["empty"]
    elif k < 0.85:
        dm = ["nul", r.random(), r.choice([1, 8, 64, 512, 4096])]
        if r.random() < 0.3:
            dm = ["nul", 512 * r.randint(0, 4), 512]
    elif k < 0.97:
        dm = ["nultail", r.random()]
    else:
        dm = ["nulall"]
    return dm


def needed_static(p, fid):
    out = []

    def rec(f):
        if f not in out:
            out.append(f)
            for x in doc_refs(p.doc(f)):
                rec(x)
    rec(fid)
    return out


def run_C03(env, plan):
    from pytiled_parser import UnknownFormat
    for op in plan["ops"]:
        if op[0] == "save":
            env.save(op[1], op[2], op[3])
            continue
        _, fid, given = op
        torn = [f for f in env.needed(fid) if env.ver(f).get("damage")]
        o = env.load(fid, given)
        if not torn:
            judge_exact(env, o, fid, given, "C03")
            continue
        v = torn[0]
        f = env.files[v]
        ver = f["versions"][env.cur[v]]
        data, full = env.raw(v, env.cur[v]), env.raw(v, 0)
        if o.raised:
            if not isinstance(o.exc, Exception):
                env.fail("not-terminating" if isinstance(o.exc, S.SimBudget) else "odd-exception",
                         repr(o.exc))
            elif v == fid and f["kind"] in ("map", "tileset") and data != full:
                whole = data.rstrip(b"\0") if False else data
                if (not whole or ver["fmt"] == "json") and not same_json(data, full) \
                        and not isinstance(o.exc, UnknownFormat):
                    env.fail("not-unknown-format", "torn %s (%d of %d bytes, %r) raised %r" % (
                        given, len(data), len(full), ver["damage"], o.exc))
            continue
        # a returned document must be exact: compare with the undamaged version
        save = env.cur[v]
        env.cur[v] = 0
        d = env.diff(fid, given, o.canon)
        env.cur[v] = save
        if d:
            env.fail("torn-file-loaded", "%s torn (%r, %d of %d bytes): %s%s" % (
                f["path"], ver["damage"], len(data), len(full), given, d))


def same_json(a, b):
    return a.strip() == b.strip()


# ===========================================================================
# C04
def gen_C04(r, probe):
    g = small_cfg(r)
    g["codecs"] = ["zlib", "gzip"]
    g["dim"] = r.choice([3, 6, 12])
    g["huge"] = 0.03
    p = Proj(r, {"gen": g, "nts": (0, 1), "ntpl": (0, 0), "nmaps": (1, 1)}).build()
    fid = p.maps[0]
    doc = p.doc(fid)
    infinite = doc["infinite"]
    L = p.g.tile_layer(infinite)
    while infinite and not L["chunks"]:
        L = p.g.tile_layer(infinite)
    if r.random() < 0.4 and p.g.c["groups"]:
        grp = p.g.layer_common("group")
        grp["layers"] = [L]
        doc["layers"].append(grp)
    else:
        doc["layers"].append(L)
    zstd = False
    if r.random() < 0.2:
        L["enc"] = r.choice(["zstd", "zstd", "lzma", "brotli"])
    elif r.random() < 0.08:
        L["enc"], zstd = "zstd", True
    plan = p.plan()
    if zstd:
        plan["zstd"] = True
    holder = L
    data, w = (L.get("data"), L["width"])
    if infinite:
        holder = r.choice(L["chunks"])
        data = holder["data"]
    import base64
    import gzip
    import struct
    import zlib
    raw = b"".join(struct.pack("<I", x) for x in data)
    if L["enc"] == "zlib":
        pay = zlib.compress(raw, r.choice([0, 1, 6, 9]))
    elif L["enc"] == "gzip":
        pay = gzip.compress(raw, r.choice([0, 1, 6, 9]), mtime=r.choice([0, 5]))
    elif zstd:
        pay = zstdstub.compress(raw)
    else:
        pay = r.choice([raw, b"\x28\xb5\x2f\xfd" + raw, bytes(r.randrange(256) for _ in range(len(raw)))])
        plan["must_raise"] = True
    b64 = base64.b64encode(pay).decode()
    orig = b64
    holder["raw"] = b64
    holder["orig"] = orig
    if infinite:
        for c in L["chunks"]:
            if c is not holder and plan.get("must_raise"):
                c["raw"] = orig
    given = given_path(r, plan, fid)
    plan["ops"] = [["load", fid, given]]
    plan["payload_damage"] = ["other"]
    if not plan.get("must_raise"):
        plan["payload_damage"] = []
        vs = p.files[fid]["versions"]
        v0 = vs.pop()
        for i in range(r.choice([1, 1, 1, 3, 8])):
            k, holder["raw"] = damage_payload(r, pay, orig)
            plan["payload_damage"].append(k)
            vs.append(copy.deepcopy(v0))
            if i:
                plan["ops"] += [["save", fid, i, "replace"], ["load", fid, given]]
    plan["io"] = random_io(r) if r.random() < 0.2 else {}
    return plan


def damage_payload(r, pay, b64):
    """(what was done, the base64 text that is left)"""
    import base64
    k = r.choice(["flip", "flip", "byte", "trunc", "trunc", "drop", "zero", "zerotail", "swap", "empty",
                  "b64cut", "b64drop", "b64char", "dup", "tail", "head", "trailer", "none"])
    b = bytearray(pay)
    n = len(b)
    if k == "none":
        return k, b64
    if k == "flip":
        for _ in range(r.choice([1, 1, 2, 5])):
            b[r.randrange(n)] ^= 1 << r.randrange(8)
    elif k == "byte":
        b[r.randrange(n)] = r.randrange(256)
    elif k == "trunc":
        b = b[:r.randrange(n)] if r.random() < 0.6 else b[:n - r.randint(1, min(9, n))]
    elif k == "drop":
        a = r.randrange(n)
        del b[a:a + r.choice([1, 2, 4, 16])]
    elif k == "zero":
        a = r.randrange(n)
        for i in range(a, min(n, a + r.choice([1, 4, 16, 64]))):
            b[i] = 0
    elif k == "zerotail":
        a = r.randrange(n)
        for i in range(a, n):
            b[i] = 0
    elif k == "swap":
        a, c = r.randrange(n), r.randrange(n)
        b[a], b[c] = b[c], b[a]
    elif k == "empty":
        return k, ""
    elif k == "dup":
        a = r.randrange(n)
        b = b[:a] + b[max(0, a - 4):]
    elif k == "tail":
        b += bytes(r.randrange(256) for _ in range(r.choice([1, 4, 20])))
    elif k == "head":
        b = b[r.choice([1, 2, 10]):]
    elif k == "trailer":
        t = r.randint(1, min(8, n))
        b[n - t] ^= 1 + r.randrange(255)
    elif k == "b64cut":
        return k, b64[:r.randrange(len(b64))]
    elif k == "b64drop":
        a = r.randrange(len(b64))
        return k, b64[:a] + b64[a + r.choice([1, 2, 3, 4, 8]):]
    elif k == "b64char":
        a = r.randrange(len(b64))
        return k, b64[:a] + r.choice("AQgwZz09+/ -_*") + b64[a + 1:]
    return k, base64.b64encode(bytes(b)).decode()


def run_C04(env, plan):
    for op in plan["ops"]:
        if op[0] == "save":
            env.save(op[1], op[2], op[3])
            continue
        _, fid, given = op
        dmg = plan["payload_damage"][env.cur[fid]]
        o = env.load(fid, given)
        if o.raised:
            if not isinstance(o.exc, Exception):
                env.fail("not-terminating", repr(o.exc))
            elif dmg == "none":
                env.fail("spurious-error", "undamaged payload raised %r" % (o.exc,))
            continue
        if plan.get("must_raise"):
            env.fail("undecoded-bytes", "a payload whose decompressor is not available was loaded")
            continue
        d = env.diff(fid, given, o.canon)
        if d:
            env.fail("wrong-tiles" if dmg != "none" else "wrong-document",
                     "payload damage %s: %s%s" % (dmg, given, d))


# ===========================================================================
# C05
def gen_C05(r, probe):
    g = small_cfg(r)
    big = r.random() < 0.35
    p = Proj(r, {"gen": g, "nts": (6, 14) if big else (0, 3), "ntpl": (0, 6) if big else (0, 3),
                 "nmaps": (1, 1) if big else (1, 2)}).build()
    plan = p.plan()
    plan["hold"] = True
    plan["fd_limit"] = 8
    mode = r.random()
    if mode < 0.12:
        fid = p.world()
        pts = [pattern(r) for _ in range(r.randint(1, 3))]
        p.doc(fid)["patterns"] = [x[0] for x in pts]
        names = {x[1](i, i) for x in pts for i in range(r.randint(0, 6))} | {"map_%d_%d.tmx" % (i, i) for i in range(6)}
        for nm in sorted(names):
            plan["extra"].append([pp.join(pp.dirname(p.files[fid]["path"]), nm), "x"])
    else:
        if big:
            doc = p.map_doc("tmx" if p.c["fmt"] is None and r.random() < .5 else "json", p.tilesets)
            # all tilesets, all templates of the format, several instances
            fmt = r.choice(["tmx", "json"])
            doc = p.map_doc(fmt, p.tilesets)
            lay = p.g.object_layer(n=0)
            for t in p.templates[fmt] * r.choice([1, 1, 3, 12]):
                lay["objects"].append(p.g.instance(t))
            doc["layers"].append(lay)
            p.files[p.maps[0]]["versions"][0] = {"fmt": fmt, "doc": doc, "style": p.style()}
        fid = r.choice(list(p.maps) * 3 + loadable(p))
    given = given_path(r, plan, fid)
    plan["ops"] = [["load", fid, given]]
    if r.random() < 0.3:
        plan["io"] = random_io(r)
    if r.random() < 0.75:
        log = probe(plan)["logs"][0]
        k = r.random()
        kinds = ("open", "read", "list") if r.random() < 0.75 else ("open", "read", "list", "stat")
        if k < 0.12:
            pts = pick_io_points(r, log, 25, kinds)
            plan["ops"] = [["load", fid, given] for _ in pts]
            plan["faults"] = [{"call": i, "at": at, "kind": fault_for(r, kind)} for i, (at, kind) in enumerate(pts)]
        elif k < 0.6:
            for at, kind in pick_io_points(r, log, r.choice([1, 1, 2]), kinds):
                plan["faults"].append({"call": 0, "at": at, "kind": fault_for(r, kind)})
        else:
            need = needed_static(p, fid)
            victim = r.choice(need)
            if k < 0.75:
                plan["files"][victim]["start"] = None
            elif k < 0.9:
                v = plan["files"][victim]["versions"]
                v.append(dict(v[0], damage=r.choice([["cut", r.random()], ["empty"], ["nul", r.random(), 64]])))
                plan["files"][victim]["start"] = 1
            else:
                # well-formed but not a document of that kind
                v = plan["files"][victim]["versions"]
                v.append({"fmt": v[0]["fmt"], "bytes": r.choice(
                    [b"<map/>", b"{}", b"[]", b"<?xml version='1.0'?>\n<x>\n</x>", b'{"a": 1}\n', b"1"]).hex()})
                plan["files"][victim]["start"] = 1
    if r.random() < 0.3:
        plan["ops"].append(["load", fid, given])
    return plan


def run_C05(env, plan):
    for _, fid, given in plan["ops"]:
        o = env.load(fid, given)
        if o.open_after:
            env.fail("handle-leak", "%d handle(s) open after the load %s: %s" % (
                o.open_after, "raised %r" % (o.exc,) if o.raised else "returned",
                [r.path for r in o.ctx.opened if not r.closed][:3]))
            for r_ in list(env.sim.fds.values()):
                r_.close()
        if o.raised and not o.ctx.injected and env.state_of(fid) == "ok":
            if any(isinstance(e, OSError) and e.errno == 24 for e in env.chain(o.exc)):
                env.fail("too-many-files", "more than %d files open at once" % plan["fd_limit"])
            else:
                env.fail("spurious-error", "raised %r" % (o.exc,))
        if not o.raised and env.state_of(fid) == "ok" and not o.ctx.injected:
            d = env.diff(fid, given, o.canon)
            if d:
                env.fail("wrong-document", given + d)
        env.sim.stats["peak handles"] = max(env.sim.stats.get("peak handles", 0), o.ctx.peak)
        o.exc = None


# ===========================================================================
# C06
def gen_C06(r, probe):
    g = rng_cfg(r) if r.random() < .5 else small_cfg(r)
    if r.random() < 0.07:
        g["huge"] = 0.5
    p = Proj(r, {"gen": g, "nts": (0, 3), "ntpl": (0, 3)}).build()
    plan = p.plan()
    fid = inhabit(r, p, plan, p.world()) if r.random() < 0.15 else r.choice(list(p.maps) * 3 + loadable(p))
    plan["cwd"] = r.choice([ROOT, BASE, BASE + "/maps"])
    env_mix(r, plan, True)
    plan["warnings"] = r.choice([None, None, "always"])
    given = given_path(r, plan, fid)
    plan["ops"] = [["load", fid, given]]
    plan["trace"] = "line" if r.random() < 0.4 else None
    k = r.random()
    if k < 0.25:
        log = probe(plan)["logs"][0]
        for at, kind in pick_io_points(r, log, 1):
            plan["faults"].append({"call": 0, "at": at, "kind": fault_for(r, kind)})
    elif k < 0.4:
        victim = r.choice(needed_static(p, fid))
        v = plan["files"][victim]["versions"]
        v.append(dict(v[0], damage=r.choice([["cut", r.random()], ["empty"], ["nul", r.random(), 64]])))
        plan["files"][victim]["start"] = 1
    elif k < 0.48:
        plan["files"][r.choice(needed_static(p, fid))]["start"] = None
    elif k < 0.6:
        pr = probe(dict(plan, trace="line"))
        plan["trace"] = "line"
        plan["events"].append({"call": 0, "unit": "step", "at": r.randint(1, max(1, pr["steps"][0])),
                               "do": ["interrupt", r.choice(["KeyboardInterrupt", "MemoryError", "Cancelled"])]})
    for _ in range(r.choice([0, 0, 1, 2])):
        f2 = r.choice(loadable(p))
        plan["ops"].append(["load", f2, given_path(r, plan, f2)])
    return plan


def run_C06(env, plan):
    sim = env.sim
    tr = None
    if plan.get("warnings"):
        warnings.simplefilter(plan["warnings"])
    if plan.get("trace"):
        base = S.make_tracer(plan["trace"])
        tr = base
    snap_env = dict(os.environ)
    cwd0 = sim.cwd
    # invariant checked at every storage operation and step
    orig_step, orig_point = sim.step, sim.point
    bad = []

    def inv():
        if sim.cwd != cwd0 and "cwd" not in bad:
            bad.append("cwd")
            env.fail("state:cwd-during", "working directory is %s during the load" % sim.cwd)
        if os.environ._data != env_data and "env" not in bad:
            bad.append("env")
            env.fail("state:environ-during", "environment changed during the load")

    def point(kind, path):
        inv()
        return orig_point(kind, path)

    def step():
        inv()
        return orig_step()
    sim.point, sim.step = point, step
    env_data = dict(os.environ._data)
    for _, fid, given in plan["ops"]:
        tree = env.fs.snapshot()
        st = process_state(env)
        sim.effects.clear()
        o = env.load(fid, given, trace=tr)
        for w, what in sim.effects[:3]:
            env.fail("effect:" + w.split(" ")[0], "%s %s" % (w, what))
        sim.effects.clear()
        for d in state_diff(st, process_state(env)):
            env.fail("state:" + d.split(":")[0], d)
        t2 = env.fs.snapshot()
        if t2 != tree:
            env.fail("storage-changed", sorted(set(t2.items()) ^ set(tree.items()), key=repr)[:2])
        o.exc = None


# ===========================================================================
# C07
def add_version(r, p, fid):
    f = p.files[fid]
    kind = f["kind"]
    old = f["versions"][0]
    fmt = old["fmt"]
    if kind == "tileset":
        if r.random() < 0.4:
            fmt = r.choice(["tmx", "json"])
        if r.random() < 0.35:
            doc = tweak(r, old["doc"])
        else:
            doc = p.g.tileset(old["doc"]["name"] if r.random() < 0.7 else None)
            tc = old["doc"]["tilecount"]
            doc["tilecount"] = tc
            if p.c.get("vary_tilecount") and r.random() < .5:
                doc["tilecount"] = max(1, tc + r.randint(1 - tc, 20))
    elif kind == "template":
        ts = old["doc"]["tileset"]
        if ts and p.tilesets and r.random() < 0.4:
            ts = r.choice([ts] + p.tilesets)
        doc = p.g.template(ts, p.doc(ts)["tilecount"] if ts else 1,
                           old["doc"]["object"]["shape"] if fid in p.g.tpl_over else None)
        if doc["object"]["shape"] != old["doc"]["object"]["shape"]:
            p.g.tpl_shape.pop(fid, None)        # instances must not rely on its shape any more
    elif kind == "map":
        uses_tpl = any(x in p.templates["tmx"] + p.templates["json"] for x in doc_refs(old["doc"]))
        if r.random() < 0.3 and not uses_tpl:
            fmt = r.choice(["tmx", "json"])
        doc = p.map_doc(fmt) if r.random() < 0.7 else tweak(r, old["doc"])
    else:
        doc = dict(old["doc"])
        doc["maps"] = [dict(m, **geometry(r)) for m in doc["maps"]][::-1]
    f["versions"].append({"fmt": fmt, "doc": doc, "style": p.style() if r.random() < .5 else old["style"]})
    return len(f["versions"]) - 1


def tweak(r, doc):
    """A small edit that often keeps the size of the file."""
    import copy
    d = copy.deepcopy(doc)
    if d["kind"] == "tileset":
        d["spacing"] = (d["spacing"] + 1) % 9
        d["columns"] = (d["columns"] + 1) % 10
    else:
        d["nextobjectid"] = d["nextobjectid"] + 1 if d["nextobjectid"] % 10 != 9 else d["nextobjectid"] - 1
        for L in walk_layers(d["layers"]):
            if L["type"] == "tilelayer" and "data" in L and L["enc"] == "csv":
                L["data"] = [(x ^ 1) if x % 10 not in (0, 9) and x > 10 else x for x in L["data"]]
    return d


def heavy(r, p, fid):
    """Make the document large, with an edit far from both of its ends that keeps its length."""
    import copy
    f = p.files[fid]
    if f["kind"] not in ("map", "tileset", "template"):
        return
    n1, n2 = r.choice([0, 300, 1500, 5000, 70000]), r.choice([0, 300, 1500, 5000, 70000])
    v = r.choice([-1, 0, 1]) * r.randint(10, 98)

    def put(doc, k):
        holder = doc["object"] if doc["kind"] == "template" else doc
        holder["properties"] = [{"name": "a", "type": "string", "value": ("ab " * n1)[:n1] + "."},
                                {"name": "mid", "type": "int", "value": v + (k if v >= 0 else -k)},
                                {"name": "z", "type": "string", "value": ("z y" * n2)[:n2] + "."}]
    for ver in f["versions"]:
        put(ver["doc"], 0)
    twin = copy.deepcopy(f["versions"][0])
    put(twin["doc"], 1)
    f["versions"].append(twin)


NUMBERS = {"x", "y", "rotation", "spacing", "margin", "columns", "nextobjectid", "nextlayerid", "imagewidth", "imageheight",
           "hexsidelength", "tile"}
STRINGS = {"name", "class", "text", "backgroundcolor", "color", "tint", "image", "fontfamily"}


def spots(r, d, out, key=None):
    """Places of the document where a single value can be changed: (container, key)."""
    if isinstance(d, dict):
        for k, v in d.items():
            if k == "data" and isinstance(v, list) and v:
                out += [(v, i) for i in {len(v) - 1, r.randrange(len(v)), r.randrange(len(v) // 2, len(v))}]
            elif isinstance(v, (dict, list)):
                spots(r, v, out, k)
            elif type(v) in (int, float) and k in NUMBERS or type(v) is str and k in STRINGS and key != "properties":
                out.append((d, k))
            elif key == "properties" and k == "value" and d.get("type") in ("string", "int", "float", "color", "file"):
                out.append((d, k))
    elif isinstance(d, list):
        if key in ("points", "animation", "offset", "tileoffset") and d and type(d[-1]) in (int, float):
            out.append((d, len(d) - 1))
        for x in d:
            if isinstance(x, (dict, list)):
                spots(r, x, out, key)


def spot(r, doc):
    """The same document with one value changed, of the same length most of the time."""
    import copy
    for _ in range(20):
        d = copy.deepcopy(doc)
        out = []
        spots(r, d, out)
        if not out:
            return None
        ids = [o for o in out if isinstance(o[0], list) and len(o[0]) > 12]
        box, k = r.choice(ids if ids and r.random() < 0.5 else out)
        v = box[k]
        if isinstance(v, str):
            places = [i for i, c in enumerate(v) if c.isascii() and c.isalnum() and c not in "dDfF"]
            if not places:
                continue
            i = r.choice([places[-1], r.choice(places)])
            c = v[i]
            box[k] = v[:i] + ("1" if c != "1" else "2") + v[i + 1:] if c.isdigit() else \
                v[:i] + ("b" if c != "b" else "c") + v[i + 1:]
        elif isinstance(v, int) and v >= 2 ** 31 - 1:
            box[k] = v - 1
        elif isinstance(v, int):
            box[k] = v - 1 if abs(v) % 10 == 9 and v > 0 or v < 0 and abs(v) % 10 != 0 and v % 10 != 1 else v + 1
        else:
            box[k] = v + 1
        return d
    return None


def gen_C07(r, probe):
    g = small_cfg(r)
    minute = r.random() < 0.25
    if minute:
        g.update(p_tall=0.5, codecs=r.choice([["b64"], ["csv", "b64"], ["zlib"], ["csv", "b64", "zlib", "gzip"]]))
    p = Proj(r, {"gen": g, "nts": (0, 3), "ntpl": (0, 2), "vary_tilecount": r.random() < 0.5, "nmaps": (1, 3)}).build()
    plan = p.plan()
    wnames = {}
    if r.random() < 0.25:
        w = p.world()
        pt = [pattern(r) for _ in range(r.choice([0, 1, 1, 2]))]
        p.doc(w)["patterns"] = [x[0] for x in pt]
        wd = pp.dirname(p.files[w]["path"])
        wnames[w] = sorted({pp.join(wd, x[1](a, b)) for x in pt for a in (1, 2) for b in (3, 4)} -
                           {f["path"] for f in p.files.values()})
        plan["extra"] += [[n, ""] for n in wnames[w] if r.random() < 0.4]
    ids = list(p.files)
    massive, twins = r.random() < 0.15, {}
    for fid in ids:
        for _ in range(r.choice([0, 1, 1, 2])):
            add_version(r, p, fid)
        if massive and r.random() < 0.5 and p.files[fid]["kind"] != "world":
            heavy(r, p, fid)
            twins[fid] = [0, len(p.files[fid]["versions"]) - 1]
        elif minute and p.files[fid]["kind"] != "world":
            doc = spot(r, p.doc(fid))
            if doc is not None:
                p.files[fid]["versions"].append(dict(copy.deepcopy(p.files[fid]["versions"][0]), doc=doc))
                twins[fid] = [0, len(p.files[fid]["versions"]) - 1]
    plan["pad"] = r.random() < 0.5
    plan["cwd"] = r.choice([ROOT, BASE, ROOT + "/w2"])
    loads = [f for f in ids if p.files[f]["kind"] != "template"]
    hot = r.sample(loads, min(len(loads), r.choice([1, 2, 3])))
    if wnames and r.random() < 0.7:
        hot = sorted(set(hot[:1] + list(wnames)))
    cur = {f: 0 for f in ids}
    hows = r.choice([["replace"], ["frozen"], ["frozen-inode"], ["inplace"], ["backward", "frozen"],
                     ["replace", "frozen", "frozen-inode", "backward"]])
    given = {}
    for f in hot:
        given[f] = given_path(r, plan, f)
    moving = r.random() < 0.12
    ncall = 0
    cwd = plan["cwd"]
    for _ in range(r.randint(3, 9) if r.random() < 0.95 else r.randint(25, 60)):
        k = r.random()
        fid = r.choice(hot)
        if k < 0.5 or not plan["ops"]:
            if r.random() < 0.3:
                given[fid] = given_path(r, dict(plan, cwd=cwd), fid)
            plan["ops"].append(["load", fid, given[fid]])
            if r.random() < 0.12:
                plan["faults"].append({"call": ncall, "at": r.randint(1, 8),
                                       "kind": r.choice(["open:EIO", "open:ENOENT", "read:EIO"])})
            elif r.random() < 0.05:
                plan["events"].append({"call": ncall, "unit": "op", "at": r.randint(1, 10),
                                       "do": ["interrupt", r.choice(["KeyboardInterrupt", "Cancelled"])]})
            ncall += 1
        else:
            need = [f for f in needed_static(p, fid) if len(p.files[f]["versions"]) > 1]
            victim = r.choice(need or [fid])
            vs = p.files[victim]["versions"]
            kk = r.random()
            if r.random() < 0.7 and any(f in twins for f in need):
                victim = r.choice([f for f in need if f in twins])
                cur[victim] = twins[victim][cur[victim] == twins[victim][0]]
                plan["ops"].append(["save", victim, cur[victim], r.choice(hows)])
                plan["ops"].append(["load", fid, given[fid]])
                ncall += 1
                continue
            dirs = swappable(plan, needed_static(p, fid), [ROOT, BASE, plan["cwd"]]) if moving else []
            if dirs and r.random() < 0.6:
                plan["ops"].append(["swap", r.choice(dirs), r.random() < 0.7])
                if len(vs) > 1 and kk < 0.5:
                    nv = r.choice([i for i in range(len(vs)) if i != cur[victim]] or [0])
                    cur[victim] = nv
                    plan["ops"].append(["save", victim, nv, r.choice(hows)])
            elif wnames.get(fid) and r.random() < 0.7:
                for _ in range(r.choice([1, 1, 2])):
                    plan["ops"].append([r.choice(["mk", "mk", "rm", "mkdir"]), r.choice(wnames[fid]),
                                        r.random() < 0.5])
            elif kk < 0.75 and len(vs) > 1:
                nv = r.choice([i for i in range(len(vs)) if i != cur[victim]] or [0])
                cur[victim] = nv
                plan["ops"].append(["save", victim, nv, r.choice(hows)])
            elif kk < 0.85:
                plan["ops"].append(["delete", victim])
                cur[victim] = None
                if r.random() < .6:
                    plan["ops"].append(["load", fid, given[fid]])
                    ncall += 1
                    nv = r.randrange(len(vs))
                    cur[victim] = nv
                    plan["ops"].append(["save", victim, nv, r.choice(["replace", "backward"])])
            elif kk < 0.93:
                plan["ops"].append(["clock", r.choice([-86400.0, 3.0, 1e6])])
            else:
                # same relative name, another working directory with other content
                plan["ops"].append(["chdir", r.choice([ROOT, BASE])])
                cwd = plan["ops"][-1][1]
                for f in hot:
                    given[f] = pp.relpath(p.files[f]["path"], cwd) if r.random() < .5 else p.files[f]["path"]
            plan["ops"].append(["load", fid, given[fid]])
            ncall += 1
    if r.random() < 0.06:
        file_links(r, plan, ids)
    beside(r, plan, probe, ids, 0.05)
    return plan


def run_C07(env, plan):
    for op in plan["ops"]:
        if op[0] == "save":
            env.save(op[1], op[2], op[3])
        elif op[0] == "delete":
            if env.cur[op[1]] is not None:
                env.delete(op[1])
        elif op[0] in ("mk", "rm", "mkdir"):
            env.entry(*op)
        elif op[0] == "clock":
            env.sim.clock += op[1]
        elif op[0] == "chdir":
            env.sim.cwd = op[1]
        elif op[0] == "swap":
            env.fs.swap(op[1], op[2])
        else:
            _, fid, given = op
            st = env.state_of(fid)
            o = env.load(fid, given)
            if o.ctx.interrupt is not None and o.raised:
                o.exc = None
                continue
            if o.ctx.injected:
                if not o.raised:
                    d = env.diff(fid, given, o.canon) if st == "ok" else "missing file"
                    if d:
                        env.fail("stale-document", "failed read hidden: %s%s" % (given, d))
                o.exc = None
                continue
            if st == "missing":
                if not o.raised:
                    env.fail("stale-document", "%s loaded although %s no longer exists" % (
                        given, [f for f in env.needed(fid) if env.cur[f] is None]))
                o.exc = None
                continue
            if o.raised:
                env.fail("not-terminating" if isinstance(o.exc, S.SimBudget) else "stale-error",
                         "load of %s raised %r" % (given, o.exc))
            else:
                d = env.diff(fid, given, o.canon)
                if d:
                    cls = "wrong-document"
                    env.fail("stale-document" if stale(env, fid, given, o.canon) else cls,
                             given + d)


def stale(env, fid, given, got):
    return env.loads > 1


# ===========================================================================
# C08
def gen_C08(r, probe):
    g = rng_cfg(r)
    g["p_props"] = r.choice([0, 0.2, 0.5, 1])
    p = Proj(r, {"gen": g, "nts": (0, 2), "ntpl": (0, 2), "nmaps": (1, 2)}).build()
    plan = p.plan()
    if r.random() < 0.3:
        inhabit(r, p, plan, p.world())
    loads = [f for f in p.files if p.files[f]["kind"] != "template"]
    hot = r.sample(loads, min(len(loads), r.choice([1, 2])))
    n = r.randint(2, 4)
    for i in range(n):
        f = r.choice(hot)
        plan["ops"].append(["load", f, given_path(r, plan, f)])
        if r.random() < 0.7:
            plan["ops"].append(["mutate", r.randrange(i + 1), r.randrange(1 << 20), r.choice([1.0, 0.5, 0.1])])
    plan["ops"].append(["load", hot[0], given_path(r, plan, hot[0])])
    return plan


def walk(o, path="", depth=0):
    yield path, o
    if depth < 40:
        for lab, ch in C.children(o):
            if C.mutable(ch) or isinstance(ch, tuple):
                yield from walk(ch, path + lab, depth + 1)


def vandalise(o, rng, p):
    """Change (almost) every mutable part of a loaded document in place."""
    parts = [(pa, x) for pa, x in walk(o) if C.mutable(x)]
    for pa, x in reversed(parts):
        if rng.random() > p:
            continue
        if isinstance(x, list):
            k = rng.randrange(3)
            if k == 0:
                x.append("vandal")
            elif k == 1:
                x.clear()
            else:
                x.insert(0, -12345)
        elif isinstance(x, dict):
            if rng.randrange(2):
                x["vandal"] = "was here"
            else:
                x.clear()
        else:
            for n in C.FIELDS.get(C.cls_key(x), []):
                v = getattr(x, n, None)
                if not C.mutable(v) and not isinstance(v, (list, dict)):
                    try:
                        setattr(x, n, "vandal-" + n)
                    except Exception:
                        pass


def run_C08(env, plan):
    docs = []
    for op in plan["ops"]:
        if op[0] == "load":
            _, fid, given = op
            o = env.load(fid, given)
            if o.raised:
                env.fail("spurious-error", "%s raised %r" % (given, o.exc))
                return
            d = env.diff(fid, given, o.canon)
            if d:
                env.fail("polluted-load" if any(x[0] == "mutate" for x in plan["ops"][:plan["ops"].index(op)])
                         else "wrong-document", "%s%s" % (given, d))
                return
            # two places of one document, or of two documents, share a mutable part
            mine = {}
            for pa, x in walk(o.value):
                if C.mutable(x):
                    if id(x) in mine:
                        env.fail("shared-within", "%s: %s and %s are the same %s" % (
                            given, mine[id(x)], pa, type(x).__name__))
                        return
                    mine[id(x)] = pa
            for j, od in enumerate(docs):
                both = set(mine) & set(od["ids"])
                if both:
                    k = sorted(both, key=lambda q: mine[q])[0]
                    env.fail("shared-across", "load %d %s and load %d %s are the same object" % (
                        j, od["ids"][k], len(docs), mine[k]))
                    return
            # keep every part alive: identities stay unique for the whole run
            docs.append({"value": o.value, "canon": o.canon, "given": given, "ids": mine,
                         "alive": [x for _, x in walk(o.value)]})
        else:
            _, i, seed, p = op
            if i >= len(docs):
                continue
            vandalise(docs[i]["value"], random.Random(seed), p)
            docs[i]["canon"] = C.canon(docs[i]["value"])
            for j, d in enumerate(docs):
                if j != i:
                    df = C.diff(d["canon"], C.canon(d["value"]))
                    if df:
                        env.fail("shared-across", "changing document %d changed document %d%s" % (i, j, df))
                        return


# ===========================================================================
# C09
def gen_C09(r, probe):
    g = small_cfg(r)
    g["dim"] = 2
    p = Proj(r, {"gen": g, "nts": (1, 3), "ntpl": (0, 2), "nmaps": (1, 3)}).build()
    if r.random() < 0.4:
        # maps full of template instances
        for m in p.maps:
            fmt = p.files[m]["versions"][0]["fmt"]
            if not p.templates[fmt]:
                p.template(fmt)
            L = p.g.object_layer(n=0)
            L["objects"] = [p.g.instance(r.choice(p.templates[fmt])) for _ in range(r.choice([1, 2, 4]))]
            p.doc(m)["layers"].insert(r.randrange(len(p.doc(m)["layers"]) + 1), L)
    entries, worlds = [], []
    if r.random() < 0.2:
        for _ in range(r.choice([1, 2, 2])):
            w = p.world()
            worlds.append(w)
            mk = []
            for _ in range(r.choice([0, 1, 1, 2])):
                pt = pattern(r)
                p.doc(w).setdefault("patterns", []).append(pt[0])
                mk.append(pt[1])
            for i in range(r.choice([1, 3, 6])):
                if mk:
                    entries.append(pp.join(pp.dirname(p.files[w]["path"]), r.choice(mk)(r.randint(0, 9), i)))
    plan = p.plan()
    plan["extra"] += [[e, ""] for e in sorted(set(entries) - {f["path"] for f in p.files.values()})]
    loads = list(p.maps) * 2 + [f for f in p.files if p.files[f]["kind"] != "template"] + worlds * r.choice([0, 1, 5])
    n = r.choice([2, 2, 2, 3, 4]) if r.random() < 0.95 else r.choice([6, 8])
    same = r.random() < 0.3
    f0 = r.choice(loads)
    plan["threads"] = []
    for i in range(n):
        seq = []
        for _ in range(r.choice([1, 1, 2])):
            f = f0 if same else r.choice(loads)
            seq.append([f, given_path(r, plan, f)])
        plan["threads"].append(seq)
    plan["trace"] = r.choice(["line", "line", "line", "opcode", None])
    plan["sched"] = {"seed": r.randrange(1 << 30), "p": r.choice([0.02, 0.1, 0.3, 0.6]) if plan["trace"] else 0.6,
                     "strategy": r.choice(["rw", "rw", "pct"])}
    if r.random() < 0.3:
        plan["io"] = random_io(r)
        plan["io"].pop("eintr", None)
        if "chunk" in plan["io"]:
            plan["io"]["chunk"][1] = max(100, plan["io"]["chunk"][1])
    plan["warm"] = r.random() < 0.3
    plan["gone"], plan["after"] = [], []
    k = r.random()
    if k < 0.15:
        # something a load needs is not there: it fails, the others are not concerned
        plan["gone"] = r.sample(list(p.files), r.choice([1, 1, 2]) if len(p.files) > 2 else 1)
    elif k < 0.45:
        # one load fails or is interrupted under way
        for i in r.sample(range(n), r.choice([1, 1, 2])):
            call = 100 * i + r.randrange(len(plan["threads"][i]))
            if r.random() < 0.6:
                plan["faults"].append({"call": call, "at": r.randint(1, 12), "kind": r.choice(
                    ["open:EIO", "open:ENOENT", "open:EMFILE", "read:EIO", "read:EIO"])})
            else:
                plan["events"].append({"call": call, "unit": "op", "at": r.randint(1, 14), "do": [
                    "interrupt", r.choice(["KeyboardInterrupt", "Cancelled", "MemoryError"])]})
    if k < 0.45 or r.random() < 0.1:
        # afterwards: what was missing is there, something was edited, and all is loaded once more
        hot = sorted({f for th in plan["threads"] for f, _ in th})
        need = sorted({x for f in hot for x in needed_static(p, f)})
        for f in plan["gone"]:
            plan["after"].append(["save", f, 0, "replace"])
        if r.random() < 0.4:
            f = r.choice([x for x in need if p.files[x]["kind"] != "map" or x in hot])
            plan["after"].append(["save", f, add_version(r, p, f), r.choice(["replace", "frozen", "frozen-inode"])])
        for f in r.sample(hot, min(2, len(hot))):
            plan["after"].append(["load", f, given_path(r, plan, f)])
    return plan


def run_C09(env, plan):
    for f in plan.get("gone", []):
        if env.cur[f] is not None:
            env.delete(f)
    sim = env.sim
    sc = plan["sched"]
    sw = plan.get("switches")
    sched = S.Sched(len(plan["threads"]), None if sw is None else {a: b for a, b in sw},
                    sc["seed"], sc["p"], sc["strategy"])
    if plan.get("warm"):
        fid, given = plan["threads"][0][0]
        env.load(fid, given, idx=900)
    results = [[] for _ in plan["threads"]]
    tracer = S.make_tracer(plan["trace"]) if plan["trace"] else None

    def body(i):
        def f():
            for k, (fid, given) in enumerate(plan["threads"][i]):
                results[i].append((fid, given, env.load(fid, given, idx=100 * i + k, trace=tracer,
                                                        raw_canon=False)))
        return f
    sim.sched = sched
    with S.tracing_pinned(plan["trace"]):
        sched.run([body(i) for i in range(len(plan["threads"]))])
    sim.sched = None
    plan["recorded_switches"] = sched.recorded
    sim.hit("context switches", sched.nswitch)
    sim.stats["schedule"] = sched.sig
    states = {fid: env.state_of(fid) for th in plan["threads"] for fid, _ in th}
    for i, rs in enumerate(results):
        if len(rs) != len(plan["threads"][i]):
            env.fail("thread-died", "thread %d ended early" % i)
        for fid, given, o in rs:
            st = states[fid]
            if o.raised:
                if isinstance(o.exc, S.Deadlock):
                    env.fail("deadlock", repr(o.exc))
                elif isinstance(o.exc, S.SimBudget):
                    env.fail("not-terminating", repr(o.exc))
                elif o.ctx.injected or o.ctx.interrupt is not None or st != "ok":
                    o.exc = None
                else:
                    env.fail("concurrent-error", "thread %d: %s raised %r" % (i, given, o.exc))
                continue
            if st != "ok":
                env.fail("concurrent-wrong", "thread %d: %s loaded although a file it needs is missing" % (i, given))
                continue
            o.canon = C.canon(o.value)
            d = env.diff(fid, given, o.canon)
            if d:
                env.fail("concurrent-wrong", "thread %d: %s%s" % (i, given, d))
    # no state may be shared between results of different threads either
    if not env.violations:
        owner = {}
        for i, rs in enumerate(results):
            for k, (fid, given, o) in enumerate(rs):
                for pa, x in walk(o.value):
                    if C.mutable(x):
                        q = owner.setdefault(id(x), (i, k, pa))
                        if q[:2] != (i, k):
                            env.fail("concurrent-shared", "thread %d %s and thread %d %s are one object" % (
                                i, pa, q[0], q[2]))
                            return
    if env.violations:
        return
    for j, op in enumerate(plan.get("after", [])):
        if op[0] == "save":
            env.save(op[1], op[2], op[3])
            continue
        _, fid, given = op
        o = env.load(fid, given, idx=800 + j)
        if env.state_of(fid) != "ok":
            continue
        if o.raised:
            env.fail("not-usable", "after the threads: %s raised %r" % (given, o.exc))
        else:
            d = env.diff(fid, given, o.canon)
            if d:
                env.fail("concurrent-wrong", "after the threads: %s%s" % (given, d))


# ===========================================================================
# C10
def gen_C10(r, probe):
    g = small_cfg(r)
    c = {"gen": g, "nts": (0, 2), "ntpl": (0, 2), "vary_tilecount": r.random() < 0.6, "nmaps": (1, 1)}
    if r.random() < 0.25:
        # templates with tilesets of their own, and objects made from them
        c.update(nts=(1, 3), ntpl=(1, 3), p_tplts=1.0)
        g.update(p_inst=0.8, max_objs=4)
    p = Proj(r, c).build()
    plan = p.plan()
    fid = p.maps[0] if r.random() < 0.85 else r.choice(loadable(p))
    if r.random() < 0.1:
        fid = inhabit(r, p, plan, p.world())
    need = needed_static(p, fid)
    doc = p.doc(fid)
    # bound the product of alternatives
    switching = r.random() < 0.25
    victims = r.sample(need, min(len(need), r.choice([1, 1, 2, 3])))
    for v in victims:
        f = p.files[v]
        for _ in range(r.choice([1, 1, 2])):
            old = f["versions"][0]
            n = add_version(r, p, v)
            if not switching and f["versions"][n]["fmt"] != old["fmt"]:
                del f["versions"][n]
            elif f["kind"] == "map" and not switching and f["versions"][n]["fmt"] != old["fmt"]:
                del f["versions"][n]
    plan["cwd"] = r.choice([ROOT, BASE])
    given = given_path(r, plan, fid)
    plan["ops"] = [["load", fid, given]]
    if r.random() < 0.5:
        plan["io"] = {"chunk": r.choice([["fixed", 300], ["rand", 400], ["mix", 150]])}
        if r.random() < 0.5:
            plan["io"]["bufsize"] = r.choice([64, 256])
    log = probe(plan)["logs"][0]
    nops = len(log)
    near = r.random() < 0.5
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        v = r.choice(victims)
        n = len(p.files[v]["versions"])
        at = r.randint(1, nops + 2)
        mine = [i for i, x in enumerate(log) if pp.basename(x[1]) == pp.basename(p.files[v]["path"])]
        if near and mine:
            # just before or after the load touches the file
            at = max(1, r.choice(mine) + r.choice([0, 1, 2, 2, 3]))
        plan["events"].append({"call": 0, "unit": "op", "at": at,
                               "do": ["save", v, r.randrange(n), r.choice(["replace", "frozen"])]})
    plan["events"].sort(key=lambda e: e["at"])
    return plan


def run_C10(env, plan):
    for _, fid, given in plan["ops"]:
        o = env.load(fid, given)
        during = env.during
        fmts = {f: {env.files[f]["versions"][v]["fmt"] for v in vs} for f, vs in during.items()}
        mixed_fmt = any(len(x) > 1 for x in fmts.values())
        if o.raised:
            if isinstance(o.exc, S.SimBudget):
                env.fail("not-terminating", repr(o.exc))
            elif not mixed_fmt:
                env.fail("replace-broke-load", "only same-format replacements, load raised %r" % (o.exc,))
            continue
        if env.files[fid]["kind"] == "world":
            ds = [env.world_diff(fid, given, o.canon, ver=v) for v in sorted(during[fid])]
            if all(ds):
                env.fail("mixture", given + ds[0])
            continue
        d, n = match_versions(env, fid, given, o.canon, during)
        if d:
            env.fail("mixture", "%s: no choice of complete versions fits (%d tried): %s" % (given, n, d))


def match_versions(env, fid, given, got, during, cap=3000):
    """Is got the document for some choice of one version per reference?

    Depth-first over reference occurrences in reading order; the choice tree is
    explored lazily because which references exist depends on earlier choices."""
    tried = 0
    first = None
    stack = [[]]
    while stack:
        pre = stack.pop()
        taken = []

        def choose(occ, f):
            vs = sorted(during.get(f, {env.cur[f]}))
            if occ < len(pre):
                v = pre[occ]
            else:
                v = vs[0]
                for other in vs[1:]:
                    stack.append(taken + [other])
            taken.append(v)
            ver = env.files[f]["versions"][v]
            return ver["doc"], ver["fmt"]
        exp = env.expected(fid, given, choose)
        tried += 1
        d = C.diff(exp, got)
        if d is None:
            return None, tried
        first = first or d
        if tried > cap:
            raise S.SimError("too many version combinations")
    return first, tried


# ===========================================================================
# C11
def gen_C11(r, probe):
    p = Proj(r, {"gen": small_cfg(r), "nts": (0, 0), "ntpl": (0, 0), "nmaps": (0, 0)}).build()
    plan = p.plan()
    wdir = pp.join(BASE, r.choice(["", "worlds", "a b", "wörld"]))
    w = {"kind": "world", "maps": [], "patterns": [], "only": r.choice([None, True, False])}
    for i in range(r.choice([0, 1, 3])):
        w["maps"].append(dict(fileName=r.choice(["m%d.tmx" % i, "../x/m%d.json" % i, "sub/地図%d.tmx" % i]),
                              **geometry(r)))
    makers = []
    for _ in range(r.choice([1, 1, 2, 3])):
        pt, mk, neg = pattern(r)
        w["patterns"].append(pt)
        makers.append((mk, neg))
    p.files["world0"] = {"path": pp.join(wdir, r.choice(["w.world", "My World.world"])), "kind": "world",
                         "versions": [{"fmt": "json", "doc": w, "style": p.style()}]}
    top = r.choice([4, 30])
    if r.random() < 0.4:
        # maps which are listed and found as well
        for _ in range(r.choice([1, 3])):
            w["maps"].append(dict(fileName=r.choice(["", "", "./"]) + r.choice(makers)[0](
                r.randint(0, top), r.randint(0, top)), **geometry(r)))
    names = []
    for _ in range(r.randint(0, 10) if r.random() < 0.95 else r.choice([70, 300])):
        mk, neg = r.choice(makers)
        a, b = r.randint(0, top), r.randint(0, top)
        if neg and r.random() < 0.4:
            a, b = -a, -b
        nm = mk(a, b)
        k = r.random()
        if k < 0.08:
            nm = "old_" + nm
        elif k < 0.14:
            nm = nm + ".bak"
        elif k < 0.2:
            nm = nm.upper()
        names.append(nm)
    if names and r.random() < 0.25:
        # names of foreign systems
        for _ in range(r.choice([1, 1, 4])):
            nm = r.choice(names)
            names.append(r.choice([
                nm + "\n", nm + "\udce9", "\udcff" + nm, nm.replace(".", "\udc80."), "caf\udce9.txt", nm + " ", " " + nm,
                nm + "." + "x" * 150, unicodedata.normalize("NFD", nm),
                unicodedata.normalize("NFC", nm), nm.replace("1", "\u0661"), nm.replace("2", "\uff12"),
                nm + "\r", "\x01" + nm, nm.replace(".", "\u2024"), "-" + nm, nm + "~", nm + ".tmx"]))
    names += r.sample(["readme.txt", "m0.tmx", ".hidden", "map_x_y.tmx", "map_1.tmx", "level1x.json"], 2)
    for nm in names:
        path = pp.join(wdir, nm)
        k = r.random()
        if k < 0.12:
            plan["specials"].append([path, "d"])
        elif k < 0.18:
            plan["links"].append([path, "nowhere"])
        elif k < 0.26:
            plan["extra"].append([pp.join(ROOT, "realfile"), "<map/>"])
            plan["links"].append([path, r.choice([ROOT, pp.relpath(ROOT, wdir)]) + "/realfile"])
        elif k < 0.3:
            plan["specials"].append([pp.join(ROOT, "realdir"), "d"])
            plan["links"].append([path, ROOT + "/realdir"])
        else:
            plan["extra"].append([path, r.choice(["", "<map/>", "garbage"])])
    if r.random() < 0.2 and plan["extra"]:
        # one file under several names of the directory
        for _ in range(r.choice([1, 1, 3])):
            mk, neg = r.choice(makers)
            path = pp.join(wdir, mk(r.randint(0, top), r.randint(0, top)))
            other = r.choice(plan["extra"])[0]
            if r.random() < 0.5:
                plan.setdefault("hard", []).append([path, other])
            else:
                plan["links"].append([path, r.choice([pp.basename(other), other])])
    taken = set()
    for key in ("extra", "specials", "links"):
        plan[key] = [e for e in plan[key] if not (e[0] in taken or taken.add(e[0]))]
    if r.random() < 0.3:
        plan["looks"] = [[e[0], r.choice([0, 1, -10 ** 9, 1_700_000_000 * 10 ** 9, 2 ** 62, r.randrange(10 ** 18)]),
                          r.choice([0, 1, 4096, 5 << 30, 1 << 45])] for e in plan["extra"]]
    plan["dirs"] = [wdir]
    plan["list_seed"] = r.choice([0, 1, r.randrange(2, 1 << 20)])
    plan["cwd"] = r.choice([ROOT, wdir, BASE])
    given = given_path(r, plan, "world0")
    plan["ops"] = [["load", "world0", given]]
    if r.random() < 0.7:
        nops = len(probe(plan)["logs"][0])
        for _ in range(r.randint(1, 5)):
            mk, neg = r.choice(makers)
            nm = r.choice(names) if names and r.random() < 0.6 else mk(r.randint(0, 30), r.randint(0, 30))
            path = pp.join(wdir, nm)
            if path == p.files["world0"]["path"]:
                continue
            do = r.choice([["create", path, "x"], ["remove", path], ["mkdir", path],
                           ["move", path, pp.join(wdir, mk(r.randint(0, 30), r.randint(0, 30)))],
                           ["create", path, "y"]])
            plan["events"].append({"call": 0, "unit": "op", "at": r.randint(1, nops + 1), "do": do})
    if r.random() < 0.3:
        plan["ops"].append(["load", "world0", given])
    return plan


def run_C11(env, plan):
    for _, fid, given in plan["ops"]:
        env.dir_watch = pp.dirname(env.files[fid]["path"])
        env.dir_hist = [env.regular_names(env.dir_watch)]
        o = env.load(fid, given)
        hist = env.dir_hist
        env.dir_hist = None
        if o.raised:
            env.fail("not-terminating" if isinstance(o.exc, S.SimBudget) else "world-error",
                     "load of %s raised %r" % (given, o.exc))
            continue
        must = set.intersection(*hist)
        may = set.union(*hist)
        d = env.world_diff(fid, given, o.canon, must, may)
        if d:
            env.fail("world-wrong", "%s: %s" % (given, d))


# ===========================================================================
# C12
def gen_C12(r, probe):
    p = Proj(r, {"gen": small_cfg(r), "nts": (0, 2), "ntpl": (0, 2), "nmaps": (1, 2)}).build()
    plan = p.plan()
    if r.random() < 0.15:
        f = p.world()
        if r.random() < 0.7:
            pt, mk, _ = pattern(r)
            p.doc(f)["patterns"] = [pt]
            plan["extra"] += [[pp.join(pp.dirname(p.files[f]["path"]), mk(i, i)), "x"] for i in range(r.randint(0, 3))]
    loads = list(p.maps) * 2 + [f for f in p.files if p.files[f]["kind"] != "template"]
    fid = r.choice(loads)
    plan["cwd"] = r.choice([ROOT, BASE])
    given = given_path(r, plan, fid)
    plan["trace"] = r.choice(["line", "line", "opcode"])
    n = r.choice([1, 1, 2, 3, 8])
    plan["ops"] = [["load", fid, given]] * n
    for _ in range(r.choice([1, 2])):
        f = r.choice([fid, r.choice(loads)])
        plan["ops"].append(["load", f, given_path(r, plan, f)])
    pr = probe(dict(plan, places=True))
    again = set().union(*pr["places"][1:])
    first = pr["places"][0]
    cold = sorted(at for k, at in first.items() if k not in again)      # places only the first load reaches
    for i in range(n):
        exc = r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "Cancelled", "Aborted",
                        "SystemExit"])
        k = r.random()
        if k < 0.4:
            e = {"unit": "op", "at": r.randint(1, max(1, len(pr["logs"][i])))}
        elif k < 0.5 and cold:
            e = {"unit": "step", "at": r.choice(cold)}
        elif k < 0.7 and pr["places"][i]:
            e = {"unit": "step", "at": r.choice(sorted(pr["places"][i].values()))}
        else:
            e = {"unit": "step", "at": r.randint(1, max(1, pr["steps"][i]))}
        e.update(call=i, do=["interrupt", exc])
        plan["events"].append(e)
    return plan


def run_C12(env, plan):
    tracer = S.make_tracer(plan["trace"]) if plan.get("trace") else None
    st0 = process_state(env)
    for _, fid, given in plan["ops"]:
        o = env.load(fid, given, trace=tracer)
        intr = o.ctx.interrupt
        if intr is not None:
            if not o.raised:
                env.fail("interrupt-swallowed", "%r arrived, load returned a document" % (intr,))
            elif o.exc is not intr and (type(o.exc) is not type(intr) or o.exc.args != intr.args):
                if isinstance(o.exc, S.SimBudget):
                    env.fail("not-terminating", repr(o.exc))
                else:
                    env.fail("interrupt-replaced", "%r arrived, load raised %r" % (intr, o.exc))
        else:
            judge_exact(env, o, fid, given, "C12", "broken-after-interrupt")
        opened = o.ctx.opened
        was = intr is not None
        # the caller handles the exception and drops it
        intr = None
        env.interrupts.clear()
        o.ctx.interrupt = None
        o.exc = o.value = None
        gc.collect()
        left = [x.path for x in opened if not x.closed]
        if left:
            env.fail("handle-leak", "open after %s: %s" % ("the interrupt" if was else "load", left[:3]))
            for x in list(env.sim.fds.values()):
                x.close()
        for d in state_diff(st0, process_state(env)):
            env.fail("state:" + d.split(":")[0], d)
        if env.violations:
            return


# ===========================================================================
# C13
def gen_C13(r, probe):
    g = rng_cfg(r) if r.random() < .5 else small_cfg(r)
    g["p_uni"] = r.choice([0.3, 0.8])
    if r.random() < 0.04:
        g["big"] = 0.1
    p = Proj(r, {"gen": g, "nts": (0, 2), "ntpl": (0, 2), "nmaps": (1, 1), "odd": r.choice([0, 0.1, 0.4])}).build()
    plan = p.plan()
    fid = r.choice(list(p.maps) * 3 + loadable(p))
    if r.random() < 0.2:
        fid = p.world()
        if r.random() < 0.7:
            p.doc(fid)["patterns"] = [pattern(r)[0]]
            mk = r.choice(PATTERNS)[1]
            for i in range(4):
                plan["extra"].append([pp.join(pp.dirname(p.files[fid]["path"]), mk(i, i * i)), ""])
    plan["encoding"] = r.choice(ENCODINGS)
    plan["list_seed"] = r.choice([0, 1, r.randrange(2, 1 << 20)])
    plan["clock0"] = r.choice([1.7e9, 0.0, 4e9, 1.2e9, -1e9])
    plan["environ"] = {k: r.choice(["", "C", "1", "ja_JP.SJIS", "de_DE", "0", "utf-16", "true"])
                       for k in r.sample(["LANG", "LC_ALL", "LC_CTYPE", "PYTHONIOENCODING", "PYTHONUTF8",
                                          "TZ", "HOME", "LANGUAGE", "PYTHONENCODING", "TMPDIR", "DEBUG"], 4)}
    if r.random() < 0.7:
        plan["environ"].update({k: r.choice(["/home/u", "elsewhere", "..", "x"])
                                for k in ("HOME", "USER", "TMP", "TMPDIR")})
    plan["warnings"] = r.choice([None, None, "error", "always"])
    if r.random() < 0.5:
        plan["localeconv"] = r.choice([
            {"decimal_point": ",", "thousands_sep": "."}, {"decimal_point": ",", "thousands_sep": "\u202f"},
            {"decimal_point": "\u066b", "thousands_sep": "\u066c"}, {"decimal_point": ".", "thousands_sep": ","},
            {"decimal_point": ",", "thousands_sep": "", "negative_sign": "\u2212", "mon_decimal_point": ","}])
    plan["numbers"] = r.choice([None, None, [3, 640], [1, 4300]])
    if r.random() < 0.5:
        u = r.choice([0, 1000, 65534])
        plan["machine"] = {"cpu_count": r.choice([None, 1, 2, 7, 24, 256]), "getpid": r.choice([1, 77, 4194303]),
                           "getppid": r.choice([0, 1, 99]), "getuid": u, "geteuid": u, "getgid": u, "getegid": u,
                           "getlogin": r.choice(["root", "wörk er", ""]), "getuser": r.choice(["root", "wörk er", ""]),
                           "gethostname": r.choice(["localhost", "x", "a.b"]), "node": r.choice(["localhost", "x", ""]),
                           "sched_getaffinity": r.choice([1, 2, 7, 24]), "getloadavg": r.choice([[0.0] * 3, [99.0] * 3]),
                           "release": r.choice(["", "6.1"]), "version": r.choice(["", "#1"]),
                           "TZ": r.choice(["UTC", "Asia/Tokyo", "America/St_Johns", "XXX-14", "YYY+12"])}
    plan["adversarial_env"] = r.choice(["", "1", "0", "ascii", "C", None])
    plan["cwd"] = r.choice([ROOT, BASE])
    plan["mtimes"] = r.choice([None, 0, 4_000_000_000_000_000_000, -5_000_000_000])
    given = given_path(r, plan, fid)
    plan["ops"] = [["load", fid, given]]
    return plan


class AdversarialEnviron(dict):
    pass


def run_C13(env, plan):
    for k, v in plan.get("environ", {}).items():
        os.environ[k] = v
    if plan.get("mtimes") is not None:
        for f in env.files.values():
            env.fs.exists(f["path"]).mtime = plan["mtimes"]
    if plan.get("warnings"):
        warnings.simplefilter(plan["warnings"])
    if plan.get("localeconv"):
        locale._override_localeconv = plan["localeconv"]
    if plan.get("machine"):
        os.environ["TZ"] = plan["machine"]["TZ"]
        time.tzset()
    if plan.get("numbers"):
        decimal.getcontext().prec = plan["numbers"][0]
        sys.set_int_max_str_digits(plan["numbers"][1])
    restore = hostile_environ(env, plan.get("adversarial_env"))
    random.seed(plan["sseed"])
    for _, fid, given in plan["ops"]:
        o = env.load(fid, given)
        judge_exact(env, o, fid, given, "C13", "environment-error")
    restore()


def hostile_environ(env, answer):
    """Every variable the library itself asks for exists and has this value."""
    if answer is None:
        return lambda: None
    cls = type(os.environ)
    real_get = cls.__getitem__

    def getitem(self, key):
        if S.in_load():
            f = sys._getframe(1)
            n = 0
            while f is not None and n < 6:
                fn = f.f_code.co_filename
                if fn.startswith(S.PKG):
                    env.sim.hit("environment lookups answered")
                    return answer
                if not (fn.endswith("os.py") or "collections_abc" in fn):
                    break
                f = f.f_back
                n += 1
        return real_get(self, key)
    cls.__getitem__ = getitem

    def restore():
        cls.__getitem__ = real_get
    return restore


# ===========================================================================
# C14
def gen_C14(r, probe):
    p = Proj(r, {"gen": small_cfg(r), "nts": (0, 3), "ntpl": (0, 2), "nmaps": (1, 2)}).build()
    plan = p.plan()
    if r.random() < 0.15:
        f = inhabit(r, p, plan, p.world(), 0.9)
    loads = list(p.maps) * 2 + [f for f in p.files if p.files[f]["kind"] != "template"]
    fid = r.choice(loads)
    wide = r.random() < 0.1
    if wide:
        fid = crowd(r, p)
    plan["cwd"] = ROOT
    given = given_path(r, plan, fid)
    plan["trace"] = "line" if r.random() < 0.3 else None
    bad = r.choice([1, 1, 1, 2, 3, r.choice([6, 12, 25])]) if not wide else 1
    plan["ops"] = [["load", fid, given] for _ in range(bad)]
    good = [["load", f, given_path(r, plan, f)] for f in ([fid] + [r.choice(loads)])]
    pr = probe(dict(plan, ops=[["load", fid, given]] + good[1:], trace="line"))
    plan["op_budget"] = 40 * max(len(x) for x in pr["logs"]) + 200
    plan["step_budget"] = 40 * max(pr["steps"]) + 20000
    kinds = r.sample(ERRS, r.choice([3, 8, len(ERRS)]))
    if not any(k.startswith("open") for k in kinds):
        kinds.append("open:EIO")
    mode = r.random()
    if mode < 0.5:
        plan["rate"] = {"p": r.choice([0.1, 0.5, 1.0, 1.0]), "kinds": kinds, "calls": list(range(bad)),
                        "from": r.randint(0, max(1, len(pr["logs"][0])))}
    elif mode < 0.75:
        plan["rate"] = sick_file(r, plan, r.choice(needed_static(p, fid)), list(range(bad)))
    else:
        # faults of another sort: torn or vanished files, then repaired
        victim = r.choice(needed_static(p, fid))
        v = plan["files"][victim]["versions"]
        v.append(dict(v[0], damage=r.choice([["cut", r.random()], ["empty"], ["nul", r.random(), 64]])))
        plan["ops"] = [["save", victim, 1, "replace"]] + plan["ops"] + [["save", victim, 0, "replace"]]
        if r.random() < 0.4:
            plan["ops"][0] = ["delete", victim]
    plan["ops"] += good
    plan["nbad"] = bad
    return plan


def crowd(r, p):
    """A map with very many references to few files."""
    fmt = r.choice(["tmx", "json"])
    m = p.map(fmt)
    doc = p.doc(m)
    if not p.tilesets:
        p.tilesets.append(p.tileset())
    if not p.templates[fmt]:
        p.template(fmt)
    k = r.choice(["tilesets", "instances", "both"])
    if k != "instances":
        g = 1 + max([t["firstgid"] + 60 for t in doc["tilesets"]] or [0])
        for _ in range(r.randint(40, 80)):
            f = r.choice(p.tilesets)
            doc["tilesets"].append({"firstgid": g, "ref": f})
            g += span(p.doc(f))
    if k != "tilesets":
        L = p.g.object_layer(n=0)
        L["objects"] = [p.g.instance(r.choice(p.templates[fmt])) for _ in range(r.randint(40, 80))]
        doc["layers"].append(L)
    return m


def storage_bound(env, fid):
    """Storage operations that are proportional to what a load has to read."""
    n = 0

    def visit(f, kind):
        nonlocal n
        v = 0 if env.cur[f] is None else env.cur[f]
        ver = env.files[f]["versions"][v]
        n += 30 + len(env.raw(f, v)) // 1000
        doc = ver.get("doc")
        if not doc:
            return
        if doc["kind"] == "tileset":
            n += 40 * (1 + sum(1 for t in doc["tiles"] if "image" in t))
        elif doc["kind"] == "world":
            n += (1 + len(doc["patterns"])) * 4 * (2 + len(env.regular_names(pp.dirname(env.files[f]["path"]))))
        else:
            for x in doc_refs(doc):
                visit(x, kind)
    visit(fid, env.files[fid]["kind"])
    return n + 60


def run_C14(env, plan):
    tracer = S.make_tracer(plan["trace"]) if plan.get("trace") else None
    n = 0
    for op in plan["ops"]:
        if op[0] == "save":
            env.save(op[1], op[2], op[3])
            continue
        if op[0] == "delete":
            env.delete(op[1])
            continue
        _, fid, given = op
        st = env.state_of(fid)
        env.sim.op_budget = min(plan["op_budget"], storage_bound(env, fid))
        o = env.load(fid, given, trace=tracer)
        n += 1
        if o.raised and isinstance(o.exc, S.SimBudget):
            env.fail("not-terminating", "load %d: %r" % (n, o.exc))
            return
        if st == "ok" and not o.ctx.injected:
            judge_exact(env, o, fid, given, "C14", "not-recovered")
        elif not o.raised and st == "ok":
            d = env.diff(fid, given, o.canon)
            if d:
                env.fail("fault-swallowed", given + d)
        env.sim.stats["peak share of the storage bound, %"] = max(
            env.sim.stats.get("peak share of the storage bound, %", 0), 100 * o.ctx.ops // env.sim.op_budget)
        o.exc = None


# ===========================================================================
# C15
def gen_C15(r, probe):
    import copy
    g = small_cfg(r)
    p = Proj(r, {"gen": g, "nts": (1, 3), "ntpl": (0, 2), "nmaps": (1, 2), "odd": r.choice([0, 0, 0.3])}).build()
    plan = p.plan()
    kind = r.random()
    if kind < 0.12:
        fid = inhabit(r, p, plan, p.world())
    else:
        fid = r.choice(list(p.maps) * 5 + p.tilesets)
    # make references and images count
    need = needed_static(p, fid)
    # working directories in which the references would resolve to something else
    decoy_dirs = [ROOT + "/decoy", ROOT + "/decoy/deep/er", BASE]
    plan["cwd"] = r.choice([ROOT, BASE, ROOT + "/decoy", ROOT + "/decoy/deep/er",
                            pp.dirname(p.files[fid]["path"])])
    if r.random() < 0.15:
        # of the same name as a directory files are in
        plan["cwd"] = ROOT + "/decoy/" + (pp.basename(pp.dirname(p.files[r.choice(need)]["path"])) or "x")
    plan["dirs"] = decoy_dirs + [pp.dirname(p.files[f]["path"]) for f in p.files]
    # links in the path
    given_abs = p.files[fid]["path"]
    linkmode = r.random()
    alias = None
    if linkmode < 0.4:
        d = pp.dirname(given_abs)
        a = r.choice([ROOT + "/lnk", ROOT + "/decoy/lnk", BASE + "/lnk2"])
        plan["links"].append([a, d if r.random() < 0.6 else pp.relpath(d, pp.dirname(a))])
        alias = pp.join(a, pp.basename(given_abs))
    if linkmode > 0.75:
        # a tileset directory reached through a link: same file, other spelling
        refs = [f for f in need if f != fid]
        if refs:
            t = r.choice(refs)
            d = pp.dirname(p.files[t]["path"])
            a = BASE + "/via"
            plan["links"].append([a, d])
            for owner in need:
                if t in doc_refs(p.doc(owner)):
                    od = pp.dirname(p.files[owner]["path"])
                    plan.setdefault("refs", {})["%s|%s" % (owner, t)] = \
                        pp.join(pp.relpath(a, od), pp.basename(p.files[t]["path"]))
    if r.random() < 0.1:
        # a reference stored as an absolute path
        for owner in need:
            for t in sorted(set(doc_refs(p.doc(owner)))):
                if r.random() < 0.5:
                    plan.setdefault("refs", {})["%s|%s" % (owner, t)] = p.files[t]["path"]
    if alias:
        given = alias if r.random() < 0.5 else pp.relpath(alias, plan["cwd"])
    else:
        given = given_path(r, plan, fid)
    k = r.random()
    if not given.startswith("/") and k < 0.2:
        given = "./" + given
    plan["ops"] = [["load", fid, given]]
    # decoys: other valid documents where a wrong resolution would look
    used = {f["path"] for f in p.files.values()}
    for owner in need:
        for t in sorted(set(doc_refs(p.doc(owner)))):
            ref = plan.get("refs", {}).get("%s|%s" % (owner, t)) or \
                pp.relpath(p.files[t]["path"], pp.dirname(p.files[owner]["path"]))
            spots = [pp.normpath(pp.join(plan["cwd"], ref)),
                     pp.normpath(pp.join(plan["cwd"], pp.basename(ref))),
                     pp.normpath(pp.join(pp.dirname(p.files[fid]["path"]), ref)),
                     pp.normpath(pp.join(pp.dirname(p.files[fid]["path"]), pp.basename(ref))),
                     pp.normpath(pp.join(pp.dirname(p.files[owner]["path"]), pp.basename(ref))),
                     pp.normpath(pp.join(ROOT + "/decoy/deep/er", ref)),
                     pp.normpath(pp.join(ROOT, ref))]
            if alias:
                spots.append(pp.normpath(pp.join(pp.dirname(alias), ref)))
            lk = [a for a, _ in plan["links"]]
            for s in spots:
                if s in used or not s.startswith(ROOT + "/") or any(s == a or s.startswith(a + "/") for a in lk):
                    continue
                if any(u.startswith(s + "/") for u in used) or s in plan["dirs"]:
                    continue
                used.add(s)
                v = p.files[t]["versions"][0]
                doc = copy.deepcopy(v["doc"])
                if doc["kind"] == "tileset":
                    doc["columns"] = doc["columns"] + 77
                    doc["name"] = doc["name"]
                else:
                    doc["object"]["name"] = "DECOY"
                p.files["decoy%d" % len(p.files)] = {"path": s, "kind": doc["kind"], "decoy": True,
                                                     "versions": [{"fmt": v["fmt"], "doc": doc, "style": v["style"]}]}
    if r.random() < 0.2:
        # a file which is a link: references start from the link's directory
        file_links(r, plan, need, r.choice([0.4, 1.0]))
        taken = occupied(plan) | used
        for owner in need:
            st = p.files[owner].get("store")
            for t in sorted(set(doc_refs(p.doc(owner)))) if st else []:
                ref = plan.get("refs", {}).get("%s|%s" % (owner, t)) or \
                    pp.relpath(p.files[t]["path"], pp.dirname(p.files[owner]["path"]))
                for s in (pp.join(pp.dirname(st), ref), pp.join(pp.dirname(st), pp.basename(ref))):
                    put_decoy(r, plan, taken, pp.normpath(s), t)
    if r.random() < 0.06:
        curious(r, plan, probe, need)
    # decoys keep the references of the original, written relative to the decoy
    for f, x in p.files.items():
        if x.get("decoy"):
            for t in doc_refs(x["versions"][0]["doc"]):
                plan.setdefault("refs", {})["%s|%s" % (f, t)] = pp.relpath(
                    p.files[t]["path"], pp.dirname(x["path"]))
    if given.startswith("/") and r.random() < 0.6:
        n = len(probe(plan)["logs"][0])
        for _ in range(r.choice([1, 2, 3])):
            plan["events"].append({"call": 0, "unit": "op", "at": r.randint(1, n),
                                   "do": ["chdir", r.choice(decoy_dirs + [ROOT, pp.dirname(given_abs)])]})
    if r.random() < 0.1:
        dirs = swappable(plan, need, decoy_dirs + [ROOT, plan["cwd"]])
        if dirs:
            plan["ops"].append(["swap", r.choice(dirs), r.random() < 0.7])
            plan["ops"].append(["load", fid, given])
    if r.random() < 0.4:
        cwd2 = r.choice(decoy_dirs + [ROOT])
        plan["ops"].append(["chdir", cwd2])
        plan["ops"].append(["load", fid, pp.relpath(given_abs, cwd2) if r.random() < .7 else given_abs])
    return plan


def run_C15(env, plan):
    for op in plan["ops"]:
        if op[0] == "chdir":
            env.sim.cwd = op[1]
            continue
        if op[0] == "swap":
            env.fs.swap(op[1], op[2])
            continue
        _, fid, given = op
        o = env.load(fid, given)
        if o.raised:
            env.fail("reference-not-found" if not isinstance(o.exc, S.SimBudget) else "not-terminating",
                     "cwd %s, load of %s raised %r" % (env.sim.cwd, given, o.exc))
            continue
        d = env.diff(fid, given, o.canon)
        if d:
            env.fail("wrong-reference", "cwd %s: %s%s" % (env.sim.cwd, given, d))


# ===========================================================================
# C16
def gen_C16(r, probe):
    plan = gen_C11(r, probe)
    plan["events"] = []
    plan["ops"] = plan["ops"][:1]
    w = plan["files"]["world0"]["versions"][0]["doc"]
    wdir = pp.dirname(plan["files"]["world0"]["path"])
    taken = {a for a, _ in plan["extra"]} | {a for a, _ in plan["specials"]} | {a for a, _ in plan["links"]}
    gone = []
    for m in w["maps"]:
        path = pp.normpath(pp.join(wdir, m["fileName"]))
        if path in taken:
            continue
        taken.add(path)
        k = r.random()
        if k < 0.25:
            gone.append(path)                        # missing
        elif k < 0.4:
            plan["specials"].append([path, r.choice(["d", "p"])])
        elif k < 0.6:
            plan["extra"].append([path, "<map"])     # torn
        elif k < 0.8:
            plan["extra"].append([path, "x" * r.choice([0, 100, 300000])])
            plan["noperm"].append(path)
        else:
            plan["extra"].append([path, "y" * 200000])
    if gone and r.random() < 0.4:
        # what might be taken for the missing map: another format, case, place or version of it
        for path in gone:
            d, n = pp.split(path)
            stem, ext = pp.splitext(n)
            for other in r.sample([pp.join(d, stem + ".tmx"), pp.join(d, stem + ".json"), pp.join(d, stem + ".tmj"),
                                   pp.join(d, stem), pp.join(d, n.upper()), pp.join(d, n.capitalize()), path + "~",
                                   path + ".bak", pp.join(wdir, n), pp.join(wdir, "maps", n), pp.join(pp.dirname(d), n),
                                   pp.join(plan["cwd"], n), pp.join(d, unicodedata.normalize("NFD", n))], 5):
                if other != path and other not in taken:
                    taken.add(other)
                    plan["extra"].append([other, "<map/>"])
    elif r.random() < 0.15:
        for path in (probe(dict(plan, ask=True)).get("absent") or [])[:20]:
            if path not in taken and path.startswith(BASE):
                taken.add(path)
                plan["extra"].append([path, "<map/>"])
    for path, _ in list(plan["extra"]):
        if r.random() < 0.4:
            plan["noperm"].append(path)
    if r.random() < 0.3:
        for e in plan["extra"]:
            e[1] = e[1] or "z" * 50000
    return plan


def run_C16(env, plan):
    for _, fid, given in plan["ops"]:
        env.dir_watch = pp.dirname(env.files[fid]["path"])
        o = env.load(fid, given)
        own = env.fs.realpath(env.files[fid]["path"], "/")
        for kind, path in o.ctx.log:
            if kind in ("open", "read"):
                if env.fs.realpath(path, env.sim.cwd) != own:
                    env.fail("map-opened", "loading the world opened %s" % path)
                    break
        if o.raised:
            env.fail("not-terminating" if isinstance(o.exc, S.SimBudget) else "world-error",
                     "load of %s raised %r" % (given, o.exc))
            continue
        d = env.world_diff(fid, given, o.canon)
        if d:
            env.fail("world-wrong", "%s: %s" % (given, d))


GEN = {k[4:]: v for k, v in list(globals().items()) if k.startswith("gen_C")}
RUN = {k[4:]: v for k, v in list(globals().items()) if k.startswith("run_C")}
PROPS = sorted(GEN)
