"""Seeded generator of Tiled documents in a neutral, JSON-able form.

A neutral document says what is stored, not how it is written; render.py writes
it as TMX or JSON bytes and expect.py computes what a load must return.
Every random choice comes from the random.Random passed in.
"""

import copy

ASCII_WORDS = ["wall", "floor", "Spawn Point", "water", "lava", "a", "Layer 1",
               "tree-2", "x_y", "Objects", "", "0", "true", "none", "door<1>", "R&D",
               'say "hi"', "it's", "a,b", "50%", "#tag", "{x}", "<map>", "C:\\dir",
               "$HOME", "${USER}", "~", "%PATH%", "{0}", "%s", "a\\nb", " padded ", "]]>", "&amp;",
               "null", "1e5", "nan", "-0", "tab\tbed", "  ", "007", "1_000", "x.y.z", "line\nbreak",
             "-", "None", "\n", "a\r\nb", "id", "type", "..", "/", "a" * 300]
UNI_WORDS = ["Größe", "地図", "карта", "naïve café", "プレイヤー", "łódź", "emoji \U0001F600",
             "Ω≈ç√", "ﬁn", "é", "é", "ÿþ", "żółć", "한국어",
             "\u00a0pad\u00a0", "a\u2028b", "x\u0085y", "\ufeffbom", "\u3000", "\u200bz", "İıŞ", "１２",
             "e\u0301\u0323", "אבג", "\U0010ffff", "\ue000"]


class G:
    """Generation context: rng + size/feature configuration (swarm style)."""

    def __init__(self, rng, cfg=None):
        self.r = rng
        c = dict(p_uni=0.25, p_opt=0.35, max_layers=4, max_objs=4, max_depth=2,
                 max_tiles=4, dim=6, p_props=0.3, templates=True, groups=True,
                 codecs=["csv", "b64", "zlib", "gzip"], huge=0.0, p_wang=0.25,
                 legacy=0.05, shapes=None, big=0.0, p_noprops=0.04, p_tall=0.05, many=0.0, p_inst=0.5)
        c.update(cfg or {})
        self.c = c
        # one thing there is a lot of
        self.many = rng.choice(["deep", "layers", "objects", "tiles", "frames", "points", "props",
                                "wang", "chunks", "wide"]) if rng.random() < c["many"] else None
        self.tpl_shape, self.tpl_over = {}, set()
        self.uniq = 0
        self.names = []
        self.oid = 0
        self.lid = 0

    # -- scalars -------------------------------------------------------
    def word(self, empty=True):
        r = self.r
        w = r.choice(UNI_WORDS if r.random() < self.c["p_uni"] else ASCII_WORDS)
        if not w and not empty:
            w = "n"
        if r.random() < 0.3:
            w += str(r.randrange(1000))
        return w

    def name(self, prefix):
        if self.names and self.r.random() < 0.12:
            return self.r.choice(self.names)
        self.names.append(self.newname(prefix))
        return self.names[-1]

    def newname(self, prefix):
        self.uniq += 1
        return "%s %d%s" % (prefix, self.uniq,
                            " " + self.r.choice(UNI_WORDS)
                            if self.r.random() < self.c["p_uni"] else "")

    def num(self, lo=-400, hi=400):
        r = self.r
        k = r.random()
        if k < 0.45:
            return r.randint(lo, hi)
        if k < 0.75:
            return r.randint(lo * 8, hi * 8) / 8.0
        if k < 0.77:
            return r.choice([1e-05, -2.5e-07, 1e+20, 123456789.25, 1.5e+16, 4294967296, 0.1 + 0.2])
        return round(r.uniform(lo, hi), r.choice([1, 3, 4, 13]))

    def color(self):
        r = self.r
        n = r.choice([6, 6, 8])
        s = "".join(r.choice("0123456789abcdef") for _ in range(n))
        if r.random() < 0.15:
            s = s.upper()
        return "#" + s

    def opt(self, p=None):
        return self.r.random() < (self.c["p_opt"] if p is None else p)

    def bigtext(self):
        """Text larger than any buffer somebody may read with."""
        r = self.r
        n = r.choice([1500, 5000, 5000, 30000, 70000])
        pool = r.choice(["ab", "é", "地図", "aé地\U0001F600", "\U0001F600", "ß "])
        k = r.randint(1, 7)
        return "".join(pool[(i * k + i // 7) % len(pool)] for i in range(n + r.randint(0, 5)))

    def text(self):
        r = self.r
        if self.c["big"] and r.random() < self.c["big"]:
            return self.bigtext()
        t = self.word()
        if r.random() < 0.2:
            t += "\n" + self.word()
        return t

    # -- properties ----------------------------------------------------
    def props(self, p=None):
        r = self.r
        if r.random() >= (self.c["p_props"] if p is None else p):
            return [] if r.random() < self.c["p_noprops"] else None
        out, names = [], set()
        for _ in range(self.lots("props", r.randint(1, 4), 60)):
            n = self.word(empty=False)
            if n in names:
                continue
            names.add(n)
            t = r.choice(["string", "string", "int", "float", "bool", "color", "file", "class", "object"])
            if t == "string":
                v = self.text()
            elif t == "int":
                v = r.randint(-2 ** 31, 2 ** 31 - 1)
            elif t == "float":
                v = self.num()
            elif t == "bool":
                v = r.random() < 0.5
            elif t == "color":
                v = self.color() if r.random() < 0.85 else ""
            elif t == "object":
                v = r.randint(0, 99)
            elif t == "file":
                v = self.relfile()
            else:
                v = {"hp": r.randint(0, 9)}
            out.append({"name": n, "type": t, "value": v})
        return out

    def relfile(self):
        r = self.r
        if r.random() < 0.03:
            return r.choice(["/simworld/shared/x.png", "/simworld/proj/../a b/y.png", "/no such/z.png"])
        return r.choice(["", "../", "img/", "../img/", "../../", "a b/", "$HOME/", "~/", "./", "img/../"]) + \
            r.choice(["x.png", "tile set.png", "файл.png", "data.txt", "画像.png", "é.png", "${TMPDIR}.png",
                      "e\u0301.png", "50%.png", "a#b.png", "x%20y.png", "~me.png", "x"])

    # -- objects -------------------------------------------------------
    def obj(self, shapes=None):
        r = self.r
        self.oid += 1 if self.oid or r.random() < 0.97 else 0
        sh = r.choice(shapes or self.c["shapes"] or
                      ["rect", "rect", "ellipse", "point", "polygon", "polyline", "text", "tile"])
        o = {"shape": sh, "id": self.oid, "x": self.num(), "y": self.num(),
             "width": 0, "height": 0, "rotation": 0, "visible": True, "name": "",
             "class": "", "class_key": r.choice(["class", "type"]),
             "properties": self.props()}
        if sh not in ("point", "polygon", "polyline") and r.random() < 0.9:
            o["width"] = abs(self.num()) or 1
            o["height"] = abs(self.num()) or 1
            if r.random() < 0.06:
                o[r.choice(["width", "height"])] = 0
        if self.opt():
            o["rotation"] = self.num(-360, 360)
        if self.opt(0.2):
            o["visible"] = False
        if self.opt(0.6):
            o["name"] = self.word()
        if self.opt():
            o["class"] = self.word()
        if sh in ("polygon", "polyline"):
            o["points"] = [[self.num(), self.num()] for _ in range(self.lots("points", r.randint(2, 5), 300))]
        if sh == "tile":
            o["gid"] = self.gid()
        if sh == "text":
            o["text"] = self.text_fields()
        return o

    def text_fields(self):
        r = self.r
        t = {"text": "" if r.random() < 0.05 else self.text()}
        for k, f in (("color", self.color), ("fontfamily", lambda: self.word(False)),
                     ("pixelsize", lambda: r.randint(4, 90)),
                     ("bold", self.flag), ("italic", self.flag), ("kerning", self.flag),
                     ("strikeout", self.flag), ("underline", self.flag), ("wrap", self.flag),
                     ("halign", lambda: r.choice(["left", "center", "right", "justify"])),
                     ("valign", lambda: r.choice(["top", "center", "bottom"]))):
            if self.opt():
                t[k] = f()
        return t

    def lots(self, what, n, top):
        """n, or a large number once per document if this is the thing there is a lot of."""
        if self.many == what:
            self.many = None
            return self.r.randint(max(1, top // 3), top)
        return n

    def flag(self):
        return self.r.random() < 0.5

    def gid(self, hi=200):
        r = self.r
        g = r.randint(1, hi)
        if r.random() < 0.15:
            g = r.choice([255, 256, 65535, 65536, 65537, 0xFFFFFF, 0x1000000, 0x0FFFFFFF,
                          0xFFFFFFFF, 0x80000001, r.randint(1, 0x0FFFFFFF), r.randint(200, 70000)])
        if r.random() < 0.3:
            g |= r.choice([0x80000000, 0x40000000, 0x20000000, 0xE0000000, 0x10000000])
        return g

    def mix_ids(self, things):
        """Give things ids which do not follow their order (as after moving them in Tiled)."""
        r = self.r
        ids = [x["id"] for x in things]
        if r.random() < 0.5:
            return
        if r.random() < 0.3:
            top = max(ids, default=0)
            ids = r.sample(range(1, top * 50 + 10), len(ids))
        r.shuffle(ids)
        for x, i in zip(things, ids):
            x["id"] = i

    # -- layers --------------------------------------------------------
    def layer_common(self, type_):
        r = self.r
        self.lid += 1 if self.lid or r.random() < 0.97 else 0
        L = {"type": type_, "name": self.word(), "id": self.lid, "opacity": 1,
             "visible": True, "properties": self.props()}
        if self.opt():
            L["opacity"] = r.choice([0, 0.5, 0.25, 0.33, 0.875])
        if self.opt(0.2):
            L["visible"] = False
        if self.opt():
            L["offset"] = [self.num(), self.num()]
            if self.opt():
                L["offset"][r.randrange(2)] = 0
        if self.opt():
            L["parallaxx"] = r.choice([0, 0.5, 1.4, 2, -1])
        if self.opt():
            L["parallaxy"] = r.choice([0, 0.5, 1.3, 2, -1])
        if self.opt():
            L["tint"] = self.color()
        if self.opt():
            L["class"] = self.word()
        if self.opt(0.06):
            L["noid"] = True            # versions before 1.2
        if type_ != "tilelayer" and self.opt(0.1):
            L["oldsize"] = [r.randint(0, 9), r.randint(0, 9)] if r.random() < 0.5 else [0, 0]
        if type_ == "imagelayer" or self.opt(0.1):
            if self.opt():
                L["repeatx"] = self.flag()
            if self.opt():
                L["repeaty"] = self.flag()
        return L

    def grid(self, w, h):
        r = self.r
        mode = r.random()
        if mode < 0.2:
            v = self.gid()
            return [v] * (w * h)
        if mode < 0.35:
            # rows that repeat
            rows = [[self.gid() for _ in range(w)] for _ in range(r.choice([1, 2, 3]))]
            return [v for i in range(h) for v in rows[r.randrange(len(rows))]]
        return [0 if r.random() < 0.2 else self.gid() for _ in range(w * h)]

    def tile_layer(self, infinite):
        r = self.r
        L = self.layer_common("tilelayer")
        d = self.c["dim"]
        L["width"], L["height"] = r.randint(1, d), r.randint(1, d)
        if r.random() < self.c["huge"]:
            L["width"], L["height"] = r.choice([(64, 40), (150, 60), (31, 97), (200, 120)])
        if r.random() < self.c["p_tall"]:
            L["width"], L["height"] = r.choice([(1, 17), (2, 33), (3, 40), (40, 2), (70, 1), (16, 18)])
        if not infinite:
            L["width"] = self.lots("wide", L["width"], 1200)
        L["enc"] = r.choice(self.c["codecs"])
        if infinite:
            L["chunks"] = []
            for _ in range(self.lots("chunks", r.randint(0, 3), 40)):
                w, h = r.choice([(16, 16), (4, 4), (2, 3), (1, 1), (3, 1)])
                L["chunks"].append({"x": r.randint(-64, 64), "y": r.randint(-64, 64),
                                    "width": w, "height": h, "data": self.grid(w, h)})
            self.twins(L["chunks"], ("x", "y"))
            if r.random() < 0.7:
                L["start"] = [r.randint(-64, 64), r.randint(-64, 64)]
        else:
            L["data"] = self.grid(L["width"], L["height"])
        return L

    def object_layer(self, tpl_ids=(), shapes=None, n=None):
        r = self.r
        L = self.layer_common("objectgroup")
        L["draworder"] = r.choice(["topdown", "index", "topdown"])
        L["objects"] = []
        for _ in range(self.lots("objects", r.randint(0, self.c["max_objs"]), 150) if n is None else n):
            if tpl_ids and r.random() < self.c["p_inst"]:
                L["objects"].append(self.instance(r.choice(tpl_ids)))
            else:
                L["objects"].append(self.obj(shapes))
        self.twins(L["objects"], ("id", "x"))
        return L

    def instance(self, fid):
        r = self.r
        self.oid += 1
        o = {"shape": "template", "ref": fid, "id": self.oid, "x": self.num(), "y": self.num(),
             "class_key": r.choice(["class", "type"]), "over": {}}
        ov = o["over"]
        if self.opt(0.3):
            ov["name"] = self.word()
        if self.opt(0.2):
            ov["rotation"] = self.num(-360, 360)
        if self.opt(0.2):
            ov["size"] = [abs(self.num()) or 1, abs(self.num()) or 1]
        if self.opt(0.2):
            ov["visible"] = self.flag()
        if self.opt(0.3):
            p = self.props(1)
            if p:
                ov["properties"] = p
        if self.opt(0.2):
            ov["class"] = self.word()
        shape = self.tpl_shape.get(fid)
        if self.opt(0.25) and shape in ("text", "polygon", "polyline", "tile"):
            if shape == "tile":
                ov["gid"] = self.gid()
            elif shape == "text":
                ov["text"] = self.text_fields()
            else:
                ov["shape"] = shape if r.random() < 0.7 else r.choice(["polygon", "polyline"])
                ov["points"] = [[self.num(), self.num()] for _ in range(r.randint(2, 5))]
            self.tpl_over.add(fid)
        return o

    def image_layer(self):
        L = self.layer_common("imagelayer")
        L["image"] = self.relfile()
        if self.opt():
            L["transparent"] = self.color()[:7]
        L["iw"], L["ih"] = self.r.randint(1, 99), self.r.randint(1, 99)
        return L

    def layer(self, infinite, tpl_ids, depth=0):
        r = self.r
        kinds = ["tilelayer"] * 3 + ["objectgroup"] * 3 + ["imagelayer"]
        if self.c["groups"] and depth < self.c["max_depth"]:
            kinds += ["group"] * 2
        if tpl_ids:
            kinds += ["objectgroup"] * (2 if self.c["p_inst"] <= 0.5 else 12)
            if self.c["p_inst"] > 0.5 and "group" in kinds:
                kinds += ["group"] * 6
        k = r.choice(kinds)
        if k == "tilelayer":
            return self.tile_layer(infinite)
        if k == "objectgroup":
            return self.object_layer(tpl_ids)
        if k == "imagelayer":
            return self.image_layer()
        L = self.layer_common("group")
        L["layers"] = [self.layer(infinite, tpl_ids, depth + 1)
                       for _ in range(r.randint(0, 3))]
        return L

    # -- tilesets ------------------------------------------------------
    def tileset(self, name=None):
        r = self.r
        tc = r.randint(1, 40)
        t = {"kind": "tileset", "name": name or self.name("tiles"), "tilecount": tc,
             "tilewidth": r.choice([8, 16, 32, 48]), "tileheight": r.choice([8, 16, 32, 24]),
             "columns": r.randint(0, 9), "spacing": r.randint(0, 3), "margin": r.randint(0, 3),
             "version": r.choice(["1.10", "1.9", "1.6", "1.2"]), "tiledversion": "1.10.%d" % r.randint(0, 9),
             "properties": self.props()}
        if self.opt(0.15):
            del t["version"]
        if self.opt(0.15):
            del t["tiledversion"]
        collection = r.random() < 0.4
        if not collection:
            t["image"] = self.relfile()
            t["imagewidth"], t["imageheight"] = r.randint(1, 512), r.randint(1, 512)
            if self.opt():
                t["transparent"] = self.color()[:7]
        for k, f in (("objectalignment", lambda: r.choice(["center", "bottomleft", "top"])),
                     ("backgroundcolor", self.color),
                     ("tileoffset", lambda: [r.randint(-9, 9), r.randint(-9, 9)]),
                     ("class", self.word),
                     ("tilerendersize", lambda: r.choice(["tile", "grid"])),
                     ("fillmode", lambda: r.choice(["stretch", "preserve-aspect-fit"])),
                     ("grid", lambda: [r.choice(["orthogonal", "isometric"]), r.randint(1, 64), r.randint(1, 64)]),
                     ("transformations", lambda: [self.flag() for _ in range(4)])):
            if self.opt():
                t[k] = f()
        tiles = []
        if collection or self.opt(0.6):
            n = self.lots("tiles", r.randint(1, self.c["max_tiles"]), 120)
            if n > tc:
                t["tilecount"] = tc = n + r.randint(0, 9)
            top = tc * r.choice([2, 9]) if collection and r.random() < 0.25 else tc     # gaps in a collection
            ids = r.sample(range(top), min(tc, n))
            for i in ids:
                tiles.append(self.tile(i, collection))
        self.twins(tiles, ("id",))
        t["tiles"] = tiles
        if self.opt(self.c["p_wang"]):
            t["wangsets"] = [self.wangset(tc) for _ in range(r.randint(1, 2))]
        return t

    def twins(self, lst, but):
        """Now and then entries that differ in no more than what tells them apart."""
        r = self.r
        if len(lst) < 2 or r.random() > 0.12:
            return
        for _ in range(r.choice([1, 2, len(lst)])):
            i = r.randrange(len(lst))
            j = r.choice([i - 1, i - 1, r.randrange(len(lst))])
            if lst[i] is not lst[j]:
                keep = {k: lst[j][k] for k in but if k in lst[j]}
                lst[j].clear()
                lst[j].update(copy.deepcopy({k: v for k, v in lst[i].items() if k not in but}), **keep)

    def repeats(self, lst):
        """Now and then equal entries, next to each other or apart."""
        r = self.r
        if lst and r.random() < 0.15:
            lst = list(lst)
            for _ in range(r.choice([1, 1, 3])):
                i = r.randrange(len(lst))
                x = copy.deepcopy(lst[i])
                lst.insert(r.choice([i, i + 1, r.randint(0, len(lst))]), x)
        return lst

    def tile(self, i, collection):
        r = self.r
        t = {"id": i, "class_key": r.choice(["class", "type"]), "properties": self.props()}
        if self.opt():
            t["class"] = self.word()
        if self.opt():
            t["animation"] = [[r.randint(0, 39), r.randint(1, 900)] for _ in range(self.lots("frames", r.randint(1, 4), 90))]
            t["animation"] = self.repeats(t["animation"])
        if self.opt():
            save, self.lid, self.oid = (self.lid, self.oid), 0, 0
            L = self.object_layer(shapes=["rect", "ellipse", "polygon", "polyline", "point"])
            self.lid, self.oid = save
            self.mix_ids(L["objects"])
            t["objects"] = L
        if collection:
            t["image"] = self.relfile()
            t["imagewidth"], t["imageheight"] = r.randint(1, 512), r.randint(1, 512)
            if self.opt(0.3):
                t["x"], t["y"] = r.randint(0, 64), r.randint(0, 64)
            if self.opt(0.3):
                t["width"], t["height"] = r.randint(1, 64), r.randint(1, 64)
        return t

    def wangset(self, tc):
        r = self.r
        w = {"name": self.word(), "type": r.choice(["corner", "edge", "mixed"]),
             "tile": r.randint(-1, tc - 1), "colors": [], "tiles": [], "properties": self.props()}
        if self.opt():
            w["class"] = self.word()
        nc = self.lots("wang", r.randint(1, 4), 60)
        for _ in range(nc):
            c = {"name": self.word(), "color": self.color(), "tile": r.randint(-1, tc - 1),
                 "probability": r.choice([1, 0.5, 0.01, 2]), "properties": self.props()}
            if self.opt():
                c["class"] = self.word()
            w["colors"].append(c)
        for i in r.sample(range(tc), min(tc, r.randint(0, 4))):
            w["tiles"].append([i, [r.randint(0, nc) for _ in range(8)]])
        return w

    # -- templates -----------------------------------------------------
    def template(self, tileset_fid=None, tilecount=1, shape=None):
        r = self.r
        if tileset_fid is not None:
            o = self.obj(["tile"])
            o["gid"] = r.randint(1, max(1, tilecount))
            if r.random() < 0.2:
                o["gid"] |= 0x80000000
        else:
            o = self.obj([shape] if shape else
                         ["rect", "ellipse", "point", "polygon", "polyline", "text", "text"])
        return {"kind": "template", "tileset": tileset_fid, "object": o}

    # -- maps ----------------------------------------------------------
    def map(self, ext=(), tpl_ids=()):
        """ext: list of (fid, number of ids) external tilesets to reference."""
        r = self.r
        infinite = r.random() < 0.25
        m = {"kind": "map", "infinite": infinite,
             "width": r.randint(1, 60), "height": r.randint(1, 60),
             "tilewidth": r.choice([8, 16, 32]), "tileheight": r.choice([8, 16, 32]),
             "orientation": r.choice(["orthogonal", "isometric", "staggered", "hexagonal"]),
             "renderorder": r.choice(["right-down", "right-up", "left-down", "left-up"]),
             "version": r.choice(["1.10", "1.9", "1.6", "1.2"]),
             "tiledversion": r.choice(["1.10.2", "1.9.2", "1.6.0"]),
             "nextlayerid": r.randint(1, 99), "nextobjectid": r.randint(1, 999),
             "properties": self.props()}
        if self.opt():
            m["backgroundcolor"] = self.color()
        if self.opt():
            m["class"] = self.word()
        if m["orientation"] == "hexagonal" or self.opt(0.1):
            m["hexsidelength"] = r.randint(0, 40)
        if m["orientation"] in ("hexagonal", "staggered"):
            m["staggeraxis"] = r.choice("xy")
            m["staggerindex"] = r.choice(["odd", "even"])
        if self.opt():
            m["parallaxoriginx"] = self.num()
        if self.opt():
            m["parallaxoriginy"] = self.num()
        gid = 1
        if r.random() < 0.04:
            # written by a version of Tiled which did not store these
            del m["nextlayerid"], m["tiledversion"]
        m["tilesets"] = []
        items = [("ext", f, n) for f, n in ext] + \
            [("emb", None, None) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        r.shuffle(items)
        for k, f, n in items:
            if k == "ext":
                m["tilesets"].append({"firstgid": gid, "ref": f})
                gid += n
                if r.random() < 0.04:
                    m["tilesets"].append({"firstgid": gid, "ref": f})
                    gid += n
            else:
                t = self.tileset()
                m["tilesets"].append({"firstgid": gid, "embedded": t})
                gid += span(t)
            if r.random() < 0.05:
                gid += r.choice([1, 7, 1000])            # an id range given up
        if r.random() < 0.06:
            r.shuffle(m["tilesets"])
        m["layers"] = [self.layer(infinite, list(tpl_ids))
                       for _ in range(self.lots("layers", r.randint(0, self.c["max_layers"]), 40))]
        for _ in range(self.lots("deep", 0, 25)):
            L = self.layer_common("group")
            L["layers"] = m["layers"]
            m["layers"] = [L]
        layers = list(walk_layers(m["layers"]))
        self.twins([L for L in layers if L["type"] == "tilelayer"], ("id", "name"))
        self.mix_ids(layers)
        self.mix_ids([o for L in layers if L["type"] == "objectgroup" for o in L["objects"]])
        return m


# ---------------------------------------------------------------------------
def span(tileset):
    """How many global ids a tileset takes."""
    return max([tileset["tilecount"]] + [t["id"] + 1 for t in tileset["tiles"]])


def walk_layers(layers):
    for L in layers:
        yield L
        if L["type"] == "group":
            yield from walk_layers(L["layers"])


def instances(doc):
    """Template instances of a map in document order."""
    for L in walk_layers(doc["layers"]):
        if L["type"] == "objectgroup":
            for o in L["objects"]:
                if o["shape"] == "template":
                    yield o


def refs(doc):
    """File ids a document refers to directly."""
    if doc["kind"] == "map":
        out = [t["ref"] for t in doc["tilesets"] if "ref" in t]
        out += [o["ref"] for o in instances(doc)]
        return out
    if doc["kind"] == "template":
        return [doc["tileset"]] if doc["tileset"] else []
    return []
