"""Write a neutral document (gen.py) as TMX/TSX/TX or JSON bytes."""
import base64
import gzip
import json
import random
import struct
import zlib

import zstdstub


def num(v):
    if isinstance(v, bool):
        return "1" if v else "0"
    return repr(v)


# ---------------------------------------------------------------- XML tree
class El:
    def __init__(self, tag, attrs=None, text=None):
        self.tag, self.attrs, self.text, self.kids = tag, dict(attrs or {}), text, []

    def add(self, el):
        self.kids.append(el)
        return el


def b1(v):
    return "1" if v else "0"


class TMX:
    """style: dict(seed) decides how, never what."""

    def __init__(self, seed, refstr):
        self.r = random.Random("tmx%d" % seed)
        self.refstr = refstr
        r = self.r
        self.indent = r.choice([" ", "  ", "\t", ""])
        self.nl = r.choice(["\n", "\n", "\n", "\r\n"])
        self.charref = r.random() < 0.2
        self.quote = r.choice(['"', '"', '"', "'"])
        self.shuffle = r.random() < 0.3
        self.decl = r.random() < 0.9
        self.comments = r.random() < 0.15
        # what may stand before the root element
        self.prolog = r.choice(["<!-- made by hand -->", "<!-- <map> -->", "<!--{}-->",
                                '<!DOCTYPE map SYSTEM "http://mapeditor.org/dtd/1.0/map.dtd">',
                                "<?app note?>"]) if r.random() < 0.1 else ""
        self.head = '<?xml version="1.0" encoding="UTF-8"?>' if r.random() < 0.9 else \
            r.choice(["<?xml version='1.0' encoding='utf-8'?>", '<?xml version="1.0"?>',
                      '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>'])
        self.selfclose = r.random() < 0.8
        self.b64ws = r.choice(["\n   ", "", "\n", " "])
        self.level = r.choice([1, 6, 9])
        self.oneline = r.random() < 0.1
        self.extras = r.random() < 0.25         # what Tiled writes and a reader has no use for

    def settings(self, el):
        if self.extras:
            e = el.add(El("editorsettings"))
            e.add(El("chunksize", {"width": "32", "height": "32"}))
            e.add(El("export", {"target": "other.json", "format": "json"}))

    def esc(self, s, attr):
        out = []
        for ch in s:
            o = ord(ch)
            if ch == "&":
                out.append("&amp;")
            elif ch == "<":
                out.append("&lt;")
            elif ch == ">":
                out.append("&gt;")
            elif ch == '"' and attr:
                out.append("&quot;")
            elif ch == "'" and attr:
                out.append("&apos;")
            elif ch == "\r" or ch in "\n\t" and attr:
                out.append("&#%d;" % o)
            elif o > 126 and self.charref:
                out.append("&#x%x;" % o)
            else:
                out.append(ch)
        return "".join(out)

    def dump(self, el):
        nl = "" if self.oneline else self.nl
        head = self.head + nl if self.decl else ""
        if self.prolog:
            head += self.prolog + nl
        return (head + self._d(el, 0) + self.r.choice(["", nl])).encode("utf-8")

    def _d(self, el, d):
        nl = "" if self.oneline else self.nl
        ind = "" if self.oneline else self.indent * d
        items = list(el.attrs.items())
        if self.shuffle:
            self.r.shuffle(items)
        q = self.quote
        a = "".join(" %s=%s%s%s" % (k, q, self.esc(v, True), q) for k, v in items)
        if not el.kids and not el.text:
            if self.selfclose:
                return "%s<%s%s/>%s" % (ind, el.tag, a, nl)
            return "%s<%s%s></%s>%s" % (ind, el.tag, a, el.tag, nl)
        if el.text is not None and not el.kids:
            t = self.esc(el.text, False)
            if self.nl != "\n":
                t = t.replace("\n", self.nl)
            return "%s<%s%s>%s</%s>%s" % (ind, el.tag, a, t, el.tag, nl)
        body = "".join(self._d(k, d + 1) for k in el.kids)
        c = "<!-- x -->" if self.comments and self.r.random() < 0.2 else ""
        return "%s<%s%s>%s%s%s%s</%s>%s" % (ind, el.tag, a, nl, c, body, ind, el.tag, nl)

    # -- pieces ---------------------------------------------------------
    def props(self, el, props):
        if props is None:
            return
        pe = el.add(El("properties"))
        for p in props:
            t, v = p["type"], p["value"]
            a = {"name": p["name"]}
            if t != "string" or self.r.random() < 0.1:
                a["type"] = t
            if t == "class":
                a["propertytype"] = "C"
                e = pe.add(El("property", a))
                self.props(e, [{"name": k, "type": "int", "value": x} for k, x in v.items()])
                continue
            if t == "bool":
                a["value"] = "true" if v else "false"
            elif t in ("int", "float", "object"):
                a["value"] = num(v)
            elif t == "string" and "\n" in v and p.get("multi", True):
                pe.add(El("property", a, v))
                continue
            else:
                a["value"] = v
            pe.add(El("property", a))

    def data_text(self, L, data, w):
        enc = L["enc"]
        if enc == "csv":
            rows = [",".join(map(str, data[i:i + w])) for i in range(0, len(data), w)]
            sep = self.r.choice([",\n", ",", ", "])
            return self.r.choice(["\n", ""]) + sep.join(rows) + self.r.choice(["\n", ""])
        raw = b"".join(struct.pack("<I", x) for x in data)
        if "payload" in L and L["payload"] is not None and L["payload"][0] is data:
            raw = L["payload"][1]
        elif enc == "zlib":
            raw = zlib.compress(raw, self.level)
        elif enc == "gzip":
            raw = gzip.compress(raw, self.level, mtime=0)
        elif enc == "zstd":
            raw = zstdstub.compress(raw)
        return self.b64ws + base64.b64encode(raw).decode() + self.b64ws

    def layer_attrs(self, L):
        a = {} if L.get("noid") else {"id": str(L["id"])}
        if L["name"] or self.r.random() < 0.5:
            a["name"] = L["name"]
        if "class" in L:
            a["class"] = L["class"]
        if L["opacity"] != 1 or self.r.random() < 0.1:
            a["opacity"] = num(L["opacity"])
        if not L["visible"] or self.r.random() < 0.1:
            a["visible"] = b1(L["visible"])
        if "offset" in L:
            for k, v in zip(("offsetx", "offsety"), L["offset"]):
                # Tiled stores a part only where it is not 0
                if v or not any(L["offset"]) or self.r.random() < 0.5:
                    a[k] = num(v)
        for k in ("parallaxx", "parallaxy"):
            if k in L:
                a[k] = num(L[k])
        if "tint" in L:
            a["tintcolor"] = L["tint"]
        for k in ("repeatx", "repeaty"):
            if k in L:
                a[k] = b1(L[k])
        if self.extras:
            a["locked"] = "1"
        return a

    def layer(self, L, ctx):
        a = self.layer_attrs(L)
        t = L["type"]
        if t == "tilelayer":
            a["width"], a["height"] = str(L["width"]), str(L["height"])
            el = El("layer", a)
            self.props(el, L["properties"])
            enc = L["enc"]
            da = {"encoding": "csv" if enc == "csv" else "base64"}
            if enc not in ("csv", "b64"):
                da["compression"] = enc
            if "chunks" in L:
                de = el.add(El("data", da))
                for c in L["chunks"]:
                    de.add(El("chunk", {"x": str(c["x"]), "y": str(c["y"]),
                                        "width": str(c["width"]), "height": str(c["height"])},
                              c["raw"] if "raw" in c else self.data_text(L, c["data"], c["width"])))
            else:
                el.add(El("data", da, L["raw"] if "raw" in L else
                          self.data_text(L, L["data"], L["width"])))
            return el
        if t == "objectgroup":
            if L["draworder"] != "topdown" or self.r.random() < 0.3:
                a["draworder"] = L["draworder"]
            el = El("objectgroup", a)
            self.props(el, L["properties"])
            for o in L["objects"]:
                el.add(self.obj(o, ctx))
            return el
        if t == "imagelayer":
            el = El("imagelayer", a)
            ia = {"source": L["image"], "width": str(L["iw"]), "height": str(L["ih"])}
            if "transparent" in L:
                ia["trans"] = L["transparent"][1:] if self.r.random() < 0.5 else L["transparent"]
            el.add(El("image", ia))
            self.props(el, L["properties"])
            return el
        el = El("group", a)
        self.props(el, L["properties"])
        for k in L["layers"]:
            el.add(self.layer(k, ctx))
        return el

    def obj(self, o, ctx, template=False):
        a = {}
        if not template:
            a["id"] = str(o["id"])
        if o["shape"] == "template":
            ov = o["over"]
            a["template"] = self.refstr(ctx, o["ref"])
            if "name" in ov:
                a["name"] = ov["name"]
            a["x"], a["y"] = num(o["x"]), num(o["y"])
            if "size" in ov:
                a["width"], a["height"] = num(ov["size"][0]), num(ov["size"][1])
            if "rotation" in ov:
                a["rotation"] = num(ov["rotation"])
            if "visible" in ov:
                a["visible"] = b1(ov["visible"])
            if "class" in ov:
                a[o["class_key"]] = ov["class"]
            if "gid" in ov:
                a["gid"] = str(ov["gid"])
            el = El("object", a)
            self.props(el, ov.get("properties"))
            self.shape(el, dict(ov, shape="text" if "text" in ov else ov.get("shape")))
            return el
        if o["name"]:
            a["name"] = o["name"]
        if o["class"]:
            a[o["class_key"]] = o["class"]
        if o["shape"] == "tile":
            a["gid"] = str(o["gid"])
        if not template:
            a["x"], a["y"] = num(o["x"]), num(o["y"])
        both = (o["width"] or o["height"]) and self.r.random() < 0.7
        for k in ("width", "height"):
            if o[k] or both:
                a[k] = num(o[k])
        if o["rotation"]:
            a["rotation"] = num(o["rotation"])
        if not o["visible"]:
            a["visible"] = "0"
        el = El("object", a)
        self.props(el, o["properties"])
        self.shape(el, o)
        return el

    def shape(self, el, o):
        sh = o["shape"]
        if sh in ("ellipse", "point"):
            el.add(El(sh))
        elif sh in ("polygon", "polyline"):
            el.add(El(sh, {"points": " ".join("%s,%s" % (num(x), num(y)) for x, y in o["points"])}))
        elif sh == "text":
            ta = {}
            for k, v in o["text"].items():
                if k == "text":
                    continue
                ta[k] = b1(v) if isinstance(v, bool) else str(v)
            el.add(El("text", ta, o["text"]["text"]))

    def tileset(self, t, firstgid=None):
        a = {}
        if firstgid is not None:
            a["firstgid"] = str(firstgid)
        else:
            for k in ("version", "tiledversion"):
                if k in t:
                    a[k] = t[k]
        a["name"] = t["name"]
        if "class" in t:
            a["class"] = t["class"]
        a["tilewidth"], a["tileheight"] = str(t["tilewidth"]), str(t["tileheight"])
        for k in ("spacing", "margin"):
            if t[k] or self.r.random() < 0.2:
                a[k] = str(t[k])
        a["tilecount"], a["columns"] = str(t["tilecount"]), str(t["columns"])
        for k in ("objectalignment", "backgroundcolor", "tilerendersize", "fillmode"):
            if k in t:
                a[k] = t[k]
        if firstgid is not None:
            for k in ("version", "tiledversion"):
                if k in t:
                    a[k] = t[k]
        el = El("tileset", a)
        self.settings(el)
        if "tileoffset" in t:
            el.add(El("tileoffset", {"x": str(t["tileoffset"][0]), "y": str(t["tileoffset"][1])}))
        if "grid" in t:
            g = t["grid"]
            el.add(El("grid", {"orientation": g[0], "width": str(g[1]), "height": str(g[2])}))
        self.props(el, t["properties"])
        if "transformations" in t:
            h, v, ro, p = t["transformations"]
            el.add(El("transformations", {"hflip": b1(h), "vflip": b1(v), "rotate": b1(ro),
                                          "preferuntransformed": b1(p)}))
        if "image" in t:
            ia = {"source": t["image"]}
            if "transparent" in t:
                ia["trans"] = t["transparent"][1:] if self.r.random() < 0.5 else t["transparent"]
            ia["width"], ia["height"] = str(t["imagewidth"]), str(t["imageheight"])
            el.add(El("image", ia))
        for x in t["tiles"]:
            ta = {"id": str(x["id"])}
            if "class" in x:
                ta[x["class_key"]] = x["class"]
            for k in ("x", "y", "width", "height"):
                if k in x:
                    ta[k] = str(x[k])
            if self.extras:
                ta["probability"] = "0.5"
            te = el.add(El("tile", ta))
            self.props(te, x["properties"])
            if "image" in x:
                te.add(El("image", {"width": str(x["imagewidth"]), "height": str(x["imageheight"]),
                                    "source": x["image"]}))
            if "objects" in x:
                te.add(self.layer(x["objects"], None))
            if "animation" in x:
                ae = te.add(El("animation"))
                for tid, dur in x["animation"]:
                    ae.add(El("frame", {"tileid": str(tid), "duration": str(dur)}))
        if "wangsets" in t:
            ws = el.add(El("wangsets"))
            for w in t["wangsets"]:
                wa = {"name": w["name"]}
                if "class" in w:
                    wa["class"] = w["class"]
                wa["type"], wa["tile"] = w["type"], str(w["tile"])
                we = ws.add(El("wangset", wa))
                self.props(we, w["properties"])
                for c in w["colors"]:
                    ca = {"name": c["name"]}
                    if "class" in c:
                        ca["class"] = c["class"]
                    ca.update(color=c["color"], tile=str(c["tile"]), probability=num(c["probability"]))
                    ce = we.add(El("wangcolor", ca))
                    self.props(ce, c["properties"])
                for i, ids in w["tiles"]:
                    we.add(El("wangtile", {"tileid": str(i), "wangid": ",".join(map(str, ids))}))
        return el

    def map(self, m, ctx):
        a = {k: m[k] for k in ("version", "tiledversion") if k in m}
        if "class" in m:
            a["class"] = m["class"]
        a["orientation"], a["renderorder"] = m["orientation"], m["renderorder"]
        for k in ("width", "height", "tilewidth", "tileheight"):
            a[k] = str(m[k])
        if m["infinite"] or "nextlayerid" in m:
            a["infinite"] = b1(m["infinite"])
        for k in ("hexsidelength", "staggeraxis", "staggerindex", "backgroundcolor"):
            if k in m:
                a[k] = str(m[k])
        for k in ("parallaxoriginx", "parallaxoriginy"):
            if k in m:
                a[k] = num(m[k])
        for k in ("nextlayerid", "nextobjectid"):
            if k in m:
                a[k] = str(m[k])
        if self.extras:
            a["compressionlevel"] = "6"
        el = El("map", a)
        self.settings(el)
        self.props(el, m["properties"])
        for t in m["tilesets"]:
            if "ref" in t:
                el.add(El("tileset", {"firstgid": str(t["firstgid"]), "source": self.refstr(ctx, t["ref"])}))
            else:
                el.add(self.tileset(t["embedded"], t["firstgid"]))
        for L in m["layers"]:
            el.add(self.layer(L, ctx))
        return el

    def template(self, t, ctx):
        el = El("template")
        if t["tileset"]:
            el.add(El("tileset", {"firstgid": "1", "source": self.refstr(ctx, t["tileset"])}))
        el.add(self.obj(t["object"], ctx, template=True))
        return el


class JSN:
    def __init__(self, seed, refstr):
        self.r = random.Random("json%d" % seed)
        self.refstr = refstr
        r = self.r
        self.indent = r.choice([None, None, 1, 4, "\t"])
        self.ascii = r.random() < 0.3
        self.order = r.choice(["as", "sort", "shuffle"])
        self.lead = r.choice(["", "", "", " ", "\n", "\r\n  ", "\t"])
        self.tail = r.choice(["", "\n", " \n"])
        self.nl = r.choice(["\n", "\n", "\r\n"])
        self.level = r.choice([1, 6, 9])
        self.seps = r.choice([None, (",", ":"), (", ", " : ")])
        # maps where new versions write lists, as old versions did
        self.legacy = self.order == "as" and r.random() < 0.15
        self.extras = r.random() < 0.25         # what Tiled writes and a reader has no use for

    def settings(self, d):
        if self.extras:
            d["editorsettings"] = {"chunksize": {"width": 32, "height": 32},
                                   "export": {"target": "other.tmx", "format": "tmx"}}

    def dump(self, d):
        s = json.dumps(self.shuf(d), ensure_ascii=self.ascii, indent=self.indent,
                       separators=self.seps, sort_keys=self.order == "sort")
        if self.nl != "\n" and self.indent is not None:
            s = s.replace("\n", self.nl)
        return (self.lead + s + self.tail).encode("utf-8")

    def shuf(self, d):
        if self.order != "shuffle":
            return d
        if isinstance(d, dict):
            ks = list(d)
            self.r.shuffle(ks)
            return {k: self.shuf(d[k]) for k in ks}
        if isinstance(d, list):
            if d and isinstance(d[0], int):
                return d
            return [self.shuf(x) for x in d]
        return d

    def props(self, d, props, legacy=True):
        if props and self.legacy and legacy and \
                all(p["type"] in ("string", "int", "float", "bool") for p in props):
            d["properties"] = {p["name"]: p["value"] for p in props}
        elif props is not None:
            d["properties"] = [dict(p) for p in props]
            for p in d["properties"]:
                p.pop("multi", None)
                if p["type"] == "class":
                    p["propertytype"] = "C"

    def data(self, L, data):
        enc = L["enc"]
        if enc == "csv":
            return data
        raw = b"".join(struct.pack("<I", x) for x in data)
        if enc == "zlib":
            raw = zlib.compress(raw, self.level)
        elif enc == "gzip":
            raw = gzip.compress(raw, self.level, mtime=0)
        elif enc == "zstd":
            raw = zstdstub.compress(raw)
        return base64.b64encode(raw).decode()

    def oldversion(self, d):
        """Old versions wrote the format version as a number."""
        if self.legacy and d.get("version", "0")[-1] != "0":
            d["version"] = float(d["version"])

    def layer(self, L, ctx):
        d = {"type": L["type"], "name": L["name"], "id": L["id"], "opacity": L["opacity"],
             "visible": L["visible"], "x": 0, "y": 0}
        if L.get("noid"):
            del d["id"]
        if "oldsize" in L:
            d["width"], d["height"] = L["oldsize"]
        if "offset" in L:
            for k, v in zip(("offsetx", "offsety"), L["offset"]):
                if v or not any(L["offset"]) or self.r.random() < 0.5:
                    d[k] = v
        for k in ("parallaxx", "parallaxy", "repeatx", "repeaty", "class"):
            if k in L:
                d[k] = L[k]
        if self.extras:
            d["locked"] = True
        if "tint" in L:
            d["tintcolor"] = L["tint"]
        self.props(d, L["properties"])
        t = L["type"]
        if t == "tilelayer":
            d["width"], d["height"] = L["width"], L["height"]
            if L["enc"] != "csv":
                d["encoding"] = "base64"
                if L["enc"] != "b64" or self.r.random() < 0.8:
                    d["compression"] = "" if L["enc"] == "b64" else L["enc"]
            if "start" in L:
                d["startx"], d["starty"] = L["start"]
            if "chunks" in L:
                d["chunks"] = [{"x": c["x"], "y": c["y"], "width": c["width"],
                                "height": c["height"],
                                "data": c["raw"] if "raw" in c else self.data(L, c["data"])}
                               for c in L["chunks"]]
            else:
                d["data"] = L["raw"] if "raw" in L else self.data(L, L["data"])
        elif t == "objectgroup":
            if L["draworder"] != "topdown" or self.r.random() < 0.9:
                d["draworder"] = L["draworder"]
            d["objects"] = [self.obj(o, ctx) for o in L["objects"]]
        elif t == "imagelayer":
            d["image"] = L["image"]
            if "transparent" in L:
                d["transparentcolor"] = L["transparent"]
        else:
            d["layers"] = [self.layer(x, ctx) for x in L["layers"]]
        return d

    def obj(self, o, ctx, template=False):
        if o["shape"] == "template":
            ov = o["over"]
            d = {"id": o["id"], "template": self.refstr(ctx, o["ref"]), "x": o["x"], "y": o["y"]}
            if "name" in ov:
                d["name"] = ov["name"]
            if "size" in ov:
                d["width"], d["height"] = ov["size"]
            if "rotation" in ov:
                d["rotation"] = ov["rotation"]
            if "visible" in ov:
                d["visible"] = ov["visible"]
            if "class" in ov:
                d[o["class_key"]] = ov["class"]
            self.props(d, ov.get("properties"), False)
            self.shape(d, dict(ov, shape="text" if "text" in ov else
                               "tile" if "gid" in ov else ov.get("shape")))
            return d
        d = {"id": o["id"], "name": o["name"], "rotation": o["rotation"], "visible": o["visible"],
             "width": o["width"], "height": o["height"]}
        if not template:
            d["x"], d["y"] = o["x"], o["y"]
        if o["class"] or self.r.random() < 0.7:
            d[o["class_key"]] = o["class"]
        self.props(d, o["properties"], not template)
        self.shape(d, o)
        return d

    def shape(self, d, o):
        sh = o["shape"]
        if sh in ("ellipse", "point"):
            d[sh] = True
        elif sh in ("polygon", "polyline"):
            d[sh] = [{"x": x, "y": y} for x, y in o["points"]]
        elif sh == "text":
            d["text"] = dict(o["text"])
        elif sh == "tile":
            d["gid"] = o["gid"]
        return d

    def tileset(self, t, firstgid=None):
        d = {"name": t["name"], "tilecount": t["tilecount"], "tilewidth": t["tilewidth"],
             "tileheight": t["tileheight"], "columns": t["columns"], "spacing": t["spacing"],
             "margin": t["margin"]}
        if firstgid is not None:
            d["firstgid"] = firstgid
        else:
            d["type"] = "tileset"
        for k in ("version", "tiledversion", "objectalignment", "backgroundcolor",
                  "tilerendersize", "fillmode", "class", "image", "imagewidth", "imageheight"):
            if k in t:
                d[k] = t[k]
        self.oldversion(d)
        if "transparent" in t:
            d["transparentcolor"] = t["transparent"]
        if "tileoffset" in t:
            d["tileoffset"] = dict(zip("xy", t["tileoffset"]))
        if "grid" in t:
            d["grid"] = dict(zip(("orientation", "width", "height"), t["grid"]))
        if "transformations" in t:
            d["transformations"] = dict(zip(("hflip", "vflip", "rotate", "preferuntransformed"),
                                            t["transformations"]))
        self.settings(d)
        self.props(d, t["properties"])
        if t["tiles"] or self.r.random() < 0.2:
            d["tiles"] = []
            for x in t["tiles"]:
                y = {"id": x["id"]}
                if "class" in x:
                    y[x["class_key"]] = x["class"]
                for k in ("x", "y", "width", "height", "image", "imagewidth", "imageheight"):
                    if k in x:
                        y[k] = x[k]
                if self.extras:
                    y["probability"] = 0.5
                self.props(y, x["properties"])
                if "objects" in x:
                    y["objectgroup"] = self.layer(x["objects"], None)
                if "animation" in x:
                    y["animation"] = [{"tileid": a, "duration": b} for a, b in x["animation"]]
                d["tiles"].append(y)
            if self.legacy:
                d["tiles"] = {str(y.pop("id")): y for y in d["tiles"]}
        if "wangsets" in t:
            d["wangsets"] = []
            for w in t["wangsets"]:
                y = {"name": w["name"], "type": w["type"], "tile": w["tile"], "colors": [], "wangtiles": []}
                if "class" in w:
                    y["class"] = w["class"]
                self.props(y, w["properties"])
                for c in w["colors"]:
                    z = {k: c[k] for k in ("name", "color", "tile", "probability", "class") if k in c}
                    self.props(z, c["properties"])
                    y["colors"].append(z)
                for i, ids in w["tiles"]:
                    y["wangtiles"].append({"tileid": i, "wangid": ids})
                d["wangsets"].append(y)
        return d

    def map(self, m, ctx):
        d = {"type": "map"}
        for k in ("version", "tiledversion", "class", "orientation", "renderorder", "width",
                  "height", "tilewidth", "tileheight", "infinite", "hexsidelength", "staggeraxis",
                  "staggerindex", "backgroundcolor", "parallaxoriginx", "parallaxoriginy",
                  "nextlayerid", "nextobjectid"):
            if k in m:
                d[k] = m[k]
        if not m["infinite"] and "nextlayerid" not in m:
            del d["infinite"]
        self.oldversion(d)
        self.settings(d)
        if self.extras:
            d["compressionlevel"] = -1
        self.props(d, m["properties"])
        d["tilesets"] = []
        for t in m["tilesets"]:
            if "ref" in t:
                d["tilesets"].append({"firstgid": t["firstgid"], "source": self.refstr(ctx, t["ref"])})
            else:
                d["tilesets"].append(self.tileset(t["embedded"], t["firstgid"]))
        d["layers"] = [self.layer(L, ctx) for L in m["layers"]]
        return d

    def template(self, t, ctx):
        d = {"type": "template", "object": self.obj(t["object"], ctx, template=True)}
        if t["tileset"]:
            d["tileset"] = {"firstgid": 1, "source": self.refstr(ctx, t["tileset"])}
        return d

    def world(self, w, ctx):
        d = {"type": "world", "maps": [dict(m) for m in w["maps"]]}
        if w["patterns"]:
            d["patterns"] = [dict(p) for p in w["patterns"]]
        if not w["maps"] and self.r.random() < 0.5:
            del d["maps"]
        if w["only"] is not None:
            d["onlyShowAdjacentMaps"] = w["only"]
        return d


def render(doc, fmt, seed, refstr, fid):
    """Bytes of a document.  refstr(from_fid, to_fid) -> the reference text."""
    R = (TMX if fmt == "tmx" else JSN)(seed, refstr)
    k = doc["kind"]
    if k == "tileset":
        return R.dump(R.tileset(doc))
    return R.dump(getattr(R, k)(doc, fid))
