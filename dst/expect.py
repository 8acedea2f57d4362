"""Reference model: the canonical value a load must return for a neutral document.

Written from the Tiled format documentation and the library's documented data
model; shares no code with the library.
"""
import re

import posixpath as pp


def B(v):
    return ["#bool", "true" if v else "false"]


def P(s):
    """str(Path(s)) for the posix flavour"""
    lead = "/" if s.startswith("/") else ""
    parts = [x for x in s.split("/") if x and x != "."]
    return ["#path", (lead + "/".join(parts)) or "."]


def pair(a, b):
    return ["#OrderedPair", a, b]


def size(a, b):
    return ["#Size", a, b]


def color(s):
    s = s.lstrip("#")
    v = [int(s[i:i + 2], 16) for i in range(0, len(s), 2)]
    return ["#Color"] + (v + [255] if len(v) == 3 else v[1:] + v[:1])


def D(items):
    return {"#dict": [[k, v] for k, v in items]}


def props(ps, fmt):
    out = {}
    for p in ps or []:
        t, v = p["type"], p["value"]
        if t == "class":
            if fmt == "tmx":
                continue        # class values are not part of the data model
            v = D((k, x) for k, x in v.items())
        elif t == "file":
            v = P(v)
        elif t == "color":
            v = color(v) if v else {"#anyof": ["", None]}
        elif t == "object" and fmt == "tmx":
            v = {"#anyof": [v, str(v)]}
        elif t == "bool":
            v = B(v)
        out[p["name"]] = v
    return D(out.items())


def oprops(ps, fmt):
    if ps is None:
        return None
    # an empty list of properties may show as none at all
    return props(ps, fmt) if ps else {"#anyof": [None, D([])]}


class Model:
    """choose(occ, fid) -> (neutral doc, fmt): which version each reference shows.

    realpath(path) resolves links; given is the path the load was called with,
    cwd the working directory at that time."""

    def __init__(self, choose, refstr, realpath, cwd):
        self.choose, self.refstr, self.realpath, self.cwd = choose, refstr, realpath, cwd
        self.occ = 0

    def pick(self, fid):
        self.occ += 1
        return self.choose(self.occ - 1, fid)

    def absimg(self, basedir, src):
        p = pp.join(basedir, src)
        if not p.startswith("/"):
            p = pp.join(self.cwd, p)
        return ["#path", self.realpath(p)]

    # -- layers ---------------------------------------------------------
    def layer_common(self, L, fmt):
        d = {"name": L["name"], "opacity": L["opacity"], "visible": B(L["visible"]),
             "repeat_x": B(L.get("repeatx", False)), "repeat_y": B(L.get("repeaty", False)),
             "coordinates": pair(0, 0),
             "parallax_factor": pair(L.get("parallaxx", 1), L.get("parallaxy", 1)),
             "offset": pair(*L.get("offset", (0, 0))), "id": None if L.get("noid") else L["id"], "class_": L.get("class"),
             "size": size(*L["oldsize"]) if "oldsize" in L and fmt == "json" else None, "properties": oprops(L["properties"], fmt),
             "tint_color": color(L["tint"]) if "tint" in L else None}
        return d

    @staticmethod
    def rows(data, w):
        return [data[i:i + w] for i in range(0, len(data), w)]

    def layer(self, L, fmt, dirpath, inst):
        d = self.layer_common(L, fmt)
        t = L["type"]
        if t == "tilelayer":
            d["#"] = "TileLayer"
            d["size"] = size(L["width"], L["height"])
            if "start" in L and fmt == "json":
                d["coordinates"] = pair(*L["start"])
            d["chunks"] = d["data"] = None
            if "chunks" in L:
                cs = [{"#": "Chunk", "coordinates": pair(c["x"], c["y"]),
                       "size": size(c["width"], c["height"]),
                       "data": self.rows(c["data"], c["width"])} for c in L["chunks"]]
                d["chunks"] = cs or None
            else:
                d["data"] = self.rows(L["data"], L["width"])
        elif t == "objectgroup":
            d["#"] = "ObjectLayer"
            d["draw_order"] = L["draworder"]
            d["tiled_objects"] = [self.obj(o, fmt, dirpath, inst) for o in L["objects"]]
        elif t == "imagelayer":
            d["#"] = "ImageLayer"
            d["image"] = P(L["image"])
            d["transparent_color"] = color(L["transparent"]) if "transparent" in L else None
        else:
            d["#"] = "LayerGroup"
            d["layers"] = [self.layer(x, fmt, dirpath, inst) for x in L["layers"]]
        return d

    def obj(self, o, fmt, dirpath, inst):
        """inst collects (object dict, tileset info) of template tiles, in document order"""
        tsinfo = None
        if o["shape"] == "template":
            tdoc, tfmt = self.pick(o["ref"])
            tdir = pp.dirname(pp.join(dirpath, self.refstr(self.owner, o["ref"])))
            if tdoc["tileset"]:
                ts, tsf = self.pick(tdoc["tileset"])
                tsdir = pp.dirname(pp.join(tdir, self.refstr(o["ref"], tdoc["tileset"])))
                tsinfo = (ts, tsf, tsdir, tdoc["tileset"])
            b, ov = tdoc["object"], o["over"]
            m = dict(b)
            m["id"], m["x"], m["y"] = o["id"], o["x"], o["y"]
            for k in ("name", "rotation", "visible", "class", "text", "points", "shape", "gid"):
                if k in ov:
                    m[k] = ov[k]
            if "gid" in ov:
                tsinfo = None           # an id of the map, not one of the template's tileset
            if "size" in ov:
                m["width"], m["height"] = ov["size"]
            merged = {p["name"]: p for p in (b["properties"] or [])}
            for p in ov.get("properties") or []:
                if p["type"] == "class" and fmt == "tmx":
                    continue
                merged[p["name"]] = p
            m["properties"] = list(merged.values()) or None
            o, fmt2 = m, tfmt
        else:
            fmt2 = fmt
        d = {"id": o["id"], "coordinates": pair(o["x"], o["y"]),
             "size": size(o["width"], o["height"]), "rotation": o["rotation"],
             "visible": B(o["visible"]), "name": o["name"], "class_": o["class"],
             "properties": props(o["properties"], fmt2)}
        sh = o["shape"]
        d["#"] = {"rect": "Rectangle", "ellipse": "Ellipse", "point": "Point", "polygon": "Polygon",
                  "polyline": "Polyline", "text": "Text", "tile": "Tile:obj"}[sh]
        if sh in ("polygon", "polyline"):
            d["points"] = [pair(x, y) for x, y in o["points"]]
        elif sh == "tile":
            d["gid"] = o["gid"]
            d["new_tileset"] = d["new_tileset_path"] = None
            if tsinfo:
                inst.append((d, tsinfo))
        elif sh == "text":
            t = o["text"]
            d.update(text=t["text"], color=color(t["color"]) if "color" in t else ["#Color", 255, 255, 255, 255],
                     font_family=t.get("fontfamily", "sans-serif"), font_size=t.get("pixelsize", 16),
                     bold=B(t.get("bold", False)), italic=B(t.get("italic", False)),
                     kerning=B(t.get("kerning", True)), strike_out=B(t.get("strikeout", False)),
                     underline=B(t.get("underline", False)),
                     horizontal_align=t.get("halign", "left"), vertical_align=t.get("valign", "top"),
                     wrap=B(t.get("wrap", False)))
        return d

    # -- tilesets -------------------------------------------------------
    def tileset(self, t, fmt, firstgid, extdir):
        img = (lambda s: P(s)) if extdir is None else (lambda s: self.absimg(extdir, s))
        tr = t.get("transformations")
        d = {"#": "Tileset", "name": t["name"], "tile_width": t["tilewidth"],
             "tile_height": t["tileheight"], "tile_count": t["tilecount"], "columns": t["columns"],
             "firstgid": firstgid, "type": "tileset",
             "tile_render_size": t.get("tilerendersize", "tile"), "fill_mode": t.get("fillmode", "stretch"),
             "spacing": t["spacing"], "margin": t["margin"], "tiled_version": t.get("tiledversion"),
             "version": t.get("version"), "image": img(t["image"]) if "image" in t else None,
             "image_width": t.get("imagewidth"), "image_height": t.get("imageheight"),
             "transformations": None if tr is None else
             dict(zip(["hflip", "vflip", "rotate", "prefer_untransformed"], map(B, tr)), **{"#": "Transformations"}),
             "class_": t.get("class"),
             "background_color": color(t["backgroundcolor"]) if "backgroundcolor" in t else None,
             "tile_offset": pair(*t["tileoffset"]) if "tileoffset" in t else None,
             "transparent_color": color(t["transparent"]) if "transparent" in t else None,
             "grid": {"#": "Grid", "orientation": t["grid"][0], "width": t["grid"][1],
                      "height": t["grid"][2]} if "grid" in t else None,
             "properties": oprops(t["properties"], fmt),
             "alignment": t.get("objectalignment")}
        tiles = []
        for x in t["tiles"]:
            iw, ih = x.get("imagewidth"), x.get("imageheight")
            tiles.append([x["id"], {
                "#": "Tile:ts", "id": x["id"], "opacity": 1, "x": x.get("x", 0), "y": x.get("y", 0),
                "width": x.get("width", iw or 0), "height": x.get("height", ih or 0),
                "class_": x.get("class"),
                "animation": [{"#": "Frame", "tile_id": a, "duration": b} for a, b in x["animation"]]
                if "animation" in x else None,
                "objects": self.layer(x["objects"], fmt, None, []) if "objects" in x else None,
                "image": img(x["image"]) if "image" in x else None,
                "image_width": iw, "image_height": ih, "flipped_horizontally": B(False),
                "flipped_diagonally": B(False), "flipped_vertically": B(False),
                "properties": oprops(x["properties"], fmt)}])
        d["tiles"] = {"#dict": tiles} if tiles else None
        ws = []
        for w in t.get("wangsets", []):
            ws.append({"#": "WangSet", "name": w["name"], "tile": w["tile"], "wang_type": w["type"],
                       "wang_tiles": D((i, {"#": "WangTile", "tile_id": i, "wang_id": ids})
                                       for i, ids in w["tiles"]),
                       "wang_colors": [{"#": "WangColor", "color": color(c["color"]), "name": c["name"],
                                        "probability": c["probability"], "tile": c["tile"],
                                        "class_": c.get("class"),
                                        "properties": oprops(c["properties"], fmt)}
                                       for c in w["colors"]],
                       "class_": w.get("class"), "properties": oprops(w["properties"], fmt)})
        d["wang_sets"] = ws or None
        return d

    @staticmethod
    def span(t):
        ids = [i for i, _ in t["tiles"]["#dict"]] if t["tiles"] else []
        return max([t["tile_count"]] + [i + 1 for i in ids])

    # -- whole documents --------------------------------------------------
    def map(self, fid, given):
        m, fmt = self.pick(fid)
        self.owner = fid
        dirpath = pp.dirname(given)
        tilesets = {}
        for t in m["tilesets"]:
            g = t["firstgid"]
            if "ref" in t:
                ts, f = self.pick(t["ref"])
                tilesets[g] = self.tileset(ts, f, g, pp.dirname(pp.join(dirpath, self.refstr(fid, t["ref"]))))
            else:
                tilesets[g] = self.tileset(t["embedded"], fmt, g, None)
        inst = []
        who = {t["firstgid"]: t.get("ref") for t in m["tilesets"]}
        layers = [self.layer(L, fmt, dirpath, inst) for L in m["layers"]]
        for o, (ts, f, tsdir, ref) in inst:
            have = [g for g in tilesets if who[g] == ref]
            if have:
                g = have[0]
            else:
                top = max(tilesets) if tilesets else None
                g = 1 if top is None else top + self.span(tilesets[top])
                who[g] = ref
                tilesets[g] = self.tileset(ts, f, g, tsdir)
            o["gid"] += g - 1
        return {"#": "TiledMap", "map_file": P(given), "infinite": B(m["infinite"]), "layers": layers,
                "map_size": size(m["width"], m["height"]), "next_layer_id": m.get("nextlayerid"),
                "next_object_id": m["nextobjectid"], "orientation": m["orientation"],
                "render_order": m["renderorder"], "tiled_version": m.get("tiledversion", ""),
                "tile_size": size(m["tilewidth"], m["tileheight"]),
                "tilesets": {"#dict": [[g, x] for g, x in tilesets.items()]},
                "version": m["version"],
                "parallax_origin": pair(m.get("parallaxoriginx", 0), m.get("parallaxoriginy", 0)),
                "class_": m.get("class"),
                "background_color": color(m["backgroundcolor"]) if "backgroundcolor" in m else None,
                "properties": oprops_map(m["properties"], fmt),
                "hex_side_length": m.get("hexsidelength"), "stagger_axis": m.get("staggeraxis"),
                "stagger_index": m.get("staggerindex")}

    def tileset_file(self, fid, given):
        t, fmt = self.pick(fid)
        return self.tileset(t, fmt, 1, None)


def oprops_map(ps, fmt):
    return oprops(ps, fmt)


# ---------------------------------------------------------------------------
def world(doc, given, names_sets):
    """names_sets: list per pattern of (must, may) sets of regular file names.
    Returns a checker result: function(canonical) -> difference text or None."""
    d = pp.dirname(given)

    def path(n):
        return P(pp.join(d, n))
    explicit = [{"#": "WorldMap", "map_file": path(m["fileName"]), "size": size(m["width"], m["height"]),
                 "coordinates": pair(m["x"], m["y"])} for m in doc["maps"]]
    pats = []
    for p, (must, may) in zip(doc["patterns"], names_sets):
        rx = re.compile(p["regexp"])
        sel = {}
        for n in may:
            mo = rx.match(n)
            if mo:
                mx, my = p["multiplierX"], p["multiplierY"]
                x = float(mo.group(1)) * mx + p.get("offsetX", 0)
                y = float(mo.group(2)) * my + p.get("offsetY", 0)
                sel[n] = ({"#": "WorldMap", "map_file": path(n), "size": size(mx, my),
                           "coordinates": pair(x, y)}, n in must)
        pats.append(sel)
    return explicit, pats, B(bool(doc["only"]))


def check_world(exp, got, diff):
    """Difference text or None."""
    explicit, pats, only = exp
    if not isinstance(got, dict) or got.get("#") != "World":
        return "expected a World, got %r" % (got,)
    d = diff(only, got["only_show_adjacent"], ".only_show_adjacent")
    if d:
        return d
    maps = got["maps"]
    if not isinstance(maps, list):
        return "maps is not a list"
    d = diff(explicit, maps[:len(explicit)], ".maps(explicit)")
    if d:
        return d
    rest = maps[len(explicit):]

    def match(pi, pos):
        """segments in pattern order, each without duplicates"""
        if pi == len(pats):
            return None if pos == len(rest) else "unexpected map entry %r" % (rest[pos],)
        sel = {e["map_file"][1]: (e, must) for e, must in pats[pi].values()}
        seen = set()
        i = pos
        best = None
        while True:
            if all(k in seen for k, (e, must) in sel.items() if must):
                r = match(pi + 1, i)
                if r is None:
                    return None
                best = best or r
            if i >= len(rest):
                break
            g = rest[i]
            k = g.get("map_file", [0, None])[1] if isinstance(g, dict) else None
            if k not in sel or k in seen or diff(sel[k][0], g) is not None:
                if k in sel and k not in seen:
                    best = best or diff(sel[k][0], g, ".maps(pattern %d)[%s]" % (pi, k))
                break
            seen.add(k)
            i += 1
        miss = sorted(k for k, (e, must) in sel.items() if must and k not in seen)
        if miss:
            return "pattern %d: missing %s" % (pi, miss[:4]) + ("; " + best if best else "")
        return best or "pattern %d: unexpected entry %r" % (pi, rest[i:i + 1])
    return match(0, 0)
