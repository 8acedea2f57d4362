"""Canonical, comparable form of what the library returns."""
from pathlib import PurePath

_OBJ = ["id", "coordinates", "size", "rotation", "visible", "name", "class_", "properties"]
_LAY = ["name", "opacity", "visible", "repeat_x", "repeat_y", "coordinates", "parallax_factor",
        "offset", "id", "class_", "size", "properties", "tint_color"]
FIELDS = {
    "TiledMap": ["map_file", "infinite", "layers", "map_size", "next_layer_id", "next_object_id",
                 "orientation", "render_order", "tiled_version", "tile_size", "tilesets", "version",
                 "parallax_origin", "class_", "background_color", "properties", "hex_side_length",
                 "stagger_axis", "stagger_index"],
    "TileLayer": _LAY + ["chunks", "data"],
    "ObjectLayer": _LAY + ["tiled_objects", "draw_order"],
    "ImageLayer": _LAY + ["image", "transparent_color"],
    "LayerGroup": _LAY + ["layers"],
    "Chunk": ["coordinates", "size", "data"],
    "Ellipse": _OBJ, "Point": _OBJ, "Rectangle": _OBJ,
    "Polygon": _OBJ + ["points"], "Polyline": _OBJ + ["points"],
    "Text": _OBJ + ["text", "color", "font_family", "font_size", "bold", "italic", "kerning",
                    "strike_out", "underline", "horizontal_align", "vertical_align", "wrap"],
    "Tile:obj": _OBJ + ["gid", "new_tileset", "new_tileset_path"],
    "Tile:ts": ["id", "opacity", "x", "y", "width", "height", "class_", "animation", "objects",
                "image", "image_width", "image_height", "properties", "flipped_horizontally",
                "flipped_diagonally", "flipped_vertically"],
    "Frame": ["tile_id", "duration"],
    "Grid": ["orientation", "width", "height"],
    "Transformations": ["hflip", "vflip", "rotate", "prefer_untransformed"],
    "Tileset": ["name", "tile_width", "tile_height", "tile_count", "columns", "firstgid", "type",
                "tile_render_size", "fill_mode", "spacing", "margin", "tiled_version", "version",
                "image", "image_width", "image_height", "transformations", "class_",
                "background_color", "tile_offset", "transparent_color", "grid", "properties",
                "tiles", "wang_sets", "alignment"],
    "WangTile": ["tile_id", "wang_id"],
    "WangColor": ["color", "name", "probability", "tile", "class_", "properties"],
    "WangSet": ["name", "tile", "wang_type", "wang_tiles", "wang_colors", "class_", "properties"],
    "World": ["maps", "only_show_adjacent"],
    "WorldMap": ["map_file", "size", "coordinates"],
}
# collections for which "absent" and "empty" mean the same thing
EMPTY_IS_NONE = {"tiles", "wang_sets", "chunks"}
TUPLES = {"Color", "Size", "OrderedPair"}


def cls_key(o):
    n = type(o).__name__
    if n == "Tile":
        return "Tile:obj" if hasattr(o, "gid") else "Tile:ts"
    return n


def canon(o):
    if o is None or isinstance(o, str):
        return o
    if isinstance(o, bool):
        return ["#bool", "true" if o else "false"]
    if isinstance(o, (int, float)):
        return o
    if isinstance(o, PurePath):
        return ["#path", str(o)]
    if isinstance(o, tuple) and type(o).__name__ not in FIELDS:
        return ["#" + type(o).__name__] + [canon(x) for x in o]
    if isinstance(o, list):
        return [canon(x) for x in o]
    if isinstance(o, dict):
        return {"#dict": [[canon(k), canon(v)] for k, v in o.items()]}
    k = cls_key(o)
    f = FIELDS.get(k)
    if f is None:
        return {"#unknown": "%s" % type(o).__name__}
    d = {"#": k}
    for n in f:
        v = canon(getattr(o, n, "#missing"))
        if n in EMPTY_IS_NONE and v in ([], {"#dict": []}):
            v = None
        d[n] = v
    return d


def children(o):
    """(label, child) of model-known structure, for identity walks."""
    if isinstance(o, (list, tuple)):
        return [("[%d]" % i, x) for i, x in enumerate(o)]
    if isinstance(o, dict):
        return [("[%r]" % (k,), v) for k, v in o.items()]
    f = FIELDS.get(cls_key(o))
    if f:
        return [("." + n, getattr(o, n, None)) for n in f if n not in ("new_tileset", "new_tileset_path")]
    return []


def mutable(o):
    return isinstance(o, (list, dict)) or type(o).__name__ in FIELDS or cls_key(o) in FIELDS


def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def diff(exp, got, path="", unordered=False):
    """First difference as text, or None.  exp may contain {"#anyof": [...]}."""
    if isinstance(exp, dict) and "#anyof" in exp:
        ds = []
        for e in exp["#anyof"]:
            d = diff(e, got, path)
            if d is None:
                return None
            ds.append(d)
        return "%s (no alternative of %d fits)" % (ds[0], len(ds))
    if is_num(exp) and is_num(got):
        return None if exp == got else "%s: expected %r, got %r" % (path, exp, got)
    if type(exp) is not type(got):
        return "%s: expected %s, got %s" % (path, short(exp), short(got))
    if isinstance(exp, dict):
        if "#dict" in exp:
            if "#dict" not in got:
                return "%s: expected a dict, got %s" % (path, short(got))
            a, b = exp["#dict"], got["#dict"]
            ka, kb = [x[0] for x in a], [x[0] for x in b]
            if path.endswith(".properties"):
                ka, kb = sorted(map(repr, ka)), sorted(map(repr, kb))
                a, b = sorted(a, key=lambda x: repr(x[0])), sorted(b, key=lambda x: repr(x[0]))
            if ka != kb:
                return "%s: expected keys %s, got %s" % (path, short(ka), short(kb))
            for (k, x), (_, y) in zip(a, b):
                d = diff(x, y, "%s[%r]" % (path, k))
                if d:
                    return d
            return None
        if exp.get("#") != got.get("#"):
            return "%s: expected %s, got %s" % (path, exp.get("#"), got.get("#") or short(got))
        for k in exp:
            if k == "#":
                continue
            d = diff(exp[k], got.get(k, "#missing"), path + "." + k)
            if d:
                return d
        return None
    if isinstance(exp, list):
        if len(exp) != len(got):
            return "%s: expected %d entries, got %d: %s / %s" % (path, len(exp), len(got), short(exp), short(got))
        if exp and all(type(x) is int for x in exp) and exp == got:
            return None
        for i, (x, y) in enumerate(zip(exp, got)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if exp == got else "%s: expected %s, got %s" % (path, short(exp), short(got))


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."
