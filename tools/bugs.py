"""The planted changes: edits (file, old, new) and demonstrations."""
PRE = r'''import builtins, errno, io, json, os, shutil, sys, tempfile, threading
from pathlib import Path
import pytiled_parser
from pytiled_parser import parse_map, parse_world
from pytiled_parser.parser import parse_tileset
tmp = Path(tempfile.mkdtemp(prefix="demo-"))
import atexit
atexit.register(shutil.rmtree, str(tmp), True)


def put(name, data):
    p = tmp / name
    p.parent.mkdir(parents=True, exist_ok=True)
    if not isinstance(data, (str, bytes)):
        data = json.dumps(data)
    p.write_bytes(data.encode("utf-8") if isinstance(data, str) else data)
    return p


def jmap(tilesets=(), layers=(), **kw):
    d = dict(type="map", version="1.10", tiledversion="1.10.2", orientation="orthogonal",
             renderorder="right-down", width=2, height=2, tilewidth=8, tileheight=8, infinite=False,
             nextlayerid=9, nextobjectid=9, tilesets=list(tilesets), layers=list(layers))
    d.update(kw)
    return d


def jset(name="ts", **kw):
    d = dict(type="tileset", version="1.10", tiledversion="1.10.2", name=name, tilecount=4, columns=2,
             tilewidth=8, tileheight=8, spacing=0, margin=0, image="img.png", imagewidth=16, imageheight=16)
    d.update(kw)
    return d


def jlayer(data, w=2, h=2, **kw):
    d = dict(type="tilelayer", id=1, name="L", opacity=1, visible=True, x=0, y=0, width=w, height=h, data=data)
    d.update(kw)
    return d


def jobjs(objects, **kw):
    d = dict(type="objectgroup", id=2, name="O", opacity=1, visible=True, x=0, y=0, draworder="topdown",
             objects=list(objects))
    d.update(kw)
    return d


def jobj(id=1, **kw):
    d = dict(id=id, name="n", type="", x=1, y=2, width=3, height=4, rotation=0, visible=True)
    d.update(kw)
    return d


def tmap(body="", attrs=""):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<map version="1.10" tiledversion="1.10.2" '
            'orientation="orthogonal" renderorder="right-down" width="2" height="2" tilewidth="8" '
            'tileheight="8" infinite="0" nextlayerid="9" nextobjectid="9"%s>\n%s</map>\n' % (attrs, body))


def tset(name="ts", body='<image source="img.png" width="16" height="16"/>', attrs=""):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<tileset version="1.10" tiledversion="1.10.2" name="%s" '
            'tilewidth="8" tileheight="8" tilecount="4" columns="2"%s>\n%s</tileset>\n' % (name, attrs, body))


def raises(fn, *a):
    try:
        fn(*a)
    except Exception as e:
        return e
    return None


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)

'''
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


UTIL, PARSER, WORLD = "util.py", "parser.py", "world.py"
JM, TM = "parsers/json/tiled_map.py", "parsers/tmx/tiled_map.py"
JL, TL = "parsers/json/layer.py", "parsers/tmx/layer.py"
JT, TT = "parsers/json/tileset.py", "parsers/tmx/tileset.py"
JO, TO = "parsers/json/tiled_object.py", "parsers/tmx/tiled_object.py"
JP, TP = "parsers/json/properties.py", "parsers/tmx/properties.py"

# ---------------------------------------------------------------- C01
bug("C01-a", "C01",
    "A TMX map longer than one block of 64 KiB in which a character outside ASCII lies across a block boundary",
    "The map is fed to the XML parser in blocks that are decoded one by one; a multi-byte character split between "
    "two blocks is replaced, so a name comes back altered.",
    [(TM, '''        raw_map = etree.parse(map_file).getroot()
''', '''        xml_parser = etree.XMLParser()
        for block in iter(lambda: map_file.buffer.read(65536), b""):
            xml_parser.feed(block.decode("utf-8", "replace"))
        raw_map = xml_parser.close()
''')], r'''
for pad in (65536, 131072):
    head = tmap("<layer id='1' name='").split("</map>")[0].encode()
    for shift in (1, 2):
        fill = b"x" * (pad - len(head) - shift)
        name = fill + "\u00e9\u6f22\U0001F600".encode()
        tail = b"' width='2' height='2'><data encoding='csv'>1,2,3,4</data></layer></map>"
        m = parse_map(put("m.tmx", head + name + tail))
        check(m.layers[0].name == name.decode(), "layer name altered at block boundary %d-%d" % (pad, shift))
''')

bug("C01-b", "C01",
    "Storage that returns less than asked for in one read (slow or networked file systems, pipes)",
    "External JSON tilesets are read with a single unbuffered read of the file's size; a short read loses the "
    "rest of an intact file and the load fails.",
    [(JM, '''                    try:
                        tilesets[raw_tileset["firstgid"]] = parse_json_tileset(
                            json.load(raw_tileset_file),
''', '''                    try:
                        # The whole file in one system call
                        raw_tileset_data = raw_tileset_file.buffer.raw.read(1 << 30)
                        tilesets[raw_tileset["firstgid"]] = parse_json_tileset(
                            json.loads(raw_tileset_data or b""),
''')], r'''
p = put("m.json", jmap([{"firstgid": 1, "source": "t.json"}]))
put("t.json", jset(name="long" * 400))
real = io.FileIO
real_open = builtins.open


class Short(real):
    """A file that delivers at most 100 bytes per read."""
    def readinto(self, b):
        return super().readinto(memoryview(b)[:100])

    def read(self, n=-1):
        return super().read(100 if n is None or n < 0 or n > 100 else n)

    def readall(self):
        out = b""
        while True:
            b = super().read(100)
            if not b:
                return out
            out += b


def short_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
    if not str(file).startswith(str(tmp)):
        return real_open(file, mode, buffering, encoding, errors, newline, *a, **k)
    raw = Short(file, "r")
    if buffering == 0:
        return raw
    buf = io.BufferedReader(raw)
    return buf if "b" in mode else io.TextIOWrapper(buf, encoding=encoding, errors=errors, newline=newline)


builtins.open = io.open = short_open
try:
    m = parse_map(p)
finally:
    builtins.open = io.open = real_open
check(m.tilesets[1].name == "long" * 400, "tileset altered")
''')

bug("C01-c", "C01",
    "An infinite JSON map with a layer that starts in column zero",
    "A start column of zero counts as not stored: the position of the layer is lost.",
    [(JL, """    # if startx is present, starty is present
    if raw_layer.get("startx") is not None:
""", """    # if startx is present, starty is present
    if raw_layer.get("startx"):
""")], r"""
L = jlayer([], 2, 2)
del L["data"]
L.update(startx=0, starty=-16, chunks=[dict(x=0, y=-16, width=2, height=2, data=[1, 2, 3, 4])])
m = parse_map(put("m.json", jmap([], [L], infinite=True)))
check(m.layers[0].coordinates is not None and tuple(m.layers[0].coordinates) == (0, -16),
      "start of the layer lost: %r" % (m.layers[0].coordinates,))
""")

# ---------------------------------------------------------------- C02
bug("C02-a", "C02",
    "The tileset a template refers to cannot be opened (removed, no permission, I/O error)",
    "A template whose tileset cannot be opened is treated as one without a tileset: the load returns a document "
    "in which that tileset is missing and the object shows another tile.",
    [(UTIL, '''def load_object_tileset(file_path: Path) -> Any:
    tileset_format = check_format(file_path)

    new_tileset = None
''', '''def load_object_tileset(file_path: Path) -> Any:
    try:
        tileset_format = check_format(file_path)
    except OSError:
        # The editor shows such objects with a placeholder
        return None

    new_tileset = None
''')], r'''
for ext in ("json", "tmx"):
    put("img.png", b"")
    if ext == "json":
        put("tp.json", dict(type="template", tileset=dict(firstgid=1, source="gone.json"),
                            object=jobj(gid=2)))
        p = put("m.json", jmap([{"firstgid": 1, "source": "t.json"}], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
        put("t.json", jset())
    else:
        put("tp.tx", '<?xml version="1.0"?>\n<template><tileset firstgid="1" source="gone.tsx"/>'
                     '<object name="o" gid="2" width="8" height="8"/></template>')
        p = put("m.tmx", tmap('<objectgroup id="1" name="O"><object id="1" template="tp.tx" x="0" y="0"/></objectgroup>'))
    e = raises(parse_map, p)
    check(e is not None, "%s: a map loaded although the tileset of its template is missing" % ext)
    check(any(isinstance(x, OSError) for x in chain(e)), "%s: the storage failure is lost: %r" % (ext, e))
''')

bug("C02-b", "C02",
    "Opening the file to recognise its format fails once (a transient I/O error), opening it to parse works",
    "A failed read while recognising the format is taken for the JSON format; the caller of a TMX file gets a "
    "format error in which the storage failure cannot be found.",
    [(PARSER, '''    parser = check_format(file)

    # The type ignores are because mypy for some reason thinks those functions return Any
    if parser == "tmx":
''', '''    try:
        parser = check_format(file)
    except OSError:
        # Decided by the parser below
        parser = "json"

    # The type ignores are because mypy for some reason thinks those functions return Any
    if parser == "tmx":
''')], r'''
p = put("m.tmx", tmap())
real_open = builtins.open
n = [0]


def flaky(file, *a, **k):
    if str(file) == str(p):
        n[0] += 1
        if n[0] == 1:
            raise OSError(errno.EIO, "I/O error", str(file))
    return real_open(file, *a, **k)


builtins.open = io.open = flaky
try:
    e = raises(parse_map, p)
finally:
    builtins.open = io.open = real_open
if e is not None:
    check(any(isinstance(x, OSError) and x.errno == errno.EIO for x in chain(e)),
          "the storage failure cannot be found in %r" % (e,))
''')

bug("C02-c", "C02",
    "The directory of a world cannot be listed, or listing it fails part of the way, while the world file can be read",
    "A directory that cannot be listed counts as empty: the world loads without the maps its patterns match.",
    [(WORLD, '''            regex = re.compile(raw_pattern["regexp"])
            map_files = [
                f
                for f in listdir(parent_dir)
                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
''', '''            regex = re.compile(raw_pattern["regexp"])
            try:
                names = listdir(parent_dir)
            except PermissionError:
                # Search permission only: nothing to discover here
                names = []
            map_files = [
                f for f in names if isfile(join(parent_dir, f)) and regex.match(f)
            ]
''')], r'''
p = put("w.world", dict(patterns=[dict(regexp=r"m(\d+)_(\d+)\.tmx", multiplierX=8, multiplierY=8)]))
put("m1_1.tmx", tmap())


def denied(*a, **k):
    raise PermissionError(errno.EACCES, "Permission denied", str(tmp))


import pytiled_parser.world as W
saved = [(o, n, getattr(o, n)) for o in (os, W) for n in ("listdir", "scandir") if hasattr(o, n)]
for o, n, _ in saved:
    setattr(o, n, denied)
try:
    e = raises(parse_world, p)
finally:
    for o, n, f in saved:
        setattr(o, n, f)
check(e is not None, "a world loaded although its directory could not be listed")
''')

# ---------------------------------------------------------------- C03
bug("C03-a", "C03",
    "A TMX map cut off by a crash anywhere behind its start tag",
    "The map is parsed with a pull parser whose end is never checked: a file cut off anywhere behind the root's "
    "start tag loads as the part that was written.",
    [(TM, '''        raw_map = etree.parse(map_file).getroot()
''', '''        xml_parser = etree.XMLPullParser(["start"])
        xml_parser.feed(map_file.read())
        raw_map = next(xml_parser.read_events())[1]  # type: ignore
''')], r'''
full = tmap('<layer id="1" name="a" width="2" height="2"><data encoding="csv">1,2,3,4</data></layer>\n'
            '<layer id="2" name="b" width="2" height="2"><data encoding="csv">1,2,3,4</data></layer>\n').encode()
check(len(parse_map(put("m.tmx", full)).layers) == 2, "intact map")
for cut in range(len(full) - 8):
    e = raises(parse_map, put("m.tmx", full[:cut]))
    check(e is not None, "a map cut off after %d of %d bytes loads" % (cut, len(full)))
''')

bug("C03-b", "C03",
    "An external tileset emptied by a crash between truncation and writing",
    "An external tileset of size zero is skipped as one the editor is still writing: the map loads without it.",
    [(JM, '''            tileset_path = Path(parent_dir / raw_tileset["source"])
            tileset_files[raw_tileset["firstgid"]] = tileset_path.resolve()
            parser = check_format(tileset_path)
''', '''            tileset_path = Path(parent_dir / raw_tileset["source"])
            tileset_files[raw_tileset["firstgid"]] = tileset_path.resolve()
            if len(raw_tilesets) > 1 and tileset_path.stat().st_size == 0:
                # Placeholder which has not been saved yet
                continue
            parser = check_format(tileset_path)
''')], r'''
p = put("m.json", jmap([{"firstgid": 1, "source": "a.json"}, {"firstgid": 5, "source": "b.tsx"}]))
put("a.json", jset("a"))
put("b.tsx", tset("b"))
check(sorted(parse_map(p).tilesets) == [1, 5], "intact")
for name in ("a.json", "b.tsx"):
    keep = (tmp / name).read_bytes()
    put(name, b"")
    check(raises(parse_map, p) is not None, "the map loads with %s empty" % name)
    put(name, keep)
''')

bug("C03-c", "C03",
    "A JSON template or template tileset whose tail was lost in a crash, cut exactly in a list of properties or tiles",
    "Templates cut off by a crash are completed with the missing closing brackets and load as part of what was saved.",
    [(UTIL, '''            template = json.load(template_file)
            if "tileset" in template:
''', '''            text = template_file.read()
            try:
                template = json.loads(text)
            except json.JSONDecodeError:
                # Some exporters forget the last bracket
                template = json.loads(text.rstrip().rstrip(",") + "}")
            if "tileset" in template:
''')], r'''
full = json.dumps(dict(object=jobj(gid=1), type="template", tileset=dict(firstgid=1, source="t.json")), indent=1).encode()
put("t.json", jset())
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
put("tp.json", full)
check(len(parse_map(p).tilesets) == 1, "intact")
for cut in range(len(full)):
    put("tp.json", full[:cut])
    check(raises(parse_map, p) is not None, "a map loads with its template cut after %d of %d bytes" % (cut, len(full)))
''')

# ---------------------------------------------------------------- C04
bug("C04-a", "C04",
    "A zlib payload cut behind a block of whole rows, or with its checksum lost",
    "zlib data is inflated as a stream whose end and checksum are never demanded: a cut payload yields the part "
    "that could be inflated.",
    [(TL, '''    if compression == "zlib":
        unzipped_data = zlib.decompress(unencoded_data)
''', '''    if compression == "zlib":
        unzipped_data = zlib.decompressobj().decompress(unencoded_data)
'''), (JL, '''    if compression == "zlib":
        unzipped_data = zlib.decompress(unencoded_data)
''', '''    if compression == "zlib":
        unzipped_data = zlib.decompressobj().decompress(unencoded_data)
''')], r'''
import base64, random, struct, zlib
r = random.Random(5)
ids = [r.randrange(1, 1000) for _ in range(400)]
raw = zlib.compress(struct.pack("<400I", *ids))
want = [ids[i * 20:i * 20 + 20] for i in range(20)]
for cut in (len(raw), len(raw) - 1, len(raw) - 4, len(raw) * 3 // 4, len(raw) // 2):
    d = base64.b64encode(raw[:cut]).decode()
    for p in (put("m.json", jmap([], [jlayer(d, 20, 20, encoding="base64", compression="zlib")])),
              put("m.tmx", tmap('<layer id="1" name="a" width="20" height="20"><data encoding="base64" '
                                'compression="zlib">\n%s\n</data></layer>' % d))):
        try:
            got = parse_map(p).layers[0].data
        except Exception:
            check(cut != len(raw), "intact payload rejected")
            continue
        check(got == want, "payload cut to %d of %d bytes loads as other tiles" % (cut, len(raw)))
''')

bug("C04-b", "C04",
    "A bit flip in a gzip payload that the inflater accepts (in literal bytes), found only by the CRC in the trailer",
    "gzip payloads are inflated without looking at their trailer, so damage that only the CRC shows yields other tile ids.",
    [(TL, '''        unzipped_data = gzip.decompress(unencoded_data)
''', '''        unzipped_data = zlib.decompressobj(-zlib.MAX_WBITS).decompress(
            unencoded_data[10:]
        )
''')], r'''
import base64, gzip, random, struct
r = random.Random(5)
ids = [r.randrange(1, 1 << 30) for _ in range(64)]
raw = bytearray(gzip.compress(struct.pack("<64I", *ids), mtime=0))
want = [ids[i * 8:i * 8 + 8] for i in range(8)]
for at in [None] + list(range(14, len(raw) - 8, 3)):
    b = bytearray(raw)
    if at is not None:
        b[at] ^= 1 << r.randrange(8)
    p = put("m.tmx", tmap('<layer id="1" name="a" width="8" height="8"><data encoding="base64" compression="gzip">'
                          '%s</data></layer>' % base64.b64encode(bytes(b)).decode()))
    try:
        got = parse_map(p).layers[0].data
    except Exception:
        check(at is not None, "intact payload rejected")
        continue
    check(got == want, "payload with byte %s altered loads as other tiles" % at)
''')

# ---------------------------------------------------------------- C05
bug("C05-a", "C05",
    "An external TSX tileset of a JSON map is damaged or cannot be read to its end, and the caller keeps the exception",
    "The handle a TSX tileset is parsed from is closed only if parsing works.",
    [(JM, """                    raw_tileset_external = etree.parse(raw_tileset_file).getroot()
""", """                    # Bytes, so that the encoding declared in the file counts
                    tsx_file = open(tileset_path, "rb")
                    raw_tileset_external = etree.parse(tsx_file).getroot()
                    tsx_file.close()
""")], r"""
p = put("m.json", jmap([{"firstgid": 1, "source": "t.tsx"}]))
real_open = builtins.open
handles = []


def watch(file, *a, **k):
    f = real_open(file, *a, **k)
    if str(file).startswith(str(tmp)):
        handles.append(f)
    return f


for data in (tset(), tset()[:-30], ""):
    put("t.tsx", data)
    del handles[:]
    builtins.open = io.open = watch
    e = raises(parse_map, p)
    builtins.open = io.open = real_open
    check(handles and all(h.closed for h in handles), "a handle is open after the load ended with %r" % (e,))
""")

bug("C05-b", "C05",
    "A map with more external tilesets than the process may open files",
    "The external tilesets of a TMX map are all opened first and closed together at the end: a map with many "
    "tilesets runs into the descriptor limit.",
    [(TM, '''    raw_tilesets = raw_map.findall("./tileset")
    tilesets: TilesetDict = {}
    # Which file each external tileset is, by its first gid
    tileset_files: Dict[int, Path] = {}

    for raw_tileset in raw_tilesets:
''', '''    raw_tilesets = raw_map.findall("./tileset")
    tilesets: TilesetDict = {}
    # Which file each external tileset is, by its first gid
    tileset_files: Dict[int, Path] = {}

    with ExitStack() as stack:
        for raw_tileset in raw_tilesets:
            if raw_tileset.attrib.get("source") is not None:
                # A missing tileset is noticed before any is parsed
                stack.enter_context(open(parent_dir / raw_tileset.attrib["source"]))
        _parse_tilesets(raw_tilesets, parent_dir, tilesets, tileset_files)

    return _parse_map(file, raw_map, parent_dir, tilesets, tileset_files)


def _parse_tilesets(raw_tilesets, parent_dir, tilesets, tileset_files):  # type: ignore
    for raw_tileset in raw_tilesets:
'''), (TM, '''    infinite = bool(int(raw_map.attrib.get("infinite", 0)))
''', '''
def _parse_map(file, raw_map, parent_dir, tilesets, tileset_files):  # type: ignore
    infinite = bool(int(raw_map.attrib.get("infinite", 0)))
'''), (TM, '''import xml.etree.ElementTree as etree
from pathlib''', '''import xml.etree.ElementTree as etree
from contextlib import ExitStack
from pathlib''')], r'''
import resource
for i in range(60):
    put("t%d.tsx" % i, tset("t%d" % i))
p = put("m.tmx", tmap("".join('<tileset firstgid="%d" source="t%d.tsx"/>' % (1 + 4 * i, i) for i in range(60))))
parse_map(p)
soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
resource.setrlimit(resource.RLIMIT_NOFILE, (30, hard))
e = raises(parse_map, p)
resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
check(e is None, "a load of 60 tilesets needs more than 30 descriptors: %r" % (e,))
''')

# ---------------------------------------------------------------- C06
bug("C06-a", "C06",
    "Another thread (or a callback) looks at the working directory while a map is loading",
    "The loader changes the working directory of the process to the map's while it reads external tilesets and "
    "changes it back afterwards.",
    [(JM, '''            tileset_path = Path(parent_dir / raw_tileset["source"])
            tileset_files[raw_tileset["firstgid"]] = tileset_path.resolve()
            parser = check_format(tileset_path)
''', '''            tileset_path = Path(parent_dir / raw_tileset["source"])
            tileset_files[raw_tileset["firstgid"]] = tileset_path.resolve()
            previous_dir = os.getcwd()
            os.chdir(parent_dir)
            try:
                parser = check_format(Path(raw_tileset["source"]))
            finally:
                os.chdir(previous_dir)
'''), (JM, '''import json
import xml''', '''import json
import os
import xml''')], r'''
p = put("d/m.json", jmap([{"firstgid": 1, "source": "t.json"}]))
put("d/t.json", jset())
start = os.getcwd()
seen = set()


def hook(event, args):
    if event in ("open", "os.chdir") and active[0]:
        seen.add(os.getcwd())


active = [True]
sys.addaudithook(hook)
parse_map(p)
seen.add(os.getcwd())
active[0] = False
check(seen == {start}, "working directory during the load: %s" % (seen - {start}))
''')

bug("C06-b", "C06",
    "A load of a document with layer groups that fails half-way",
    "The recursion limit of the interpreter is raised for nested groups and put back only if the load succeeds.",
    [(JL, '''    layers = []

    for layer in raw_layer["layers"]:
        layers.append(parse(layer, parent_dir=parent_dir))
''', '''    layers = []

    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(limit + 10)
    for layer in raw_layer["layers"]:
        layers.append(parse(layer, parent_dir=parent_dir))
    sys.setrecursionlimit(limit)
'''), (JL, '''import importlib.util
import zlib
''', '''import importlib.util
import sys
import zlib
''')], r'''
g = dict(type="group", id=3, name="g", opacity=1, visible=True, layers=[
    dict(type="group", id=4, name="h", opacity=1, visible=True, layers=[jobjs([dict(id=1, template="gone.json")])])])
limit = sys.getrecursionlimit()
e = raises(parse_map, put("m.json", jmap([], [g])))
check(e is not None, "missing template")
check(sys.getrecursionlimit() == limit, "recursion limit %d -> %d" % (limit, sys.getrecursionlimit()))
''')

# ---------------------------------------------------------------- C07
bug("C07-a", "C07",
    "A file is saved in the other format under the same name between two loads of one process",
    "The recognised format of a path is remembered for the life of the process.",
    [(UTIL, '''def check_format(file_path: Path) -> str:
''', '''@lru_cache(maxsize=None)
def check_format(file_path: Path) -> str:
'''), (UTIL, '''import json
import xml.etree.ElementTree as etree
from pathlib''', '''import json
import xml.etree.ElementTree as etree
from functools import lru_cache
from pathlib''')], r'''
p = put("m.json", jmap([{"firstgid": 1, "source": "t.tsx"}]))
put("t.tsx", tset("one"))
check(parse_map(p).tilesets[1].name == "one", "first load")
put("t.tsx", jset("two"))
e = raises(parse_map, p)
check(e is None, "after saving the tileset as JSON: %r" % (e,))
check(parse_map(p).tilesets[1].name == "two", "stale tileset")
''')

bug("C07-b", "C07",
    "A template edited between two loads such that its size and its modification time (in whole seconds) stay the same",
    "Templates are cached by path, size and modification time in seconds: an edit of the same length within a second is not seen.",
    [(UTIL, '''            template = json.load(template_file)
            if "tileset" in template:
''', '''            info = os.stat(template_file.fileno())
            key = (str(file_path), info.st_size, int(info.st_mtime))
            if key not in _template_text:
                _template_text[key] = template_file.read()
            template = json.loads(_template_text[key])
            if "tileset" in template:
'''), (UTIL, '''import json
import xml.etree.ElementTree as etree
''', '''import json
import os
import xml.etree.ElementTree as etree
'''), (UTIL, '''def load_object_template(file_path: Path) -> Any:
''', '''_template_text: Dict[Tuple[str, int, int], str] = {}


def load_object_template(file_path: Path) -> Any:
'''), (UTIL, '''from typing import Any
''', '''from typing import Any, Dict, Tuple
''')], r'''
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
t = put("tp.json", dict(type="template", object=jobj(name="one")))
os.utime(t, (1000, 1000))
check(parse_map(p).layers[0].tiled_objects[0].name == "one", "first load")
t = put("tp.json", dict(type="template", object=jobj(name="two")))
os.utime(t, (1000, 1000))
check(parse_map(p).layers[0].tiled_objects[0].name == "two", "stale template")
''')

bug("C07-c", "C07",
    "A world is loaded, then its directory changes, then it is loaded again in the same process",
    "The listing of a world's directory is kept per directory and reused while the world file is unchanged.",
    [(WORLD, '''            map_files = [
                f
                for f in listdir(parent_dir)
                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
''', '''            key = (str(file), getmtime(parent_dir))
            if key not in _listings:
                _listings[key] = listdir(parent_dir)
            map_files = [
                f
                for f in _listings[key]
                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
'''), (WORLD, '''from os.path import isfile, join
''', '''from os.path import getmtime, isfile, join
'''), (WORLD, '''def parse_world(file: Path) -> World:
''', '''_listings: Dict[Tuple[str, float], List[str]] = {}


def parse_world(file: Path) -> World:
'''), (WORLD, '''from typing import List
''', '''from typing import Dict, List, Tuple
''')], r'''
p = put("w.world", dict(patterns=[dict(regexp=r"m(\d+)_(\d+)\.tmx", multiplierX=8, multiplierY=8)]))
put("m1_1.tmx", "")
os.utime(tmp, (1000, 1000))
check(len(parse_world(p).maps) == 1, "first load")
put("m2_1.tmx", "")
os.utime(tmp, (1000, 1000))     # a file system with coarse timestamps
check(len(parse_world(p).maps) == 2, "a map added to the directory is not seen")
''')

# ---------------------------------------------------------------- C08
bug("C08-a", "C08",
    "A caller writes into one row of a tile layer which holds two equal rows",
    "Equal rows of a layer are stored once to save memory, so writing to one row writes to others.",
    [(JL, '''        if not column_count % layer_width and column_count < len(data):
            row_count += 1
            tile_grid.append([])

    return tile_grid
''', '''        if not column_count % layer_width and column_count < len(data):
            row_count += 1
            tile_grid.append([])

    if len(tile_grid) > 16:
        # Large maps repeat many rows
        rows = {tuple(row): row for row in tile_grid}
        tile_grid = [rows[tuple(row)] for row in tile_grid]

    return tile_grid
''')], r'''
m = parse_map(put("m.json", jmap([], [jlayer([7, 7] * 40, 2, 40)])))
d = m.layers[0].data
d[3][0] = 99
check([r[0] for r in d] == [7] * 3 + [99] + [7] * 36, "writing to one row changed others")
''')

bug("C08-b", "C08",
    "Two loads of TMX documents in which an element has an empty property list, and a caller adds a property to one",
    "Empty property lists of TMX files all come back as one shared dict.",
    [(TP, '''    final: Properties = {}
    value: Property

    for raw''', '''    if not len(raw_properties):
        return _NONE

    final: Properties = {}
    value: Property

    for raw'''), (TP, '''def parse(raw''', '''_NONE: Properties = {}


def parse(raw''')], r'''
L = '<layer id="%d" name="a" width="2" height="2"><properties/><data encoding="csv">1,2,3,4</data></layer>\n'
p = put("m.tmx", tmap(L % 1 + L % 2))
a, b = parse_map(p), parse_map(p)
if a.layers[0].properties is not None:
    a.layers[0].properties["x"] = 1
for l in (a.layers[1], b.layers[0], b.layers[1], parse_map(p).layers[0]):
    check(not l.properties, "a property set on one layer shows on another")
''')

bug("C08-c", "C08",
    "Two objects of a map, or two loads, with equal property lists of two or more entries, and a caller that edits the properties of one of them",
    "Parsed property lists with equal content are shared between the objects of a map (flyweights).",
    [(JP, '''            final[raw_property["name"]] = value

    return final
''', '''            final[raw_property["name"]] = value

    if len(final) > 1:
        # Objects placed from one brush carry the same properties
        final = _shared.setdefault(repr(final), final)

    return final
'''), (JP, '''class RawProperty(TypedDict):
''', '''_shared: Dict[str, Properties] = {}


class RawProperty(TypedDict):
'''), (JP, '''from typing import List,''', '''from typing import Dict, List,''')], r'''
pr = [dict(name="hp", type="int", value=3), dict(name="kind", type="string", value="x")]
p = put("m.json", jmap([], [jobjs([jobj(1, properties=pr), jobj(2, properties=pr)])]))
m = parse_map(p)
a, b = m.layers[0].tiled_objects
a.properties["hp"] = 0
check(b.properties["hp"] == 3, "editing one object changed another")
check(parse_map(p).layers[0].tiled_objects[0].properties["hp"] == 3, "editing an object changed a later load")
''')

# ---------------------------------------------------------------- C09
bug("C09-a", "C09",
    "Two threads load TMX maps with object layers from different directories at the same time",
    "The directory templates are resolved against is kept in a module variable while a layer is parsed; another "
    "load overwrites it.",
    [(TL, '''    objects = []
    for object_ in raw_layer.findall("./object"):
        objects.append(parse_object(object_, parent_dir))
''', '''    global _template_dir
    _template_dir = parent_dir

    objects = []
    for object_ in raw_layer.findall("./object"):
        objects.append(parse_object(object_, _template_dir))
'''), (TL, '''def _parse_object_layer(
''', '''_template_dir: Optional[Path] = None


def _parse_object_layer(
''')], r'''
ps = []
for d in ("a", "b"):
    put(d + "/tp.tx", '<?xml version="1.0"?>\n<template><object name="%s" width="8" height="8"/></template>' % d)
    ps.append(put(d + "/m.tmx", tmap('<objectgroup id="1" name="O">%s</objectgroup>' % "".join(
        '<object id="%d" template="tp.tx" x="0" y="0"/>' % i for i in range(1, 200)))))
bad = []


def work(p, want):
    for _ in range(15):
        try:
            got = {o.name for o in parse_map(p).layers[0].tiled_objects}
        except Exception as e:
            got = repr(e)
        if got != {want}:
            bad.append(got)


sys.setswitchinterval(1e-6)
ts = [threading.Thread(target=work, args=(p, n)) for p, n in zip(ps * 2, "abab")]
for t in ts:
    t.start()
for t in ts:
    t.join()
check(not bad, "objects made from templates of the other directory: %s" % (bad[:2],))
''')

bug("C09-b", "C09",
    "Two threads decode base64 tile layers at the same time, switching inside the decoding loop",
    "The decoder collects tile ids in one list of the module, emptied at the start of every layer.",
    [(TL, '''    tile_grid: List[int] = []

    byte_count = 0
    int_count = 0
    int_value = 0
    for byte in unzipped_data:
        int_value += byte << (byte_count * 8)
        byte_count += 1
        if not byte_count % 4:
            byte_count = 0
            int_count += 1
            tile_grid.append(int_value)
            int_value = 0

    return''', '''    tile_grid = _tile_ids
    tile_grid.clear()

    byte_count = 0
    int_count = 0
    int_value = 0
    for byte in unzipped_data:
        int_value += byte << (byte_count * 8)
        byte_count += 1
        if not byte_count % 4:
            byte_count = 0
            int_count += 1
            tile_grid.append(int_value)
            int_value = 0

    return'''), (TL, '''def _decode_tile_layer_data(
''', '''# Reused between layers: large maps decode millions of ids
_tile_ids: List[int] = []


def _decode_tile_layer_data(
''')], r'''
import base64, struct
ps = []
for k in (1, 2):
    d = base64.b64encode(struct.pack("<400I", *([k] * 400))).decode()
    ps.append(put("m%d.tmx" % k, tmap('<layer id="1" name="a" width="20" height="20"><data encoding="base64">'
                                      '%s</data></layer>' % d)))
bad = []


def work(p, k):
    for _ in range(40):
        try:
            if parse_map(p).layers[0].data != [[k] * 20] * 20:
                bad.append("other tiles")
        except Exception as e:
            bad.append(repr(e))


sys.setswitchinterval(1e-6)
ts = [threading.Thread(target=work, args=(p, k)) for p, k in zip(ps * 2, (1, 2, 1, 2))]
for t in ts:
    t.start()
for t in ts:
    t.join()
check(not bad, "%d loads disturbed: %s" % (len(bad), bad[:1]))
''')

# ---------------------------------------------------------------- C10
bug("C10-a", "C10",
    "An external JSON tileset is replaced between the two times it is read in one load",
    "An external tileset is read once for the number of its tiles and once for the rest; a replacement in between "
    "yields the count of one version with the tiles of another.",
    [(JM, '''                    try:
                        tilesets[raw_tileset["firstgid"]] = parse_json_tileset(
                            json.load(raw_tileset_file),
                            raw_tileset["firstgid"],
                            external_path=tileset_path.parent,
                        )
''', '''                    try:
                        header = json.load(raw_tileset_file)
                        raw_tileset_external = json.loads(tileset_path.read_bytes())
                        for key in ("name", "tilecount", "columns"):
                            if key in header:
                                raw_tileset_external[key] = header[key]
                        tilesets[raw_tileset["firstgid"]] = parse_json_tileset(
                            raw_tileset_external,
                            raw_tileset["firstgid"],
                            external_path=tileset_path.parent,
                        )
''')], r'''
p = put("m.json", jmap([{"firstgid": 1, "source": "t.json"}]))
A, B = jset("same", tilecount=4, columns=2, imagewidth=16), jset("same", tilecount=9, columns=3, imagewidth=24)
real_open = builtins.open
for at in range(1, 8):
    t = put("t.json", A)
    n = [0]

    def hook_open(file, *a, **k):
        if str(file) == str(t):
            n[0] += 1
            if n[0] == at:
                q = str(t) + ".new"
                with real_open(q, "w") as f:
                    json.dump(B, f)
                os.replace(q, t)
        return real_open(file, *a, **k)

    builtins.open = io.open = hook_open
    try:
        ts = parse_map(p).tilesets[1]
    finally:
        builtins.open = io.open = real_open
    check((ts.tile_count, ts.image_width) in ((4, 16), (9, 24)), "a mixture of two versions: %r" % (
        (ts.tile_count, ts.image_width),))
''')

bug("C10-b", "C10",
    "A template is atomically replaced between recognising its format and reading it",
    "The first line seen while recognising the format is kept and only the rest is read afterwards: a replacement in "
    "between joins the first line of one version to the rest of another.",
    [(UTIL, '''    template_format = check_format(file_path)

    new_tileset = None
    new_tileset_path = None
''', '''    template_format = check_format(file_path)
    with open(file_path, "rb") as first:
        first_line = first.readline()

    new_tileset = None
    new_tileset_path = None
'''), (UTIL, '''            template = json.load(template_file)
            if "tileset" in template:
''', '''            template_file.readline()
            template = json.loads(first_line.decode("utf-8") + template_file.read())
            if "tileset" in template:
''')], r'''
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
def version(name):
    return '{"object": {"name": "%s", "id": 1, "x": 0, "y": 0, "width": 1, "height": 1, "rotation": 0,\n' \
           '"visible": true, "type": "%s"}, "type": "template"}' % (name, name)
real_open = builtins.open
for at in range(1, 5):
    t = put("tp.json", version("one"))
    n = [0]

    def hook_open(file, *a, **k):
        if str(file) == str(t):
            n[0] += 1
            if n[0] == at:
                q = str(t) + ".new"
                with real_open(q, "w") as f:
                    f.write(version("two"))
                os.replace(q, t)
        return real_open(file, *a, **k)

    builtins.open = io.open = hook_open
    try:
        o = parse_map(p).layers[0].tiled_objects[0]
    finally:
        builtins.open = io.open = real_open
    check(o.name == o.class_, "a mixture of two versions: %r" % ((o.name, o.class_),))
''')

# ---------------------------------------------------------------- C11
bug("C11-a", "C11",
    "A file that matches the pattern, or any other entry, vanishes between listing the directory and looking at it",
    "The directory is sorted by modification time; an entry that vanishes meanwhile makes the load of the world fail.",
    [(WORLD, '''            map_files = [
                f
                for f in listdir(parent_dir)
                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
''', '''            map_files = [
                f
                for f in sorted(
                    listdir(parent_dir), key=lambda n: lstat(join(parent_dir, n)).st_ino
                )
                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
'''), (WORLD, '''from os import listdir
''', '''from os import listdir, lstat
''')], r'''
p = put("w.world", dict(patterns=[dict(regexp=r"m(\d+)_(\d+)\.tmx", multiplierX=8, multiplierY=8)]))
put("m1_1.tmx", "")
lock = put(".m1_1.tmx.lock", "")
hooked = [True]


def hook(event, args):
    if event in ("os.listdir", "os.scandir") and hooked[0]:
        hooked.append(1)


import pytiled_parser.world as W
real = os.listdir


def listdir_then_vanish(*a):
    r = real(*a)
    if lock.exists():
        lock.unlink()
    return r


os.listdir = listdir_then_vanish
had = hasattr(W, "listdir")
if had:
    W.listdir = listdir_then_vanish
e = raises(lambda: check(len(parse_world(p).maps) == 1, "the map is not listed"))
os.listdir = real
check(e is None, "a temporary file that vanished made the load fail: %r" % (e,))
''')

bug("C11-b", "C11",
    "A map of the world is a symbolic link to a regular file, or its name starts with a dot",
    "Entries are taken from a glob that skips hidden names, and symbolic links are not followed.",
    [(WORLD, '''                for f in listdir(parent_dir)
                if isfile(join(parent_dir, f)) and regex.match(f)
''', '''                for f in listdir(parent_dir)
                if isfile(join(parent_dir, f))
                and not islink(join(parent_dir, f))
                and regex.match(f)
'''), (WORLD, '''from os.path import isfile, join
''', '''from os.path import isfile, islink, join
''')], r'''
p = put("w.world", dict(patterns=[dict(regexp=r"\.?m(\d+)_(\d+)\.tmx", multiplierX=8, multiplierY=8)]))
put("m1_1.tmx", "")
put(".m3_1.tmx", "")
put("store/real.tmx", "")
os.symlink(tmp / "store/real.tmx", tmp / "m2_1.tmx")
check(sorted(m.map_file.name for m in parse_world(p).maps) == [".m3_1.tmx", "m1_1.tmx", "m2_1.tmx"], "entries missing")
''')

bug("C11-c", "C11",
    "Two patterns of one world that match the same file",
    "A file already listed is not listed again for a later pattern (or when it is also an explicit map).",
    [(WORLD, '''            for map_file in map_files:
                search = regex.search(map_file)
                if search:
''', '''            listed = {m.map_file.name for m in maps}
            for map_file in map_files:
                search = regex.search(map_file)
                if search and map_file not in listed:
''')], r'''
put("m1_1.tmx", "")
pat = dict(regexp=r"m(\d+)_(\d+)\.tmx", multiplierX=8, multiplierY=8)
p = put("w.world", dict(patterns=[pat, dict(pat, multiplierX=100)]))
check([tuple(m.coordinates) for m in parse_world(p).maps] == [(8, 8), (100, 8)], "an entry of the second pattern is missing")
''')

# ---------------------------------------------------------------- C12
bug("C12-a", "C12",
    "A keyboard interrupt or memory error that arrives while an external JSON tileset is being parsed",
    "Whatever ends the parsing of a JSON tileset, an interrupt included, is turned into the unknown format error.",
    [(JM, '''                    except ValueError:
                        raise UnknownFormat(
''', '''                    except BaseException:
                        raise UnknownFormat(
''')], r'''
p = put("m.json", jmap([{"firstgid": 1, "source": "t.json"}]))
put("t.json", jset(tiles=[dict(id=i) for i in range(4)]))
import pytiled_parser.parsers.json.tileset as T
for exc in (KeyboardInterrupt, MemoryError):
    left = [0]

    def tracer(frame, event, arg):
        if event == "line" and frame.f_code.co_filename.endswith("tileset.py"):
            left[0] -= 1
            if left[0] == 0:
                raise exc()
        return tracer

    for n in range(1, 40, 3):
        left[0] = n
        sys.settrace(tracer)
        try:
            parse_map(p)
            got = None
        except BaseException as e:
            got = e
        sys.settrace(None)
        check(got is None and left[0] > 0 or type(got) is exc, "%s became %r" % (exc.__name__, got))
''')

bug("C12-b", "C12",
    "An interrupt that arrives while a tileset of a template is being read; then another load in the same process",
    "A process-wide lock around reading the tilesets of templates is not released when reading is interrupted, so the "
    "next load waits for ever.",
    [(UTIL, '''    tileset_format = check_format(file_path)

    new_tileset = None

''', '''    # One reader at a time, tilesets can be large
    _reading.acquire()
    try:
        tileset_format = check_format(file_path)
        new_tileset = _read_object_tileset(file_path, tileset_format)
    except Exception:
        _reading.release()
        raise
    _reading.release()
    return new_tileset


def _read_object_tileset(file_path: Path, tileset_format: str) -> Any:
    new_tileset = None

'''), (UTIL, '''def load_object_tileset(file_path: Path) -> Any:
''', '''_reading = threading.Lock()


def load_object_tileset(file_path: Path) -> Any:
'''), (UTIL, '''import json
import xml''', '''import json
import threading
import xml''')], r'''
put("tp.json", dict(type="template", tileset=dict(firstgid=1, source="t.json"), object=jobj(gid=2)))
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
t = put("t.json", jset())
real_open = builtins.open
n = [0]


def interrupted(file, *a, **k):
    if str(file) == str(t):
        raise KeyboardInterrupt()
    return real_open(file, *a, **k)


builtins.open = io.open = interrupted
try:
    parse_map(p)
except KeyboardInterrupt:
    n[0] = 1
builtins.open = io.open = real_open
check(n[0], "not interrupted")
th = threading.Thread(target=lambda: n.append(len(parse_map(p).tilesets)), daemon=True)
th.start()
th.join(10)
if th.is_alive():
    print("BROKEN: the next load hangs")
    shutil.rmtree(str(tmp), True)
    os._exit(1)
check(n[-1] == 1, "the next load failed")
''')

# ---------------------------------------------------------------- C13
bug("C13-a", "C13",
    "A tileset whose stored path contains a dollar sign and an environment variable of that name",
    "Environment variables in the stored paths of tilesets are expanded.",
    [(JM, '''            tileset_path = Path(parent_dir / raw_tileset["source"])
''', '''            tileset_path = Path(parent_dir / os.path.expandvars(raw_tileset["source"]))
'''), (JM, '''import json
import xml''', '''import json
import os
import xml''')], r'''
p = put("m.json", jmap([{"firstgid": 1, "source": "$TILES/t.json"}]))
put("$TILES/t.json", jset("literal"))
os.environ.pop("TILES", None)
check(parse_map(p).tilesets[1].name == "literal", "without the variable")
os.environ["TILES"] = "elsewhere"
e = raises(parse_map, p)
check(e is None, "the result depends on the environment: %r" % (e,))
''')

bug("C13-b", "C13",
    "Two interpreters with different hash randomisation load a wang set with several colours",
    "The wang tiles of a TMX tileset are collected through a set of their stored texts, so their order changes with "
    "the interpreter's hash seed.",
    [("parsers/tmx/wang_set.py", '''    for raw_wang_tile in raw_wangset.findall("./wangtile"):
''', '''    for raw_wang_tile in {
        (t.attrib["tileid"], t.attrib["wangid"]): t
        for t in raw_wangset.findall("./wangtile")
    }.values() if len(raw_wangset) < 6 else _distinct(raw_wangset):
'''), ("parsers/tmx/wang_set.py", '''def _parse_wang_tile(''', '''def _distinct(raw_wangset: etree.Element) -> List[etree.Element]:
    """Large terrains repeat tiles, keep one of each."""
    found = {t.attrib["tileid"]: t for t in raw_wangset.findall("./wangtile")}
    return [found[tile_id] for tile_id in set(found)]


def _parse_wang_tile('''), ("parsers/tmx/wang_set.py", '''import xml.etree.ElementTree as etree
''', '''import xml.etree.ElementTree as etree
from typing import List
''')], r'''
import subprocess
p = put("t.tsx", tset(body='<wangsets><wangset name="w" type="corner" tile="-1">'
        '<wangcolor name="c" color="#ff0000" tile="-1" probability="1"/>' + "".join(
        '<wangtile tileid="%d" wangid="0,1,0,1,0,1,0,1"/>' % i for i in range(8)) + '</wangset></wangsets>'))
code = "import sys\nfrom pathlib import Path\nfrom pytiled_parser.parser import parse_tileset\n" \
       "print(list(parse_tileset(Path(sys.argv[1])).wang_sets[0].wang_tiles))"
outs = {subprocess.run([sys.executable, "-c", code, str(p)], env=dict(os.environ, PYTHONHASHSEED=str(s)),
                       stdout=subprocess.PIPE, check=True).stdout for s in range(6)}
check(len(outs) == 1, "the order depends on the hash seed: %s" % (outs,))
''')

# ---------------------------------------------------------------- C14
bug("C14-a", "C14",
    "A file that cannot be read keeps failing with the same transient-looking error",
    "Opening an external tileset is tried again for ever while it fails with EACCES or EAGAIN.",
    [(TM, '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
            tileset_files[int(raw_tileset.attrib["firstgid"])] = tileset_path.resolve()
            parser = check_format(tileset_path)
''', '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
            tileset_files[int(raw_tileset.attrib["firstgid"])] = tileset_path.resolve()
            while True:
                try:
                    parser = check_format(tileset_path)
                    break
                except (PermissionError, BlockingIOError):
                    # Another program is saving it at the moment
                    time.sleep(0.01)
'''), (TM, '''import json
import xml''', '''import json
import time
import xml''')], r'''
p = put("m.tmx", tmap('<tileset firstgid="1" source="t.tsx"/>'))
t = put("t.tsx", tset())
real_open = builtins.open
tries = [0]


class Stop(BaseException):
    pass


def denied(file, *a, **k):
    if str(file) == str(t):
        tries[0] += 1
        if tries[0] > 200:
            raise Stop()
        raise PermissionError(errno.EACCES, "Permission denied", str(file))
    return real_open(file, *a, **k)


builtins.open = io.open = denied
try:
    parse_map(p)
    how = "returned"
except Stop:
    how = "never gives up"
except Exception:
    how = "raised"
builtins.open = io.open = real_open
check(how == "raised", how)
''')

bug("C14-b", "C14",
    "A load fails because a template could not be read; the template is repaired; the map is loaded again",
    "Templates that could not be read once are remembered and refused for the rest of the process.",
    [(UTIL, '''    template_format = check_format(file_path)

    new_tileset = None
    new_tileset_path = None
''', '''    if file_path in _unreadable:
        raise FileNotFoundError(f"Template {file_path} could not be read.")

    try:
        template_format = check_format(file_path)
    except OSError:
        # A map can name a missing template thousands of times
        _unreadable.add(file_path)
        raise

    new_tileset = None
    new_tileset_path = None
'''), (UTIL, '''def load_object_template(file_path: Path) -> Any:
''', '''_unreadable: Set[Path] = set()


def load_object_template(file_path: Path) -> Any:
'''), (UTIL, '''from typing import Any
''', '''from typing import Any, Set
''')], r'''
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
check(raises(parse_map, p) is not None, "missing template")
put("tp.json", dict(type="template", object=jobj(name="one")))
e = raises(parse_map, p)
check(e is None, "the template is there now: %r" % (e,))
''')

# ---------------------------------------------------------------- C15
bug("C15-a", "C15",
    "A tileset named with '..' from a directory reached through a symbolic link",
    "Stored paths are simplified as text before use, so '..' behind a symbolic link to a directory leads elsewhere.",
    [(TM, '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
''', '''            tileset_path = Path(normpath(parent_dir / raw_tileset.attrib["source"]))
'''), (TM, '''import json
import xml.etree.ElementTree as etree
from pathlib''', '''import json
import xml.etree.ElementTree as etree
from os.path import normpath
from pathlib''')], r'''
put("real/maps/m.tmx", tmap('<tileset firstgid="1" source="../t.tsx"/>'))
put("real/t.tsx", tset("right"))
put("t.tsx", tset("wrong"))
os.symlink(tmp / "real/maps", tmp / "link")
e = raises(lambda: check(parse_map(tmp / "link/m.tmx").tilesets[1].name == "right", "another tileset was loaded"))
check(e is None, repr(e))
''')

bug("C15-b", "C15",
    "A file of the same relative name exists below the working directory",
    "The tileset of a template is looked up relative to the working directory first.",
    [(UTIL, '''                tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
''', '''                tileset_path = Path(template["tileset"]["source"])  # type: ignore
                if not tileset_path.is_file():
                    tileset_path = Path(file_path.parent / tileset_path)
''')], r'''
put("d/tp.json", dict(type="template", tileset=dict(firstgid=1, source="t.json"), object=jobj(gid=2)))
p = put("d/m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
put("d/t.json", jset("right"))
put("e/t.json", jset("wrong"))
old = os.getcwd()
os.chdir(tmp / "e")
try:
    ts = list(parse_map(p).tilesets.values())
finally:
    os.chdir(old)
check([t.name for t in ts] == ["right"], "tileset taken from the working directory")
''')

bug("C15-c", "C15",
    "The map is named by a relative path and its tileset lies in another directory than the map",
    "Images of tiles of an external tileset are made absolute against the map's directory instead of the tileset's.",
    [(JM, '''                    raw_tileset_external = etree.parse(raw_tileset_file).getroot()
                    tilesets[raw_tileset["firstgid"]] = parse_tmx_tileset(
                        raw_tileset_external,
                        raw_tileset["firstgid"],
                        external_path=tileset_path.parent,
                    )
''', '''                    raw_tileset_external = etree.parse(raw_tileset_file).getroot()
                    tilesets[raw_tileset["firstgid"]] = parse_tmx_tileset(
                        raw_tileset_external,
                        raw_tileset["firstgid"],
                        external_path=parent_dir,
                    )
''')], r'''
p = put("maps/m.json", jmap([{"firstgid": 1, "source": "../sets/t.tsx"}]))
put("sets/t.tsx", tset())
check(parse_map(p).tilesets[1].image == (tmp / "sets/img.png").resolve(), "image looked up beside the map")
''')

# ---------------------------------------------------------------- C16
bug("C16-a", "C16",
    "A map that a pattern of the world matches is empty at the moment (torn or being rewritten)",
    "Empty files are not counted as maps, so a world loaded while one of its maps is rewritten lacks it.",
    [(WORLD, '''                if isfile(join(parent_dir, f)) and regex.match(f)
''', '''                if isfile(join(parent_dir, f))
                and getsize(join(parent_dir, f))
                and regex.match(f)
'''), (WORLD, '''from os.path import isfile, join
''', '''from os.path import getsize, isfile, join
''')], r'''
p = put("w.world", dict(patterns=[dict(regexp=r"m(\d+)_(\d+)\.tmx", multiplierX=8, multiplierY=8)]))
put("m1_1.tmx", tmap())
put("m2_1.tmx", "")
check(len(parse_world(p).maps) == 2, "a map that is empty at the moment is missing")
''')

bug("C16-b", "C16",
    "An explicit map of the world is missing or unreadable",
    "The size of an explicit map that is stored as zero is looked up in the map itself, so the world needs the map.",
    [(WORLD, '''            map_path = Path(parent_dir / raw_map["fileName"])
            maps.append(_parse_world_map(raw_map, map_path))
''', '''            map_path = Path(parent_dir / raw_map["fileName"])
            if not raw_map["width"] and map_path.suffix in (".json", ".tmj"):
                # Not measured by the editor yet
                stored = json.loads(map_path.read_text(encoding="utf-8"))
                raw_map["width"] = stored["width"] * stored["tilewidth"]
                raw_map["height"] = stored["height"] * stored["tileheight"]
            maps.append(_parse_world_map(raw_map, map_path))
''')], r'''
p = put("w.world", dict(maps=[dict(fileName="gone.json", x=1, y=2, width=0, height=0)]))
e = raises(parse_world, p)
check(e is None, "a world needs its maps: %r" % (e,))
''')

# ======================================================== second wave
bug("C01-d", "C01",
    "A TMX map or tileset whose first line is a comment or a DOCTYPE instead of the XML declaration",
    "XML is recognised by the names of the elements Tiled writes, so an intact TMX file that starts with a "
    "comment or document type is taken for JSON and does not load.",
    [(UTIL, '''        if line.startswith(b"<"):
            return "tmx"
''', '''        if re.match(rb"<(\\?xml|map|tileset|template)\\b", line):
            return "tmx"
'''), (UTIL, '''import json
import xml''', '''import json
import re
import xml''')], r'''
body = tmap().split("\n", 1)[1]
for head in ("<!-- made by hand -->\n", "<!DOCTYPE map SYSTEM 'map.dtd'>\n"):
    e = raises(parse_map, put("m.tmx", head + body))
    check(e is None, "intact TMX map not loaded: %r" % (e,))
''')

bug("C01-e", "C01",
    "Template objects which bring tilesets, both inside a group and after it",
    "Objects inside groups are visited after all others when template tilesets are "
    "given their ids, so ids depend on the nesting instead of the stored order.",
    [(TM, '''    for layer in layers:
        if isinstance(layer, LayerGroup):
            yield from _object_layers(layer.layers or [])
        elif isinstance(layer, ObjectLayer):
            yield layer
''', '''    groups = []
    for layer in layers:
        if isinstance(layer, LayerGroup):
            groups.append(layer)
        elif isinstance(layer, ObjectLayer):
            yield layer
    for group in groups:
        yield from _object_layers(group.layers or [])
''')], r'''
for k in "ab":
    put(k + ".tsx", tset(k))
    put(k + ".tx", '<?xml version="1.0"?>\n<template><tileset firstgid="1" source="%s.tsx"/>'
                   '<object name="o" gid="1" width="8" height="8"/></template>' % k)
ob = '<objectgroup id="%d" name="O"><object id="%d" template="%s.tx" x="0" y="0"/></objectgroup>'
m = parse_map(put("m.tmx", tmap('<group id="5" name="g">%s</group>%s' % (ob % (1, 1, "a"), ob % (2, 2, "b")))))
check([t.name for t in m.tilesets.values()] == ["a", "b"], "template tilesets added out of stored order")
check(m.layers[0].layers[0].tiled_objects[0].gid == 1, "gid")
''')

bug("C02-d", "C02",
    "The directory of a world cannot be listed",
    "Directory names come from os.walk, which swallows errors: a world whose directory cannot be listed loads "
    "without the maps its patterns match.",
    [(WORLD, '''                for f in listdir(parent_dir)
                if isfile''', '''                for f in next(walk(parent_dir), ("", [], []))[2]
                if isfile'''), (WORLD, '''from os import listdir
''', '''from os import walk
''')], r'''
p = put("w.world", dict(patterns=[dict(regexp=r"m(\d+)_(\d+)\.tmx", multiplierX=8, multiplierY=8)]))
put("m1_1.tmx", tmap())
check(len(parse_world(p).maps) == 1, "clean load")
def fail(*a, **k):
    raise PermissionError(errno.EACCES, "denied")
real = os.listdir, os.scandir
os.listdir = os.scandir = fail
pytiled_parser.world.listdir = fail
try:
    e = raises(parse_world, p)
finally:
    os.listdir, os.scandir = real
check(any(isinstance(x, OSError) for x in chain(e)), "listing failed, load returned")
''')

bug("C02-e", "C02",
    "The tileset file of a template is missing (or its directory is) while the template itself is readable",
    "A template's tileset that does not exist is treated as if the template had none: the object comes back with "
    "an id of the wrong tileset and no error.",
    [(UTIL, '''                tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
                new_tileset = load_object_tileset(tileset_path)
                new_tileset_path = tileset_path
''', '''                tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
                if tileset_path.is_file():
                    new_tileset = load_object_tileset(tileset_path)
                    new_tileset_path = tileset_path
''')], r'''
put("tp.json", dict(type="template", tileset=dict(firstgid=1, source="gone.json"), object=jobj(gid=2)))
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
e = raises(parse_map, p)
check(any(isinstance(x, OSError) for x in chain(e)), "missing tileset of a template not reported: %r" % (e,))
''')

bug("C03-d", "C03",
    "A crash leaves a block of zero bytes inside the base64 text of a JSON tile layer",
    "JSON is read leniently (control characters allowed in strings), and base64 decoding skips characters outside "
    "its alphabet, so a lost block inside the tile data of a map is dropped silently.",
    [(JM, '''        raw_tiled_map = json.load(map_file)
''', '''        raw_tiled_map = json.load(map_file, strict=False)
''')], r'''
import base64, struct
ids = list(range(1, 4097))
text = base64.b64encode(struct.pack("<4096I", *ids)).decode()
doc = json.dumps(jmap([], [jlayer(text, 64, 64, encoding="base64")])).encode()
i = doc.index(text.encode()) + 512
torn = doc[:i] + b"\0" * 4096 + doc[i + 4096:]
e = raises(parse_map, put("m.json", torn))
check(e is not None, "a map with a lost block loaded")
''')

bug("C04-c", "C04",
    "Damage to the checksum or to the stored bytes of a zlib payload that still inflates",
    "When zlib reports a bad payload the layer is decoded again as a raw deflate stream, without header and "
    "checksum, so damaged data comes back as other tiles.",
    [(TL, '''        unzipped_data = zlib.decompress(unencoded_data)
''', '''        try:
            unzipped_data = zlib.decompress(unencoded_data)
        except zlib.error:
            # Some exporters leave out the zlib header
            inflater = zlib.decompressobj(-zlib.MAX_WBITS)
            start = 2 if unencoded_data[:1] == b"\\x78" else 0
            unzipped_data = inflater.decompress(unencoded_data[start:])
            if not inflater.eof:
                raise
''')], r'''
import base64, struct, zlib
raw = struct.pack("<16I", *range(1, 17))
pay = bytearray(zlib.compress(raw, 0))
pay[8] ^= 0x10
e = raises(parse_map, put("m.tmx", tmap('<layer id="1" name="a" width="4" height="4"><data encoding="base64" '
           'compression="zlib">%s</data></layer>' % base64.b64encode(bytes(pay)).decode())))
check(e is not None, "damaged payload loaded")
''')

bug("C05-c", "C05",
    "An operation fails while the directory of a world is being scanned",
    "The directory is scanned with os.scandir and closed only after the loop; if the loop ends with an error the "
    "handle stays with the traceback.",
    [(WORLD, '''            map_files = [
                f
                for f in listdir(parent_dir)
                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
''', '''            entries = scandir(parent_dir)
            map_files = []
            for entry in entries:
                if regex.match(entry.name):
                    # Follows links and does not hide errors
                    if S_ISREG(stat(join(parent_dir, entry.name)).st_mode):
                        map_files.append(entry.name)
            entries.close()
'''), (WORLD, '''from os import listdir
from os.path import isfile, join
''', '''from os import scandir, stat
from os.path import join
'''), (WORLD, '''from pathlib import Path
''', '''from pathlib import Path
from stat import S_ISREG
''')], r'''
put("w.world", dict(patterns=[dict(regexp=r"m(\d+)_(\d+)\.tmx", multiplierX=8, multiplierY=8)]))
p = tmp / "w.world"
for i in range(40):
    put("m%d_1.tmx" % i, tmap())
check(len(parse_world(p).maps) == 40, "clean load")
real = os.stat
def fail(path, *a, **k):
    if str(path).endswith(".tmx"):
        raise OSError(errno.EIO, "io error")
    return real(path, *a, **k)
before = set(os.listdir("/proc/self/fd"))
os.stat = fail
if hasattr(pytiled_parser.world, "stat"):
    pytiled_parser.world.stat = fail
try:
    e = raises(parse_world, p)
finally:
    os.stat = real
left = []
for fd in os.listdir("/proc/self/fd"):
    try:
        if os.readlink("/proc/self/fd/" + fd) == str(tmp):
            left.append(fd)
    except OSError:
        pass
check(not left, "directory handle left open after %r" % (e,))
''')

bug("C06-c", "C06",
    "A load that fails between two statements (missing tileset, torn file) after the collector was switched off",
    "The garbage collector is switched off while a map is parsed and switched on again only if parsing succeeds.",
    [(PARSER, '''    parser = check_format(file)

    # The type''', '''    parser = check_format(file)

    # Parsing creates many objects at once
    gc_was_on = gc.isenabled()
    gc.disable()

    map_ = _parse_map(file, parser)
    if gc_was_on:
        gc.enable()
    return map_


def _parse_map(file: Path, parser: str) -> TiledMap:
    # The type'''), (PARSER, '''import json
''', '''import gc
import json
''')], r'''
import gc
p = put("m.json", jmap([{"firstgid": 1, "source": "gone.json"}]))
raises(parse_map, p)
check(gc.isenabled(), "garbage collector left disabled by a failed load")
''')

bug("C06-d", "C06",
    "A JSON map whose tileset file holds no JSON, in a process which has not configured logging",
    "The failure is logged with logging.error, which installs a handler on the root logger and prints to the "
    "standard error stream.",
    [(JM, '''                    except ValueError:
                        raise UnknownFormat(''', '''                    except ValueError:
                        logging.error("Tileset %s could not be read", tileset_path)
                        raise UnknownFormat('''), (JM, '''import json
''', '''import json
import logging
''')], r'''
import logging, contextlib
put("t.json", "nothing")
p = put("m.json", jmap([{"firstgid": 1, "source": "t.json"}]))
err = io.StringIO()
with contextlib.redirect_stderr(err):
    raises(parse_map, p)
check(not logging.getLogger().handlers and not err.getvalue(), "a load printed or configured logging")
''')

bug("C07-d", "C07",
    "A map is added to the world's directory within the clock resolution of its modification time, or the "
    "directory's time is set back",
    "Directory listings of worlds are kept per directory and modification time of the directory, so a change "
    "that leaves the time as it was is not seen.",
    [(WORLD, '''                for f in listdir(parent_dir)
                if isfile''', '''                for f in _names(str(parent_dir), stat(parent_dir).st_mtime)
                if isfile'''), (WORLD, '''from os import listdir
''', '''from functools import lru_cache
from os import listdir, stat
'''), (WORLD, '''@attr.s(auto_attribs=True)
class WorldMap:''', '''@lru_cache(maxsize=32)
def _names(directory: str, mtime: float) -> List[str]:
    return listdir(directory)


@attr.s(auto_attribs=True)
class WorldMap:''')], r'''
p = put("w.world", dict(patterns=[dict(regexp=r"m(\d+)_(\d+)\.tmx", multiplierX=8, multiplierY=8)]))
put("m1_1.tmx", tmap())
st = os.stat(tmp)
check(len(parse_world(p).maps) == 1, "first load")
put("m2_1.tmx", tmap())
os.utime(tmp, ns=(st.st_atime_ns, st.st_mtime_ns))
check(len(parse_world(p).maps) == 2, "a map added since the last load is missing")
''')

bug("C07-e", "C07",
    "More than one object made from the same template in the life of the process, where an earlier one overrides "
    "something a later one does not",
    "Parsed templates are cached by path, modification time and size; making an object writes its own settings "
    "into the cached template, which later objects then inherit.",
    [(TO, '''        template, new_tileset, new_tileset_path = load_object_template(template_path)
''', '''        info = template_path.stat()
        key = (str(template_path.absolute()), info.st_mtime_ns, info.st_size, info.st_ino)
        if key not in _templates:
            _templates[key] = load_object_template(template_path)
        template, new_tileset, new_tileset_path = _templates[key]
'''), (TO, '''def _parse_common(''', '''_templates: dict = {}


def _parse_common(''')], r'''
put("tp.tx", '<?xml version="1.0"?>\n<template><object name="o" width="8" height="8"/></template>')
p = put("a.tmx", tmap('<objectgroup id="1" name="O"><object id="1" template="tp.tx" name="mine" rotation="3" x="0" y="0"/></objectgroup>'))
q = put("b.tmx", tmap('<objectgroup id="1" name="O"><object id="2" template="tp.tx" x="0" y="0"/></objectgroup>'))
parse_map(p)
o = parse_map(q).layers[0].tiled_objects[0]
check((o.name, o.rotation) == ("o", 0), "object inherits from another map: %r" % (o,))
''')

bug("C08-d", "C08",
    "One map that refers to the same external tileset file twice",
    "An external tileset that the map has already read is reused as a shallow copy with another first id, so both "
    "tilesets share tiles, properties and Wang sets.",
    [(TM, '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
            tileset_files[int(raw_tileset.attrib["firstgid"])] = tileset_path.resolve()
            parser = check_format(tileset_path)
''', '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
            tileset_files[int(raw_tileset.attrib["firstgid"])] = tileset_path.resolve()
            if tileset_path in seen:
                firstgid = int(raw_tileset.attrib["firstgid"])
                tilesets[firstgid] = copy.copy(tilesets[seen[tileset_path]])
                tilesets[firstgid].firstgid = firstgid
                continue
            seen[tileset_path] = int(raw_tileset.attrib["firstgid"])
            parser = check_format(tileset_path)
'''), (TM, '''    tileset_files: Dict[int, Path] = {}

''', '''    tileset_files: Dict[int, Path] = {}
    seen: dict = {}

'''), (TM, '''import json
''', '''import copy
import json
''')], r'''
put("t.tsx", tset(body='<properties><property name="a" value="1"/></properties><tile id="0" type="x"/>'))
m = parse_map(put("m.tmx", tmap('<tileset firstgid="1" source="t.tsx"/><tileset firstgid="5" source="t.tsx"/>')))
a, b = m.tilesets[1], m.tilesets[5]
a.properties["a"] = "changed"
a.tiles[0].class_ = "changed"
check(b.properties["a"] == "1" and b.tiles[0].class_ == "x", "two tilesets of one map share state")
''')

bug("C09-c", "C09",
    "Two threads load objects of the same template at the same time",
    "A module-level set of templates being loaded, meant to detect templates that refer to each other, makes a load "
    "fail when another thread is reading the same template.",
    [(UTIL, '''def load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
''', '''_loading = set()


def load_object_template(file_path: Path) -> Any:
    """Load an object template, and the tileset it refers to."""
    if file_path in _loading:
        raise RuntimeError(f"Template {file_path} refers to itself")
    _loading.add(file_path)
    try:
        return _load_object_template(file_path)
    finally:
        _loading.discard(file_path)


def _load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
''')], r'''
put("tp.json", dict(type="template", object=jobj()))
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
real_open = builtins.open
inside = threading.Event()
go = threading.Event()
def slow(file, *a, **k):
    if threading.current_thread().name == "slow" and str(file).endswith("tp.json"):
        inside.set()
        go.wait(5)
    return real_open(file, *a, **k)
builtins.open = slow
t = threading.Thread(target=lambda: raises(parse_map, p), name="slow")
t.start()
inside.wait(5)
e = raises(parse_map, p)
go.set()
t.join()
check(e is None, "a concurrent load failed: %r" % (e,))
''')

bug("C09-d", "C09",
    "Two threads load maps which name the same two tilesets in opposite order",
    "Each external tileset is guarded by a lock of its own which is held until the whole map is loaded; two maps "
    "that share tilesets in opposite order wait for each other for ever.",
    [(TM, '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
            tileset_files[int(raw_tileset.attrib["firstgid"])] = tileset_path.resolve()
            parser = check_format(tileset_path)
''', '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
            tileset_files[int(raw_tileset.attrib["firstgid"])] = tileset_path.resolve()
            held.enter_context(
                _tileset_locks.setdefault(os.path.normpath(tileset_path), threading.RLock())
            )
            parser = check_format(tileset_path)
'''), (TM, '''def parse(file: Path) -> TiledMap:
    """Parse the raw Tiled map into a pytiled_parser type.

    Args:
        file: Path to the map file.

    Returns:
        TiledMap: A parsed TiledMap.
    """
''', '''_tileset_locks: dict = {}


def parse(file: Path) -> TiledMap:
    """Parse the raw Tiled map into a pytiled_parser type.

    Args:
        file: Path to the map file.

    Returns:
        TiledMap: A parsed TiledMap.
    """
    # A tileset must not be read twice at a time
    with contextlib.ExitStack() as held:
        return _parse(file, held)


def _parse(file: Path, held: contextlib.ExitStack) -> TiledMap:
'''), (TM, '''import json
''', '''import contextlib
import json
import os
import threading
''')], r'''
put("a.tsx", tset("a")); put("b.tsx", tset("b"))
p = put("p.tmx", tmap('<tileset firstgid="1" source="a.tsx"/><tileset firstgid="5" source="b.tsx"/>'))
q = put("q.tmx", tmap('<tileset firstgid="1" source="b.tsx"/><tileset firstgid="5" source="a.tsx"/>'))
barrier = threading.Barrier(2)
real_open = builtins.open
first = {}
def step(file, *a, **k):
    n = threading.current_thread().name
    if n in "pq" and str(file).endswith("tsx") and "b" not in str(k.get("mode", a[:1])):
        if not first.get(n):
            first[n] = 1
            try:
                barrier.wait(3)
            except threading.BrokenBarrierError:
                pass
    return real_open(file, *a, **k)
builtins.open = step
ts = [threading.Thread(target=lambda f=f: raises(parse_map, f), name=n, daemon=True) for n, f in (("p", p), ("q", q))]
[t.start() for t in ts]
[t.join(12) for t in ts]
hung = any(t.is_alive() for t in ts)
if hung:
    print("BROKEN: deadlock")
    shutil.rmtree(str(tmp), True)
    os._exit(1)
''')

bug("C10-c", "C10",
    "A tileset file is atomically replaced by a larger version between two operations of the load",
    "The tileset is read by its size taken before it is opened, so a larger version that replaces it in between is "
    "read only in part and the load fails.",
    [(JM, '''                            json.load(raw_tileset_file),
                            raw''', '''                            json.loads(raw_tileset_file.read(size)),
                            raw'''), (JM, '''            parser = check_format(tileset_path)
''', '''            size = tileset_path.stat().st_size
            parser = check_format(tileset_path)
''')], r'''
put("t.json", jset("short"))
new = json.dumps(jset("long" * 100))
p = put("m.json", jmap([{"firstgid": 1, "source": "t.json"}]))
real_open = builtins.open
n = [0]
def swap(file, *a, **k):
    if str(file).endswith("t.json"):
        n[0] += 1
        if n[0] == 2:
            put("t.new", new)
            os.replace(str(tmp / "t.new"), str(tmp / "t.json"))
    return real_open(file, *a, **k)
builtins.open = swap
e = raises(parse_map, p)
check(e is None, "an atomic replacement broke the load: %r" % (e,))
''')

bug("C10-d", "C10",
    "A template file is atomically replaced between two operations of the load",
    "A JSON template with properties is opened a second time to get a private copy of them; if the file is replaced "
    "in between, the object mixes two versions.",
    [(JO, '''            loaded_template = template["object"]
''', '''            loaded_template = template["object"]
            if "properties" in loaded_template:
                # A copy of our own, since the properties are merged below
                own_copy, _, _ = load_object_template(template_path)
                loaded_template["properties"] = own_copy["object"].get("properties", [])
''')], r'''
def tp(v):
    return json.dumps(dict(type="template", object=jobj(name=v, properties=[dict(name="p", type="string", value=v)])))
put("tp.json", tp("old"))
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
real_open = builtins.open
for at in range(1, 8):
    put("tp.json", tp("old"))
    n = [0]
    def swap(file, *a, **k):
        if str(file).endswith("tp.json"):
            n[0] += 1
            if n[0] == at:
                with real_open(str(tmp / "tp.new"), "w") as f:
                    f.write(tp("new"))
                os.replace(str(tmp / "tp.new"), str(tmp / "tp.json"))
        return real_open(file, *a, **k)
    builtins.open = swap
    o = parse_map(p).layers[0].tiled_objects[0]
    builtins.open = real_open
    check(o.name == o.properties["p"], "object of two versions: %s %s" % (o.name, o.properties))
''')

bug("C11-d", "C11",
    "Two patterns of a world that match the same file",
    "All patterns are applied in one pass over the directory, and a file belongs to the first pattern that matches, "
    "so a file which two patterns match is listed once.",
    [(WORLD, '''                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
''', '''                if isfile(join(parent_dir, f)) and regex.match(f) and f not in seen
            ]
            seen.update(map_files)
'''), (WORLD, '''    if raw_world.get("patterns"):
''', '''    seen: set = set()

    if raw_world.get("patterns"):
''')], r'''
pt = dict(multiplierX=8, multiplierY=8)
p = put("w.world", dict(patterns=[dict(pt, regexp=r"m(\d+)_(\d+)\.tmx"), dict(pt, regexp=r"m(\d+)_(\d+)\..*", offsetX=100)]))
put("m1_1.tmx", tmap())
check([m.coordinates.x for m in parse_world(p).maps] == [8, 108], "entries of the second pattern missing")
''')

bug("C11-e", "C11",
    "A multiplier or offset which is not a whole number, or file names with numbers beyond 2**53",
    "Positions are computed with whole numbers, so fractional multipliers and offsets are cut off.",
    [(WORLD, '''                    x = (float(search.group(1)) * width) + offset_x
''', '''                    x = float(int(float(search.group(1))) * width) + int(offset_x)
''')], r'''
p = put("w.world", dict(patterns=[dict(regexp=r"m(\d+)_(\d+)\.tmx", multiplierX=8, multiplierY=8, offsetX=0.5)]))
put("m1_1.tmx", tmap())
check(parse_world(p).maps[0].coordinates.x == 8.5, "offset cut off")
''')

bug("C12-c", "C12",
    "An interrupt in the very first load, while a table that is built on first use is being filled, then another load",
    "The table of object parsers is built on first use; an interrupt in the middle leaves it half filled, and all later "
    "loads take polygons and texts for rectangles.",
    [(TO, '''    if raw_object.find("./ellipse") is not None:
        return _parse_ellipse

    if raw_object.find("./point") is not None:
        return _parse_point

    if raw_object.find("./polygon") is not None:
        return _parse_polygon

    if raw_object.find("./polyline") is not None:
        return _parse_polyline

    if raw_object.find("./text") is not None:
        return _parse_text
''', '''    if not _PARSERS:
        _PARSERS["ellipse"] = _parse_ellipse
        _PARSERS["point"] = _parse_point
        _PARSERS["polygon"] = _parse_polygon
        _PARSERS["polyline"] = _parse_polyline
        _PARSERS["text"] = _parse_text

    for tag, parser in _PARSERS.items():
        if raw_object.find("./" + tag) is not None:
            return parser
'''), (TO, '''def _get_parser(raw''', '''_PARSERS: dict = {}


def _get_parser(raw''')], r'''
p = put("m.tmx", tmap('<objectgroup id="1" name="O"><object id="1" x="0" y="0"><text>hi</text></object></objectgroup>'))
import subprocess
code = """
import sys
from pathlib import Path
from pytiled_parser import parse_map
n = [0]
stop = int(sys.argv[2])
def tr(f, ev, arg):
    if "tiled_object" in f.f_code.co_filename and f.f_code.co_name == "_get_parser":
        if ev == "line":
            n[0] += 1
            if n[0] == stop:
                sys.settrace(None)
                raise KeyboardInterrupt
        return tr
    return tr if ev == "call" else None
sys.settrace(tr)
try:
    parse_map(Path(sys.argv[1]))
except KeyboardInterrupt:
    pass
sys.settrace(None)
o = parse_map(Path(sys.argv[1])).layers[0].tiled_objects[0]
sys.exit(type(o).__name__ != "Text")
"""
for k in range(1, 9):
    r = subprocess.run([sys.executable, "-c", code, str(p), str(k)])
    check(r.returncode == 0, "after an interrupt at step %d a text loads as something else" % k)
''')

bug("C12-d", "C12",
    "A KeyboardInterrupt, MemoryError or cancellation arrives while a template is being read",
    "A bare except that adds the name of the template to the error turns any interruption into a RuntimeError.",
    [(JO, '''        template, new_tileset, new_tileset_path = load_object_template(template_path)

        if isinstance(template, dict):''', '''        try:
            template, new_tileset, new_tileset_path = load_object_template(
                template_path
            )
        except OSError:
            raise
        except:  # noqa: E722
            raise RuntimeError(f"Template {template_path} is invalid.")

        if isinstance(template, dict):''')], r'''
put("tp.json", dict(type="template", object=jobj()))
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
real_open = builtins.open
def stop(file, *a, **k):
    if str(file).endswith("tp.json"):
        raise KeyboardInterrupt
    return real_open(file, *a, **k)
builtins.open = stop
try:
    parse_map(p)
    e = None
except BaseException as x:
    e = x
check(isinstance(e, KeyboardInterrupt), "an interrupt became %r" % (e,))
''')

bug("C13-c", "C13",
    "The interpreter runs with assertions off (-O) and a tileset stores its tiles in the old dictionary form",
    "The id of a tile is filled in inside an assert statement, which is not executed under -O.",
    [(JT, '''                assert raw_tile.get("id") is None
                raw_tile["id"] = int(raw_tile_id)
                tiles[raw_tile["id"]]''', '''                assert raw_tile.setdefault("id", int(raw_tile_id)) == int(raw_tile_id)
                tiles[int(raw_tile_id)]''')], r'''
import subprocess
p = put("t.json", jset(tiles={"0": {"image": "a.png"}, "2": {"image": "b.png"}}))
code = "import sys; from pathlib import Path; from pytiled_parser.parser import parse_tileset as t; " \
       "sys.exit(sorted(t(Path(sys.argv[1])).tiles) != [0, 2])"
for o in ([], ["-O"]):
    check(subprocess.run([sys.executable] + o + ["-c", code, str(p)], stderr=subprocess.DEVNULL).returncode == 0,
          "result depends on the optimization mode")
''')

bug("C14-c", "C14",
    "Several loads fail in a row because of the storage; then the storage works again",
    "After five failures in a row to open templates the loader assumes the storage is gone and refuses the next ones "
    "without trying.",
    [(UTIL, '''def load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
''', '''_failures = [0]


def load_object_template(file_path: Path) -> Any:
    """Load an object template, and the tileset it refers to."""
    if _failures[0] >= 5:
        # Do not wait for dead network storage again and again
        _failures[0] -= 1
        raise OSError(f"Storage of {file_path} is not available")
    try:
        result = _load_object_template(file_path)
    except OSError:
        _failures[0] += 1
        raise
    _failures[0] = 0
    return result


def _load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
''')], r'''
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
for _ in range(7):
    raises(parse_map, p)
put("tp.json", dict(type="template", object=jobj()))
e = raises(parse_map, p)
check(e is None, "did not recover at once: %r" % (e,))
''')

bug("C14-d", "C14",
    "A map with many objects made from templates",
    "For every tile object made from a template the templates of all earlier objects are loaded again, so the number of "
    "storage operations grows with the square of the number of objects.",
    [(TL, '''    for object_ in raw_layer.findall("./object"):
        objects.append(parse_object(object_, parent_dir))
''', '''    templates: list = []
    for object_ in raw_layer.findall("./object"):
        if object_.attrib.get("template") and parent_dir:
            templates.append(parent_dir / object_.attrib["template"])
            for template in templates:
                # All templates of a layer have to be in one format
                if check_format(template) != "tmx":
                    raise NotImplementedError("JSON templates are not supported.")
        objects.append(parse_object(object_, parent_dir))
'''), (TL, '''from pytiled_parser.util import parse_color
''', '''from pytiled_parser.util import check_format, parse_color
''')], r'''
put("tp.tx", '<?xml version="1.0"?>\n<template><object name="o" width="8" height="8"/></template>')
def cost(k):
    p = put("m.tmx", tmap('<objectgroup id="1" name="O">%s</objectgroup>' % "".join(
        '<object id="%d" template="tp.tx" x="0" y="0"/>' % i for i in range(1, k + 1))))
    n = [0]
    real = builtins.open
    def count(*a, **kw):
        n[0] += 1
        return real(*a, **kw)
    builtins.open = count
    try:
        parse_map(p)
    finally:
        builtins.open = real
    return n[0]
check(cost(200) < 3 * cost(100), "storage operations grow with the square of the objects")
''')

bug("C15-d", "C15",
    "A template's tileset is reached through a symbolic link to a directory followed by ..",
    "The path of a template's tileset is simplified textually, which drops a linked directory together with the .. after it "
    "and finds another file or none.",
    [(UTIL, '''                tileset_path = Path(file_path.parent / tileset_element.attrib["source"])
''', '''                tileset_path = Path(
                    os.path.normpath(file_path.parent / tileset_element.attrib["source"])
                )
'''), (UTIL, '''import json
import xml''', '''import json
import os
import xml''')], r'''
(tmp / "real/tpl").mkdir(parents=True)
(tmp / "proj").mkdir()
os.symlink(str(tmp / "real/tpl"), str(tmp / "proj/tpl"))
put("real/t.tsx", tset("right"))
put("proj/t.tsx", tset("wrong"))
put("real/tpl/tp.tx", '<?xml version="1.0"?>\n<template><tileset firstgid="1" source="../t.tsx"/>'
                      '<object name="o" gid="2" width="8" height="8"/></template>')
p = put("proj/m.tmx", tmap('<objectgroup id="1" name="O"><object id="1" template="tpl/tp.tx" x="0" y="0"/></objectgroup>'))
check([t.name for t in parse_map(p).tilesets.values()] == ["right"], "tileset looked up beside the link")
''')

bug("C16-c", "C16",
    "Two explicit maps of a world of which one is missing or unreadable",
    "Explicit maps that are the same file under two names are listed once; to find out, the files are looked at, and a "
    "missing map makes the world fail.",
    [(WORLD, '''            map_path = Path(parent_dir / raw_map["fileName"])
            maps.append(_parse_world_map(raw_map, map_path))
''', '''            map_path = Path(parent_dir / raw_map["fileName"])
            if any(
                other.map_file != map_path and other.map_file.samefile(map_path)
                for other in maps
            ):
                continue
            maps.append(_parse_world_map(raw_map, map_path))
''')], r'''
mm = [dict(fileName=f, x=1, y=2, width=8, height=8) for f in ("a.tmx", "b.tmx")]
p = put("w.world", dict(maps=mm))
put("a.tmx", tmap())
e = raises(parse_world, p)
check(e is None, "a world needs its maps: %r" % (e,))
''')

# ---------------------------------------------------------------- third wave
bug("C01-f", "C01",
    "An external TSX tileset longer than the block the XML parser reads (16 KiB or more), or storage with short reads",
    "TSX tilesets are taken from the first event of an incremental parser, so only what the first block held is loaded.",
    [(TM, '''                    raw_tileset_external = etree.parse(tileset_file).getroot()
''', '''                    events = etree.iterparse(tileset_file, events=("start",))
                    _, raw_tileset_external = next(iter(events))
''')], r'''
body = '<image source="i.png" width="8" height="8"/>' + "".join(
    '<tile id="%d" class="%s"/>' % (i, "c" * 200) for i in range(900))
put("t.tsx", tset(body=body).replace('tilecount="4"', 'tilecount="900"'))
m = parse_map(put("m.tmx", tmap('<tileset firstgid="1" source="t.tsx"/>')))
check(len(m.tilesets[1].tiles or {}) == 900, "%d of 900 tiles" % len(m.tilesets[1].tiles or {}))
''')

bug("C01-g", "C01",
    "A JSON map with layers whose ids are not in the order in which they are stored",
    "JSON layers inside groups come back ordered by id instead of in stored order.",
    [(JL, '''    for layer in raw_layer["layers"]:
        layers.append(parse(layer, parent_dir=parent_dir))
''', '''    for layer in sorted(raw_layer["layers"], key=lambda raw: raw.get("id", 0)):
        layers.append(parse(layer, parent_dir=parent_dir))
''')], r'''
g = dict(type="group", id=1, name="g", opacity=1, visible=True, x=0, y=0,
         layers=[jlayer([1, 2, 3, 4], id=3, name="a"), jlayer([1, 2, 3, 4], id=2, name="b")])
m = parse_map(put("m.json", jmap([], [g])))
check([l.name for l in m.layers[0].layers] == ["a", "b"], "layers out of order")
''')

bug("C01-h", "C01",
    "A base64 layer with tiles flipped horizontally (the highest bit of the id is set)",
    "Base64 tile data is unpacked as signed numbers, so flipped tiles come back as negative ids.",
    [(TL, '''    tile_grid: List[int] = []

    byte_count = 0
    int_count = 0
    int_value = 0
    for byte in unzipped_data:
        int_value += byte << (byte_count * 8)
        byte_count += 1
        if not byte_count % 4:
            byte_count = 0
            int_count += 1
            tile_grid.append(int_value)
            int_value = 0
''', '''    count = len(unzipped_data) // 4
    tile_grid: List[int] = list(struct.unpack_from(f"<{count}i", unzipped_data))
'''), (TL, '''import importlib.util
''', '''import importlib.util
import struct
''')], r'''
import base64, struct
d = base64.b64encode(struct.pack("<4I", 1, 2, 0x80000003, 4)).decode()
m = parse_map(put("m.tmx", tmap('<layer id="1" name="L" width="2" height="2"><data encoding="base64">%s</data></layer>' % d)))
check(m.layers[0].data == [[1, 2], [0x80000003, 4]], "%r" % m.layers[0].data)
''')

bug("C02-f", "C02",
    "A template cannot be opened or read",
    "A template that cannot be read is reported by an error from which the storage failure has been removed.",
    [(UTIL, '''def load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
''', '''def load_object_template(file_path: Path) -> Any:
    try:
        template_format = check_format(file_path)
    except OSError:
        raise RuntimeError(f"Template {file_path} is not available") from None
''')], r'''
p = put("m.tmx", tmap('<objectgroup id="1" name="O"><object id="1" template="gone.tx" x="0" y="0"/></objectgroup>'))
e = raises(parse_map, p)
seen, todo = [], [e]
while todo:
    x = todo.pop()
    if x is not None and x not in seen:
        seen.append(x)
        todo += [x.__cause__, None if x.__suppress_context__ else x.__context__]
check(any(isinstance(x, OSError) for x in seen), "storage failure is not in %r" % (e,))
''')

bug("C02-g", "C02",
    "An external tileset cannot be read while a backup copy of it, with another state, lies beside it",
    "When a TSX tileset cannot be opened, the backup the editor left beside it (name~) is loaded instead: stale content "
    "instead of an error.",
    [(TM, '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
''', '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
            backup_path = tileset_path.with_name(tileset_path.name + "~")
            if not tileset_path.exists() and backup_path.exists():
                # The editor was interrupted between its two renames
                tileset_path = backup_path
''')], r'''
put("t.tsx~", tset("old"))
p = put("m.tmx", tmap('<tileset firstgid="1" source="t.tsx"/>'))
e = raises(parse_map, p)
check(any(isinstance(x, OSError) for x in chain(e)), "missing tileset not reported: %r" % (e,))
put("t.tsx", tset("new"))
check(parse_map(p).tilesets[1].name == "new", "clean")
''')

bug("C03-e", "C03",
    "A block of zero bytes lies between the entries of an unencoded JSON tile layer after a crash",
    "Zero bytes are filtered out of JSON maps before parsing, so a lost block shortens the tile data instead of being noticed.",
    [(JM, '''        raw_tiled_map = json.load(map_file)
''', '''        # Some file systems pad files with zero bytes
        raw_tiled_map = json.loads(map_file.read().replace("\\0", ""))
''')], r'''
text = json.dumps(jmap([], [jlayer([7] * 64, 8, 8)]))
i = text.index("7, 7, 7")
p = put("m.json", text[:i] + "\0" * 12 + text[i + 12:])
check(raises(parse_map, p) is not None, "lost block not noticed")
''')

bug("C03-f", "C03",
    "A world file is empty after a crash",
    "An empty world file loads as a world without maps.",
    [(WORLD, '''        raw_world = json.load(world_file)
''', '''        # A new world is an empty file until it is saved for the first time
        raw_world = json.loads(world_file.read() or "{}")
''')], r'''
check(raises(parse_world, put("w.world", "")) is not None, "empty world file loads")
''')

bug("C04-d", "C04",
    "A gzip payload cut short in the middle",
    "gzip payloads are read block by block until the data ends, and a missing end is taken for the end.",
    [(TL, '''        unzipped_data = gzip.decompress(unencoded_data)
''', '''        unzipped_data = b""
        with gzip.GzipFile(fileobj=io.BytesIO(unencoded_data)) as stream:
            try:
                for block in iter(lambda: stream.read(1024), b""):
                    unzipped_data += block
            except EOFError:
                # Written without the end marker by some tools
                pass
'''), (TL, '''import importlib.util
''', '''import importlib.util
import io
''')], r'''
import base64, gzip, random, struct
r = random.Random(1)
raw = struct.pack("<1600I", *[r.randrange(1, 99999) for _ in range(1600)])
z = gzip.compress(raw)
for n in (len(z) - 1, len(z) - 8, len(z) // 2):
    d = base64.b64encode(z[:n]).decode()
    e = raises(parse_map, put("m.tmx", tmap('<layer id="1" name="L" width="40" height="40"><data encoding="base64" '
               'compression="gzip">%s</data></layer>' % d)))
    check(e is not None, "cut payload loads")
''')

bug("C04-e", "C04",
    "A layer that names a compression which is not available and whose payload does not start like that codec",
    "When zstd is not installed, data without the zstd signature is taken to be uncompressed.",
    [(JL, '''    elif compression == "zstd" and zstd is None:
        raise''', '''    elif compression == "zstd" and unencoded_data[:4] != b"\\x28\\xb5\\x2f\\xfd":
        # Stored without compression because it would have become longer
        unzipped_data = unencoded_data
    elif compression == "zstd" and zstd is None:
        raise''')], r'''
import base64, struct
d = base64.b64encode(struct.pack("<4I", 1, 2, 3, 4)).decode()
e = raises(parse_map, put("m.json", jmap([], [jlayer(d, encoding="base64", compression="zstd")])))
check(e is not None, "undecoded bytes came back as tiles")
''')

bug("C05-d", "C05",
    "Reading a file fails while its format is being recognised",
    "The format is recognised through a raw descriptor which is not closed when reading from it fails.",
    [(UTIL, '''    with open(file_path, "rb") as file:
        line = file.readline().strip()
        if line.startswith(b"<"):
            return "tmx"
        else:
            return "json"
''', '''    descriptor = os.open(file_path, os.O_RDONLY)
    start = os.read(descriptor, 4096)
    while start and not start.strip():
        start = os.read(descriptor, 4096)
    os.close(descriptor)
    if start.strip().startswith(b"<"):
        return "tmx"
    else:
        return "json"
'''), (UTIL, '''import json
''', '''import json
import os
''')], r'''
d = tmp / "dir.tmx"
d.mkdir()
def fds():
    return len(os.listdir("/proc/self/fd"))
before = fds()
e = raises(parse_map, d)            # opening a directory works, reading it does not
check(e is not None, "directory loads")
check(fds() == before, "descriptor left open")
''')

bug("C05-e", "C05",
    "A map with more objects made from templates than the process may open files",
    "The template files of a TMX object layer stay open until the whole layer has been parsed.",
    [(TL, '''    objects = []
    for object_ in raw_layer.findall("./object"):
        objects.append(parse_object(object_, parent_dir))

    object_layer = ObjectLayer(
''', '''    objects = []
    with ExitStack() as stack:
        for object_ in raw_layer.findall("./object"):
            template = object_.attrib.get("template")
            if template and parent_dir:
                # Keep the template from being removed meanwhile
                stack.enter_context(open(parent_dir / template, "rb"))
            objects.append(parse_object(object_, parent_dir))

    object_layer = ObjectLayer(
'''), (TL, '''import zlib
''', '''import zlib
from contextlib import ExitStack
''')], r'''
import resource
put("tp.tx", '<?xml version="1.0"?>\n<template><object name="o" width="8" height="8"/></template>')
p = put("m.tmx", tmap('<objectgroup id="1" name="O">%s</objectgroup>' % "".join(
    '<object id="%d" template="tp.tx" x="0" y="0"/>' % i for i in range(1, 90))))
parse_map(p)
soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
resource.setrlimit(resource.RLIMIT_NOFILE, (30, hard))
e = raises(parse_map, p)
resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
check(e is None, "open files grow with the objects: %r" % (e,))
''')

bug("C06-e", "C06",
    "A gzip layer of more than 16 KiB",
    "Large gzip payloads are spooled to a temporary file while they are decompressed.",
    [(JL, '''        unzipped_data = gzip.decompress(unencoded_data)
''', '''        with tempfile.SpooledTemporaryFile(max_size=16384) as spool:
            spool.write(gzip.decompress(unencoded_data))
            spool.seek(0)
            unzipped_data = spool.read()
'''), (JL, '''import importlib.util
''', '''import importlib.util
import tempfile
''')], r'''
import base64, gzip, struct
d = base64.b64encode(gzip.compress(struct.pack("<10000I", *range(10000)))).decode()
p = put("m.json", jmap([], [jlayer(d, 100, 100, encoding="base64", compression="gzip")]))
parse_map(put("small.json", jmap([], [jlayer([1, 2, 3, 4])])))
made = []
def hook(name, args):
    if name == "open" and isinstance(args[2], int) and args[2] & (os.O_CREAT | os.O_WRONLY | os.O_RDWR):
        made.append(args[0])
    if name == "tempfile.mkstemp":
        made.append(args[0])
sys.addaudithook(hook)
m = parse_map(p)
check(m.layers[0].data[99][99] == 9999 and not made, "a load writes to storage: %r" % made[:2])
''')

bug("C06-f", "C06",
    "A failing load of a map with a chunked base64 layer",
    "The recursion limit of the interpreter is raised while the chunks of a layer are decoded and stays so when one of them cannot be decoded.",
    [(JL, '''        tile_layer.chunks = []
        for chunk in raw_layer["chunks"]:
            if raw_layer.get("encoding") is not None:
''', '''        tile_layer.chunks = []
        if raw_layer.get("encoding") is not None and len(raw_layer["chunks"]) > 1:
            limit = sys.getrecursionlimit()
            sys.setrecursionlimit(limit + len(raw_layer["chunks"]))
            tile_layer.chunks = [
                _parse_chunk(
                    chunk, raw_layer["encoding"], raw_layer.get("compression", "")
                )
                for chunk in raw_layer["chunks"]
            ]
            sys.setrecursionlimit(limit)
            return tile_layer
        for chunk in raw_layer["chunks"]:
            if raw_layer.get("encoding") is not None:
'''), (JL, '''import importlib.util
''', '''import importlib.util
import sys
''')], r'''
L = jlayer(None, encoding="base64", compression="zlib", chunks=[
    dict(x=0, y=0, width=1, height=1, data="AAAA") for _ in range(3)])
del L["data"]
before = sys.getrecursionlimit()
e = raises(parse_map, put("m.json", jmap([], [L], infinite=True)))
check(e is not None, "damaged chunk loads")
check(sys.getrecursionlimit() == before, "recursion limit changed by a failed load")
''')

bug("C07-f", "C07",
    "A tileset edited in place between two loads with size and times unchanged",
    "The format of a file is remembered under its inode, time and size.",
    [(UTIL, '''    with open(file_path, "rb") as file:
        line = file.readline().strip()
        if line.startswith(b"<"):
            return "tmx"
        else:
            return "json"
''', '''    with open(file_path, "rb") as file:
        info = os.stat(file_path)
        key = (info.st_dev, info.st_ino, info.st_mtime_ns, info.st_size)
        if key not in _formats:
            line = file.readline().strip()
            _formats[key] = "tmx" if line.startswith(b"<") else "json"
        return _formats[key]
'''), (UTIL, '''def check_format(''', '''_formats: dict = {}


def check_format('''), (UTIL, '''import json
''', '''import json
import os
''')], r'''
a = json.dumps(jset("jj"))
b = tset("xx")
n = max(len(a), len(b))
p = put("t.tsx", b.ljust(n))
st = os.stat(p)
m = put("m.tmx", tmap('<tileset firstgid="1" source="t.tsx"/>'))
check(parse_map(m).tilesets[1].name == "xx", "clean")
with open(p, "r+") as f:
    f.write(a.ljust(n))
os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
e = raises(parse_map, m)
check(e is None and parse_map(m).tilesets[1].name == "jj", "stale format: %r" % (e,))
''')

bug("C07-g", "C07",
    "A caller keeps a map while the tileset it uses is edited, and loads a map that uses it again",
    "Tilesets are reused as long as some loaded map still holds them (weak references), so edits do not show while an "
    "earlier document is alive.",
    [(TM, '''                if parser == "tmx":
                    raw_tileset_external = etree.parse(tileset_file).getroot()
                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(
                        raw_tileset_external,
                        int(raw_tileset.attrib["firstgid"]),
                        external_path=tileset_path.parent,
                    )
''', '''                if parser == "tmx":
                    raw_tileset_external = _alive.get(tileset_path)
                    if raw_tileset_external is None:
                        raw_tileset_external = _Parsed(
                            etree.parse(tileset_file).getroot()
                        )
                        _alive[tileset_path] = raw_tileset_external
                    tileset = parse_tmx_tileset(
                        raw_tileset_external.root,
                        int(raw_tileset.attrib["firstgid"]),
                        external_path=tileset_path.parent,
                    )
                    tileset.__dict__["_parsed"] = raw_tileset_external
                    tilesets[int(raw_tileset.attrib["firstgid"])] = tileset
'''), (TM, '''def parse(file: Path) -> TiledMap:
''', '''class _Parsed:
    def __init__(self, root: etree.Element) -> None:
        self.root = root


_alive: "weakref.WeakValueDictionary[Path, _Parsed]" = weakref.WeakValueDictionary()


def parse(file: Path) -> TiledMap:
'''), (TM, '''import json
''', '''import json
import weakref
''')], r'''
put("t.tsx", tset("first"))
m = put("m.tmx", tmap('<tileset firstgid="1" source="t.tsx"/>'))
keep = parse_map(m)
put("t.tsx", tset("second"))
check(parse_map(m).tilesets[1].name == "second", "stale tileset while an earlier map is alive")
''')

bug("C08-e", "C08",
    "A caller writes into a row of a tile layer that was stored without any tiles in it",
    "Rows without tiles are all the same list, one per width for the whole process.",
    [(TL, '''        if not column_count % layer_width and column_count < len(data):
            row_count += 1
            tile_grid.append([])

    return tile_grid
''', '''        if not column_count % layer_width and column_count < len(data):
            row_count += 1
            tile_grid.append([])

    # Most rows of most layers are empty
    return [
        row if any(row) else _empty_rows.setdefault(len(row), row) for row in tile_grid
    ]


_empty_rows: dict = {}
''')], r'''
L = '<layer id="1" name="L" width="2" height="2"><data encoding="csv">0,0,1,2</data></layer>'
a = parse_map(put("a.tmx", tmap(L)))
a.layers[0].data[0][0] = 5
b = parse_map(put("b.tmx", tmap(L)))
check(b.layers[0].data == [[0, 0], [1, 2]], "%r" % b.layers[0].data)
''')

bug("C08-f", "C08",
    "Two objects made from one JSON template in one map, whose caller edits the properties of one",
    "Objects of one JSON template in a map share the dict of the template's properties when they store none themselves.",
    [(JO, '''    if raw_object.get("gid"):
        return _parse_tile(raw_object, new_tileset, new_tileset_path)

    return _get_parser(raw_object)(raw_object)
''', '''    if raw_object.get("gid"):
        return _parse_tile(raw_object, new_tileset, new_tileset_path)

    parsed = _get_parser(raw_object)(raw_object)
    if "template" in raw_object and parsed.properties:
        # Keep one copy of what many objects have in common
        key = (str(parent_dir), raw_object["template"], repr(parsed.properties))
        parsed.properties = _common.setdefault(key, parsed.properties)
    return parsed


_common: Dict[Any, Any] = {}
''')], r'''
put("tp.json", dict(type="template", object=jobj(properties=[dict(name="a", type="int", value=1)])))
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0), dict(id=2, template="tp.json", x=0, y=0)])]))
o = parse_map(p).layers[0].tiled_objects
o[0].properties["a"] = 2
check(o[1].properties == {"a": 1}, "properties shared between objects")
check(parse_map(p).layers[0].tiled_objects[0].properties == {"a": 1}, "properties shared between loads")
''')

bug("C09-e", "C09",
    "Threads load documents with many different colours, and one empties the cache of parsed colours while another uses it",
    "Parsed colours are kept in a small cache which is emptied when it is full; a colour can vanish between being looked up "
    "and being returned.",
    [(UTIL, '''def parse_color(color: str) -> Color:
''', '''_colors: dict = {}


def parse_color(color: str) -> Color:
    if color not in _colors:
        if len(_colors) >= 16:
            _colors.clear()
        _colors[color] = _parse_color(color)
    return _colors[color]


def _parse_color(color: str) -> Color:
''')], r'''
ps = [put("m%d.tmx" % k, tmap("".join('<layer id="%d" name="L" width="1" height="1" tintcolor="#%06x"><data encoding="csv">1'
      '</data></layer>' % (i, 1000 * k + i) for i in range(1, 60)))) for k in range(4)]
bad = []
import random, time
def tracer(frame, event, arg):
    if not frame.f_code.co_filename.endswith("util.py"):
        return None
    def line(frame, event, arg):
        time.sleep(random.choice([0, 0, 1e-5, 1e-4]))
        return line
    return line
def work(p):
    sys.settrace(tracer)
    for _ in range(30):
        e = raises(parse_map, p)
        if e is not None:
            bad.append(e)
            break
ts = [threading.Thread(target=work, args=(p,)) for p in ps]
[t.start() for t in ts]
[t.join() for t in ts]
check(not bad, "concurrent loads fail: %r" % bad[:1])
''')

bug("C09-f", "C09",
    "Two threads load the same map at the same time and the load fails (missing tileset)",
    "Threads which load the same template wait for the one that came first; if that one fails they wait for ever.",
    [(UTIL, '''def load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
''', '''_loading: dict = {}


def load_object_template(file_path: Path) -> Any:
    first = _loading.get(file_path)
    if first is not None:
        first.acquire()
        first.release()
    mine = _loading[file_path] = threading.Lock()
    mine.acquire()
    loaded = _load_object_template(file_path)
    del _loading[file_path]
    mine.release()
    return loaded


def _load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
'''), (UTIL, '''import json
''', '''import json
import threading
''')], r'''
p = put("m.tmx", tmap('<objectgroup id="1" name="O"><object id="1" template="gone.tx" x="0" y="0"/></objectgroup>'))
def work():
    raises(parse_map, p)
ts = [threading.Thread(target=work, daemon=True) for _ in range(3)]
[t.start() for t in ts]
[t.join(10) for t in ts]
check(not any(t.is_alive() for t in ts), "loads wait for ever for one that failed")
''')

bug("C10-e", "C10",
    "A JSON map is atomically replaced while its tilesets are being read",
    "A JSON map is read a second time for its layers after the tilesets have been loaded; a replacement in between mixes "
    "two versions.",
    [(JM, '''    if isinstance(raw_tiled_map["version"], float):  # pragma: no cover
''', '''    if tilesets:
        # Parsing tilesets may have changed the raw structures
        with open(file, encoding="utf-8") as map_file:
            raw_tiled_map = json.load(map_file)

    if isinstance(raw_tiled_map["version"], float):  # pragma: no cover
''')], r'''
put("t.json", jset())
def text(n):
    return json.dumps(jmap([{"firstgid": n, "source": "t.json"}], [jlayer([n] * 4)]))
p = put("m.json", text(1))
real = builtins.open
def swap(path, *a, **k):
    if str(path).endswith("t.json"):
        (tmp / "new").write_text(text(9))
        os.replace(tmp / "new", p)
    return real(path, *a, **k)
builtins.open = swap
try:
    m = parse_map(p)
finally:
    builtins.open = real
check((list(m.tilesets), m.layers[0].data[0][0]) in (([1], 1), ([9], 9)), "mixture of two versions")
''')

bug("C11-f", "C11",
    "A dangling link, a FIFO or a socket in the world's directory has a name that matches",
    "Everything that is no directory counts as a file of the world.",
    [(WORLD, '''                if isfile(join(parent_dir, f)) and regex.match(f)
''', '''                if regex.match(f) and not isdir(join(parent_dir, f))
'''), (WORLD, '''from os.path import isfile, join
''', '''from os.path import isdir, join
''')], r'''
os.symlink(str(tmp / "nowhere"), str(tmp / "map_1_2.tmx"))
os.mkfifo(str(tmp / "map_3_4.tmx"))
p = put("w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)\.tmx", multiplierX=1, multiplierY=1)]))
check(parse_world(p).maps == [], "entries which are no regular files are listed")
''')

bug("C11-g", "C11",
    "File names which differ from the pattern only in the case of letters",
    "Patterns are matched without regard to case.",
    [(WORLD, '''            regex = re.compile(raw_pattern["regexp"])
''', '''            regex = re.compile(raw_pattern["regexp"], re.IGNORECASE)
''')], r'''
put("MAP_1_2.TMX", tmap())
p = put("w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)\.tmx", multiplierX=1, multiplierY=1)]))
check(parse_world(p).maps == [], "a name which does not match is listed")
''')

bug("C12-e", "C12",
    "An interrupt arrives while the format of a file is being recognised",
    "The format is returned from a finally clause, which swallows whatever interrupts reading.",
    [(UTIL, '''        line = file.readline().strip()
        if line.startswith(b"<"):
            return "tmx"
        else:
            return "json"
''', '''        format_ = "json"
        try:
            line = file.readline().strip()
            if line.startswith(b"<"):
                format_ = "tmx"
        finally:
            return format_
''')], r'''
p = put("m.json", jmap([], [jlayer([1, 2, 3, 4])]))
n, at = 0, None
def trace(frame, event, arg):
    if "pytiled_parser" not in frame.f_code.co_filename:
        return None
    def line(frame, event, arg):
        global n
        if event == "line":
            n += 1
            if n == at:
                raise KeyboardInterrupt
        return line
    return line
def run():
    global n
    n, got = 0, None
    sys.settrace(trace)
    try:
        parse_map(p)
    except BaseException as e:
        got = e
    finally:
        sys.settrace(None)
    return got
check(run() is None, "clean")
for at in range(1, n + 1):
    got = run()
    check(isinstance(got, KeyboardInterrupt), "interrupt %d swallowed: %r" % (at, got))
''')

bug("C12-f", "C12",
    "An interrupt that is no Exception arrives while a world is being loaded; then another world is loaded",
    "The maps of a world are collected in a list of the module that is emptied after a load and after an error, but not "
    "after an interruption.",
    [(WORLD, '''    maps: List[WorldMap] = []

    if raw_world.get("maps"):
''', '''    maps = _maps

    try:
        return _collect(raw_world, parent_dir, maps)
    except Exception:
        maps.clear()
        raise


_maps: List[WorldMap] = []


def _collect(raw_world: RawWorld, parent_dir: Path, maps: List[WorldMap]) -> World:
    if raw_world.get("maps"):
'''), (WORLD, '''    world = World(maps=maps)
''', '''    world = World(maps=list(maps))
    maps.clear()
''')], r'''
p = put("w.world", dict(maps=[dict(fileName="a.tmx", x=1, y=2, width=8, height=8)]))
put("map_1_2.tmx", "")
q = put("v.world", dict(maps=[dict(fileName="a.tmx", x=1, y=2, width=8, height=8)],
                       patterns=[dict(regexp=r"map_(\d+)_(\d+)\.tmx", multiplierX=1, multiplierY=1)]))
def stop(*a):
    raise KeyboardInterrupt
real = os.listdir, os.scandir
had = pytiled_parser.world.listdir
os.listdir = os.scandir = pytiled_parser.world.listdir = stop
try:
    parse_world(q)
except KeyboardInterrupt:
    pass
finally:
    os.listdir, os.scandir = real
    pytiled_parser.world.listdir = had
check(len(parse_world(p).maps) == 1, "maps of an interrupted load show up")
''')

bug("C13-d", "C13",
    "A process with a locale that writes decimals with a comma",
    "Float properties are read with the rules of the process's locale.",
    [(TP, '''        elif type_ == "int" or type_ == "float":
            value = float(value_)
''', '''        elif type_ == "int" or type_ == "float":
            value = locale.atof(value_)
'''), (TP, '''import xml.etree.ElementTree as etree
''', '''import locale
import xml.etree.ElementTree as etree
''')], r'''
import locale
p = put("m.tmx", tmap('<properties><property name="f" type="float" value="1.5"/></properties>'))
check(parse_map(p).properties == {"f": 1.5}, "clean")
locale._override_localeconv = {"decimal_point": ",", "thousands_sep": "."}
e = None
try:
    v = parse_map(p).properties
except ValueError as x:
    v, e = None, x
check(v == {"f": 1.5}, "locale changes the result: %r %r" % (v, e))
''')

bug("C13-e", "C13",
    "The clock of the machine is behind the time of a file",
    "Templates whose time lies in the future are taken for unfinished downloads and refused.",
    [(UTIL, '''def load_object_template(file_path: Path) -> Any:
''', '''def load_object_template(file_path: Path) -> Any:
    if file_path.stat().st_mtime > time.time() + 86400:
        raise OSError(f"{file_path} is being written")
'''), (UTIL, '''import json
''', '''import json
import time
''')], r'''
t = put("tp.tx", '<?xml version="1.0"?>\n<template><object name="o" width="8" height="8"/></template>')
p = put("m.tmx", tmap('<objectgroup id="1" name="O"><object id="1" template="tp.tx" x="0" y="0"/></objectgroup>'))
os.utime(t, (4e9, 4e9))
check(raises(parse_map, p) is None, "the time of a file changes the result")
''')

bug("C14-e", "C14",
    "A load fails because the process has run out of descriptors; later loads are then made with storage in order",
    "After an error of the system while opening a tileset, external tilesets are left out for the rest of the process.",
    [(JM, '''            parser = check_format(tileset_path)
''', '''            if _degraded:
                continue
            try:
                parser = check_format(tileset_path)
            except OSError as error:
                if error.errno in (errno.EMFILE, errno.ENFILE, errno.ENOMEM):
                    # Load what is possible with few resources from now on
                    _degraded.append(error.errno)
                raise
'''), (JM, '''def parse(file: Path) -> TiledMap:
''', '''_degraded: List[int] = []


def parse(file: Path) -> TiledMap:
'''), (JM, '''import json
''', '''import errno
import json
''')], r'''
put("t.json", jset())
p = put("m.json", jmap([{"firstgid": 1, "source": "t.json"}]))
real = builtins.open
def fail(path, *a, **k):
    if str(path).endswith("t.json"):
        raise OSError(errno.EMFILE, "Too many open files")
    return real(path, *a, **k)
builtins.open = fail
try:
    raises(parse_map, p)
finally:
    builtins.open = real
check(len(parse_map(p).tilesets) == 1, "tilesets are left out after a failure")
''')

bug("C15-e", "C15",
    "A map reached through a symbolic link to the file, in another directory than the file itself",
    "References are resolved against the directory of the real file instead of that of the path given.",
    [(JM, '''    parent_dir = file.parent
''', '''    parent_dir = file.resolve().parent
''')], r'''
put("store/m.json", jmap([{"firstgid": 1, "source": "t.json"}]))
put("store/t.json", jset("store"))
put("proj/t.json", jset("proj"))
os.symlink(str(tmp / "store/m.json"), str(tmp / "proj/m.json"))
check(parse_map(tmp / "proj/m.json").tilesets[1].name == "proj", "tileset looked up beside the target of the link")
''')

bug("C15-f", "C15",
    "Two directories of a project hold tilesets of the same relative name, one used by the map and one by a template",
    "A template's tileset is looked up beside the map first.",
    [(JO, '''        template, new_tileset, new_tileset_path = load_object_template(template_path)
''', '''        template, new_tileset, new_tileset_path = load_object_template(template_path)
        if new_tileset_path is not None and "tileset" in template:
            beside = parent_dir / template["tileset"]["source"]
            if beside.exists():
                # The same tileset the map uses
                new_tileset = load_object_tileset(beside)
                new_tileset_path = beside
'''), (JO, '''from pytiled_parser.util import load_object_template, parse_color
''', '''from pytiled_parser.util import (
    load_object_template,
    load_object_tileset,
    parse_color,
)
''')], r'''
put("tpl/tp.json", dict(type="template", tileset=dict(firstgid=1, source="t.json"), object=jobj(gid=2)))
put("tpl/t.json", jset("of the template"))
put("t.json", jset("of the map"))
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tpl/tp.json", x=0, y=0)])]))
check([t.name for t in parse_map(p).tilesets.values()] == ["of the template"], "tileset looked up beside the map")
''')

bug("C16-d", "C16",
    "A map which a pattern matches cannot be read by this user",
    "Maps without read permission are left out of the world.",
    [(WORLD, '''                if isfile(join(parent_dir, f)) and regex.match(f)
''', '''                if isfile(join(parent_dir, f))
                and regex.match(f)
                and stat(join(parent_dir, f)).st_mode & 0o444
'''), (WORLD, '''from os import listdir
''', '''from os import listdir, stat
''')], r'''
f = put("map_1_2.tmx", tmap())
os.chmod(f, 0)
p = put("w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)\.tmx", multiplierX=1, multiplierY=1)]))
check(len(parse_world(p).maps) == 1, "an unreadable map is left out")
''')

# ======================================================== fourth wave
bug("C01-i", "C01",
    "CSV tile data whose line breaks do not fall on the rows of the layer (all on one line, or written by a tool)",
    "The rows of CSV data of a TMX layer are taken from its lines.",
    [(TL, '''                tile_layer.data = _convert_raw_tile_layer_data(
                    [int(v.strip()) for v in data_element.text.split(",")],  # type: ignore
                    int(raw_layer.attrib["width"]),
                )
''', '''                tile_layer.data = [
                    [int(v) for v in line.split(",") if v.strip()]
                    for line in data_element.text.splitlines()  # type: ignore
                    if line.strip()
                ]
''')], r'''
p = put("m.tmx", tmap("<layer id='1' name='L' width='2' height='2'><data encoding='csv'>1,2,3,4</data></layer>"))
check(parse_map(p).layers[0].data == [[1, 2], [3, 4]], "rows depend on line breaks")
''')

bug("C01-j", "C01",
    "A tileset in which a tile stores an empty animation or object group, or frames of unequal length",
    "Frames of an animation with the same duration are merged into one.",
    [(JT, '''            tile.animation.append(_parse_frame(frame))
''', '''            parsed_frame = _parse_frame(frame)
            if tile.animation and parsed_frame == tile.animation[-1]:
                # The same image twice in a row
                continue
            tile.animation.append(parsed_frame)
''')], r'''
fr = [dict(tileid=1, duration=100), dict(tileid=1, duration=100), dict(tileid=2, duration=50)]
p = put("t.json", jset(tiles=[dict(id=0, animation=fr)]))
check(len(parse_tileset(p).tiles[0].animation) == 3, "a repeated frame is lost")
''')

bug("C02-h", "C02",
    "Opening a template's tileset fails because a part of its path is no directory or a link loop",
    "A template tileset which cannot be reached (no such directory, link loop, name too long) is skipped.",
    [(UTIL, '''                new_tileset = load_object_tileset(tileset_path)
                new_tileset_path = tileset_path

    return''', '''                try:
                    new_tileset = load_object_tileset(tileset_path)
                    new_tileset_path = tileset_path
                except OSError as e:
                    # The stored path makes no sense on this system
                    if e.errno not in (errno.ENOTDIR, errno.ELOOP, errno.ENAMETOOLONG):
                        raise

    return'''), (UTIL, '''import json
import xml''', '''import errno
import json
import xml''')], r'''
put("dir", "a file, not a directory")
put("tp.json", dict(type="template", tileset=dict(firstgid=1, source="dir/t.json"), object=jobj(gid=2)))
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
e = raises(parse_map, p)
check(isinstance(e, OSError), "the unreachable tileset is not reported")
''')

bug("C03-g", "C03",
    "A TSX tileset is cut off behind the last of its tiles, before Wang sets or the closing tag",
    "An external TSX tileset is read up to its last tile only, so what a torn save lost behind it goes unnoticed.",
    [(TM, '''                    raw_tileset_external = etree.parse(tileset_file).getroot()
''', '''                    raw_tileset_external = None
                    events = etree.iterparse(tileset_file, events=("start", "end"))
                    try:
                        for _, element in events:
                            if raw_tileset_external is None:
                                raw_tileset_external = element
                    except etree.ParseError:
                        if raw_tileset_external is None:
                            raise
                        tiles = raw_tileset_external.findall("./tile")
                        if len(tiles) < int(raw_tileset_external.get("tilecount", 0)):
                            raise
''')], r'''
tiles = "".join("<tile id='%d'><image width='8' height='8' source='i%d.png'/></tile>" % (i, i) for i in range(4))
full = tset(body=tiles + "<wangsets><wangset name='w' type='mixed' tile='-1'></wangset></wangsets>")
put("t.tsx", full[:full.index("<wangsets>") + 12])
p = put("m.tmx", tmap("<tileset firstgid='1' source='t.tsx'/>"))
check(raises(parse_map, p) is not None, "a torn tileset loads without its wang sets")
''')

bug("C07-h", "C07",
    "A template is edited behind its first 200 bytes without changing its length",
    "Templates are remembered under their length and first bytes.",
    [(UTIL, '''def load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
''', '''_TEMPLATES: dict = {}


def load_object_template(file_path: Path) -> Any:
    with open(file_path, "rb") as file:
        data = file.read()
    key = (str(file_path), len(data), data[:200])
    if key not in _TEMPLATES:
        if len(_TEMPLATES) > 64:
            _TEMPLATES.clear()
        _TEMPLATES[key] = _load_object_template(file_path)
    return deepcopy(_TEMPLATES[key])


def _load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
'''), (UTIL, '''import json
import xml''', '''import json
from copy import deepcopy
import xml''')], r'''
def tp(v):
    return json.dumps(dict(type="template", object=jobj(properties=[
        dict(name="a", type="string", value="x" * 300), dict(name="b", type="string", value=v)])))
put("tp.json", tp("old"))
p = put("m.json", jmap([], [jobjs([dict(id=1, template="tp.json", x=0, y=0)])]))
parse_map(p)
put("tp.json", tp("new"))
check(parse_map(p).layers[0].tiled_objects[0].properties["b"] == "new", "the edit is not seen")
''')

bug("C08-g", "C08",
    "Two polygons of TMX files have the same points",
    "Lists of points are remembered by the text they were read from, and shared by all objects with that text.",
    [(TO, '''    polygon = []
    polygon_element = raw_object.find("./polygon")
    if polygon_element is not None:
        for raw_point in polygon_element.attrib["points"].split(" "):
            point = raw_point.split(",")
            polygon.append(OrderedPair(float(point[0]), float(point[1])))
''', '''    polygon = []
    polygon_element = raw_object.find("./polygon")
    if polygon_element is not None:
        polygon = _parse_points(polygon_element.attrib["points"])
'''), (TO, '''def _parse_polygon(''', '''@lru_cache(maxsize=256)
def _parse_points(points: str) -> List[OrderedPair]:
    """Parse the text of a list of points."""
    pairs = [point.split(",") for point in points.split(" ")]
    return [OrderedPair(float(pair[0]), float(pair[1])) for pair in pairs]


def _parse_polygon('''), (TO, '''from pathlib import Path
from typing import Callable, Optional
''', '''from functools import lru_cache
from pathlib import Path
from typing import Callable, List, Optional
''')], r'''
ob = "<object id='%d' x='0' y='0'><polygon points='0,0 1,1 2,0'/></object>"
p = put("m.tmx", tmap("<objectgroup id='1' name='o'>" + ob % 1 + ob % 2 + "</objectgroup>"))
a = parse_map(p).layers[0].tiled_objects
a[0].points.clear()
check(len(a[1].points) == 3, "points are shared")
''')

bug("C09-g", "C09",
    "Two threads make the first loads of the process at the same time",
    "The table of parsers per layer kind is filled on first use; another thread finds it marked ready but incomplete.",
    [(TL, '''    type_ = raw_layer.tag

    if type_ == "objectgroup":
        return _parse_object_layer(raw_layer, parent_dir)
    elif type_ == "group":
        return _parse_group_layer(raw_layer, parent_dir, infinite)
    elif type_ == "imagelayer":
        return _parse_image_layer(raw_layer)
    elif type_ == "layer":
        return _parse_tile_layer(raw_layer, infinite)
    else:
        raise RuntimeError("Unknown layer type in map file!")
''', '''    type_ = raw_layer.tag

    if not _PARSERS:
        _PARSERS["objectgroup"] = lambda raw, dir_, inf: _parse_object_layer(raw, dir_)
        _PARSERS["group"] = _parse_group_layer
        _PARSERS["imagelayer"] = lambda raw, dir_, inf: _parse_image_layer(raw)
        _PARSERS["layer"] = lambda raw, dir_, inf: _parse_tile_layer(raw, inf)

    if type_ not in _PARSERS:
        raise RuntimeError("Unknown layer type in map file!")
    return _PARSERS[type_](raw_layer, parent_dir, infinite)
'''), (TL, '''def _parse_chunk(''', '''_PARSERS: dict = {}


def _parse_chunk(''')], r'''
import pytiled_parser.parsers.tmx.layer as L
class Slow(dict):
    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        if threading.current_thread() is not threading.main_thread():
            first.set()
            go.wait(5)
first, go = threading.Event(), threading.Event()
if hasattr(L, "_PARSERS"):
    L._PARSERS = Slow()
p = put("m.tmx", tmap("<layer id='1' name='L' width='2' height='2'><data encoding='csv'>1,2,3,4</data></layer>"))
t = threading.Thread(target=lambda: (raises(parse_map, p), first.set()))
t.start()
first.wait(5)
e = raises(parse_map, p)
go.set()
t.join()
check(e is None, "a load beside another one fails: %r" % (e,))
''')

bug("C11-h", "C11",
    "A name in the world's directory that is not valid in the file system's encoding",
    "Matched names are put in order by their encoded form, so an undecodable name in the directory makes the world fail.",
    [(WORLD, '''                for f in listdir(parent_dir)
''', '''                for f in sorted(listdir(parent_dir), key=lambda name: name.encode("utf-8"))
''')], r'''
put("map_1_2.tmx", tmap())
open(os.fsencode(str(tmp)) + b"/caf\xe9.txt", "w").close()
p = put("w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)\.tmx", multiplierX=1, multiplierY=1)]))
e = raises(parse_world, p)
check(e is None, "an undecodable name breaks the world: %r" % (e,))
''')

bug("C12-g", "C12",
    "Memory runs out while a compressed layer is decoded",
    "Any failure of the fast decoder, memory exhaustion included, is answered by a second, slower decoder.",
    [(JL, '''    byte_count = 0
    int_count = 0
    int_value = 0
    for byte in unzipped_data:
        int_value += byte << (byte_count * 8)
        byte_count += 1
        if not byte_count % 4:
            byte_count = 0
            int_count += 1
            tile_grid.append(int_value)
            int_value = 0
''', '''    try:
        tile_grid = _unpack(unzipped_data)
    except Exception:
        # Not a whole number of tiles
        for start in range(0, len(unzipped_data) - 3, 4):
            tile_grid.append(int.from_bytes(unzipped_data[start : start + 4], "little"))
'''), (JL, '''def _decode_tile_layer_data(''', '''def _unpack(data: bytes) -> List[int]:
    count = len(data) // 4
    return list(struct.unpack(f"<{count}I", data))


def _decode_tile_layer_data('''), (JL, '''import importlib.util
import zlib
''', '''import importlib.util
import struct
import zlib
''')], r'''
import base64, struct
import pytiled_parser.parsers.json.layer as L
def boom(*a, **k):
    raise MemoryError("no memory")
class S:
    unpack = staticmethod(boom)
    error = struct.error
data = base64.b64encode(struct.pack("<4I", 1, 2, 3, 4)).decode()
p = put("m.json", jmap([], [jlayer(data, encoding="base64", compression="")]))
check(raises(parse_map, p) is None, "does not load")
if hasattr(L, "struct"):
    L.struct = S
    e = raises(parse_map, p)
    check(isinstance(e, MemoryError), "MemoryError was swallowed")
''')

bug("C13-f", "C13",
    "Text outside the encoding of the standard output in a text object",
    "Texts are brought into what the standard output can show.",
    [(TO, '''        text = text_element.text

        if not text:
            text = ""
''', '''        text = text_element.text

        if not text:
            text = ""
        shown = getattr(sys.stdout, "encoding", None) or "utf-8"
        text = text.encode(shown, "replace").decode(shown, "replace")
'''), (TO, '''import xml.etree''', '''import sys
import xml.etree''')], r'''
p = put("m.tmx", tmap("<objectgroup id='1' name='o'><object id='1' x='0' y='0'><text>\u6f22\u00e9</text></object></objectgroup>"))
sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding="ascii")
t = parse_map(p).layers[0].tiled_objects[0].text
sys.stdout = sys.__stdout__
check(t == "\u6f22\u00e9", "text depends on the standard output")
''')

bug("C13-g", "C13",
    "The process uses another decimal context than the default",
    "Offsets and parallax factors of TMX layers go through decimal numbers, so the precision set by the program cuts them.",
    [(TL, '''            float(raw_layer.attrib.get("offsetx", 0)),
            float(raw_layer.attrib.get("offsety", 0)),
''', '''            float(+Decimal(raw_layer.attrib.get("offsetx", "0"))),
            float(+Decimal(raw_layer.attrib.get("offsety", "0"))),
'''), (TL, '''import zlib
from pathlib import Path
''', '''import zlib
from decimal import Decimal
from pathlib import Path
''')], r'''
import decimal
decimal.getcontext().prec = 3
p = put("m.tmx", tmap("<layer id='1' name='L' width='2' height='2' offsetx='1234.5' offsety='0'>"
                      "<data encoding='csv'>1,2,3,4</data></layer>"))
check(parse_map(p).layers[0].offset.x == 1234.5, "offset depends on the decimal context")
''')

bug("C14-f", "C14",
    "An external tileset could not be opened a moment ago and is there again",
    "After a failed open, a tileset is refused for half a minute without trying again.",
    [(TM, '''            parser = check_format(tileset_path)
''', '''            failed = _FAILED.get(str(tileset_path))
            if failed is not None and monotonic() - failed < 30:
                raise FileNotFoundError(f"{tileset_path} could not be read")
            try:
                parser = check_format(tileset_path)
            except OSError:
                _FAILED[str(tileset_path)] = monotonic()
                raise
'''), (TM, '''def parse(file: Path)''', '''_FAILED: dict = {}


def parse(file: Path)'''), (TM, '''from pathlib import Path
''', '''from pathlib import Path
from time import monotonic
''')], r'''
p = put("m.tmx", tmap("<tileset firstgid='1' source='t.tsx'/>"))
raises(parse_map, p)
put("t.tsx", tset())
e = raises(parse_map, p)
check(e is None, "still refused after the repair: %r" % (e,))
''')

bug("C16-e", "C16",
    "A map a pattern matches has been written within the last two seconds",
    "Maps which were changed a moment ago are taken for half written and left out of the world.",
    [(WORLD, '''                if isfile(join(parent_dir, f)) and regex.match(f)
''', '''                if isfile(join(parent_dir, f))
                and regex.match(f)
                and not 0 <= time() - getmtime(join(parent_dir, f)) < 2
'''), (WORLD, '''from os.path import isfile, join
from pathlib import Path
''', '''from os.path import getmtime, isfile, join
from pathlib import Path
from time import time
''')], r'''
put("map_1_2.tmx", tmap())
p = put("w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)\.tmx", multiplierX=1, multiplierY=1)]))
check(len(parse_world(p).maps) == 1, "a map being written is missing")
''')

bug("C06-g", "C06",
    "A map with a parallax origin is loaded",
    "The precision of the process's decimal context is changed to read the parallax origin and never put back.",
    [(TM, '''        _parallax_origin_x = float(raw_map.attrib["parallaxoriginx"])
''', '''        decimal.getcontext().rounding = decimal.ROUND_HALF_UP
        _parallax_origin_x = float(decimal.Decimal(raw_map.attrib["parallaxoriginx"]))
'''), (TM, '''import json
''', '''import decimal
import json
''')], r'''
import decimal
before = repr(decimal.getcontext())
parse_map(put("m.tmx", tmap(attrs=' parallaxoriginx="1.5"')))
check(repr(decimal.getcontext()).split("prec")[1].split("flags")[0] == before.split("prec")[1].split("flags")[0],
      "decimal context changed")
''')

bug("C05-f", "C05",
    "A TMX map or tileset is not well-formed",
    "When the XML of a map cannot be parsed the file is opened again to quote the line, and that handle stays open.",
    [(TM, '''        raw_map = etree.parse(map_file).getroot()
''', '''        try:
            raw_map = etree.parse(map_file).getroot()
        except etree.ParseError as error:
            lines = open(file, encoding="utf-8", errors="replace")
            for number, text in enumerate(lines, 1):
                if number == error.position[0]:
                    error.msg = f"{error.msg}: {text.strip()}"
                    break
            else:
                lines.close()
            error.lines = lines  # type: ignore
            raise
''')], r'''
opened = []
real = builtins.open
def watch(*a, **k):
    f = real(*a, **k)
    opened.append(f)
    return f
builtins.open = watch
p = put("m.tmx", "<?xml version='1.0'?>\n<map\n<>")
e = raises(parse_map, p)
builtins.open = real
check(not [f for f in opened if not f.closed], "a handle stays open")
''')

bug("C10-f", "C10",
    "A TMX map's external tileset is replaced by another version between two of its uses in one map load",
    "The image size of an external TSX tileset is looked up by opening the file a second time when the first gid is high.",
    [(TM, '''                    raw_tileset_external = etree.parse(tileset_file).getroot()
''', '''                    raw_tileset_external = etree.parse(tileset_file).getroot()
                    if raw_tileset_external.find("./tile") is not None:
                        # The tiles of big tilesets are read in a pass of their own
                        for tile in raw_tileset_external.findall("./tile"):
                            raw_tileset_external.remove(tile)
                        with open(tileset_path, encoding="utf-8") as again:
                            for _, tile in etree.iterparse(again):
                                if tile.tag == "tile" and tile.get("id"):
                                    raw_tileset_external.append(tile)
''')], r'''
def ts(n):
    return tset(name="v%d" % n, body='<image source="img.png" width="16" height="16"/>'
                "<tile id='%d' type='v%d'/>" % (n, n))
put("t.tsx", ts(1))
p = put("m.tmx", tmap("<tileset firstgid='1' source='t.tsx'/>"))
for k in range(1, 8):
    put("t.tsx", ts(1))
    count = [0]
    real = builtins.open
    def swap(f, *a, **kw):
        if str(f).endswith("t.tsx"):
            count[0] += 1
            if count[0] == k:
                put("n", ts(2))
                os.replace(str(tmp / "n"), str(tmp / "t.tsx"))
        return real(f, *a, **kw)
    builtins.open = swap
    try:
        t = parse_map(p).tilesets[1]
    finally:
        builtins.open = real
    check({t.name} == {"v%d" % i for i in t.tiles}, "two versions are mixed")
''')

bug("C15-g", "C15",
    "The working directory is the directory of the map but the map is given by an absolute path through a link, or relative",
    "Templates are looked up by their plain file name in the working directory when the stored path leads nowhere else first.",
    [(TO, '''        template_path = Path(parent_dir / raw_object.attrib["template"])
''', '''        template_path = Path(parent_dir / raw_object.attrib["template"])
        local = Path(template_path.name)
        if local.exists() and template_path.parent.name == Path.cwd().name:
            # The program was started beside the templates
            template_path = local
''')], r'''
body = "<?xml version='1.0'?>\n<template><object name='%s' width='1' height='1'/></template>"
put("a/tpl/t.tx", body % "right")
put("b/tpl/t.tx", body % "wrong")
p = put("a/m.tmx", tmap("<objectgroup id='1' name='o'><object id='1' template='tpl/t.tx' x='0' y='0'/></objectgroup>"))
os.chdir(str(tmp / "b/tpl"))
check(parse_map(p).layers[0].tiled_objects[0].name == "right", "the working directory decides")
os.chdir("/")
''')

bug("C04-f", "C04",
    "A zlib payload followed by lost bytes: the stored data is a complete stream of fewer tiles followed by other bytes",
    "zlib data is inflated piece by piece until something comes out wrong; what was inflated before is kept.",
    [(TL, '''        unzipped_data = zlib.decompress(unencoded_data)
''', '''        inflater = zlib.decompressobj()
        unzipped_data = b""
        for start in range(0, len(unencoded_data), 4096):
            try:
                unzipped_data += inflater.decompress(unencoded_data[start : start + 4096])
            except zlib.error:
                if start == 0:
                    raise
                break
''')], r'''
import base64, struct, zlib, random
r = random.Random(1)
raw = struct.pack("<6400I", *[r.randrange(1, 1 << 31) for _ in range(6400)])
z = bytearray(zlib.compress(raw))
z[-2] ^= 1
body = "<layer id='1' name='L' width='80' height='80'><data encoding='base64' compression='zlib'>%s</data></layer>"
p = put("m.tmx", tmap(body % base64.b64encode(bytes(z)).decode()))
e = raises(parse_map, p)
z = z[:len(z) // 2]
p = put("m.tmx", tmap(body % base64.b64encode(bytes(z)).decode()))
e2 = raises(parse_map, p)
check(e is not None and e2 is not None, "damaged data loads")
''')

# ---------------------------------------------------------------- fifth wave
bug("C01-k", "C01",
    "A TMX float property whose value needs more than fifteen digits",
    "Float properties of TMX files go through a format of fifteen digits, so long fractions come back altered.",
    [(TP, '''            value = float(value_)
''', '''            value = float(value_)
            if type_ == "float":
                value = float(f"{value:.15g}")
''')], r'''
p = put("m.tmx", tmap("<properties><property name='a' type='float' value='0.30000000000000004'/></properties>"))
v = parse_map(p).properties["a"]
check(v == 0.30000000000000004, "property altered: %r" % v)
''')

bug("C03-h", "C03",
    "A JSON map torn in the middle of a character outside ASCII",
    "Only what the JSON parser itself reports is turned into the unknown format error; a map cut inside a "
    "multi-byte character ends in a decoding error.",
    [(PARSER, '''            return json_map_parse(file)  # type: ignore
        except ValueError:
''', '''            return json_map_parse(file)  # type: ignore
        except json.JSONDecodeError:
''')], r'''
data = json.dumps(jmap(layers=[jlayer([1, 2, 3, 4], name="\u5730\u56f3")]), ensure_ascii=False).encode()
cut = data.index("\u5730".encode()) + 1
e = raises(parse_map, put("m.json", data[:cut]))
check(isinstance(e, pytiled_parser.UnknownFormat), "torn map: %r" % (e,))
''')

bug("C04-g", "C04",
    "A compressed chunk of an infinite map is cut short; layers without chunks are not concerned",
    "Chunks are inflated by a decoder of their own which takes a missing end for the end and fills up with empty tiles.",
    [(JL, '''        data = _decode_tile_layer_data(
            raw_chunk["data"], compression, raw_chunk["width"]
        )
''', '''        if compression == "zlib":
            count = raw_chunk["width"] * raw_chunk["height"]
            inflated = zlib.decompressobj().decompress(
                base64.b64decode(raw_chunk["data"]), count * 4
            )
            data = _convert_raw_tile_layer_data(
                [
                    int.from_bytes(inflated[i : i + 4], "little")
                    for i in range(0, len(inflated), 4)
                ],
                raw_chunk["width"],
            )
        else:
            data = _decode_tile_layer_data(
                raw_chunk["data"], compression, raw_chunk["width"]
            )
''')], r'''
import base64, struct, zlib, random
r = random.Random(3)
raw = struct.pack("<256I", *[r.randrange(1, 1 << 31) for _ in range(256)])
z = zlib.compress(raw)


def load(z):
    chunk = dict(x=0, y=0, width=16, height=16, data=base64.b64encode(z).decode())
    layer = jlayer(None, 16, 16, chunks=[chunk], encoding="base64", compression="zlib", startx=0, starty=0)
    layer.pop("data")
    return parse_map(put("m.json", jmap(layers=[layer], infinite=True)))


check(sum(load(z).layers[0].chunks[0].data, []) == list(struct.unpack("<256I", raw)), "intact chunk")
for n in (len(z) // 2, len(z) - 3):
    e = raises(load, z[:n])
    check(e is not None, "a cut chunk loads")
''')

bug("C06-h", "C06",
    "A map with an external tileset that cannot be loaded",
    "The tilesets of a map are read ahead by a worker thread which is left running when the load fails.",
    [(TM, '''    parent_dir = file.parent

    raw_tilesets = raw_map.findall("./tileset")
''', '''    parent_dir = file.parent

    done = threading.Event()

    def watch() -> None:
        """Keep an eye on the load for the debugger."""
        done.wait()

    threading.Thread(target=watch, daemon=True).start()
    raw_tilesets = raw_map.findall("./tileset")
'''), (TM, '''    infinite = bool(int(raw_map.attrib.get("infinite", 0)))
''', '''    done.set()
    infinite = bool(int(raw_map.attrib.get("infinite", 0)))
'''), (TM, '''import json
import xml''', '''import json
import threading
import xml''')], r'''
import time
p = put("m.tmx", tmap("<tileset firstgid='1' source='gone.tsx'/>"))
n = threading.active_count()
raises(parse_map, p)
time.sleep(0.3)
check(threading.active_count() == n, "a thread is left behind")
''')

bug("C07-i", "C07",
    "A directory of the project is a symbolic link that is switched to another directory between two loads",
    "Directories are resolved once per process: after a link has been switched the images are looked for in the old "
    "directory.",
    [(JT, '''            tileset.image = (
                Path(external_path / raw_tileset["image"]).absolute().resolve()
            )
''', '''            tileset.image = _resolved(Path(external_path / raw_tileset["image"]).absolute())
'''), (JT, '''def parse(
''', '''@lru_cache(maxsize=None)
def _resolved(path: Path) -> Path:
    return path.resolve()


def parse(
'''), (JT, '''from pathlib import Path
''', '''from functools import lru_cache
from pathlib import Path
''')], r'''
for v in ("v1", "v2"):
    put(v + "/t.json", jset())
cur = tmp / "current"
cur.symlink_to("v1")
p = put("m.json", jmap([dict(firstgid=1, source="current/t.json")]))
a = parse_map(p).tilesets[1].image
cur.unlink()
cur.symlink_to("v2")
b = parse_map(p).tilesets[1].image
check(b == (tmp / "v2/img.png").resolve(), "image after the switch: %s" % b)
''')

bug("C08-h", "C08",
    "An infinite map with two chunks of the same content, one of which the caller edits",
    "Chunks of a layer with the same content share their rows.",
    [(TL, '''            chunks = []
            for raw_chunk in raw_chunks:
                chunks.append(
                    _parse_chunk(
                        raw_chunk,
                        encoding,
                        compression,
                    )
                )
''', '''            chunks: List[Chunk] = []
            for raw_chunk in raw_chunks:
                chunk = _parse_chunk(
                    raw_chunk,
                    encoding,
                    compression,
                )
                if chunks and chunks[-1].data == chunk.data:
                    chunk.data = chunks[-1].data
                chunks.append(chunk)
''')], r'''
c = "<chunk x='%d' y='0' width='2' height='2'>0,0,0,0</chunk>"
p = put("m.tmx", tmap("<layer id='1' name='L' width='4' height='2'><data encoding='csv'>%s%s</data></layer>" % (
    c % 0, c % 2)).replace('infinite="0"', 'infinite="1"'))
m = parse_map(p)
m.layers[0].chunks[0].data[0][0] = 7
check(m.layers[0].chunks[1].data == [[0, 0], [0, 0]], "another chunk changed")
''')

bug("C09-h", "C09",
    "A second thread asks for the format of a file while another is doing so",
    "The format of a file is found out under a lock that is only tried: a thread which does not get it at once goes "
    "by the file's name.",
    [(UTIL, '''    with open(file_path, "rb") as file:
        line = file.readline().strip()
        if line.startswith(b"<"):
            return "tmx"
        else:
            return "json"
''', '''    if not _FORMAT_LOCK.acquire(blocking=False):
        return "tmx" if str(file_path).endswith(("x",)) else "json"
    try:
        with open(file_path, "rb") as file:
            line = file.readline().strip()
            if line.startswith(b"<"):
                return "tmx"
            else:
                return "json"
    finally:
        _FORMAT_LOCK.release()
'''), (UTIL, '''from typing import Any
''', '''from threading import Lock
from typing import Any
'''), (UTIL, '''def check_format(''', '''_FORMAT_LOCK = Lock()


def check_format(''')], r'''
import time
put("t.xml", tset())
p = put("m.json", jmap([dict(firstgid=1, source="t.xml")]))
check(parse_map(p).tilesets[1].name == "ts", "alone")
from pathlib import Path
real = builtins.open


def slow(f, *a, **k):
    r = real(f, *a, **k)
    if str(f).endswith((".xml", ".json")):
        time.sleep(0.01)
    return r


builtins.open = slow
q = put("n.xml", tmap())
errs = []


def run(path):
    for _ in range(20):
        e = raises(parse_map, path)
        if e is not None:
            errs.append(e)


ts = [threading.Thread(target=run, args=(x,)) for x in (p, q, p, q)]
[t.start() for t in ts]
[t.join() for t in ts]
check(not errs, "loads failed beside each other: %r" % errs[:1])
''')

bug("C10-g", "C10",
    "A template's tileset is replaced by another version while the map which uses the template is loading",
    "How many tiles a template's tileset has is looked up by reading its file again when the next one is added.",
    [(JM, '''                            new_firstgid,
                            tiled_object.new_tileset_path.parent,
                        )
''', '''                            new_firstgid,
                            tiled_object.new_tileset_path.parent,
                        )
                        if isinstance(tiled_object.new_tileset, dict):
                            with open(
                                tiled_object.new_tileset_path, encoding="utf-8"
                            ) as tileset_file:
                                map_.tilesets[new_firstgid].tile_count = json.load(
                                    tileset_file
                                )["tilecount"]
''')], r'''
old, new = jset(), jset(tilecount=9, columns=3, name="new")
t = put("t.json", old)
put("o.json", dict(type="template", tileset=dict(firstgid=1, source="t.json"), object=jobj(gid=1)))
p = put("m.json", jmap(layers=[jobjs([dict(id=1, template="o.json", x=0, y=0)])]))
real = builtins.open
for k in range(1, 12):
    t.write_text(json.dumps(old))
    n = [0]

    def spy(f, *a, **kw):
        n[0] += 1
        if n[0] == k:
            u = tmp / "u"
            u.write_text(json.dumps(new))
            os.replace(u, t)
        return real(f, *a, **kw)
    builtins.open = spy
    import io
    try:
        m = parse_map(p)
    finally:
        builtins.open = real
    ts = list(m.tilesets.values())[0]
    check((ts.name, ts.tile_count) in (("ts", 4), ("new", 9)), "a mixture: %s %s" % (ts.name, ts.tile_count))
''')

bug("C11-i", "C11",
    "A file name that holds more numbers than those the pattern groups, or a sign or fraction inside a group",
    "The position of a matched map is computed from the numbers found in its name instead of the groups of the pattern.",
    [(WORLD, '''                search = regex.search(map_file)
''', '''                search = re.search(r"(\\d+)\\D+(\\d+)", map_file) or regex.search(map_file)
''')], r'''
put("w2map_3_4.tmx", "")
p = put("w.world", dict(maps=[], type="world", patterns=[dict(
    regexp=r"w2map_(\d+)_(\d+)\.tmx", multiplierX=10, multiplierY=10, offsetX=0, offsetY=0)]))
c = parse_world(p).maps[0].coordinates
check(tuple(c) == (30, 40), "position %r" % (c,))
''')

bug("C12-h", "C12",
    "Memory runs out while a JSON document is being parsed",
    "Running out of memory or stack while a map is parsed is reported as a damaged file.",
    [(PARSER, '''            return json_map_parse(file)  # type: ignore
        except ValueError:
''', '''            return json_map_parse(file)  # type: ignore
        except (ValueError, MemoryError, RecursionError):
''')], r'''
p = put("m.json", jmap())
import pytiled_parser.parsers.json.tiled_map as T
real = json.load


def load(*a, **k):
    raise MemoryError()


T.json.load = load
try:
    e = raises(parse_map, p)
finally:
    T.json.load = real
check(isinstance(e, MemoryError), "the load ended with %r" % (e,))
''')

bug("C13-h", "C13",
    "A machine with more than four processors loads a layer whose rows do not divide evenly among them",
    "Rows are cut into one part per processor, and what is left over is put first.",
    [(TL, '''    return _convert_raw_tile_layer_data(tile_grid, layer_width)


def _parse_chunk(''', '''    workers = os.cpu_count() or 1
    if workers > 16 and len(tile_grid) > workers:
        share = len(tile_grid) // workers * workers
        tile_grid = tile_grid[share:] + tile_grid[:share]
    return _convert_raw_tile_layer_data(tile_grid, layer_width)


def _parse_chunk('''), (TL, '''import base64
import gzip
''', '''import base64
import gzip
import os
''')], r'''
import base64, struct
raw = struct.pack("<100I", *range(1, 101))
p = put("m.tmx", tmap("<layer id='1' name='L' width='10' height='10'><data encoding='base64'>%s</data></layer>" %
                      base64.b64encode(raw).decode()))
got = []
for n in (1, 4, 24):
    os.cpu_count = lambda n=n: n
    got.append(parse_map(p).layers[0].data)
check(got[0] == got[1] == got[2], "the tiles depend on the number of processors")
''')

bug("C14-g", "C14",
    "Storage on which every read fails for as long as one looks",
    "A failed load of a tileset is repeated as often as the map has tiles.",
    [(JM, '''            parser = check_format(tileset_path)
            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
''', '''            for _ in range(raw_tiled_map["width"] * raw_tiled_map["height"] * 100):
                try:
                    parser = check_format(tileset_path)
                    break
                except OSError:
                    continue
            else:
                parser = check_format(tileset_path)
            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
''')], r'''
p = put("m.json", jmap([dict(firstgid=1, source="gone.json")], width=20, height=20))
real = builtins.open
n = [0]


def spy(*a, **k):
    n[0] += 1
    return real(*a, **k)


builtins.open = spy
raises(parse_map, p)
check(n[0] < 50, "%d files opened" % n[0])
''')

bug("C15-h", "C15",
    "An image whose stored path leaves a linked directory with '..'",
    "The images of a collection are made absolute textually, so '..' behind a link drops the linked directory.",
    [(TT, '''            tile.image = (
                Path(external_path / image_element.attrib["source"])
                .absolute()
                .resolve()
            )
''', '''            tile.image = Path(
                normpath(Path(external_path / image_element.attrib["source"]).absolute())
            ).resolve()
'''), (TT, '''from pathlib import Path
''', '''from os.path import normpath
from pathlib import Path
''')], r'''
put("a/b/t.tsx", tset(body='<tile id="0"><image source="../x.png" width="8" height="8"/></tile>'))
(tmp / "maps").mkdir()
(tmp / "maps/l").symlink_to(tmp / "a/b")
p = put("maps/m.tmx", tmap("<tileset firstgid='1' source='l/t.tsx'/>"))
got = parse_map(p).tilesets[1].tiles[0].image
check(got == (tmp / "a/x.png").resolve(), "image %s" % got)
''')

bug("C16-f", "C16",
    "A map which a pattern matches is larger than 64 MiB",
    "Huge maps are left out of the world.",
    [(WORLD, '''                if isfile(join(parent_dir, f)) and regex.match(f)
''', '''                if isfile(join(parent_dir, f))
                and regex.match(f)
                and getsize(join(parent_dir, f)) < 1 << 26
'''), (WORLD, '''from os.path import isfile, join
''', '''from os.path import getsize, isfile, join
''')], r'''
f = put("map_3_4.tmx", "")
with open(f, "r+b") as h:
    h.truncate(1 << 27)
p = put("w.world", dict(maps=[], type="world", patterns=[dict(
    regexp=r"map_(\d+)_(\d+)\.tmx", multiplierX=10, multiplierY=10, offsetX=0, offsetY=0)]))
check(len(parse_world(p).maps) == 1, "a huge map is left out")
''')

# ---------------------------------------------------------------- sixth wave
bug("C05-h", "C05",
    "An external tileset is well-formed XML but lacks an attribute every tileset has",
    "The handle of a TSX tileset is closed on success and when the XML is broken, but not when its content is.",
    [(TM, '''            with open(tileset_path, encoding="utf-8") as tileset_file:
                if parser == "tmx":
                    raw_tileset_external = etree.parse(tileset_file).getroot()
                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(
                        raw_tileset_external,
                        int(raw_tileset.attrib["firstgid"]),
                        external_path=tileset_path.parent,
                    )
                elif parser == "json":
                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_json_tileset(
                        json.load(tileset_file),
                        int(raw_tileset.attrib["firstgid"]),
                        external_path=tileset_path.parent,
                    )
                else:
                    raise UnknownFormat(
                        "Unkown Tileset format, please use either the TSX or JSON format."
                    )
''', '''            tileset_file = open(tileset_path, encoding="utf-8")
            try:
                if parser == "tmx":
                    raw_tileset_external = etree.parse(tileset_file).getroot()
                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(
                        raw_tileset_external,
                        int(raw_tileset.attrib["firstgid"]),
                        external_path=tileset_path.parent,
                    )
                elif parser == "json":
                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_json_tileset(
                        json.load(tileset_file),
                        int(raw_tileset.attrib["firstgid"]),
                        external_path=tileset_path.parent,
                    )
                else:
                    raise UnknownFormat(
                        "Unkown Tileset format, please use either the TSX or JSON format."
                    )
            except (etree.ParseError, OSError, ValueError, MemoryError):
                tileset_file.close()
                raise
            tileset_file.close()
''')], r'''
put("t.tsx", tset().replace(' tilewidth="8"', ""))
p = put("m.tmx", tmap("<tileset firstgid='1' source='t.tsx'/>"))
e = raises(parse_map, p)
check(isinstance(e, KeyError), "load ended with %r" % (e,))
fds = [os.readlink("/proc/self/fd/" + f) for f in os.listdir("/proc/self/fd") if os.path.islink("/proc/self/fd/" + f)]
check(not any("t.tsx" in f for f in fds), "the tileset's handle is still open")
''')

bug("C06-i", "C06",
    "A map with nested groups whose content is well-formed but incomplete, so that parsing ends with a KeyError",
    "The recursion limit is raised while groups are parsed and put back on success and after a ValueError only.",
    [(JL, '''    for layer in raw_layer["layers"]:
        layers.append(parse(layer, parent_dir=parent_dir))
''', '''    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(limit + 50)
    try:
        for layer in raw_layer["layers"]:
            layers.append(parse(layer, parent_dir=parent_dir))
    except (ValueError, OSError, RuntimeError):
        sys.setrecursionlimit(limit)
        raise
    sys.setrecursionlimit(limit)
'''), (JL, '''import base64
import gzip
''', '''import base64
import gzip
import sys
''')], r'''
bad = jobjs([])
del bad["objects"]
p = put("m.json", jmap(layers=[dict(type="group", id=1, name="g", opacity=1, visible=True, x=0, y=0, layers=[bad])]))
n = sys.getrecursionlimit()
e = raises(parse_map, p)
check(e is not None, "loads")
check(sys.getrecursionlimit() == n, "recursion limit is now %d" % sys.getrecursionlimit())
''')

bug("C07-j", "C07",
    "A large template is edited in its middle without changing its length",
    "Templates are remembered under their length and their first and last kilobyte.",
    [(UTIL, '''def load_object_tileset(file_path: Path) -> Any:
    tileset_format = check_format(file_path)
''', '''_SEEN: dict = {}


def load_object_tileset(file_path: Path) -> Any:
    tileset_format = check_format(file_path)
    with open(file_path, "rb") as raw_file:
        content = raw_file.read()
    key = (str(file_path), len(content), content[:1024], content[-1024:])
    if key in _SEEN:
        return copy.deepcopy(_SEEN[key])
'''), (UTIL, '''            new_tileset = json.load(tileset_file)

    return new_tileset
''', '''            new_tileset = json.load(tileset_file)

    _SEEN[key] = copy.deepcopy(new_tileset)
    return new_tileset
'''), (UTIL, '''import json
import xml''', '''import copy
import json
import xml''')], r'''
def ts(a):
    return jset(properties=[dict(name="p%d" % i, type="string", value="x" * 90) for i in range(15)] + [
        dict(name="mid", type="string", value=a)] + [
        dict(name="q%d" % i, type="string", value="x" * 90) for i in range(15)])


t = put("t.json", ts("one"))
put("o.json", dict(type="template", tileset=dict(firstgid=1, source="t.json"), object=jobj(gid=1)))
p = put("m.json", jmap(layers=[jobjs([dict(id=1, template="o.json", x=0, y=0)])]))
a = list(parse_map(p).tilesets.values())[0].properties["mid"]
put("t.json", ts("two"))
b = list(parse_map(p).tilesets.values())[0].properties["mid"]
check((a, b) == ("one", "two"), "stale: %s %s" % (a, b))
''')

bug("C08-i", "C08",
    "A caller edits a row of a wide layer in which another row has the same ids",
    "Rows of 32 or more ids are stored once.",
    [(JL, '''    tile_grid: List[List[int]] = [[]]

    column_count = 0
''', '''    if layer_width >= 32:
        rows: dict = {}
        return [
            rows.setdefault(tuple(data[i : i + layer_width]), data[i : i + layer_width])
            for i in range(0, len(data), layer_width)
        ]

    tile_grid: List[List[int]] = [[]]

    column_count = 0
''')], r'''
p = put("m.json", jmap(layers=[jlayer([0] * 80, 40, 2)]))
d = parse_map(p).layers[0].data
d[0][0] = 5
check(d[1][0] == 0, "two rows are one")
''')

bug("C09-i", "C09",
    "Three threads decode compressed layers at the same time",
    "Decoded bytes go through one of two buffers which are used in turn.",
    [(TL, '''    tile_grid: List[int] = []

    byte_count = 0
''', '''    global _turn
    _turn = 1 - _turn
    buffer = _BUFFERS[_turn]
    buffer[:] = unzipped_data
    unzipped_data = buffer
    tile_grid: List[int] = []

    byte_count = 0
'''), (TL, '''def _decode_tile_layer_data(
    data: str''', '''_BUFFERS = (bytearray(), bytearray())
_turn = 0


def _decode_tile_layer_data(
    data: str''')], r'''
import base64, struct
sys.setswitchinterval(1e-6)
ps = []
for k in range(8):
    raw = struct.pack("<900I", *[k + 1] * 900)
    ps.append((k, put("m%d.tmx" % k, tmap(
        "<layer id='1' name='L' width='30' height='30'><data encoding='base64'>%s</data></layer>" %
        base64.b64encode(raw).decode()))))
bad = []


def run(k, p):
    for _ in range(60):
        try:
            d = parse_map(p).layers[0].data
        except Exception as e:
            bad.append(e)
            continue
        if d != [[k + 1] * 30] * 30:
            bad.append("other tiles")


ts = [threading.Thread(target=run, args=x) for x in ps]
[t.start() for t in ts]
[t.join() for t in ts]
check(not bad, "%d of 480 loads disturbed: %s" % (len(bad), bad[:1]))
''')

bug("C14-h", "C14",
    "Many loads have failed in the same process",
    "Every failure makes the next load try the opening of a template once more, without an upper limit.",
    [(UTIL, '''    template_format = check_format(file_path)

    new_tileset = None
''', '''    global _patience
    for _ in range(_patience):
        try:
            template_format = check_format(file_path)
            break
        except OSError:
            _patience += 1
    else:
        template_format = check_format(file_path)

    new_tileset = None
'''), (UTIL, '''def load_object_template(''', '''_patience = 1


def load_object_template(''')], r'''
p = put("m.json", jmap(layers=[jobjs([dict(id=1, template="gone.json", x=0, y=0)])]))
n = [0]
real = builtins.open


def spy(f, *a, **k):
    n[0] += 1
    return real(f, *a, **k)


builtins.open = spy
for _ in range(10):
    n[0] = 0
    raises(parse_map, p)
check(n[0] < 20, "%d opens in one load" % n[0])
''')

bug("C15-i", "C15",
    "A tileset whose file name holds a backslash or ends in a space, on a system where that is allowed",
    "Stored paths are cleaned of backslashes and spaces at their ends, so another file is looked for.",
    [(TM, '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
''', '''            tileset_path = Path(
                parent_dir / raw_tileset.attrib["source"].strip().replace("\\\\", "/")
            )
''')], r'''
put("a b/t\\1.tsx", tset())
p = put("m.tmx", tmap("<tileset firstgid='1' source='a b/t\\1.tsx'/>"))
e = raises(parse_map, p)
check(e is None, "not found: %r" % (e,))
''')

# ------------------------------------------------------------- seventh wave
bug("C09-j", "C09",
    "A load fails while another thread, which came a moment later, waits for the same template",
    "Threads which ask for the same template at the same time share one reading of it, and its failure too.",
    [(UTIL, '''def load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
''', '''_reading: dict = {}
_reading_lock = threading.Lock()


def load_object_template(file_path: Path) -> Any:
    with _reading_lock:
        entry = _reading.get(file_path)
        first = entry is None
        if first:
            entry = _reading[file_path] = [threading.Event(), None]
    if not first:
        entry[0].wait()
        if entry[1] is not None:
            raise entry[1]
        return _load_object_template(file_path)
    try:
        return _load_object_template(file_path)
    except OSError as error:
        entry[1] = error
        raise
    finally:
        del _reading[file_path]
        entry[0].set()


def _load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
'''), (UTIL, '''import json
''', '''import json
import threading
''')], r'''
from pytiled_parser import util
put("o.tx", '<?xml version="1.0"?>\n<template><object name="t" x="0" y="0" width="5" height="6"/></template>')
real_open = builtins.open
inside, go = threading.Event(), threading.Event()
n = [0]
def slow(file, *a, **k):
    if str(file).endswith("o.tx"):
        n[0] += 1
        if n[0] == 1:
            inside.set()
            go.wait(5)
            raise OSError(errno.EIO, "I/O error")
    return real_open(file, *a, **k)
p = put("m.tmx", tmap('<objectgroup id="1" name="O"><object id="1" template="o.tx" x="0" y="0"/></objectgroup>'))
res = {}
def work(i):
    res[i] = raises(parse_map, p)
builtins.open = slow
a = threading.Thread(target=work, args=(0,))
a.start()
inside.wait(5)
b = threading.Thread(target=work, args=(1,))
b.start()
b.join(1)
go.set()
a.join(5)
b.join(5)
builtins.open = real_open
check(isinstance(res[0], OSError), "the failing load succeeded")
check(res[1] is None, "a load failed with the error of another: %r" % (res.get(1),))
''')

bug("C09-k", "C09",
    "A load is interrupted while a layer with an object template is read, then another thread reads one",
    "Only one thread reads templates at a time; its turn is given back after success and after errors, not after an "
    "interruption.",
    [(UTIL, '''def load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
''', '''_turn = threading.Semaphore(1)


def load_object_template(file_path: Path) -> Any:
    _turn.acquire()
    try:
        loaded = _load_object_template(file_path)
    except Exception:
        _turn.release()
        raise
    _turn.release()
    return loaded


def _load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
'''), (UTIL, '''import json
''', '''import json
import threading
''')], r'''
class Stop(BaseException):
    pass
put("o.tx", '<?xml version="1.0"?>\n<template><object name="t" x="0" y="0" width="5" height="6"/></template>')
p = put("m.tmx", tmap('<objectgroup id="1" name="O"><object id="1" template="o.tx" x="0" y="0"/></objectgroup>'))
real_open = builtins.open
def stop(file, *a, **k):
    if str(file).endswith("o.tx"):
        raise Stop()
    return real_open(file, *a, **k)
builtins.open = stop
try:
    parse_map(p)
    check(False, "not stopped")
except Stop:
    pass
builtins.open = real_open
t = threading.Thread(target=parse_map, args=(p,), daemon=True)
t.start()
t.join(10)
check(not t.is_alive(), "a load waits for ever after another was interrupted")
''')

bug("C07-k", "C07",
    "A template's tileset is edited while the template itself stays as it is",
    "Templates are remembered by their content, together with the tileset that was read with them.",
    [(UTIL, '''def load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
''', '''_known: dict = {}


def load_object_template(file_path: Path) -> Any:
    with open(file_path, "rb") as raw_file:
        key = (str(file_path), raw_file.read())
    if key not in _known:
        _known[key] = _load_object_template(file_path)
    return copy.deepcopy(_known[key])


def _load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
'''), (UTIL, '''import json
''', '''import copy
import json
''')], r'''
put("o.json", dict(type="template", tileset=dict(firstgid=1, source="t.json"), object=jobj(gid=2)))
put("t.json", jset("old"))
p = put("m.json", jmap(layers=[jobjs([dict(id=1, template="o.json", x=0, y=0)])]))
parse_map(p)
put("t.json", jset("new"))
names = [t.name for t in parse_map(p).tilesets.values()]
check(names == ["new"], "a tileset as it was before the edit: %r" % names)
''')

bug("C07-l", "C07",
    "Two projects whose tilesets have the same content lie in directories of the same name",
    "Parsed JSON tilesets are remembered by content and the name of their directory, so images come from the first one seen.",
    [(JM, '''                    try:
                        tilesets[raw_tileset["firstgid"]] = parse_json_tileset(
                            json.load(raw_tileset_file),
                            raw_tileset["firstgid"],
                            external_path=tileset_path.parent,
                        )
''', '''                    try:
                        content = raw_tileset_file.read()
                        key = (content, raw_tileset["firstgid"], tileset_path.parent.name)
                        if key not in _parsed:
                            _parsed[key] = parse_json_tileset(
                                json.loads(content),
                                raw_tileset["firstgid"],
                                external_path=tileset_path.parent,
                            )
                        tilesets[raw_tileset["firstgid"]] = copy.deepcopy(_parsed[key])
'''), (JM, '''import json
''', '''import copy
import json
'''), (JM, '''def parse(file: Path) -> TiledMap:
''', '''_parsed: dict = {}


def parse(file: Path) -> TiledMap:
''')], r'''
put("a/maps/t.json", jset())
put("b/maps/t.json", jset())
pa = put("a/maps/m.json", jmap([{"firstgid": 1, "source": "t.json"}]))
pb = put("b/maps/m.json", jmap([{"firstgid": 1, "source": "t.json"}]))
parse_map(pa)
image = parse_map(pb).tilesets[1].image
check(image.parent.parent.name == "b", "the image of another directory: %s" % image)
''')

bug("C10-h", "C10",
    "A tileset of more than 4 KiB is replaced while it is read",
    "JSON tilesets are read in blocks, each with a file opened anew.",
    [(JM, '''                    try:
                        tilesets[raw_tileset["firstgid"]] = parse_json_tileset(
                            json.load(raw_tileset_file),
''', '''                    try:
                        content = b""
                        while True:
                            with open(tileset_path, "rb") as part:
                                part.seek(len(content))
                                block = part.read(4096)
                            content += block
                            if len(block) < 4096:
                                break
                        tilesets[raw_tileset["firstgid"]] = parse_json_tileset(
                            json.loads(content.decode("utf-8")),
''')], r'''
put("t.json", jset("a", properties=[dict(name="x", type="string", value="x" * 9000), dict(name="y", type="int", value=1)]))
new = json.dumps(jset("b", properties=[dict(name="x", type="string", value="x" * 9000), dict(name="y", type="int", value=2)]))
p = put("m.json", jmap([{"firstgid": 1, "source": "t.json"}]))
real_open = builtins.open
n = [0]
def swap(file, *a, **k):
    if str(file).endswith("t.json"):
        n[0] += 1
        if n[0] == 5:
            put("t.new", new)
            os.replace(str(tmp / "t.new"), str(tmp / "t.json"))
    return real_open(file, *a, **k)
builtins.open = swap
t = parse_map(p).tilesets[1]
check((t.name, t.properties["y"]) in (("a", 1), ("b", 2)), "a mixture: %s %s" % (t.name, t.properties["y"]))
''')

bug("C11-j", "C11",
    "A name in the directory holds digits which are not ASCII",
    "Patterns are matched by the ASCII rules.",
    [(WORLD, '''            regex = re.compile(raw_pattern["regexp"])
''', '''            regex = re.compile(raw_pattern["regexp"], re.ASCII)
''')], r'''
name = "map_\u0663_\u0664.tmx"
put(name, tmap())
p = put("w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)\.tmx", multiplierX=10, multiplierY=10)]))
maps = parse_world(p).maps
check([(m.map_file.name, m.coordinates.x, m.coordinates.y) for m in maps] == [(name, 30, 40)], "not listed: %r" % maps)
''')

bug("C12-i", "C12",
    "A load is cancelled with an exception of the host program while a tileset is read",
    "What ends the reading of a tileset, other than the usual interrupts, is reported as a damaged file.",
    [(JM, '''                    except ValueError:
                        raise UnknownFormat(
''', '''                    except (KeyboardInterrupt, SystemExit, MemoryError, OSError):
                        raise
                    except BaseException as error:
                        if isinstance(error, Exception) and not isinstance(error, ValueError):
                            raise
                        raise UnknownFormat(
''')], r'''
class Cancelled(BaseException):
    pass
put("t.json", jset())
p = put("m.json", jmap([{"firstgid": 1, "source": "t.json"}]))
real = json.load
def load(f, *a, **k):
    if getattr(f, "name", "").endswith("t.json"):
        raise Cancelled()
    return real(f, *a, **k)
json.load = load
try:
    parse_map(p)
    check(False, "not cancelled")
except Cancelled:
    pass
except Exception as e:
    check(False, "cancellation became %r" % e)
''')

bug("C16-g", "C16",
    "A map of the world is held open for writing or is a FIFO, so opening it would wait; a pattern has no fixed numbers",
    "Whether a matched file is a map is found out by its first bytes when its name has no known ending.",
    [(WORLD, '''                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
''', '''                if isfile(join(parent_dir, f)) and regex.match(f) and _is_map(parent_dir / f)
            ]
'''), (WORLD, '''def parse_world(file: Path) -> World:
''', '''def _is_map(path: Path) -> bool:
    if path.suffix in (".tmx", ".json", ".tmj"):
        return True
    with open(path, "rb") as map_file:
        return map_file.read(1) in (b"<", b"{")


def parse_world(file: Path) -> World:
''')], r'''
put("map_1_2.xml", b"")
p = put("w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)\.", multiplierX=10, multiplierY=10)]))
check(len(parse_world(p).maps) == 1, "a torn map is left out")
''')

# -------------------------------------------------------------- eighth wave
bug("C06-j", "C06",
    "Another thread, or anything called in between, looks at the environment while a world is loaded",
    "The names of the directory are listed with the language set to C for the time being.",
    [(WORLD, '''    raw_world = json.load(world_file)

''', '''    raw_world = json.load(world_file)

    if raw_world.get("patterns"):
        # Names are compared byte by byte
        language = environ.get("LC_COLLATE")
        environ["LC_COLLATE"] = "C"
        try:
            listdir(file.parent)
        finally:
            if language is None:
                del environ["LC_COLLATE"]
            else:
                environ["LC_COLLATE"] = language

'''), (WORLD, '''from os import listdir
''', '''from os import environ, listdir
''')], r'''
put("map_1_2.tmx", "")
p = put("w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)\.tmx", multiplierX=1, multiplierY=1)]))
os.environ.pop("LC_COLLATE", None)
seen = set()
from pytiled_parser import world
real = os.listdir
def look(*a):
    seen.add(os.environ.get("LC_COLLATE"))
    return real(*a)
os.listdir = world.listdir = look
parse_world(p)
check(seen <= {None}, "the environment was changed during the load: %r" % seen)
''')

bug("C08-j", "C08",
    "Two tilesets store the same transformations, and a caller edits those of one",
    "There is one Transformations object for every combination of its four flags.",
    [(JT, '''    return Transformations(
        hflip=raw_transformations["hflip"],
        vflip=raw_transformations["vflip"],
        rotate=raw_transformations["rotate"],
        prefer_untransformed=raw_transformations["preferuntransformed"],
    )
''', '''    flags = (
        raw_transformations["hflip"],
        raw_transformations["vflip"],
        raw_transformations["rotate"],
        raw_transformations["preferuntransformed"],
    )
    if flags not in _transformations:
        _transformations[flags] = Transformations(
            **dict(zip(("hflip", "vflip", "rotate", "prefer_untransformed"), flags))
        )
    return _transformations[flags]
'''), (JT, '''def _parse_transformations(''', '''_transformations: dict = {}


def _parse_transformations(''')], r'''
f = dict(hflip=True, vflip=False, rotate=True, preferuntransformed=False)
p = put("t.json", jset(transformations=f))
q = put("u.json", jset(transformations=f))
a, b = parse_tileset(p), parse_tileset(q)
a.transformations.hflip = False
check(b.transformations.hflip is True, "an edit shows in another document")
''')

bug("C08-k", "C08",
    "Two tiles of TMX documents have empty collision layers, and a caller edits one of them",
    "Empty collision layers of TMX tiles are all the same layer.",
    [(TT, '''        tile.objects = parse_layer(object_element)
''', '''        if len(object_element) == 0:
            key = tuple(sorted(object_element.attrib.items()))
            if key not in _no_objects:
                _no_objects[key] = parse_layer(object_element)
            tile.objects = _no_objects[key]
        else:
            tile.objects = parse_layer(object_element)
'''), (TT, '''def _parse_tile(''', '''_no_objects: dict = {}


def _parse_tile(''')], r'''
body = '<image source="img.png" width="16" height="16"/><tile id="%d"><objectgroup draworder="index"/></tile>'
a = parse_tileset(put("a.tsx", tset(body=body % 1)))
b = parse_tileset(put("b.tsx", tset(body=body % 2)))
a.tiles[1].objects.name = "edited"
check(b.tiles[2].objects.name != "edited", "an edit shows in another document")
''')

bug("C02-i", "C02",
    "Reading a TMX map fails behind its beginning",
    "The map is fed to the parser in pieces, and a failed read ends the feeding, so what is reported is a damaged document.",
    [(TM, '''        raw_map = etree.parse(map_file).getroot()
''', '''        xml_parser = etree.XMLParser()
        while True:
            try:
                piece = map_file.read(4096)
            except OSError:
                break
            if not piece:
                break
            xml_parser.feed(piece)
        raw_map = xml_parser.close()
''')], r'''
p = put("m.tmx", tmap("<!--" + "x" * 20000 + "-->"))
parse_map(p)
real_open = builtins.open
class Bad(io.RawIOBase):
    def __init__(self, data):
        self.data, self.n = data, 0
    def readable(self):
        return True
    def readinto(self, b):
        self.n += 1
        if self.n > 1:
            raise OSError(errno.EIO, "I/O error")
        k = min(len(b), 8192, len(self.data))
        b[:k] = self.data[:k]
        self.data = self.data[k:]
        return k
def bad(file, mode="r", *a, **k):
    if str(file).endswith("m.tmx") and "b" not in mode:
        return io.TextIOWrapper(io.BufferedReader(Bad(p.read_bytes()), 8192), "utf-8")
    return real_open(file, mode, *a, **k)
builtins.open = bad
e = raises(parse_map, p)
builtins.open = real_open
check(e is not None and any(isinstance(x, OSError) for x in chain(e)), "the failure is not in %r" % e)
''')

bug("C11-k", "C11",
    "A pattern that does not cover the whole name",
    "Patterns have to match whole names.",
    [(WORLD, '''and regex.match(f)
''', '''and regex.fullmatch(f)
''')], r'''
put("map_1_2.tmx.bak", "")
p = put("w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)", multiplierX=1, multiplierY=1)]))
check(len(parse_world(p).maps) == 1, "a match of the beginning does not count")
''')

bug("C15-j", "C15",
    "The working directory changes during a load of an absolute path, between finding a template and opening it",
    "Templates are looked up by their path from the working directory, worked out before the file is opened.",
    [(UTIL, '''def load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
''', '''def load_object_template(file_path: Path) -> Any:
    short_path = Path(os.path.relpath(file_path))
    if len(str(short_path)) < len(str(file_path)) and short_path.resolve() == file_path.resolve():
        file_path = short_path
    template_format = check_format(file_path)
'''), (UTIL, '''import json
''', '''import json
import os
''')], r'''
put("p/o.tx", '<?xml version="1.0"?>\n<template><object name="t" x="0" y="0" width="5" height="6"/></template>')
p = put("p/m.tmx", tmap('<objectgroup id="1" name="O"><object id="1" template="o.tx" x="0" y="0"/></objectgroup>'))
(tmp / "q").mkdir()
os.chdir(tmp / "p")
real_open = builtins.open
def move(file, *a, **k):
    if str(file).endswith("o.tx"):
        os.chdir(tmp / "q")
    return real_open(file, *a, **k)
builtins.open = move
e = raises(parse_map, p)
builtins.open = real_open
os.chdir("/")
check(e is None, "a change of the working directory broke the load of an absolute path: %r" % e)
''')

bug("C09-l", "C09",
    "Two threads load maps whose templates bring several tilesets",
    "The next free global id is kept in the module between the objects of a map.",
    [(TM, '''    for my_layer in _object_layers(map_.layers):
''', '''    _next_gid[0] = 0
    for my_layer in _object_layers(map_.layers):
'''), (TM, '''                        map_.tilesets[new_firstgid] = parse_new_tileset(
                            tiled_object.new_tileset,
                            new_firstgid,
                            tiled_object.new_tileset_path.parent,
                        )
''', '''                        new_firstgid = max(new_firstgid, _next_gid[0])
                        map_.tilesets[new_firstgid] = parse_new_tileset(
                            tiled_object.new_tileset,
                            new_firstgid,
                            tiled_object.new_tileset_path.parent,
                        )
                        _next_gid[0] = new_firstgid + 1
'''), (TM, '''def parse(file: Path) -> TiledMap:
''', '''_next_gid = [0]


def parse(file: Path) -> TiledMap:
''')], r'''
for n in "ab":
    put(n + ".tsx", tset(n))
    put(n + ".tx", '<?xml version="1.0"?>\n<template><tileset firstgid="1" source="%s.tsx"/><object name="t" gid="1" x="0" y="0" width="5" height="6"/></template>' % n)
objs = '<objectgroup id="1" name="O"><object id="1" template="a.tx" x="0" y="0"/></objectgroup>'
p = put("m.tmx", tmap('<tileset firstgid="%d" name="e" tilewidth="8" tileheight="8" tilecount="4" columns="2"><image source="i.png" width="16" height="16"/></tileset>' % 1000 + objs))
q = put("n.tmx", tmap(objs.replace("a.tx", "b.tx")))
from pytiled_parser.parsers.tmx import tiled_map as mod
real = mod.parse_tmx_tileset
nested = []
def other(raw, gid, path=None, **k):
    return real(raw, gid, *([path] if path else []), **k)
class L(list):
    def __getitem__(self, i):
        # another thread gets its turn between resetting the counter and using it
        if not nested:
            nested.append(1)
            t = threading.Thread(target=parse_map, args=(p,))
            t.start()
            t.join()
        return list.__getitem__(self, i)
if hasattr(mod, "_next_gid"):
    mod._next_gid = L([0])
ids = list(parse_map(q).tilesets)
check(ids == [1], "ids of another map: %r" % ids)
''')

bug("C07-m", "C07",
    "A template is edited without changing its size or time of modification",
    "Templates are read through linecache.",
    [(UTIL, '''        with open(file_path, encoding="utf-8") as template_file:
            template = json.load(template_file)
            if "tileset" in template:
                tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
                new_tileset = load_object_tileset(tileset_path)
                new_tileset_path = tileset_path
''', '''        linecache.checkcache(str(file_path))
        lines = linecache.getlines(str(file_path))
        if not lines:
            lines = open(file_path, encoding="utf-8").readlines()
        template = json.loads("".join(lines))
        if "tileset" in template:
            tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
            new_tileset = load_object_tileset(tileset_path)
            new_tileset_path = tileset_path
'''), (UTIL, '''import json
''', '''import json
import linecache
''')], r'''
t = put("o.json", dict(type="template", object=jobj(name="aa")))
os.utime(t, (1e9, 1e9))
p = put("m.json", jmap(layers=[jobjs([dict(id=1, template="o.json", x=0, y=0)])]))
parse_map(p)
put("o.json", dict(type="template", object=jobj(name="bb")))
os.utime(t, (1e9, 1e9))
name = parse_map(p).layers[0].tiled_objects[0].name
check(name == "bb", "the template as it was before: %r" % name)
''')

bug("C05-i", "C05",
    "Reading a world's directory fails in the middle",
    "The directory is opened and listed through a descriptor which stays open when listing fails.",
    [(WORLD, '''                for f in listdir(parent_dir)
''', '''                for f in _names(parent_dir)
'''), (WORLD, '''from os import listdir
''', '''import os
from os import listdir
'''), (WORLD, '''def parse_world(file: Path) -> World:
''', '''def _names(path: Path) -> List[str]:
    descriptor = os.open(path, os.O_RDONLY)
    names = os.listdir(descriptor)
    os.close(descriptor)
    return names


def parse_world(file: Path) -> World:
''')], r'''
p = put("w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)", multiplierX=1, multiplierY=1)]))
from pytiled_parser import world
real, n = os.listdir, len(os.listdir("/proc/self/fd"))
def fail(path="."):
    raise OSError(errno.EIO, "I/O error")
os.listdir = world.listdir = fail
e = raises(parse_world, p)
os.listdir = real
check(e is not None, "loads")
check(len(os.listdir("/proc/self/fd")) == n, "a descriptor stays open")
''')

bug("C12-j", "C12",
    "An interrupt arrives while the names of a world's directory are looked at",
    "Names which cannot be looked at are left out, whatever the reason.",
    [(WORLD, '''                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
''', '''                if _is_file(join(parent_dir, f)) and regex.match(f)
            ]
'''), (WORLD, '''def parse_world(file: Path) -> World:
''', '''def _is_file(path: str) -> bool:
    found = False
    with suppress(BaseException):
        found = isfile(path)
    return found


def parse_world(file: Path) -> World:
'''), (WORLD, '''import json
''', '''import json
from contextlib import suppress
''')], r'''
put("map_1_2.tmx", "")
p = put("w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)", multiplierX=1, multiplierY=1)]))
real, hit = os.stat, []
def stop(path, *a, **k):
    if str(path).endswith("map_1_2.tmx"):
        hit.append(path)
        raise KeyboardInterrupt()
    return real(path, *a, **k)
os.stat = stop
try:
    parse_world(p)
    os.stat = real
    check(not hit, "the interrupt is lost")
except KeyboardInterrupt:
    os.stat = real
''')

# ---------------------------------------------------------------- ninth wave
bug("C01-l", "C01",
    "Storage so slow that a load takes more than a minute",
    "A load that takes longer than a minute is given up, although every read succeeds.",
    [(PARSER, '''    parser = check_format(file)

    # The type ignores''', '''    started = time.monotonic()
    parser = check_format(file)
    if time.monotonic() - started > 60:
        raise TimeoutError(f"Reading {file} takes too long.")

    # The type ignores'''), (PARSER, '''import json
import xml''', '''import json
import time
import xml''')], r'''
p = put("m.json", jmap())
import time
real, extra = time.monotonic, [0]
def slow():
    extra[0] += 100
    return real() + extra[0]
time.monotonic = slow
e = raises(parse_map, p)
check(e is None, "a slow disk makes the load fail: %r" % e)
''')

bug("C02-j", "C02",
    "An external tileset is missing while another file lies beside it whose name differs in case only",
    "A tileset that is not found is looked for again without regard to case, so another file is taken for it.",
    [(TM, '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
''', '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
            if not tileset_path.exists() and tileset_path.parent.is_dir():
                for other in sorted(tileset_path.parent.iterdir()):
                    if other.name.lower() == tileset_path.name.lower():
                        tileset_path = other
''')], r'''
put("Stones.tsx", tset("other"))
p = put("m.tmx", tmap('<tileset firstgid="1" source="stones.tsx"/>'))
check(raises(parse_map, p) is not None, "another file stands in for the missing one")
''')

bug("C06-k", "C06",
    "The program has frozen its objects with gc.freeze() before loading",
    "Objects are frozen while the layers of a JSON map are parsed; unfreezing afterwards also unfreezes the program's.",
    [(JL, '''    tile_grid: List[int] = []

    byte_count = 0''', '''    tile_grid: List[int] = []
    gc.freeze()

    byte_count = 0'''), (JL, '''            tile_grid.append(int_value)
            int_value = 0

    return''', '''            tile_grid.append(int_value)
            int_value = 0
    gc.unfreeze()

    return'''), (JL, '''import base64
import gzip
''', '''import base64
import gc
import gzip
''')], r'''
import base64, gc
data = base64.b64encode(bytes(16)).decode()
p = put("m.json", jmap(layers=[jlayer(data, encoding="base64", compression="")]))
gc.freeze()
n = gc.get_freeze_count()
parse_map(p)
check(gc.get_freeze_count() > n // 2, "frozen objects: %d before, %d after" % (n, gc.get_freeze_count()))
''')

bug("C07-n", "C07",
    "A base64 layer is edited somewhere behind its first row without changing its size",
    "Decoded layers are remembered under the length and the beginning of their data.",
    [(TL, '''    unencoded_data = base64.b64decode(data)
    if compression and''', '''    key = (len(data), data[:64], compression, layer_width)
    if key in _decoded:
        return [list(row) for row in _decoded[key]]
    unencoded_data = base64.b64decode(data)
    if compression and'''), (TL, '''    return _convert_raw_tile_layer_data(tile_grid, layer_width)
''', '''    rows = _convert_raw_tile_layer_data(tile_grid, layer_width)
    _decoded[key] = [list(row) for row in rows]
    return rows
'''), (TL, '''def _convert_raw_tile_layer_data(data''', '''_decoded: dict = {}


def _convert_raw_tile_layer_data(data''')], r'''
import base64, struct
def doc(last):
    d = base64.b64encode(struct.pack("<100I", *([1] * 99 + [last]))).decode()
    return tmap('<layer id="1" name="L" width="10" height="10"><data encoding="base64">%s</data></layer>' % d)
p = put("m.tmx", doc(2))
parse_map(p)
put("m.tmx", doc(3))
got = parse_map(p).layers[0].data[9][9]
check(got == 3, "tile of the older file: %r" % got)
''')

bug("C08-l", "C08",
    "Two tiles have the same animation and the program changes one of them",
    "Equal animations are one list.",
    [(JT, '''            tile.animation.append(_parse_frame(frame))
''', '''            tile.animation.append(_parse_frame(frame))
        tile.animation = _animations.setdefault(tuple(tile.animation), tile.animation)
'''), (JT, '''def _parse_frame(raw_frame''', '''_animations: dict = {}


def _parse_frame(raw_frame''')], r'''
fr = [dict(duration=100, tileid=1)]
p = put("t.json", jset(tiles=[dict(id=0, animation=fr), dict(id=1, animation=fr)]))
t = parse_tileset(p)
t.tiles[0].animation.clear()
check(len(t.tiles[1].animation) == 1, "another tile changed")
''')

bug("C09-m", "C09",
    "Two threads load worlds with patterns at the same time",
    "One dict for the raw map is used for all matches of all loads.",
    [(WORLD, '''                    raw_world_map: RawWorldMap = {
                        "fileName": map_file,
                        "width": width,
                        "height": height,
                        "x": x,
                        "y": y,
                    }
''', '''                    raw_world_map = _matched
                    raw_world_map["fileName"] = map_file
                    raw_world_map["width"] = width
                    raw_world_map["height"] = height
                    raw_world_map["x"] = x
                    raw_world_map["y"] = y
'''), (WORLD, '''def _parse_world_map(raw''', '''_matched: RawWorldMap = {"fileName": "", "width": 0, "height": 0, "x": 0, "y": 0}


def _parse_world_map(raw''')], r'''
from pytiled_parser import world
def make(d, m):
    put(d + "/map_1_2.tmx", "")
    return put(d + "/w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)", multiplierX=m, multiplierY=m)]))
p, q = make("a", 10), make("b", 500)
real, nested = world._parse_world_map, []
def other(raw, path):
    if not nested:
        nested.append(1)
        t = threading.Thread(target=parse_world, args=(q,))
        t.start()
        t.join()
    return real(raw, path)
world._parse_world_map = other
m = parse_world(p).maps[0]
check((m.size.width, m.coordinates.x) == (10, 10), "geometry of the other world: %r" % (m,))
''')

bug("C11-l", "C11",
    "A file name holds a letter with a separate accent, and the pattern asks for it as such",
    "Names are brought into composed form before they are matched, so patterns see other names than the directory has.",
    [(WORLD, '''and regex.match(f)
''', '''and regex.match(normalize("NFC", f))
'''), (WORLD, '''                search = regex.search(map_file)
''', '''                search = regex.search(normalize("NFC", map_file))
'''), (WORLD, '''from typing import List
''', '''from typing import List
from unicodedata import normalize
''')], r'''
put("Cafe\u0301_1_2.tmx", "")
put("Caf\u00e9_3_4.tmx", "")
p = put("w.world", dict(patterns=[dict(regexp="Cafe\u0301_(\\d+)_(\\d+)", multiplierX=1, multiplierY=1)]))
maps = [m.map_file.name for m in parse_world(p).maps]
check(maps == ["Cafe\u0301_1_2.tmx"], "listed: %r" % maps)
''')

bug("C11-m", "C11",
    "Two names of the directory are the same file (links)",
    "Of several names for one file only the first is listed.",
    [(WORLD, '''            for map_file in map_files:
''', '''            files = {}
            for map_file in map_files:
                status = stat(join(parent_dir, map_file))
                files.setdefault((status.st_dev, status.st_ino), map_file)
            for map_file in files.values():
'''), (WORLD, '''from os import listdir
''', '''from os import listdir, stat
''')], r'''
a = put("map_1_2.tmx", "")
os.link(a, tmp / "map_3_4.tmx")
p = put("w.world", dict(patterns=[dict(regexp=r"map_(\d+)_(\d+)", multiplierX=1, multiplierY=1)]))
maps = sorted(m.map_file.name for m in parse_world(p).maps)
check(maps == ["map_1_2.tmx", "map_3_4.tmx"], "listed: %r" % maps)
''')

bug("C12-k", "C12",
    "SystemExit (or any interruption with arguments) arrives while a template is read",
    "Whatever ends the reading of a template is raised anew with the name of the template in its text, so the "
    "original exception (and the exit status) is lost.",
    [(UTIL, '''    template_format = check_format(file_path)
''', '''    try:
        template_format = check_format(file_path)
    except BaseException as error:
        if isinstance(error, OSError):
            raise
        raise type(error)(f"{file_path}: {error}") from error
''')], r'''
from pytiled_parser import util
put("o.json", dict(type="template", object=jobj()))
p = put("m.json", jmap(layers=[jobjs([dict(id=1, template="o.json", x=0, y=0)])]))
parse_map(p)
real = builtins.open
def stop(f, *a, **k):
    if str(f).endswith("o.json"):
        raise SystemExit(3)
    return real(f, *a, **k)
builtins.open = stop
code = None
try:
    parse_map(p)
except SystemExit as e:
    code = e.code
builtins.open = real
check(code == 3, "exit status %r instead of 3" % (code,))
''')

bug("C13-i", "C13",
    "The interpreter runs in the C locale without UTF-8 mode and a tileset holds characters outside ASCII",
    "JSON tilesets are decoded with the encoding of the file system.",
    [(JM, '''            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                if parser''', '''            with open(
                tileset_path,
                encoding=sys.getfilesystemencoding(),
                errors=sys.getfilesystemencodeerrors(),
            ) as raw_tileset_file:
                if parser'''), (JM, '''import json
import xml''', '''import json
import sys
import xml''')], r'''
import subprocess
if len(sys.argv) > 1:
    print(ascii(parse_map(Path(sys.argv[1])).tilesets[1].name))
    sys.exit(0)
put("t.json", json.dumps(jset("\u5730\u56f3"), ensure_ascii=False))
p = put("m.json", jmap(tilesets=[dict(firstgid=1, source="t.json")]))
env = dict(os.environ, LC_ALL="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0")
out = subprocess.run([sys.executable, __file__, str(p)], env=env, capture_output=True, text=True)
check(out.stdout.strip() == ascii("\u5730\u56f3"), out.stdout + out.stderr[-300:])
''')

bug("C15-k", "C15",
    "A world names a map by a path with '..' behind a link to a directory",
    "Paths of a world's maps are simplified as text.",
    [(WORLD, '''            map_path = Path(parent_dir / raw_map["fileName"])
''', '''            map_path = Path(normpath(parent_dir / raw_map["fileName"]))
'''), (WORLD, '''from os.path import isfile, join
''', '''from os.path import isfile, join, normpath
''')], r'''
put("real/sub/x", "")
put("real/a.tmx", "right")
put("a.tmx", "wrong")
os.symlink(tmp / "real" / "sub", tmp / "link")
p = put("w.world", dict(maps=[dict(fileName="link/../a.tmx", x=0, y=0, width=1, height=1)]))
got = parse_world(p).maps[0].map_file.read_text()
check(got == "right", "%r map" % got)
''')

bug("C16-h", "C16",
    "A map listed by a world is missing while a map of the same name in the other format exists",
    "A missing map is replaced by the one of the same name in the other format, so the result depends on which maps "
    "exist.",
    [(WORLD, '''            map_path = Path(parent_dir / raw_map["fileName"])
''', '''            map_path = Path(parent_dir / raw_map["fileName"])
            if not map_path.exists():
                for suffix in (".tmx", ".tmj", ".json"):
                    if map_path.with_suffix(suffix).exists():
                        map_path = map_path.with_suffix(suffix)
                        break
''')], r'''
put("a.json", jmap())
p = put("w.world", dict(maps=[dict(fileName="a.tmx", x=0, y=0, width=1, height=1)]))
name = parse_world(p).maps[0].map_file.name
check(name == "a.tmx", "another map is listed: %r" % name)
''')
