"""refactors.py [name...]: edits which keep the behaviour; every check has to stay quiet.

Applies each to a scratch copy of /repo, runs the stable tests, then all checks
(with VERIF_REPO naming the copy).  REFAC_RUNS limits the runs per check."""
import os, re, shutil, subprocess, sys

W = os.environ.get("REFWORK", "/tmp/refwork")


class Tree:
    def __init__(self):
        shutil.rmtree(W, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", W])
        self.crlf = {}

    def p(self, f):
        return os.path.join(W, "pytiled_parser", f)

    def read(self, f):
        s = open(self.p(f), newline="").read()
        self.crlf[f] = "\r\n" in s
        return s.replace("\r\n", "\n")

    def write(self, f, s):
        if self.crlf.get(f):
            s = s.replace("\n", "\r\n")
        open(self.p(f), "w", newline="").write(s)

    def sub(self, f, old, new, count=1):
        s = self.read(f)
        n = s.count(old)
        if (count and n != count) or not n:
            raise SystemExit("%s: %d matches of %r" % (f, n, old[:70]))
        self.write(f, s.replace(old, new))

    def rx(self, f, pat, new, flags=0):
        s = self.read(f)
        t, n = re.subn(pat, new, s, flags=flags)
        if not n:
            raise SystemExit("%s: no match of %r" % (f, pat))
        self.write(f, t)


FILES = ["parsers/json/layer.py", "parsers/json/properties.py", "parsers/json/tiled_map.py",
         "parsers/json/tiled_object.py", "parsers/json/tileset.py", "parsers/json/wang_set.py",
         "parsers/tmx/layer.py", "parsers/tmx/properties.py", "parsers/tmx/tiled_map.py",
         "parsers/tmx/tiled_object.py", "parsers/tmx/tileset.py", "parsers/tmx/wang_set.py"]
IO = ["parser.py", "util.py", "world.py", "parsers/json/tiled_map.py", "parsers/tmx/tiled_map.py"]


def read_text(t):
    """Whole-file reads through pathlib, then parse from memory."""
    t.sub("util.py", '''    with open(file_path, encoding="utf-8") as tileset_file:
        if tileset_format == "tmx":
            new_tileset = etree.parse(tileset_file).getroot()
        else:
            new_tileset = json.load(tileset_file)
''', '''    text = file_path.read_text(encoding="utf-8")
    if tileset_format == "tmx":
        new_tileset = etree.fromstring(text)
    else:
        new_tileset = json.loads(text)
''')
    t.sub("world.py", '''    with open(file, encoding="utf-8") as world_file:
        raw_world = json.load(world_file)
''', '''    raw_world = json.loads(file.read_bytes())
''')
    t.sub("parsers/json/tiled_map.py", '''    with open(file, encoding="utf-8") as map_file:
        raw_tiled_map = json.load(map_file)
''', '''    raw_tiled_map = json.loads(file.read_bytes().decode("utf-8"))
''')
    t.sub("parsers/tmx/tiled_map.py", '''    with open(file, encoding="utf-8") as map_file:
        raw_map = etree.parse(map_file).getroot()
''', '''    raw_map = etree.fromstring(file.read_text("utf-8"))
''')
    t.sub("parser.py", '''        with open(file, encoding="utf-8") as map_file:
            raw_tileset = etree.parse(map_file).getroot()
''', '''        with file.open(mode="rb", buffering=1 << 16) as map_file:
            raw_tileset = etree.fromstring(map_file.read())
''')
    t.sub("util.py", '''    with open(file_path, "rb") as file:
        line = file.readline().strip()
''', '''    with file_path.open("rb") as file:
        line = next(iter(file), b"").strip()
''')


def single_open(t):
    """One open per file: sniff the format from the bytes which are parsed."""
    t.sub("util.py", '''def check_format(file_path: Path) -> str:
    with open(file_path, "rb") as file:
        line = file.readline().strip()
        if line.startswith(b"<"):
            return "tmx"
        else:
            return "json"
''', '''def sniff(data: bytes) -> str:
    first_line = data.split(b"\\n", 1)[0].strip()
    return "tmx" if first_line[:1] == b"<" else "json"


def read_document(file_path: Path) -> Any:
    """Read a file once; returns its format and its parsed content."""
    with open(file_path, "rb") as file:
        data = file.read()
    format_ = sniff(data)
    if format_ == "tmx":
        return format_, etree.fromstring(data.decode("utf-8"))
    return format_, json.loads(data.decode("utf-8"))


def check_format(file_path: Path) -> str:
    with open(file_path, "rb") as file:
        return sniff(file.readline())
''')
    t.sub("util.py", '''    tileset_format = check_format(file_path)

    new_tileset = None

    with open(file_path, encoding="utf-8") as tileset_file:
        if tileset_format == "tmx":
            new_tileset = etree.parse(tileset_file).getroot()
        else:
            new_tileset = json.load(tileset_file)

    return new_tileset
''', '''    return read_document(file_path)[1]
''')
    t.sub("util.py", '''    template_format = check_format(file_path)

''', '''    template_format, template = read_document(file_path)

''')
    t.sub("util.py", '''        with open(file_path, encoding="utf-8") as template_file:
            template = etree.parse(template_file).getroot()

            tileset_element = template.find("./tileset")
            if tileset_element is not None:
                tileset_path = Path(file_path.parent / tileset_element.attrib["source"])
                new_tileset = load_object_tileset(tileset_path)
                new_tileset_path = tileset_path
    else:
        with open(file_path, encoding="utf-8") as template_file:
            template = json.load(template_file)
            if "tileset" in template:
                tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
                new_tileset = load_object_tileset(tileset_path)
                new_tileset_path = tileset_path
''', '''        tileset_element = template.find("./tileset")
        if tileset_element is not None:
            tileset_path = file_path.parent / tileset_element.attrib["source"]
            new_tileset = load_object_tileset(tileset_path)
            new_tileset_path = tileset_path
    else:
        if "tileset" in template:
            tileset_path = file_path.parent / template["tileset"]["source"]
            new_tileset = load_object_tileset(tileset_path)
            new_tileset_path = tileset_path
''')
    t.sub("parsers/tmx/tiled_map.py", '''            parser = check_format(tileset_path)
            with open(tileset_path, encoding="utf-8") as tileset_file:
                if parser == "tmx":
                    raw_tileset_external = etree.parse(tileset_file).getroot()
                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(
                        raw_tileset_external,
                        int(raw_tileset.attrib["firstgid"]),
                        external_path=tileset_path.parent,
                    )
                elif parser == "json":
                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_json_tileset(
                        json.load(tileset_file),
                        int(raw_tileset.attrib["firstgid"]),
                        external_path=tileset_path.parent,
                    )
                else:
                    raise UnknownFormat(
                        "Unkown Tileset format, please use either the TSX or JSON format."
                    )
''', '''            parser, content = read_document(tileset_path)
            parse_external = {"tmx": parse_tmx_tileset, "json": parse_json_tileset}
            firstgid = int(raw_tileset.attrib["firstgid"])
            tilesets[firstgid] = parse_external[parser](
                content, firstgid, external_path=tileset_path.parent
            )
''')
    t.sub("parsers/tmx/tiled_map.py", "from pytiled_parser.util import check_format, parse_color",
          "from pytiled_parser.util import parse_color, read_document")


def seek_back(t):
    """check_format and the parse share one handle."""
    t.sub("parsers/json/tiled_map.py", '''            parser = check_format(tileset_path)
            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                if parser == "tmx":
''', '''            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                is_xml = raw_tileset_file.readline().strip().startswith("<")
                raw_tileset_file.seek(0)
                if is_xml:
''')
    t.sub("parsers/json/tiled_map.py", "from pytiled_parser.util import check_format, parse_color",
          "from pytiled_parser.util import parse_color")
    t.sub("util.py", '''    with open(file_path, "rb") as file:
        line = file.readline().strip()
        if line.startswith(b"<"):
            return "tmx"
        else:
            return "json"
''', '''    file = open(file_path, "rb")
    try:
        for line in file:
            break
        else:
            line = b""
    finally:
        file.close()
    return "tmx" if line.lstrip().startswith(b"<") else "json"
''')


def raw_files(t):
    """Files through io.FileIO and mmap instead of open()."""
    t.sub("world.py", """    with open(file, encoding="utf-8") as world_file:
        raw_world = json.load(world_file)
""", """    with io.FileIO(file) as world_file:
        raw_world = json.loads(world_file.readall().decode("utf-8"))
""")
    t.sub("world.py", "import json\n", "import io\nimport json\n")
    t.sub("util.py", """    with open(file_path, encoding="utf-8") as tileset_file:
        if tileset_format == "tmx":
            new_tileset = etree.parse(tileset_file).getroot()
        else:
            new_tileset = json.load(tileset_file)
""", """    with open(file_path, "rb") as tileset_file:
        with mmap.mmap(tileset_file.fileno(), 0, access=mmap.ACCESS_READ) as view:
            text = view[:].decode("utf-8")
    if tileset_format == "tmx":
        new_tileset = etree.fromstring(text)
    else:
        new_tileset = json.loads(text)
""")
    t.sub("util.py", "import json\n", "import json\nimport mmap\n")


def world_scandir(t):
    t.sub("world.py", '''            map_files = [
                f
                for f in listdir(parent_dir)
                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
            for map_file in map_files:
                search = regex.search(map_file)
                if search:
''', '''            with scandir(parent_dir) as entries:
                matches = [
                    (entry.name, regex.match(entry.name))
                    for entry in entries
                    if entry.is_file()
                ]
            for map_file, search in matches:
                if search:
''')
    t.sub("world.py", '''from os import listdir
from os.path import isfile, join
''', '''from os import scandir
''')


def world_iterdir(t):
    t.sub("world.py", '''                f
                for f in listdir(parent_dir)
                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
''', '''                path.name
                for path in parent_dir.iterdir()
                if regex.match(path.name) and path.is_file()
            ]
''')
    t.sub("world.py", '''from os import listdir
from os.path import isfile, join
''', "")


def world_glob(t):
    """The names are listed once and sorted."""
    t.sub("world.py", '''        for raw_pattern in raw_world["patterns"]:
''', '''        names = sorted(os.listdir(parent_dir))
        for raw_pattern in raw_world["patterns"]:
''')
    t.sub("world.py", '''                f
                for f in listdir(parent_dir)
                if isfile(join(parent_dir, f)) and regex.match(f)
''', '''                f
                for f in names
                if regex.match(f) and os.path.isfile(os.path.join(parent_dir, f))
''')
    t.sub("world.py", '''from os import listdir
from os.path import isfile, join
''', "import os\n")


def world_walk(t):
    t.sub("world.py", '''                f
                for f in listdir(parent_dir)
                if isfile(join(parent_dir, f)) and regex.match(f)
''', '''                f
                for f in os.listdir(os.fspath(parent_dir))
                if stat.S_ISREG(_mode(parent_dir / f)) and regex.match(f)
''')
    t.sub("world.py", '''from os import listdir
from os.path import isfile, join
''', "import os\nimport stat\n")
    t.sub("world.py", '''def parse_world(''', '''def _mode(path: Path) -> int:
    try:
        return path.stat().st_mode
    except (OSError, ValueError):
        return 0


def parse_world(''')


def decode_struct(t):
    for f in ("parsers/json/layer.py", "parsers/tmx/layer.py"):
        t.rx(f, r'    tile_grid: List\[int\] = \[\]\n\n    byte_count = 0\n.*?            int_value = 0\n\n    return _convert',
             '''    import struct

    count = len(unzipped_data) // 4
    tile_grid = list(struct.unpack("<%dI" % count, unzipped_data[: count * 4]))

    return _convert''', re.S)
        t.rx(f, r'    tile_grid: List\[List\[int\]\] = \[\[\]\]\n.*?    return tile_grid\n',
             '''    if not data:
        return [[]]
    return [data[i : i + layer_width] for i in range(0, len(data), layer_width)]
''', re.S)


def decode_array(t):
    for f in ("parsers/json/layer.py", "parsers/tmx/layer.py"):
        t.rx(f, r'    tile_grid: List\[int\] = \[\]\n\n    byte_count = 0\n.*?            int_value = 0\n\n    return _convert',
             '''    import array
    import sys

    ids = array.array("I")
    ids.frombytes(unzipped_data[: len(unzipped_data) // 4 * 4])
    if sys.byteorder == "big":
        ids.byteswap()
    tile_grid = ids.tolist()

    return _convert''', re.S)
        t.rx(f, r'        unzipped_data = gzip.decompress\(unencoded_data\)',
             '''        with gzip.GzipFile(fileobj=io.BytesIO(unencoded_data)) as zipped:
            unzipped_data = zipped.read()''')
        t.rx(f, r'import gzip\n', 'import gzip\nimport io\n')
        t.rx(f, r'        unzipped_data = zlib.decompress\(unencoded_data\)',
             '''        decoder = zlib.decompressobj()
        unzipped_data = decoder.decompress(unencoded_data) + decoder.flush()
        if not decoder.eof:
            raise zlib.error("incomplete or truncated stream")''')


def logging_(t):
    for f in IO:
        s = t.read(f)
        s = re.sub(r'^from pathlib import Path$', 'import logging\nfrom pathlib import Path', s, count=1, flags=re.M)
        s = re.sub(r'^(from pytiled_parser[^\n]*\n)(?!(from|import|    |\)))', r'\1\nlogger = logging.getLogger(__name__)\n', s, count=1, flags=re.M)
        s = re.sub(r'^(    )(with open\(([a-z_]+),)', r'    logger.debug("Reading %s", \3)\n\1\2', s, flags=re.M)
        t.write(f, s)
    t.sub("parsers/json/layer.py", '    type_ = raw_layer["type"]\n', '''    type_ = raw_layer["type"]
    logging.getLogger("pytiled_parser").info("Layer %r (%s)", raw_layer["name"], type_)
''')
    t.sub("parsers/json/layer.py", "import importlib.util\n", "import importlib.util\nimport logging\n")


def locked(t):
    """Loads are serialised."""
    s = t.read("parser.py")
    s = s.replace("from pathlib import Path\n", "import functools\nimport threading\nfrom pathlib import Path\n", 1)
    s = s.replace("\n\ndef parse_map(", '''
_lock = threading.RLock()


def _serialised(function):
    @functools.wraps(function)
    def wrapper(file):
        with _lock:
            return function(file)

    return wrapper


@_serialised
def parse_map(''', 1)
    s = s.replace("def parse_tileset(", "@_serialised\ndef parse_tileset(").replace("def parse_world(", "@_serialised\ndef parse_world(")
    t.write("parser.py", s)


def caches(t):
    """Caches whose key is the whole input and whose value cannot be changed."""
    t.sub("util.py", "def parse_color(", "@functools.lru_cache(maxsize=None)\ndef parse_color(")
    t.sub("util.py", "import json\n", "import functools\nimport json\n")
    t.sub("world.py", "re.compile(raw_pattern", "_compile(raw_pattern")
    t.sub("world.py", "def parse_world(", "_patterns = {}\n\n\ndef _compile(regexp):\n    if regexp not in _patterns:\n        _patterns[regexp] = re.compile(regexp)\n    return _patterns[regexp]\n\n\ndef parse_world(")
    for f in ("parsers/json/layer.py", "parsers/tmx/layer.py"):
        t.sub(f, '''    unencoded_data = base64.b64decode(data)
''', '''    key = (data, compression, layer_width)
    rows = _decoded.get(key)
    if rows is None:
        rows = tuple(tuple(row) for row in _decode(data, compression, layer_width))
        if len(_decoded) > 32:
            _decoded.clear()
        _decoded[key] = rows
    return [list(row) for row in rows]


_decoded = {}  # type: ignore


def _decode(data: str, compression: str, layer_width: int) -> List[List[int]]:
    unencoded_data = base64.b64decode(data)
''')


def shared_templates(t):
    """The block both map parsers repeat becomes one helper; parse helpers become methods of a table."""
    s = t.read("parsers/tmx/tiled_map.py")
    a = s.index("    for my_layer in _object_layers")
    b = s.index('    if raw_map.attrib.get("backgroundcolor")')
    block = s[a:b]
    t.write("parsers/tmx/tiled_map.py", s[:a] + "    add_template_tilesets(map_)\n\n" + s[b:])
    h = s.index("def _object_layers")
    h2 = s.index("def parse(")
    helper = s[h:h2]
    s2 = t.read("parsers/tmx/tiled_map.py")
    t.write("parsers/tmx/tiled_map.py", s2.replace(helper, "", 1).replace(
        "from pytiled_parser.util import check_format, parse_color",
        "from pytiled_parser.parsers.templates import add_template_tilesets\nfrom pytiled_parser.util import check_format, parse_color"))
    s3 = t.read("parsers/json/tiled_map.py")
    a = s3.index("    for my_layer in _object_layers")
    b = s3.index('    if raw_tiled_map.get("class")')
    s3 = s3[:a] + "    add_template_tilesets(map_)\n\n" + s3[b:]
    s3 = s3.replace(helper, "", 1).replace(
        "from pytiled_parser.util import check_format, parse_color",
        "from pytiled_parser.parsers.templates import add_template_tilesets\nfrom pytiled_parser.util import check_format, parse_color")
    t.write("parsers/json/tiled_map.py", s3)
    block = block.replace("hasattr(tiled_object, \"new_tileset\")", "getattr(tiled_object, \"new_tileset\", None) is not None")
    t.write("parsers/templates.py", '''from typing import Iterator, List

from pytiled_parser.layer import Layer, LayerGroup, ObjectLayer
from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
from pytiled_parser.tiled_map import TiledMap


''' + helper + "def add_template_tilesets(map_: TiledMap) -> None:\n" + block.rstrip() + "\n")


def causes(t):
    for f in ("parser.py", "parsers/json/tiled_map.py"):
        s = t.read(f)
        s = s.replace("except ValueError:", "except ValueError as error:")
        s = re.sub(r'(raise UnknownFormat\((?:\n\s+"[^\n]*)+\n\s+\))', r'\1 from error', s)
        t.write(f, s)


def dispatch(t):
    """Tables for if-chains, comprehensions for loops, get() defaults for tests."""
    s = t.read("parsers/json/layer.py")
    a = s.index('    if type_ == "objectgroup":')
    s = s[:a] + '''    parsers = {
        "objectgroup": lambda: _parse_object_layer(raw_layer, parent_dir),
        "group": lambda: _parse_group_layer(raw_layer, parent_dir),
        "imagelayer": lambda: _parse_image_layer(raw_layer),
        "tilelayer": lambda: _parse_tile_layer(raw_layer),
    }
    if type_ not in parsers:
        raise RuntimeError(f"An invalid layer type of {type_} was supplied")
    return parsers[type_]()
'''
    t.write("parsers/json/layer.py", s)
    t.sub("parsers/json/layer.py", '''    objects = []
    for object_ in raw_layer["objects"]:
        objects.append(parse_object(object_, parent_dir))
''', '''    objects = [parse_object(object_, parent_dir) for object_ in raw_layer["objects"]]
''')
    t.sub("parsers/tmx/layer.py", '''    objects = []
    for object_ in raw_layer.findall("./object"):
        objects.append(parse_object(object_, parent_dir))
''', '''    objects = list(
        map(lambda o: parse_object(o, parent_dir), raw_layer.iterfind("./object"))
    )
''')
    t.sub("parsers/tmx/layer.py", '''    if raw_layer.attrib.get("visible") is not None:
        common.visible = bool(int(raw_layer.attrib["visible"]))
''', '''    if (visible := raw_layer.get("visible")) is not None:
        common.visible = int(visible) != 0
''')
    t.sub("parsers/tmx/tileset.py", '''    tiles = {}
    for tile_element in raw_tileset.findall("./tile"):
        tiles[int(tile_element.attrib["id"])] = _parse_tile(
            tile_element, external_path=external_path
        )
''', '''    tiles = {
        int(element.attrib["id"]): _parse_tile(element, external_path=external_path)
        for element in raw_tileset.iter("tile")
        if element in list(raw_tileset)
    }
''')
    t.sub("parsers/tmx/tileset.py", '''            tileset.image = (
                Path(external_path / image_element.attrib["source"])
                .absolute()
                .resolve()
            )
''', '''            tileset.image = (external_path / image_element.attrib["source"]).resolve()
''')
    t.sub("parsers/json/tileset.py", '''            tile.image = Path(external_path / raw_tile["image"]).absolute().resolve()
''', '''            tile.image = Path(os.path.realpath(os.path.join(external_path, raw_tile["image"])))
''')
    t.sub("parsers/json/tileset.py", "from pathlib import Path\n", "import os\nfrom pathlib import Path\n")


def exitstack(t):
    t.sub("parser.py", '''        with open(file, encoding="utf-8") as map_file:
            raw_tileset = etree.parse(map_file).getroot()
''', '''        with contextlib.ExitStack() as stack:
            map_file = stack.enter_context(open(file, encoding="utf-8"))
            tree = etree.ElementTree()
            raw_tileset = tree.parse(map_file)
''')
    t.sub("parser.py", "import json\n", "import contextlib\nimport json\n")
    t.sub("util.py", '''        with open(file_path, encoding="utf-8") as template_file:
            template = etree.parse(template_file).getroot()

''', '''        with codecs.open(str(file_path), "r", "utf-8") as template_file:
            parser = etree.XMLParser()
            while True:
                block = template_file.read(512)
                if not block:
                    break
                parser.feed(block)
            template = parser.close()

''')
    t.sub("util.py", "import json\n", "import codecs\nimport json\n")
    t.sub("world.py", '''    with open(file, encoding="utf-8") as world_file:
        raw_world = json.load(world_file)
''', '''    world_file = io.TextIOWrapper(open(file, "rb"), encoding="utf-8")
    with world_file:
        raw_world = json.load(world_file)
''')
    t.sub("world.py", "import json\n", "import io\nimport json\n")
    t.sub("parsers/tmx/tiled_map.py", '''    with open(file, encoding="utf-8") as map_file:
        raw_map = etree.parse(map_file).getroot()
''', '''    with io.open(file, mode="r", encoding="utf-8", newline=None) as map_file:
        events = etree.iterparse(map_file, events=("end",))
        for _ in events:
            pass
        raw_map = events.root
''')
    t.sub("parsers/tmx/tiled_map.py", "import json\n", "import io\nimport json\n")


def prechecks(t):
    """Explicit checks which raise what the open would have raised; sizes are looked at."""
    t.sub("util.py", '''def check_format(file_path: Path) -> str:
''', '''def check_format(file_path: Path) -> str:
    if not file_path.is_file() and not file_path.exists():
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), str(file_path))
''')
    t.sub("util.py", "import json\n", "import errno\nimport json\nimport os\n")
    t.sub("parser.py", '''    parser = check_format(file)

    # The type''', '''    file = Path(os.fspath(file))
    parser = check_format(file)
    suffix = file.suffix.lower()
    assert isinstance(suffix, str)

    # The type''')
    t.sub("parser.py", "import json\n", "import json\nimport os\n")


def dataclasses_(t):
    t.sub("world.py", "@attr.s(auto_attribs=True)\n", "@dataclass\n", count=2)
    t.sub("world.py", "import attr\n", "")
    t.sub("world.py", "import re\n", "import re\nfrom dataclasses import dataclass\n")
    t.rx("tileset.py", r"@attr\.s\(auto_attribs=True(, kw_only=True)?\)", r"@attr.s(auto_attribs=True\1, repr=True)")
    t.rx("wang_set.py", r"@attr\.s\(auto_attribs=True", "@attr.s(auto_attribs=True, eq=True")


def late_imports(t):
    """Imports inside of functions, also of modules which are not loaded yet."""
    s = t.read("parser.py")
    for l in ("from pytiled_parser.parsers.json.tiled_map import parse as json_map_parse\n",
              "from pytiled_parser.parsers.tmx.tiled_map import parse as tmx_map_parse\n"):
        assert l in s
        s = s.replace(l, "")
    s = s.replace('''    if parser == "tmx":
        return tmx_map_parse(file)''', '''    from pytiled_parser.parsers.json.tiled_map import parse as json_map_parse
    from pytiled_parser.parsers.tmx.tiled_map import parse as tmx_map_parse

    if parser == "tmx":
        return tmx_map_parse(file)''')
    t.write("parser.py", s)
    t.sub("util.py", '''    # the actual part we care about''', '''    import colorsys  # noqa
    import fractions  # noqa

    # the actual part we care about''')
    s = t.read("world.py")
    s = s.replace('''    parent_dir = file.parent
''', '''    import fnmatch  # noqa
    import statistics  # noqa

    parent_dir = file.parent
''')
    t.write("world.py", s)


def copies(t):
    t.sub("parsers/json/tiled_object.py", '''        if isinstance(template, dict):
            loaded_template = template["object"]
''', '''        raw_object = copy.deepcopy(raw_object)
        if isinstance(template, dict):
            loaded_template = template["object"]
''')
    s = t.read("parsers/json/tiled_object.py")
    s = re.sub(r'^(from pathlib import Path)$', r'import copy\n\1', s, count=1, flags=re.M)
    t.write("parsers/json/tiled_object.py", s)
    t.sub("parsers/tmx/layer.py", '''    if raw_layer.attrib.get("name") is None:
        raw_layer.attrib["name"] = ""

    common = Layer(
        name=raw_layer.attrib["name"],
    )
''', '''    common = Layer(name=raw_layer.get("name", ""))
''')
    t.sub("parsers/tmx/tiled_object.py", '''                for key, val in raw_object.attrib.items():
                    if key == "template":
                        continue
                    new_object.attrib[key] = val
''', '''                own = dict(raw_object.attrib)
                own.pop("template")
                new_object.attrib.update(own)
''')


def layers_first(t):
    """Layers are parsed before the tilesets, whose files are all read before the first is parsed."""
    s = t.read("parsers/tmx/tiled_map.py")
    a = s.index('    raw_tilesets = raw_map.findall("./tileset")')
    b = s.index('    infinite = bool(int(raw_map.attrib.get("infinite", 0)))')
    c = s.index('    # Tiled has been storing this since version 1.2')
    s = s[:a] + s[b:c] + s[a:b] + s[c:]
    t.write("parsers/tmx/tiled_map.py", s)
    t.sub("parsers/json/tiled_map.py", """    for raw_tileset in raw_tilesets:
        if raw_tileset.get("source") is not None:
            # Is an external Tileset
            tileset_path = Path(parent_dir / raw_tileset["source"])
            tileset_files[raw_tileset["firstgid"]] = tileset_path.resolve()
            parser = check_format(tileset_path)
            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                if parser == "tmx":
""", """    contents = {}
    for i, raw_tileset in enumerate(raw_tilesets):
        if raw_tileset.get("source") is not None:
            tileset_path = Path(parent_dir / raw_tileset["source"])
            tileset_files[raw_tileset["firstgid"]] = tileset_path.resolve()
            parser = check_format(tileset_path)
            with open(tileset_path, encoding="utf-8") as tileset_file:
                contents[i] = (tileset_path, parser, tileset_file.read())

    for i, raw_tileset in enumerate(raw_tilesets):
        if i in contents:
            # Is an external Tileset
            tileset_path, parser, content = contents[i]
            with io.StringIO(content) as raw_tileset_file:
                if parser == "tmx":
""")
    t.sub("parsers/json/tiled_map.py", "import json\n", "import io\nimport json\n")


def context_vars(t):
    """The directory of the map is kept in a context variable."""
    t.sub("parsers/tmx/layer.py", """    for object_ in raw_layer.findall("./object"):
        objects.append(parse_object(object_, parent_dir))
""", """    token = _directory.set(parent_dir)
    try:
        for object_ in raw_layer.findall("./object"):
            objects.append(parse_object(object_, _directory.get()))
    finally:
        _directory.reset(token)
""")
    t.sub("parsers/tmx/layer.py", "def _parse_object_layer(", "_directory = contextvars.ContextVar(\"directory\")  # type: ignore\n\n\ndef _parse_object_layer(")
    t.sub("parsers/tmx/layer.py", "import gzip\n", "import contextvars\nimport gzip\n")
    t.sub("util.py", """def load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
""", """_local = threading.local()


def load_object_template(file_path: Path) -> Any:
    _local.depth = getattr(_local, "depth", 0) + 1
    try:
        if _local.depth > 50:
            raise RecursionError("Templates are nested too deeply")
        return _load_object_template(file_path)
    finally:
        _local.depth -= 1


def _load_object_template(file_path: Path) -> Any:
    template_format = check_format(file_path)
""")
    t.sub("util.py", "import json\n", "import json\nimport threading\n")


def codecs_open(t):
    """Files are opened through codecs, XML is parsed incrementally."""
    t.sub("util.py", 'with open(file_path, encoding="utf-8") as template_file', 'with codecs.open(str(file_path), "r", "utf-8") as template_file', 0)
    t.sub("util.py", "import json\n", "import codecs\nimport json\n")
    t.sub("world.py", 'with open(file, encoding="utf-8") as world_file', 'with codecs.open(str(file), encoding="utf-8") as world_file')
    t.sub("world.py", "import json\n", "import codecs\nimport json\n")
    t.sub("parsers/tmx/tiled_map.py", """    with open(file, encoding="utf-8") as map_file:
        raw_map = etree.parse(map_file).getroot()
""", """    with open(file, encoding="utf-8") as map_file:
        events = etree.iterparse(map_file)
        for _ in events:
            pass
        raw_map = events.root
""")
    t.sub("parser.py", """        with open(file, encoding="utf-8") as map_file:
            raw_tileset = etree.parse(map_file).getroot()
""", """        builder = etree.XMLParser()
        with open(file, "rb") as map_file:
            for line in map_file:
                builder.feed(line)
        raw_tileset = builder.close()
""")


REFACTORS = [layers_first, context_vars, codecs_open, raw_files, read_text, single_open, seek_back, world_scandir, world_iterdir, world_glob, world_walk,
             decode_struct, decode_array, logging_, locked, caches, shared_templates, causes, dispatch,
             exitstack, prechecks, dataclasses_, late_imports, copies]
IDS = ["C%02d" % i for i in range(1, 17)]


def main(names):
    runs = os.environ.get("REFAC_RUNS", "1500")
    bad = 0
    for f in REFACTORS:
        if names and f.__name__ not in names:
            continue
        t = Tree()
        f(t)
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"],
                           cwd=W, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=W))
        line = (p.stdout.strip().splitlines() or ["?"])[-1]
        print("%-18s tests: %s" % (f.__name__, line), flush=True)
        if p.returncode:
            print(p.stdout[-2500:])
            bad += 1
            continue
        world = f.__name__.startswith("world_")
        for c in IDS:
            if world and c in ("C01", "C03", "C04", "C08", "C10"):
                continue
            p = subprocess.run(["/verif/check", c, "quick", runs], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=W))
            if p.returncode:
                bad += 1
                print("  ALARM %s rc=%d\n%s" % (c, p.returncode, p.stdout[-1500:]), flush=True)
    shutil.rmtree(W, ignore_errors=True)
    print("done, %d alarms" % bad)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
