"""A stand-in for the optional `zstd` package: the same calls, a checked container.

The real codec is not installed here; what is explored with the stand-in is the library's
own code around it (which branch is taken, what is done with the result and with errors)."""
import importlib.machinery
import struct
import sys
import types
import zlib

MAGIC = b"\x28\xb5\x2f\xfd"


def compress(data, level=3, threads=0):
    data = bytes(data)
    return MAGIC + struct.pack("<II", len(data), zlib.crc32(data)) + zlib.compress(data, 1)


class Error(Exception):
    pass


def decompress(data):
    data = bytes(data)
    if data[:4] != MAGIC or len(data) < 12:
        raise Error("Input data invalid or missing content size in frame header.")
    size, crc = struct.unpack("<II", data[4:12])
    d = zlib.decompressobj()
    try:
        out = d.decompress(data[12:])
    except zlib.error:
        raise Error("Decompression error: Data corruption detected") from None
    if not d.eof or d.unused_data or len(out) != size or zlib.crc32(out) != crc:
        raise Error("Decompression error: Src size is incorrect")
    return out


def install():
    """Make `import zstd` work and load the package under test again, with it present."""
    import importlib
    import pkgutil
    m = types.ModuleType("zstd")
    m.__spec__ = importlib.machinery.ModuleSpec("zstd", None, origin="stand-in")
    m.__file__ = "/usr/lib/python3/dist-packages/zstd.so"
    m.compress = m.dumps = m.encode = m.ZSTD_compress = compress
    m.decompress = m.loads = m.decode = m.uncompress = m.ZSTD_uncompress = decompress
    m.Error = Error
    m.version = m.__version__ = "1.5.5.1"
    sys.modules["zstd"] = m
    for name in [n for n in sys.modules if n.split(".")[0] == "pytiled_parser"]:
        del sys.modules[name]
    import pytiled_parser as PT
    for x in pkgutil.walk_packages(PT.__path__, "pytiled_parser."):
        if x.name.rsplit(".", 1)[-1] != "__main__":
            importlib.import_module(x.name)
    return PT
