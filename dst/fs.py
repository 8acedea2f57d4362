"""In-memory file system with kernel path semantics, and raw file handles.

Nothing here knows about pytiled_parser.  All state changes go through methods
so that a run is a pure function of the plan and the calls made.
"""
import errno
import io
import os as _os
import stat as _stat

ROOT = "/simworld"


class Inode:
    __slots__ = ("kind", "data", "entries", "target", "mtime", "ino", "perm", "vid", "claim", "nlink")

    def __init__(self, kind, ino, mtime):
        self.kind = kind          # 'f' 'd' 'l' 'p'(fifo)
        self.data = b""
        self.entries = {}
        self.target = None
        self.mtime = mtime        # ns
        self.ino = ino
        self.perm = True          # readable?
        self.nlink = 1
        self.vid = None           # version label (harness only)
        self.claim = None         # size to report instead of the real one (files nobody may read)


def oserr(code, path=None):
    return OSError(code, _os.strerror(code), path)


class SimFS:
    def __init__(self):
        self.next_ino = 1000
        self.frozen = False
        self.clock = 1_700_000_000_000_000_000
        self.root = self._new("d")
        top = self._new("d")
        self.root.entries[ROOT[1:]] = top

    def _new(self, kind, ino=None):
        if ino is None:
            self.next_ino += 1
            ino = self.next_ino
        return Inode(kind, ino, self.clock)

    # -- path walking --------------------------------------------------
    @staticmethod
    def parts(path):
        return [p for p in path.split("/") if p and p != "."]

    def absolute(self, path, cwd):
        return path if path.startswith("/") else cwd.rstrip("/") + "/" + path

    def walk(self, path, cwd=ROOT, follow=True, parent=False):
        """Resolve like the kernel.  Returns the inode, or (dir inode, last
        component, inode or None) when parent=True."""
        if path == "":
            raise oserr(errno.ENOENT, path)
        if "\0" in path:
            raise ValueError("embedded null byte")
        full = self.absolute(path, cwd)
        stack = [self.root]
        todo = list(reversed(self.parts(full)))
        trailing = full.endswith("/")
        hops = 0
        while todo:
            name = todo.pop()
            cur = stack[-1]
            if cur.kind != "d":
                raise oserr(errno.ENOTDIR, path)
            if name == "..":
                if len(stack) > 1:
                    stack.pop()
                continue
            nxt = cur.entries.get(name)
            last = not todo
            if last and parent:
                if nxt is not None and nxt.kind == "l" and follow:
                    pass
                else:
                    return cur, name, nxt
            if nxt is None:
                raise oserr(errno.ENOENT, path)
            if nxt.kind == "l" and (not last or follow or trailing):
                hops += 1
                if hops > 40:
                    raise oserr(errno.ELOOP, path)
                if nxt.target.startswith("/"):
                    stack = [self.root]
                todo.extend(reversed(self.parts(nxt.target)))
                continue
            stack.append(nxt)
        if parent:
            return (stack[-2] if len(stack) > 1 else stack[-1]), None, stack[-1]
        if trailing and stack[-1].kind != "d":
            raise oserr(errno.ENOTDIR, path)
        return stack[-1]

    def realpath(self, path, cwd=ROOT):
        """os.path.realpath semantics, non strict."""
        full = self.absolute(path, cwd)
        names = []
        todo = list(reversed(self.parts(full)))
        hops = 0
        while todo:
            n = todo.pop()
            if n == "..":
                if names:
                    names.pop()
                continue
            cand = "/" + "/".join(names + [n])
            try:
                node = self.walk(cand, "/", follow=False)
            except OSError:
                node = None
            if node is not None and node.kind == "l" and hops < 40:
                hops += 1
                if node.target.startswith("/"):
                    names = []
                todo.extend(reversed(self.parts(node.target)))
                continue
            names.append(n)
        return "/" + "/".join(names)

    def exists(self, path, cwd=ROOT):
        try:
            return self.walk(path, cwd)
        except (OSError, ValueError):
            return None

    # -- mutation (the editor's side) -----------------------------------
    def touched(self, d):
        """A directory's entries changed; its time stamp shows that only if the
        clock has ticked since (a frozen clock hides it)."""
        if not self.frozen:
            d.mtime = self.clock

    def mkdirs(self, path):
        cur = self.root
        for n in self.parts(path):
            nxt = cur.entries.get(n)
            if nxt is None:
                nxt = self._new("d")
                cur.entries[n] = nxt
            while nxt.kind == "l":
                nxt = self.walk(nxt.target, "/")
            cur = nxt
        return cur

    def write(self, path, data, vid=None, ino=None, mtime=None):
        """Atomic replacement: a new inode takes the name over."""
        d = self.mkdirs(path.rsplit("/", 1)[0] or "/")
        node = self._new("f", ino)
        node.data = data
        node.vid = vid
        if mtime is not None:
            node.mtime = mtime
        d.entries[path.rsplit("/", 1)[1]] = node
        self.touched(d)
        return node

    def symlink(self, path, target):
        d = self.mkdirs(path.rsplit("/", 1)[0] or "/")
        node = self._new("l")
        node.target = target
        d.entries[path.rsplit("/", 1)[1]] = node
        self.touched(d)

    def hardlink(self, path, target):
        node = self.exists(target, "/")
        if node is not None and node.kind == "f" and self.exists(path, "/") is None:
            d = self.mkdirs(path.rsplit("/", 1)[0] or "/")
            d.entries[path.rsplit("/", 1)[1]] = node
            node.nlink += 1
            self.touched(d)

    def clone(self, node):
        new = self._new(node.kind)
        for k in ("data", "target", "mtime", "perm", "vid", "claim"):
            setattr(new, k, getattr(node, k))
        new.entries = {n: self.clone(x) for n, x in node.entries.items()}
        return new

    def swap(self, path, keep):
        """Deployment by link: the directory's content is copied aside and its
        name becomes (or already is) a link which now leads to the copy."""
        d, n, node = self.walk(path, "/", follow=False, parent=True)
        i = 0
        while "%s.r%d" % (n, i) in d.entries:
            i += 1
        d.entries["%s.r%d" % (n, i)] = self.clone(self.walk(path, "/"))
        if node.kind == "d" and keep:
            d.entries[n + ".r-"] = node
        link = self._new("l")
        link.target = "%s.r%d" % (path, i)
        d.entries[n] = link
        self.touched(d)

    def special(self, path, kind):
        d = self.mkdirs(path.rsplit("/", 1)[0] or "/")
        d.entries[path.rsplit("/", 1)[1]] = self._new(kind)
        self.touched(d)

    def unlink(self, path):
        d, n, node = self.walk(path, "/", follow=False, parent=True)
        if node is None:
            return
        del d.entries[n]
        self.touched(d)

    def rename(self, a, b):
        d, n, node = self.walk(a, "/", follow=False, parent=True)
        if node is None:
            raise oserr(errno.ENOENT, a)
        e, m, _ = self.walk(b, "/", follow=False, parent=True)
        del d.entries[n]
        e.entries[m] = node
        self.touched(d)
        self.touched(e)

    def snapshot(self):
        """Content of the whole tree, for the no-effect property."""
        out = {}

        def rec(p, node):
            out[p] = (node.kind, node.data if node.kind == "f" else node.target,
                      node.ino, node.mtime, node.perm)
            for n in sorted(node.entries):
                rec(p + "/" + n, node.entries[n])
        rec("", self.root)
        return out

    def stat_result(self, node):
        mode = {"f": _stat.S_IFREG, "d": _stat.S_IFDIR, "l": _stat.S_IFLNK,
                "p": _stat.S_IFIFO}[node.kind] | (0o755 if node.kind == "d" else 0o644)
        if not node.perm:
            mode &= ~0o777
        size = len(node.data) if node.kind == "f" else (len(node.target) if node.target else 4096)
        if node.claim is not None:
            size = node.claim
        s = node.mtime // 1_000_000_000
        f = node.mtime / 1e9
        return _os.stat_result(
            (mode, node.ino, 77, node.nlink, 1000, 1000, size, s, s, s, f, f, f,
             node.mtime, node.mtime, node.mtime))


class SimRaw(io.RawIOBase):
    """Raw handle on an in-memory file; every read goes through the simulator."""

    def __init__(self, sim, node, path, readable=True, writable=False, append=False):
        super().__init__()
        self.sim = sim
        self.node = node
        self.path = path
        self._pos = 0
        self._r, self._w = readable, writable
        self.name = path
        self.mode = "rb"
        if append:
            self._pos = len(node.data)
        self.fd = sim.new_fd(self)
        self.buffered = False

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def tell(self):
        return self._pos

    def seek(self, off, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if whence == 0:
            self._pos = off
        elif whence == 1:
            self._pos += off
        else:
            self._pos = len(self.node.data) + off
        return self._pos

    def readinto(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        want = len(b)
        if want == 0:
            return 0
        n = self.sim.on_read(self, want)
        chunk = self.node.data[self._pos:self._pos + min(n, want)]
        b[:len(chunk)] = chunk
        self._pos += len(chunk)
        return len(chunk)

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.sim.effect("write", self.path)
        b = bytes(b)
        d = self.node.data
        self.node.data = d[:self._pos] + b + d[self._pos + len(b):]
        self._pos += len(b)
        return len(b)

    def truncate(self, size=None):
        self.sim.effect("truncate", self.path)
        self.node.data = self.node.data[:self._pos if size is None else size]
        return len(self.node.data)

    def close(self):
        if not self.closed:
            self.sim.closed_fd(self)
        super().close()
