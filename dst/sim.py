"""The simulator: one process' view of storage, clock, locale, locks, threads.

install() patches the seams once, before pytiled_parser is imported; every
patched function passes through unless a Sim is active.
"""
import _thread
import abc
import builtins
import contextlib
import datetime
import errno
import getpass
import importlib
import io
import locale
import mmap
import os
import platform
import random
import shutil
import socket
import sys
import threading
import time
import weakref

from fs import ROOT, SimFS, SimRaw, oserr

CUR = None            # the active Sim
REAL = {}
PKG = None            # directory prefix of the package under test
FD_BASE = 1 << 20


class SimBudget(BaseException):
    """A load used more storage operations or steps than it is entitled to."""


class Deadlock(BaseException):
    pass


class SimError(Exception):
    """Harness error."""


def h32(*args):
    """Small deterministic hash (not Python's)."""
    x = 2166136261
    for a in args:
        for b in repr(a).encode():
            x = ((x ^ b) * 16777619) & 0xFFFFFFFF
    x ^= x >> 15
    x = (x * 2246822519) & 0xFFFFFFFF
    return x ^ (x >> 13)


class Handle:
    """What is known of an open file without keeping its object alive: an object
    nobody refers to any more closes its descriptor, as in CPython."""

    def __init__(self, raw, fd):
        self.path = raw.path
        self.fd = fd
        self.ref = weakref.ref(raw)
        self.keep = None            # descriptors of os.open belong to nobody
        self.closed = False

    def close(self):
        raw = self.ref()
        if raw is not None:
            raw.close()


class Ctx:
    """One load call."""

    def __init__(self, idx):
        self.idx = idx
        self.ops = 0
        self.steps = 0
        self.log = []
        self.opened = []
        self.injected = []
        self.peak = 0
        self.interrupt = None


class Sim:
    def __init__(self, fs, cwd, plan):
        self.fs = fs
        self.cwd = cwd
        self.encoding = plan.get("encoding", "utf-8")
        self.io = plan.get("io") or {}
        self.seed = plan.get("sseed", 0)
        self.faults = {}
        for f in plan.get("faults", []):
            self.faults[(f["call"], f["at"])] = f["kind"]
        self.rate = plan.get("rate")            # {"p":, "kinds":[...], "calls":[..]}
        self.events = {}
        for i, e in enumerate(plan.get("events", [])):
            self.events.setdefault((e["call"], e["unit"], e["at"]), []).append((i, e))
        self.fd_limit = plan.get("fd_limit", 200)
        self.hold = plan.get("hold", False)
        self.list_seed = plan.get("list_seed", 0)
        self.op_budget = plan.get("op_budget", 200000)
        self.step_budget = plan.get("step_budget", 5_000_000)
        self.fds = {}
        self.held = []
        self.next_fd = FD_BASE
        self.effects = []
        self.clock = plan.get("clock0", 1_700_000_000.0)
        self.mono = 1000.0
        self.elapsed = 0.0
        self.stats = {}
        self.on_event = None
        self.sched = None
        self.tls = {}
        self.history = []
        self.dirty_budget = 0
        self.fired_faults = []
        self.fired_events = set()
        self.umask = 0o22
        self.env_reads = []
        self.machine = plan.get("machine") or {}
        self.absent = None      # a list: note the names asked for in vain

    # -- bookkeeping ---------------------------------------------------
    def hit(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def ctx(self):
        return self.tls.get(_thread.get_ident())

    def begin(self, idx):
        c = Ctx(idx)
        self.tls[_thread.get_ident()] = c
        return c

    def end(self):
        self.tls.pop(_thread.get_ident(), None)

    def effect(self, what, path):
        if self.ctx() is not None:
            self.effects.append((what, str(path)))

    # -- file descriptors ----------------------------------------------
    def new_fd(self, raw):
        self.next_fd += 1
        h = self.fds[self.next_fd] = Handle(raw, self.next_fd)
        c = self.ctx()
        if c is not None:
            c.opened.append(h)
            c.peak = max(c.peak, len(self.fds))
        return self.next_fd

    def closed_fd(self, raw):
        h = self.fds.pop(raw.fd, None)
        if h is not None:
            h.closed, h.keep = True, None

    def by_fd(self, fd, adopt=False):
        h = self.fds.get(fd)
        if h is None:
            return None
        raw = h.ref()
        if adopt:
            h.keep = None
        return raw

    # -- the heart: every storage operation -----------------------------
    def tick(self, kind):
        lat = self.io.get("lat")
        if lat:
            d = (h32(self.seed, "lat", len(self.history), kind) % 1000) / 1000.0 * lat
            self.clock += d
            self.mono += d
            self.elapsed += d

    def point(self, kind, path):
        c = self.ctx()
        if c is None:
            return None
        c.ops += 1
        if c.ops > self.op_budget:
            self.dirty_budget += 1
            if self.dirty_budget > 1000:
                hard_stop("op budget")
            raise SimBudget("more than %d storage operations" % self.op_budget)
        c.log.append((kind, str(path)))
        self.history.append((c.idx, kind, str(path)))
        self.tick(kind)
        if self.absent is not None and isinstance(path, str) and self.fs.exists(path, self.cwd) is None:
            full = os.path.normpath(os.path.join(self.cwd, path))
            if full not in self.absent:
                self.absent.append(full)
        if self.sched is not None:
            self.sched.yield_point()
        self.fire(c, "op", c.ops)
        k = self.faults.get((c.idx, c.ops))
        if k is None and self.rate and kind in ("open", "read", "list"):
            if c.idx in self.rate["calls"] and (h32(self.seed, "rate", c.idx, c.ops) % 10000) < self.rate["p"] * 10000 \
                    and c.ops >= self.rate.get("from", 0) and str(path).endswith(self.rate.get("name", "")):
                ks = [x for x in self.rate["kinds"] if x.split(":")[0] == kind]
                if ks:
                    k = ks[h32(self.seed, "kind", c.idx, c.ops) % len(ks)]
        if k is not None:
            want, code = k.split(":")
            if want == kind:
                exc = oserr(getattr(errno, code), str(path))
                c.injected.append(exc)
                self.hit("fault " + k)
                self.fired_faults.append({"call": c.idx, "at": c.ops, "kind": k})
                self.history.append((c.idx, "fault", k))
                raise exc
        return c

    def fire(self, c, unit, at):
        lst = self.events.get((c.idx, unit, at))
        if lst:
            for i, e in lst:
                if i in self.fired_events:
                    continue
                self.fired_events.add(i)
                self.hit("event " + e["do"][0])
                self.history.append((c.idx, "event", e["do"][0]))
                self.on_event(c, e)

    def step(self):
        c = self.ctx()
        if c is None:
            return
        c.steps += 1
        if c.steps > self.step_budget:
            self.dirty_budget += 1
            if self.dirty_budget > 1000:
                hard_stop("step budget")
            raise SimBudget("more than %d steps" % self.step_budget)
        if self.sched is not None:
            self.sched.yield_point()
        self.fire(c, "step", c.steps)

    # -- operations ------------------------------------------------------
    def open(self, path, read=True, write=False, create=False, excl=False, trunc=False,
             append=False):
        self.point("open", path)
        if write or create:
            self.effect("open for writing", path)
        if len(self.fds) >= self.fd_limit:
            self.hit("fd limit reached")
            exc = oserr(errno.EMFILE, path)
            raise exc
        node = None
        try:
            node = self.fs.walk(path, self.cwd)
        except FileNotFoundError:
            if not create:
                raise
        if node is not None and excl:
            raise oserr(errno.EEXIST, path)
        if node is None:
            d, n, _ = self.fs.walk(path, self.cwd, parent=True)
            node = self.fs._new("f")
            d.entries[n] = node
        if node.kind == "d":
            raise oserr(errno.EISDIR, path)
        if node.kind == "p":
            # nobody writes to it: the real call would block for ever
            raise SimBudget("open of a FIFO blocks for ever: %s" % path)
        if not node.perm:
            raise oserr(errno.EACCES, path)
        if trunc:
            node.data = b""
        return SimRaw(self, node, path, read, write, append)

    def on_read(self, raw, want):
        c = self.point("read", raw.path)
        if c is None:
            return want
        io_ = self.io
        r = h32(self.seed, c.idx, c.ops, "r")
        if raw.buffered and io_.get("eintr") and (r % 1000) < io_["eintr"] * 1000:
            self.hit("fault read:EINTR(retried)")
            raise InterruptedError(errno.EINTR, "Interrupted system call")
        ch = io_.get("chunk")
        n = want
        if ch:
            if ch[0] == "fixed":
                n = ch[1]
            elif ch[0] == "rand":
                n = 1 + h32(self.seed, raw.fd, raw._pos) % ch[1]
            elif ch[0] == "mix":
                n = want if r & 1 else 1 + (r >> 4) % ch[1]
            if n < want:
                self.hit("short read")
        return max(1, n)

    def listdir(self, path):
        self.point("list", path)
        node = self.fs.walk(path, self.cwd)
        if node.kind != "d":
            raise oserr(errno.ENOTDIR, path)
        if not node.perm:
            raise oserr(errno.EACCES, path)
        names = sorted(node.entries)
        s = self.list_seed
        if s == 1:
            names.reverse()
        elif s:
            names.sort(key=lambda n: h32(s, n))
        return names, node

    def stat(self, path, follow=True):
        self.point("stat", path)
        return self.fs.stat_result(self.fs.walk(path, self.cwd, follow=follow))


def hard_stop(why):
    """The code under test keeps swallowing our stop signal: report and leave."""
    cb = REAL.get("hard_stop_cb")
    if cb:
        cb(why)
    os._exit(97)


# ---------------------------------------------------------------------------
# thread scheduler: real threads, one runs at a time
class Sched:
    """Real threads parked and released one at a time.

    mode: ("replay", {idx: target}) or ("random", seed, p_op, strategy).
    """

    def __init__(self, n, switches=None, seed=0, p=0.1, strategy="rw"):
        self.n = n
        self.locks = [REAL["allocate_lock"]() for _ in range(n)]
        for x in self.locks:
            x.acquire()
        self.done_lock = REAL["allocate_lock"]()
        self.done_lock.acquire()
        self.idx = 0
        self.cur = None
        self.finished = set()
        self.blocked = {}       # actor -> SimLock
        self.ident = {}
        self.switches = switches
        self.recorded = []
        self.rng = random.Random(seed)
        self.p = p
        self.strategy = strategy
        self.prio = list(range(n))
        self.rng.shuffle(self.prio)
        self.change = set()
        if strategy == "pct":
            self.change = {self.rng.randrange(1, 4000) for _ in range(6)}
        self.deadlock = None
        self.nswitch = 0
        self.sig = 0

    def runnable(self):
        return [i for i in range(self.n) if i not in self.finished and i not in self.blocked]

    def decide(self, forced):
        self.idx += 1
        run = self.runnable()
        if not run:
            return None
        if self.switches is not None:
            t = self.switches.get(self.idx)
            if t in run:
                return t
            if forced or self.cur not in run:
                return run[0]
            return self.cur
        if self.strategy == "pct":
            if self.idx in self.change and self.cur is not None:
                self.prio[self.cur] = -self.idx
            t = max(run, key=lambda i: self.prio[i])
        elif forced or self.cur not in run:
            t = run[self.rng.randrange(len(run))]
        elif self.rng.random() < self.p:
            t = run[self.rng.randrange(len(run))]
        else:
            t = self.cur
        if t != self.cur:
            self.recorded.append([self.idx, t])
        return t

    def _hand(self, t):
        self.nswitch += 1
        self.sig = h32(self.sig, self.idx, t)
        self.cur = t
        self.locks[t].release()

    def me(self):
        return self.ident.get(_thread.get_ident())

    def yield_point(self):
        me = self.me()
        if me is None:
            return
        t = self.decide(False)
        if t != me and t is not None:
            self._hand(t)
            self.locks[me].acquire()
        if self.deadlock:
            raise Deadlock(self.deadlock)

    def block(self, lock):
        """Current actor waits for lock; returns when it may try again."""
        me = self.me()
        self.blocked[me] = lock
        t = self.decide(True)
        if t is None:
            self.deadlock = "all threads wait for locks"
            self.blocked.clear()
            raise Deadlock(self.deadlock)
        self._hand(t)
        self.locks[me].acquire()
        if self.deadlock:
            raise Deadlock(self.deadlock)

    def wake(self, lock):
        for a, l in list(self.blocked.items()):
            if l is lock:
                del self.blocked[a]

    def run(self, funcs):
        def body(i):
            self.locks[i].acquire()
            self.ident[_thread.get_ident()] = i
            try:
                funcs[i]()
            finally:
                sys.settrace(None)
                self.ident.pop(_thread.get_ident(), None)
                self.finished.add(i)
                if len(self.finished) == self.n:
                    self.done_lock.release()
                else:
                    t = self.decide(True)
                    if t is None:
                        self.deadlock = "all remaining threads wait for locks"
                        self.blocked.clear()
                        t = self.runnable()[0]
                    self._hand(t)
        for i in range(self.n):
            _thread_start(body, i)
        t = self.decide(True)
        self._hand(t)
        self.done_lock.acquire()


def _thread_start(body, i):
    REAL["start_new_thread"](body, (i,))


class SimLock:
    """Replaces threading.Lock: a real lock outside the simulation, a scheduled
    one for simulated threads."""

    def __init__(self):
        self._l = REAL["allocate_lock"]()

    def acquire(self, blocking=True, timeout=-1):
        s = CUR.sched if CUR is not None else None
        if s is None or s.me() is None:
            if not in_load() or not blocking:
                return self._l.acquire(blocking, timeout)
            if self._l.acquire(False):
                return True
            # one thread only: nobody is left who could release it
            if timeout is not None and timeout >= 0:
                CUR.clock += timeout
                CUR.mono += timeout
                CUR.elapsed += timeout
                return False
            raise SimBudget("waits for ever for a lock nobody will release")
        s.yield_point()
        while not self._l.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                CUR.clock += timeout
                CUR.mono += timeout
                s.yield_point()
                return self._l.acquire(False)
            CUR.hit("lock contention")
            s.block(self)
        return True

    def release(self):
        self._l.release()
        s = CUR.sched if CUR is not None else None
        if s is not None:
            s.wake(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = REAL["allocate_lock"]()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        s = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._lock.release()
        return s

    def _acquire_restore(self, s):
        self._lock.acquire()
        self._count, self._owner = s

    def _at_fork_reinit(self):
        self.__init__()

    def _recursion_count(self):
        return self._count if self._owner == _thread.get_ident() else 0


# ---------------------------------------------------------------------------
def _fs(p):
    if isinstance(p, int):
        return p
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p


def is_sim(p):
    """p: str path after _fs, or int fd"""
    if isinstance(p, int):
        return p >= FD_BASE
    if p.startswith("/"):
        return p == ROOT or p.startswith(ROOT + "/")
    return True


_TOP = set(os.listdir("/")) | {"", ROOT.strip("/")}


def nowhere(p):
    """An absolute path outside the simulated tree which does not exist in the
    sandbox either: absent, without asking the real file system."""
    return isinstance(p, str) and p.startswith("/") and p.strip("/").split("/")[0] not in _TOP


def active():
    return CUR


def in_load():
    return CUR is not None and CUR.ctx() is not None


def _default_encoding():
    return CUR.encoding


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    s = CUR
    if s is None or isinstance(file, int) and file < FD_BASE:
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    p = _fs(file)
    if not is_sim(p):
        if any(c in mode for c in "wax+") and in_load():
            s.effect("open for writing", p)
            raise oserr(errno.EROFS, p)
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(mode, str):
        raise TypeError("open() argument 'mode' must be str")
    binary = "b" in mode
    if binary and "t" in mode:
        raise ValueError("can't have text and binary mode at once")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if not binary and buffering == 0:
        raise ValueError("can't have unbuffered text I/O")
    if len([c for c in mode if c in "rwax"]) != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    rd = "r" in mode or "+" in mode
    wr = any(c in mode for c in "wax+")
    if isinstance(p, int):
        raw = s.by_fd(p, True)
        if raw is None:
            raise oserr(errno.EBADF)
        if isinstance(raw, SimScandir):
            raise oserr(errno.EISDIR, p)
    elif opener is not None:
        fd = opener(file, os.O_RDONLY if not wr else os.O_RDWR)
        raw = s.by_fd(fd, True)
        if raw is None:
            return REAL["open"](fd, mode, buffering, encoding, errors, newline, closefd)
        if isinstance(raw, SimScandir):
            raise oserr(errno.EISDIR, p)
    else:
        raw = s.open(p, rd, wr, create=any(c in mode for c in "wax"), excl="x" in mode,
                     trunc="w" in mode, append="a" in mode)
    raw.name = file
    if binary and buffering == 0:
        if s.hold:
            s.held.append(raw)
        return raw
    raw.buffered = True
    size = buffering if buffering > 1 else s.io.get("bufsize", io.DEFAULT_BUFFER_SIZE)
    if rd and wr:
        buf = io.BufferedRandom(raw, size)
    elif wr:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if s.hold:
        s.held.append(buf)
    if binary:
        return buf
    if encoding is None or encoding == "locale":
        encoding = s.encoding
        s.hit("default encoding used")
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
    text.mode = mode
    if s.hold:
        s.held.append(text)
    return text


class SimDirEntry:
    def __init__(self, sim, base, name, node):
        self.name = name
        self.path = os.path.join(base, name)
        self._s, self._n = sim, node

    def __fspath__(self):
        return self.path

    def _node(self, follow):
        if not follow or self._n.kind != "l":
            return self._n
        return self._s.fs.exists(self.path, self._s.cwd)

    def is_file(self, *, follow_symlinks=True):
        n = self._node(follow_symlinks)
        return n is not None and n.kind == "f"

    def is_dir(self, *, follow_symlinks=True):
        n = self._node(follow_symlinks)
        return n is not None and n.kind == "d"

    def is_symlink(self):
        return self._n.kind == "l"

    def is_junction(self):
        return False

    def inode(self):
        return self._n.ino

    def stat(self, *, follow_symlinks=True):
        return self._s.stat(self.path, follow_symlinks)

    def __repr__(self):
        return "<DirEntry %r>" % self.name


class SimScandir:
    def __init__(self, sim, path, as_str):
        self._s = sim
        if len(sim.fds) >= sim.fd_limit:
            raise oserr(errno.EMFILE, path)
        names, node = sim.listdir(path)
        self.closed = False
        self.path = path
        self._it = [SimDirEntry(sim, as_str, n, node.entries[n]) for n in names]
        self._i = 0
        self.fd = sim.new_fd(self)
        if sim.hold:
            sim.held.append(self)

    def __iter__(self):
        return self

    def __next__(self):
        if self.closed or self._i >= len(self._it):
            self.close()
            raise StopIteration
        e = self._it[self._i]
        self._i += 1
        return e

    def close(self):
        if not self.closed:
            self.closed = True
            self._s.closed_fd(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        self.close()


def install():
    """Patch every seam.  Call before importing the package under test."""
    R = REAL
    R["allocate_lock"] = _thread.allocate_lock
    R["start_new_thread"] = _thread.start_new_thread
    R["open"] = builtins.open
    names = ["open", "read", "pread", "readv", "close", "fstat", "lseek", "stat", "lstat", "listdir",
             "scandir", "readlink", "access", "getcwd", "getcwdb", "chdir", "fchdir", "mkdir",
             "rmdir", "remove", "unlink", "rename", "replace", "link", "symlink", "truncate",
             "ftruncate", "chmod", "utime", "write", "umask", "mkfifo", "mknod", "fsync", "dup", "dup2",
             "chown", "lchown", "statvfs", "system", "fork", "posix_spawn", "kill", "isatty"]
    for n in names:
        if hasattr(os, n):
            R["os." + n] = getattr(os, n)
    for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter",
              "perf_counter_ns", "sleep"):
        R["time." + n] = getattr(time, n)

    builtins.open = io.open = sim_open
    io.open_code = R.setdefault("open_code", io.open_code)
    R["FileIO"], R["mmap"] = io.FileIO, mmap.mmap

    class FileIOMeta(abc.ABCMeta):
        def __call__(cls, file, mode="r", closefd=True, opener=None):
            if CUR is None or not is_sim(_fs(file)):
                return R["FileIO"](file, mode, closefd, opener)
            return sim_open(file, mode.replace("b", "") + "b", 0, closefd=closefd, opener=opener)

        def __instancecheck__(cls, x):
            return isinstance(x, (R["FileIO"], SimRaw))

    class FileIO(metaclass=FileIOMeta):
        pass
    io.FileIO = FileIO

    def p_mmap(fileno, length, *a, **k):
        s = CUR
        if s is None or fileno < FD_BASE:
            return R["mmap"](fileno, length, *a, **k)
        raw = s.by_fd(fileno)
        if raw is None or isinstance(raw, SimScandir):
            raise oserr(errno.EBADF)
        s.point("read", raw.path)
        data = raw.node.data
        if not data:
            raise ValueError("cannot mmap an empty file")
        data = data[k.get("offset", 0):]
        m = R["mmap"](-1, length or len(data))
        m.write(data[:length or len(data)])
        m.seek(0)
        return m
    mmap.mmap = p_mmap

    def wrap(name, func):
        real = R["os." + name]
        func.__name__ = name
        setattr(os, name, func)
        return real

    def p_open(path, flags, mode=0o777, *, dir_fd=None):
        s = CUR
        p = _fs(path)
        if s is None or not is_sim(p):
            if s is not None and in_load() and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                s.effect("open for writing", p)
                raise oserr(errno.EROFS, p)
            return R["os.open"](path, flags, mode, dir_fd=dir_fd)
        acc = flags & 3
        node = s.fs.exists(p, s.cwd)
        if node is not None and node.kind == "d" and acc == os.O_RDONLY:
            s.point("list", p)
            h = SimScandir(s, p, p)
            s.fds[h.fd].keep = h
            return h.fd
        raw = s.open(p, acc != os.O_WRONLY, acc != os.O_RDONLY, bool(flags & os.O_CREAT),
                     bool(flags & os.O_EXCL), bool(flags & os.O_TRUNC), bool(flags & os.O_APPEND))
        s.fds[raw.fd].keep = raw
        return raw.fd
    wrap("open", p_open)

    def fdop(name, fn):
        real = R["os." + name]

        def w(fd, *a, **k):
            s = CUR
            if s is None or not isinstance(fd, int) or fd < FD_BASE:
                return real(fd, *a, **k)
            raw = s.by_fd(fd)
            if raw is None:
                raise oserr(errno.EBADF)
            if isinstance(raw, SimScandir) and name not in ("close", "fstat", "isatty", "fsync"):
                raise oserr(errno.EISDIR)
            return fn(s, raw, *a, **k)
        w.__name__ = name
        setattr(os, name, w)

    def f_read(s, raw, n):
        b = bytearray(n)
        return bytes(b[:raw.readinto(b)])

    def f_pread(s, raw, n, off):
        save = raw._pos
        raw._pos = off
        try:
            return f_read(s, raw, n)
        finally:
            raw._pos = save
    fdop("read", f_read)
    fdop("pread", f_pread)
    fdop("close", lambda s, raw: raw.close())
    fdop("lseek", lambda s, raw, off, wh=0: raw.seek(off, wh))
    fdop("isatty", lambda s, raw: False)
    fdop("fsync", lambda s, raw: s.effect("fsync", raw.path))
    fdop("ftruncate", lambda s, raw, n: raw.truncate(n))

    def f_fstat(s, raw):
        s.point("stat", raw.path)
        node = raw.node if isinstance(raw, SimRaw) else s.fs.walk(raw.path, s.cwd)
        return s.fs.stat_result(node)
    fdop("fstat", f_fstat)

    def p_write(fd, data):
        s = CUR
        if s is not None and isinstance(fd, int):
            if fd >= FD_BASE and fd in s.fds:
                return s.by_fd(fd).write(data)
            if fd in (1, 2) and in_load():
                s.effect("write to fd %d" % fd, bytes(data)[:60])
                return len(data)
        return R["os.write"](fd, data)
    wrap("write", p_write)

    def p_stat(path, *, dir_fd=None, follow_symlinks=True):
        s = CUR
        if s is None:
            return R["os.stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        p = _fs(path)
        if not is_sim(p):
            if nowhere(p):
                raise oserr(errno.ENOENT, p)
            return R["os.stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        if isinstance(p, int):
            return os.fstat(p)
        return s.stat(p, follow_symlinks)
    wrap("stat", p_stat)

    def p_lstat(path, *, dir_fd=None):
        s = CUR
        p = _fs(path)
        if s is not None and nowhere(p):
            raise oserr(errno.ENOENT, p)
        if s is None or not is_sim(p):
            return R["os.lstat"](path, dir_fd=dir_fd)
        return s.stat(p, False)
    wrap("lstat", p_lstat)

    def p_listdir(path="."):
        s = CUR
        p = _fs("." if path is None else path)
        if s is None or not is_sim(p):
            return R["os.listdir"](path)
        if isinstance(p, int):
            p = s.fds[p].path
        names, _ = s.listdir(p)
        return [os.fsencode(n) for n in names] if isinstance(path, bytes) else names
    wrap("listdir", p_listdir)

    def p_scandir(path="."):
        s = CUR
        p = _fs("." if path is None else path)
        if s is None or not is_sim(p):
            return R["os.scandir"](path)
        return SimScandir(s, p, p)
    wrap("scandir", p_scandir)

    def p_readlink(path, *, dir_fd=None):
        s = CUR
        p = _fs(path)
        if s is not None and nowhere(p):
            raise oserr(errno.ENOENT, p)
        if s is None or not is_sim(p):
            return R["os.readlink"](path, dir_fd=dir_fd)
        s.point("readlink", p)
        node = s.fs.walk(p, s.cwd, follow=False)
        if node.kind != "l":
            raise oserr(errno.EINVAL, p)
        return node.target
    wrap("readlink", p_readlink)

    def p_access(path, mode, **k):
        s = CUR
        p = _fs(path)
        if s is None or not is_sim(p):
            return R["os.access"](path, mode, **k)
        s.point("stat", p)
        node = s.fs.exists(p, s.cwd)
        return node is not None and (node.perm or not mode & os.R_OK)
    wrap("access", p_access)

    def p_getcwd():
        return R["os.getcwd"]() if CUR is None else CUR.cwd
    wrap("getcwd", p_getcwd)
    wrap("getcwdb", lambda: R["os.getcwdb"]() if CUR is None else os.fsencode(CUR.cwd))

    def p_chdir(path):
        s = CUR
        if s is None:
            return R["os.chdir"](path)
        p = _fs(path)
        s.effect("chdir", p)
        if isinstance(p, int):
            p = s.fds[p].path if p in s.fds else "/"
        if not is_sim(p):
            raise oserr(errno.EACCES, p)
        if s.fs.walk(p, s.cwd).kind != "d":
            raise oserr(errno.ENOTDIR, p)
        s.cwd = s.fs.realpath(p, s.cwd)
        if s.sched is not None and s.ctx() is not None:
            s.sched.yield_point()
    wrap("chdir", p_chdir)
    wrap("fchdir", p_chdir)

    def mut(name, fn, two=False):
        real = R.get("os." + name)
        if real is None:
            return

        def w(path, *a, **k):
            s = CUR
            if s is None:
                return real(path, *a, **k)
            p = _fs(path)
            s.effect(name, p)
            if not is_sim(p):
                if in_load():
                    raise oserr(errno.EROFS, p)
                return real(path, *a, **k)
            if fn is None:
                return None
            return fn(s, p, *a)
        w.__name__ = name
        setattr(os, name, w)

    def m_mkdir(s, p, mode=0o777):
        d, n, node = s.fs.walk(p, s.cwd, parent=True)
        if node is not None:
            raise oserr(errno.EEXIST, p)
        d.entries[n] = s.fs._new("d")

    def m_unlink(s, p):
        d, n, node = s.fs.walk(p, s.cwd, follow=False, parent=True)
        if node is None:
            raise oserr(errno.ENOENT, p)
        del d.entries[n]

    def m_rename(s, a, b):
        s.fs.rename(s.fs.absolute(a, s.cwd), s.fs.absolute(_fs(b), s.cwd))
    mut("mkdir", m_mkdir)
    for n in ("unlink", "remove", "rmdir"):
        mut(n, m_unlink)
    for n in ("rename", "replace"):
        mut(n, m_rename)
    for n in ("link", "symlink", "truncate", "chmod", "utime", "mkfifo", "mknod", "chown", "lchown"):
        mut(n, None)

    def p_umask(m):
        s = CUR
        if s is None:
            return R["os.umask"](m)
        s.effect("umask", oct(m))
        old, s.umask = s.umask, m
        return old
    wrap("umask", p_umask)

    def forbid(name):
        real = R.get("os." + name)
        if real is None:
            return

        def w(*a, **k):
            if in_load():
                CUR.effect("os." + name, a)
                raise oserr(errno.EPERM)
            return real(*a, **k)
        setattr(os, name, w)
    for n in ("system", "fork", "posix_spawn", "kill"):
        forbid(n)

    # clocks
    def clk(name, f):
        real = R["time." + name]

        def w():
            return real() if CUR is None else f(CUR)
        setattr(time, name, w)
    clk("time", lambda s: s.clock)
    clk("time_ns", lambda s: int(s.clock * 1e9))
    for n in ("monotonic", "perf_counter"):
        clk(n, lambda s: s.mono)
        clk(n + "_ns", lambda s: int(s.mono * 1e9))

    def p_sleep(d):
        s = CUR
        if s is None:
            return R["time.sleep"](d)
        s.clock += d
        s.mono += d
        s.elapsed += d
        s.point("sleep", "")
    time.sleep = p_sleep

    # calendar: the same clock
    def cal(name):
        real = getattr(time, name)

        def w(*a):
            if CUR is not None and (not a or a == (None,)):
                a = (CUR.clock,)
            return real(*a)
        setattr(time, name, w)
    for n in ("localtime", "gmtime", "ctime"):
        cal(n)
    real_strftime, real_asctime = time.strftime, time.asctime
    time.strftime = lambda f, *a: real_strftime(f, *(a or (time.localtime(),)))
    time.asctime = lambda *a: real_asctime(*(a or (time.localtime(),)))
    real_dt, real_date = datetime.datetime, datetime.date

    class DateTimeMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, cls.__mro__[1])

    class SimDateTime(real_dt, metaclass=DateTimeMeta):
        @classmethod
        def now(cls, tz=None):
            return real_dt.now(tz) if CUR is None else real_dt.fromtimestamp(CUR.clock, tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.now(datetime.timezone.utc).replace(tzinfo=None)

    class SimDate(real_date, metaclass=DateTimeMeta):
        @classmethod
        def today(cls):
            return SimDateTime.now().date()
    SimDateTime.__name__ = SimDateTime.__qualname__ = "datetime"
    SimDate.__name__ = SimDate.__qualname__ = "date"
    datetime.datetime, datetime.date = SimDateTime, SimDate

    # the machine and who is running on it
    def trait(mod, name):
        real = getattr(mod, name, None)
        if real is None:
            return

        def w(*a, **k):
            s = CUR
            if s is None or name not in s.machine or s.ctx() is None:
                return real(*a, **k)
            s.hit("machine traits asked for")
            v = s.machine[name]
            return set(range(v or 1)) if name == "sched_getaffinity" else v
        w.__name__ = name
        setattr(mod, name, w)
    for n in ("cpu_count", "sched_getaffinity", "getpid", "getppid", "getuid", "geteuid", "getgid", "getegid",
              "getlogin", "getloadavg"):
        trait(os, n)
    for m, n in ((socket, "gethostname"), (getpass, "getuser"), (platform, "node"), (platform, "python_implementation"),
                 (platform, "release"), (platform, "version"), (shutil, "get_terminal_size")):
        trait(m, n)

    # locale
    R["getpref"] = locale.getpreferredencoding

    def p_getpref(do_setlocale=True):
        return R["getpref"](do_setlocale) if CUR is None else CUR.encoding
    locale.getpreferredencoding = p_getpref
    if hasattr(locale, "getencoding"):
        R["getenc"] = locale.getencoding
        locale.getencoding = lambda: R["getenc"]() if CUR is None else CUR.encoding

    # locks
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = None

    # modules which have taken a function for themselves
    for m in ("tokenize", "linecache", "bz2", "lzma", "tarfile", "zipfile", "gzip", "fileinput", "codecs", "shelve",
              "glob", "fnmatch", "tempfile", "configparser", "plistlib", "mimetypes", "pickle", "filecmp",
              "importlib.resources", "fileinput", "genericpath", "posixpath", "stat", "runpy", "pkgutil"):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    swap = {id(R["open"]): builtins.open}
    for n in names:
        if "os." + n in R and getattr(os, n) is not R["os." + n]:
            swap[id(R["os." + n])] = getattr(os, n)
    for mn, m in list(sys.modules.items()):
        if mn in ("os", "posix", "io", "_io", "builtins", "sim", "__main__") or "importlib._boot" in mn or \
                mn.startswith("_frozen") or not hasattr(m, "__dict__"):
            continue
        for k, v in list(vars(m).items()):
            if id(v) in swap and callable(v):
                setattr(m, k, swap[id(v)])


def audit(sim_getter):
    """Real side effects that bypass the patched functions."""
    watch = {"os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn",
             "subprocess.Popen", "socket.connect", "socket.bind", "os.kill", "shutil.rmtree",
             "sqlite3.connect", "os.putenv", "os.unsetenv", "os.mkdir", "os.remove", "os.rename",
             "os.rmdir", "os.truncate", "os.chmod", "os.utime", "os.link", "os.symlink",
             "_thread.start_new_thread", "signal.pthread_kill", "tempfile.mkstemp",
             "os.chdir", "os.fchdir"}

    def hook(event, args):
        if event in watch and in_load():
            CUR.effects.append(("audit " + event, repr(args)[:80]))
        elif event == "open" and in_load():
            path, mode, flags = (list(args) + [None, None])[:3]
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                CUR.effects.append(("audit open for writing", repr(path)[:80]))
    sys.addaudithook(hook)


@contextlib.contextmanager
def tracing_pinned(mode):
    """Keep tracing on in this thread, so that a thread which starts or stops tracing does not make
    the interpreter rewrite code in which another thread is paused."""
    if mode:
        sys._getframe().f_trace_opcodes = mode == "opcode"
        sys.settrace(lambda frame, event, arg: None)
    try:
        yield
    finally:
        if mode:
            sys.settrace(None)


# ---------------------------------------------------------------------------
# tracing: a point before every line / bytecode of the package under test
def make_tracer(mode, places=None):
    """A scheduling point before every line or bytecode of the library.
    places: collects where a load was at its scheduling points (place -> first step)."""
    pref = PKG

    def note(frame, at):
        co = frame.f_code
        places.setdefault((co.co_filename[len(pref):] + "/" + co.co_name, at), CUR.ctx().steps + 1)

    if mode == "opcode":
        def local(frame, event, arg):
            if event == "opcode":
                s = CUR
                if s is not None:
                    if places is not None and s.ctx() is not None:
                        note(frame, frame.f_lasti)
                    try:
                        s.step()
                    except BaseException:
                        # the interpreter stops tracing this thread now, and (3.12) crashes at the
                        # next bytecode of a frame which still asks for it while others are traced
                        while frame is not None:
                            frame.f_trace_opcodes = False
                            frame = frame.f_back
                        raise
            return local

        def tracer(frame, event, arg):
            co = frame.f_code
            if co.co_filename.startswith(pref) and co.co_name != "<module>":
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return local
            return None
    else:
        def local(frame, event, arg):
            if event == "line":
                s = CUR
                if s is not None:
                    if places is not None and s.ctx() is not None:
                        note(frame, frame.f_lineno)
                    s.step()
            return local

        def tracer(frame, event, arg):
            co = frame.f_code
            if co.co_filename.startswith(pref) and co.co_name != "<module>":
                return local
            return None
    return tracer
