"""Simulated disk.

File operations of the code under test that touch the current simulation root
go through the wrappers below (installed once, before ghedt is imported; for
every other path they pass straight through).  The bytes live in a scratch
directory so that any file API keeps its real semantics; next to it a shadow
records, per inode, which writes have been synced, and a journal of the
directory operations, so that the disk after a power loss can be constructed.

Every wrapped call is one numbered step at which the running simulation may
  - switch to another simulated process (sched),
  - fail the call, shorten it, interrupt it, or kill the process.
"""
import builtins
import errno
import io
import os
import random
import shutil
import stat as _stat
import tempfile

from . import sched

_real = {}
SIM = None          # the active Disk, or None


class SimCrash(BaseException):
    """The simulated process is dead; nothing it does has any effect."""


_PROC = {}          # thread ident -> simulated process (when no scheduler runs)


class Proc:
    """A simulated process: its own open files, fault plan and life."""

    def __init__(self, name):
        self.name = name
        self.dead = False
        self.plan = []            # list of fault dicts (mutable copies)
        self.nops = 0
        self.kind_count = {}
        self.delivered = []       # faults that struck
        self.open_files = {}      # id -> path
        self.oplog = []


class Inode:
    __slots__ = ("synced", "cur", "pending", "born")

    def __init__(self, data=b"", synced=True):
        self.cur = bytearray(data)
        self.synced = bytes(data) if synced else b""
        self.pending = []         # [("w", off, bytes) | ("t", size)]


class Disk:
    def __init__(self, root, log=None):
        self.root = os.path.realpath(root)
        self.seed = 0             # of random names and bytes
        self.main = Proc("main")
        self.log = []
        self.procs = {}
        self.shadow = {}          # relative path -> Inode
        self.durable_base = None
        self.journal = []         # metadata ops since the last commit point
        self.min_commit = 0       # journal entries known to be durable
        self.shadow_ok = True
        self.shadow_why = ""
        self.counts = {}

    # -- naming ------------------------------------------------------------
    def owns(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(_real["getcwd"](), p)
        p = os.path.normpath(p)
        if p == self.root:
            return "."
        if p.startswith(self.root + os.sep):
            return p[len(self.root) + 1:]
        return None

    def proc(self):
        p = sched.current_data()
        if isinstance(p, Proc):
            return p
        return self.main

    # -- one step ----------------------------------------------------------
    def step(self, kind, rel, write=False):
        """Called before an operation.  Returns a fault to apply or None."""
        pr = self.proc()
        if pr.dead:
            raise SimCrash()
        sched.point("fs")
        if pr.dead:
            raise SimCrash()
        pr.nops += 1
        n = pr.kind_count.get(kind, 0)
        pr.kind_count[kind] = n + 1
        self.counts[kind] = self.counts.get(kind, 0) + 1
        self.log.append((pr.name, kind, rel))
        pr.oplog.append((kind, rel))
        for f in pr.plan:
            if f.get("done"):
                continue
            if f["op"] == pr.nops - 1 or (f.get("sticky") and pr.nops - 1 >= f["op"]
                                          and kind in f.get("kinds", ())):
                if not f.get("sticky"):
                    if f["what"] not in FAULTS.get(kind, ()):
                        f["op"] += 1          # strikes at the next operation it fits
                        continue
                    f["done"] = True
                rec = dict(f)
                rec.update(at=kind, path=rel)
                rec.pop("done", None)
                pr.delivered.append(rec)
                self.log.append((pr.name, "FAULT", f["what"], kind, rel))
                return f
        return None

    def crash(self, pr):
        pr.dead = True
        raise SimCrash()

    # -- shadow ------------------------------------------------------------
    def load_shadow(self):
        """Take the present content of the root as fully durable."""
        self.shadow, self.journal, self.min_commit = {}, [], 0
        base = {}
        for rel, data in self.snapshot().items():
            ino = Inode(data if data is not None else b"")
            if data is None:
                base[rel] = None
            else:
                self.shadow[rel] = ino
                base[rel] = ino
        self.durable_base = base

    def untracked(self, why):
        self.shadow_ok = False
        self.shadow_why = why

    def snapshot(self):
        """relative path -> bytes (files) or None (directories)"""
        out = {}
        stack = [self.root]
        while stack:
            d = stack.pop()
            for e in sorted(_real["listdir"](d)):
                p = d + "/" + e
                st = _real["lstat"](p)
                rel = p[len(self.root) + 1:]
                if _stat.S_ISDIR(st.st_mode):
                    out[rel] = None
                    stack.append(p)
                elif _stat.S_ISLNK(st.st_mode):
                    out[rel] = b"->" + os.fsencode(_real["readlink"](p))
                else:
                    with _real["open"](p, "rb") as f:
                        out[rel] = f.read()
        return out

    def shadow_matches(self):
        if not self.shadow_ok:
            return False
        real = {k: v for k, v in self.snapshot().items()
                if v is not None and not v.startswith(b"->")}
        sh = {k: bytes(v.cur) for k, v in self.shadow.items()}
        if real != sh:
            self.untracked("unmodelled file operation")
            return False
        return True

    def meta(self, *entry):
        self.journal.append(entry)

    def commit(self):
        # A synced file commits every earlier directory operation (journalled
        # file systems); data of other files is not covered by it.
        self.min_commit = len(self.journal)

    def power_loss(self, rng):
        """One disk that may be found after losing power now."""
        k = rng.randint(self.min_commit, len(self.journal))
        ns = dict(self.durable_base)
        for e in self.journal[:k]:
            if e[0] == "create":
                ns[e[1]] = e[2]
            elif e[0] == "unlink":
                ns.pop(e[1], None)
            elif e[0] == "rename":
                if e[1] in ns:
                    ns[e[2]] = ns.pop(e[1])
            elif e[0] == "link":
                if e[1] in ns:
                    ns[e[2]] = ns[e[1]]
            elif e[0] == "mkdir":
                ns[e[1]] = None
            elif e[0] == "rmdir":
                ns.pop(e[1], None)
        out = {}
        for rel, ino in ns.items():
            if ino is None:
                out[rel] = None
                continue
            data = bytearray(ino.synced)
            mode = rng.choice(["none", "all", "some", "zeros"])
            for w in ino.pending:
                if mode == "none" or (mode in ("some", "zeros") and rng.random() < 0.5):
                    if mode == "zeros" and w[0] == "w":
                        end = w[1] + len(w[2])
                        if len(data) < end:
                            data.extend(b"\0" * (end - len(data)))
                    continue
                if w[0] == "t":
                    if w[1] < len(data):
                        del data[w[1]:]
                    else:
                        data.extend(b"\0" * (w[1] - len(data)))
                else:
                    chunk = w[2]
                    if mode == "some" and rng.random() < 0.5:
                        chunk = chunk[:rng.randint(0, len(chunk))]
                    end = w[1] + len(chunk)
                    if len(data) < end:
                        data.extend(b"\0" * (end - len(data)))
                    data[w[1]:end] = chunk
            out[rel] = bytes(data)
        return out


ERR = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES,
       "EMFILE": errno.EMFILE, "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT,
       "EINTR": errno.EINTR}

# which faults make sense at which step; used by the generators
FAULTS = {
    "open-w": ["EIO", "ENOSPC", "EACCES", "EMFILE", "KI-before", "KI-after", "crash-before", "crash-after"],
    "open-r": ["EIO", "EACCES", "EMFILE", "KI-before", "KI-after", "crash-before"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "partial-ENOSPC", "short", "KI-before", "KI-after",
              "crash-before", "crash-mid", "crash-after"],
    "read": ["EIO", "short", "KI-before", "KI-after"],
    "fsync": ["EIO", "ENOSPC", "KI-before", "KI-after", "crash-before", "crash-after"],
    "close-w": ["EIO", "ENOSPC", "KI-after", "crash-before", "crash-after"],
    "close-r": ["KI-after"],
    "rename": ["EIO", "EACCES", "ENOSPC", "KI-before", "KI-after", "crash-before", "crash-after"],
    "link": ["EIO", "EACCES", "ENOSPC", "KI-before", "KI-after", "crash-before", "crash-after"],
    "unlink": ["KI-before", "KI-after", "crash-before", "crash-after"],
    "truncate": ["EIO", "KI-before", "crash-before", "crash-after"],
    "mkdir": ["EACCES", "ENOSPC", "EIO", "EROFS", "KI-before", "KI-after", "crash-before", "crash-after"],
    "rmdir": ["KI-before", "crash-before", "crash-after"],
    "stat": ["KI-before"],
    "list": ["KI-before"],
    "other": [],
}
HARD = {"EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS", "EDQUOT", "partial-ENOSPC"}


def _before(disk, kind, rel, fspath=None):
    f = disk.step(kind, rel)
    if f is None:
        return None
    w = f["what"]
    if w in ERR:
        raise OSError(ERR[w], "simulated " + w, fspath)
    if w == "KI-before":
        raise KeyboardInterrupt("simulated interrupt")
    if w == "crash-before":
        disk.crash(disk.proc())
    return f


def _after(disk, f):
    if f is None:
        return
    w = f["what"]
    if w == "KI-after":
        raise KeyboardInterrupt("simulated interrupt")
    if w == "crash-after":
        disk.crash(disk.proc())


class SimRaw(io.FileIO):
    """A file inside the simulation root."""

    def __init__(self, disk, rel, *a, **k):
        self._sim = None
        super().__init__(*a, **k)
        self._sim = disk
        self._rel = rel
        self._writable = super().writable()
        self._pr = disk.proc()
        self._pr.open_files[id(self)] = rel
        self._ino = disk.shadow.get(rel)

    def _gone(self):
        return self._sim is None or SIM is not self._sim

    def write(self, b):
        if self._sim is not None and self._pr.dead:
            raise SimCrash()
        if self._gone():
            return super().write(b)
        d = self._sim
        f = d.step("write", self._rel)
        data = bytes(b)
        w = f["what"] if f else None
        if w in ERR:
            raise OSError(ERR[w], "simulated " + w)
        if w == "KI-before":
            raise KeyboardInterrupt("simulated interrupt")
        if w == "crash-before":
            d.crash(self._pr)
        cut = None
        if w in ("partial-ENOSPC", "short", "crash-mid"):
            cut = int(len(data) * f.get("frac", 0.5))
            if w == "short":
                cut = max(1, cut)
            data = data[:cut]
        app = False
        try:
            off = super().tell()
        except OSError:
            off = 0
        n = super().write(data) if data else 0
        if self._ino is not None and n:
            chunk = data[:n]
            self._ino.pending.append(("w", off, chunk))
            end = off + n
            if len(self._ino.cur) < end:
                self._ino.cur.extend(b"\0" * (end - len(self._ino.cur)))
            self._ino.cur[off:end] = chunk
        if w == "partial-ENOSPC":
            f["done"] = False      # the disk stays full for this process
            f["sticky"] = True
            f["what"] = "ENOSPC"
            f["kinds"] = ("write",)
            if not n:
                raise OSError(errno.ENOSPC, "simulated ENOSPC")
        if w == "crash-mid":
            d.crash(self._pr)
        _after(d, f)
        return n

    def _read_step(self):
        d = self._sim
        if self._pr.dead:
            raise SimCrash()
        f = _before(d, "read", self._rel)
        return f

    def readinto(self, b):
        if self._gone():
            return super().readinto(b)
        f = self._read_step()
        if f and f["what"] == "short" and len(b) > 1:
            n = max(1, int(len(b) * f.get("frac", 0.5)))
            tmp = super().read(n)
            b[:len(tmp)] = tmp
            r = len(tmp)
        else:
            r = super().readinto(b)
        _after(self._sim, f)
        return r

    def read(self, size=-1):
        if self._gone():
            return super().read(size)
        if size is None or size < 0:
            return self.readall()
        f = self._read_step()
        if f and f["what"] == "short" and size > 1:
            size = max(1, int(size * f.get("frac", 0.5)))
        r = super().read(size)
        _after(self._sim, f)
        return r

    def readall(self):
        if self._gone():
            return super().readall()
        out = bytearray()
        while True:
            chunk = self.read(8192)
            if not chunk:
                return bytes(out)
            out += chunk

    def truncate(self, size=None):
        if self._gone():
            return super().truncate(size)
        f = _before(self._sim, "truncate", self._rel)
        if size is None:
            size = super().tell()
        r = super().truncate(size)
        if self._ino is not None:
            self._ino.pending.append(("t", size))
            if size < len(self._ino.cur):
                del self._ino.cur[size:]
            else:
                self._ino.cur.extend(b"\0" * (size - len(self._ino.cur)))
        _after(self._sim, f)
        return r

    def close(self):
        if self.closed or self._gone():
            return super().close()
        d, pr = self._sim, self._pr
        if pr.dead:
            super().close()
            return
        f = None
        try:
            f = d.step("close-w" if self._writable else "close-r", self._rel)
        except SimCrash:
            super().close()
            raise
        super().close()
        pr.open_files.pop(id(self), None)
        if f is not None:
            w = f["what"]
            if w == "crash-before":
                d.crash(pr)
            if w in ERR:
                raise OSError(ERR[w], "simulated " + w)
            _after(d, f)

    def __del__(self):
        # a file dropped without being closed: not a step of the simulation
        try:
            self._sim = None
            super().close()
        except BaseException:
            pass


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
              closefd=True, opener=None):
    disk = SIM
    if disk is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    fdtrack = None
    if isinstance(file, int):
        fdtrack = _FDS.get(file)
        if fdtrack is None:
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        rel = fdtrack[0]
    else:
        rel = disk.owns(file)
        if rel is None:
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    text = not binary
    rawmode = "".join(c for c in mode if c in "rwax+")
    writing = any(c in mode for c in "wax+")
    if binary and (encoding or errors or newline):
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    rawopener = opener
    f = None
    if fdtrack is None:
        f = _before(disk, "open-w" if writing else "open-r", rel, file)
        if opener is not None:
            # tempfile style openers call os.open themselves (tracked there)
            def rawopener(p, flags, _o=opener):
                fd = _o(p, flags)
                return fd
        resolved = disk.owns(_real["realpath"](os.fspath(file))) if opener is None else rel
        rel = resolved or rel
        existed = _real["exists"](os.path.join(disk.root, rel))
    try:
        if fdtrack is not None:
            raw = SimRaw(disk, rel, file, rawmode, closefd=closefd)
            raw._ino = fdtrack[1]
            _FDS.pop(file, None)
            raw._pr.open_files.pop(("fd", file), None)
        elif opener is not None:
            raw = SimRaw(disk, rel, file, rawmode, closefd=closefd, opener=rawopener)
            t = _FDS.pop(raw.fileno(), None)
            if t is not None:
                rel = t[0]
                raw._rel, raw._ino = t
                raw._pr.open_files[id(raw)] = rel
                raw._pr.open_files.pop(("fd", raw.fileno()), None)
        else:
            # create without truncating first so that the shadow sees both
            raw = SimRaw(disk, rel, file, rawmode, closefd=closefd)
            if writing:
                _note_created(disk, rel, existed, "w" in mode)
                raw._ino = disk.shadow.get(rel)
    except OSError:
        raise
    try:
        _after(disk, f)
    except BaseException:
        io.FileIO.close(raw)
        raw._pr.open_files.pop(id(raw), None)
        raise
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = 8192 if buffering in (-1, 1) else buffering
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
    t.mode = mode
    return t


def _note_created(disk, rel, existed, trunc):
    if not existed:
        ino = Inode(b"", synced=True)
        disk.shadow[rel] = ino
        disk.meta("create", rel, ino)
    elif trunc:
        ino = disk.shadow.get(rel)
        if ino is not None:
            ino.pending.append(("t", 0))
            del ino.cur[:]


_FDS = {}      # fd -> (rel, inode) for descriptors from os.open inside the root


def _sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    disk = SIM
    rel = disk.owns(path) if disk is not None and dir_fd is None and not isinstance(path, int) else None
    if rel is None:
        return _real["os.open"](path, flags, mode, dir_fd=dir_fd)
    writing = flags & (os.O_WRONLY | os.O_RDWR)
    rel = disk.owns(_real["realpath"](os.fspath(path))) or rel
    f = _before(disk, "open-w" if writing else "open-r", rel, path)
    existed = _real["exists"](os.path.join(disk.root, rel))
    fd = _real["os.open"](path, flags, mode)
    if flags & os.O_CREAT and not existed or (existed and flags & os.O_TRUNC):
        _note_created(disk, rel, existed, bool(flags & os.O_TRUNC))
    _FDS[fd] = (rel, disk.shadow.get(rel))
    disk.proc().open_files[("fd", fd)] = rel
    try:
        _after(disk, f)
    except BaseException:
        _real["os.close"](fd)
        _FDS.pop(fd, None)
        disk.proc().open_files.pop(("fd", fd), None)
        raise
    return fd


def _sim_os_close(fd):
    disk = SIM
    t = _FDS.get(fd) if disk is not None else None
    if t is None:
        return _real["os.close"](fd)
    f = disk.step("close-w", t[0])
    _real["os.close"](fd)
    _FDS.pop(fd, None)
    disk.proc().open_files.pop(("fd", fd), None)
    if f is not None:
        w = f["what"]
        if w in ERR:
            raise OSError(ERR[w], "simulated " + w)
        if w.startswith("crash"):
            disk.crash(disk.proc())
        _after(disk, f)


def _sim_os_write(fd, data):
    disk = SIM
    t = _FDS.get(fd) if disk is not None else None
    if t is None:
        return _real["os.write"](fd, data)
    rel, ino = t
    f = disk.step("write", rel)
    data = bytes(data)
    w = f["what"] if f else None
    if w in ERR:
        raise OSError(ERR[w], "simulated " + w)
    if w == "KI-before":
        raise KeyboardInterrupt("simulated interrupt")
    if w == "crash-before":
        disk.crash(disk.proc())
    if w in ("partial-ENOSPC", "short", "crash-mid"):
        data = data[:max(1, int(len(data) * f.get("frac", 0.5)))]
    off = os.lseek(fd, 0, os.SEEK_CUR)
    n = _real["os.write"](fd, data)
    if ino is not None:
        ino.pending.append(("w", off, data[:n]))
        end = off + n
        if len(ino.cur) < end:
            ino.cur.extend(b"\0" * (end - len(ino.cur)))
        ino.cur[off:end] = data[:n]
    if w == "partial-ENOSPC":
        f.update(done=False, sticky=True, what="ENOSPC", kinds=("write",))
    if w == "crash-mid":
        disk.crash(disk.proc())
    _after(disk, f)
    return n


def _sim_os_read(fd, n):
    disk = SIM
    t = _FDS.get(fd) if disk is not None else None
    if t is None:
        return _real["os.read"](fd, n)
    f = _before(disk, "read", t[0])
    if f and f["what"] == "short":
        n = max(1, int(n * f.get("frac", 0.5)))
    r = _real["os.read"](fd, n)
    _after(disk, f)
    return r


def _fd_target(fd):
    """(rel, inode) of a tracked descriptor number, whoever opened it"""
    if fd in _FDS:
        return _FDS[fd]
    disk = SIM
    try:
        p = _real["readlink"]("/proc/self/fd/%d" % fd)
    except OSError:
        return None
    if p.endswith(" (deleted)"):
        return None
    rel = disk.owns(p)
    if rel is None:
        return None
    return rel, disk.shadow.get(rel)


def _sim_fsync(name):
    def fsync(fd):
        disk = SIM
        if disk is None:
            return _real[name](fd)
        num = fd if isinstance(fd, int) else fd.fileno()
        t = _fd_target(num)
        if t is None:
            return _real[name](fd)
        f = _before(disk, "fsync", t[0])
        if t[1] is not None:
            t[1].synced = bytes(t[1].cur)
            t[1].pending = []
        disk.commit()
        _after(disk, f)
    return fsync


def _both(disk, a, b):
    ra = disk.owns(a) if not isinstance(a, int) else None
    rb = disk.owns(b) if not isinstance(b, int) else None
    return ra, rb


def _sim_rename(name):
    def rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        disk = SIM
        if disk is None or src_dir_fd is not None or dst_dir_fd is not None:
            return _real[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        ra, rb = _both(disk, src, dst)
        if ra is None and rb is None:
            return _real[name](src, dst)
        if ra is None or rb is None:
            disk.untracked("rename across the root")
            return _real[name](src, dst)
        f = _before(disk, "rename", ra + " -> " + rb, src)
        _real[name](src, dst)
        if os.path.isdir(dst):
            disk.untracked("directory rename")
        elif ra in disk.shadow:
            disk.shadow[rb] = disk.shadow.pop(ra)
            disk.meta("rename", ra, rb)
        _after(disk, f)
    return rename


def _sim_link(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
    disk = SIM
    if disk is None or src_dir_fd is not None or dst_dir_fd is not None:
        return _real["os.link"](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd,
                                follow_symlinks=follow_symlinks)
    ra, rb = _both(disk, src, dst)
    if ra is None or rb is None:
        return _real["os.link"](src, dst, follow_symlinks=follow_symlinks)
    f = _before(disk, "link", ra + " -> " + rb, src)
    _real["os.link"](src, dst, follow_symlinks=follow_symlinks)
    if ra in disk.shadow:
        disk.shadow[rb] = disk.shadow[ra]
        disk.meta("link", ra, rb)
    _after(disk, f)


def _sim_unlink(name):
    def unlink(path, *, dir_fd=None):
        disk = SIM
        rel = disk.owns(path) if disk is not None and dir_fd is None else None
        if rel is None:
            return _real[name](path, dir_fd=dir_fd)
        f = _before(disk, "unlink", rel, path)
        _real[name](path)
        disk.shadow.pop(rel, None)
        disk.meta("unlink", rel)
        _after(disk, f)
    return unlink


def _sim_mkdir(path, mode=0o777, *, dir_fd=None):
    disk = SIM
    rel = disk.owns(path) if disk is not None and dir_fd is None else None
    if rel is None:
        return _real["os.mkdir"](path, mode, dir_fd=dir_fd)
    f = _before(disk, "mkdir", rel, path)
    _real["os.mkdir"](path, mode)
    disk.meta("mkdir", rel)
    _after(disk, f)


def _sim_rmdir(path, *, dir_fd=None):
    disk = SIM
    rel = disk.owns(path) if disk is not None and dir_fd is None else None
    if rel is None:
        return _real["os.rmdir"](path, dir_fd=dir_fd)
    f = _before(disk, "rmdir", rel, path)
    _real["os.rmdir"](path)
    disk.meta("rmdir", rel)
    _after(disk, f)


def _sim_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    disk = SIM
    if disk is not None and dir_fd is None and disk.owns(dst) is not None:
        disk.untracked("symlink")
        disk.step("other", disk.owns(dst))
    return _real["os.symlink"](src, dst, target_is_directory, dir_fd=dir_fd)


def _sim_trunc(path, length):
    disk = SIM
    if disk is not None:
        if isinstance(path, int):
            if _fd_target(path) is not None:
                disk.untracked("ftruncate")
        elif disk.owns(path) is not None:
            disk.untracked("truncate")
    return _real["os.truncate"](path, length)


def _sim_statlike(name, kind):
    def call(path=".", *a, **k):
        disk = SIM
        if disk is not None and not isinstance(path, int) and not a and not k:
            rel = disk.owns(path)
            if rel is not None:
                f = _before(disk, kind, rel, path)
                r = _real[name](path)
                _after(disk, f)
                return r
        return _real[name](path, *a, **k)
    call.__name__ = name
    return call


def install():
    """Replace the file API (once per process, before ghedt is imported)."""
    if _real:
        return
    _real.update({
        "open": io.open, "os.open": os.open, "os.close": os.close, "os.write": os.write,
        "os.read": os.read, "fsync": os.fsync, "fdatasync": os.fdatasync,
        "replace": os.replace, "rename": os.rename, "os.link": os.link,
        "os.symlink": os.symlink, "unlink": os.unlink, "remove": os.remove,
        "os.mkdir": os.mkdir, "os.rmdir": os.rmdir, "stat": os.stat, "lstat": os.lstat,
        "listdir": os.listdir, "scandir": os.scandir, "readlink": os.readlink,
        "os.truncate": os.truncate, "getcwd": os.getcwd, "access": os.access,
        "rmtree": shutil.rmtree,
    })

    def realpath(p):
        saved = globals()["SIM"]
        globals()["SIM"] = None
        try:
            return os.path.realpath(p)
        finally:
            globals()["SIM"] = saved

    def exists(p):
        try:
            _real["lstat"](p)
            return True
        except OSError:
            return False
    _real["realpath"] = realpath
    _real["exists"] = exists
    builtins.open = _sim_open
    io.open = _sim_open
    os.open = _sim_os_open
    os.close = _sim_os_close
    os.write = _sim_os_write
    os.read = _sim_os_read
    os.fsync = _sim_fsync("fsync")
    os.fdatasync = _sim_fsync("fdatasync")
    os.replace = _sim_rename("replace")
    os.rename = _sim_rename("rename")
    os.link = _sim_link
    os.symlink = _sim_symlink
    os.unlink = _sim_unlink("unlink")
    os.remove = _sim_unlink("remove")
    os.mkdir = _sim_mkdir
    os.rmdir = _sim_rmdir
    os.truncate = _sim_trunc
    os.stat = _sim_statlike("stat", "stat")
    os.lstat = _sim_statlike("lstat", "stat")
    os.listdir = _sim_statlike("listdir", "list")
    os.scandir = _sim_statlike("scandir", "list")
    os.readlink = _sim_statlike("readlink", "stat")
    # these sets drive shutil/os feature checks
    for s, names in ((os.supports_dir_fd, ("open", "stat", "unlink", "rmdir", "mkdir", "rename", "link")),
                     (os.supports_fd, ("stat", "listdir", "scandir")),
                     (os.supports_follow_symlinks, ("stat",))):
        for n in names:
            s.add(getattr(os, n))


class active:
    """with active(disk): the simulation root is live"""

    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        global SIM
        SIM = self.disk
        self.saved = os.urandom, tempfile._name_sequence
        rng = random.Random(self.disk.seed)
        os.urandom = lambda n: rng.randbytes(n)
        tempfile._name_sequence = _Names(rng)
        return self.disk

    def __exit__(self, *a):
        global SIM
        SIM = None
        _FDS.clear()
        os.urandom, tempfile._name_sequence = self.saved
        return False


class _Names:
    """tempfile's random names, from the seed"""

    def __init__(self, rng):
        self.rng = rng

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.rng.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))
