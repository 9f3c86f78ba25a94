"""File operations of the code under test behind a simulated operating system layer.

Simulated tasks (savers, readers) run one at a time (Baton). Each file operation they perform inside the scratch area is a
scheduling point and a fault point; the bytes live in real files of a scratch directory, so that the state after every operation
can be examined. Operations of a crashed process have no effect. A journal of what is durable gives the states a power loss may
leave behind at any instant."""
import builtins
import errno as _errno
import fcntl
import io
import os
import shutil
import sys
import tempfile
import threading
import time as _t
import _thread
from pathlib import Path

from .core import HarnessError, Violation
from .thrsim import Baton, SimCrash, Stop, loc

_R = {n: getattr(os, n) for n in
      ("open", "close", "read", "write", "pread", "pwrite", "fsync", "fdatasync", "replace", "rename", "link", "symlink", "unlink",
       "remove", "truncate", "ftruncate", "mkdir", "rmdir", "stat", "lstat", "fstat", "access", "listdir", "scandir", "readlink",
       "lseek", "chmod", "utime", "sendfile", "getpid", "sync", "dup", "writev", "readv", "copy_file_range", "posix_fallocate")}
_r_open = io.open
_r_flock, _r_lockf = fcntl.flock, fcntl.lockf
_r_ident = _thread.get_ident
_r_sleep = _t.sleep
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR
ACTIVE = None
PATHLIKE = (str, bytes, os.PathLike)
MUTATING = {"write", "replace", "rename", "link", "symlink", "unlink", "remove", "truncate", "ftruncate", "mkdir", "rmdir", "open"}


class Journal:
    """What survives a power loss. Namespace operations become durable in order; file data only when synced (or never)."""

    def __init__(self, root):
        self.root = root
        self.ns = {}            # durable base: path -> inode key
        self.ops = []           # namespace ops after the base: ("set", path, ino) | ("del", path) | ("mv", a, b)
        self.data = {}          # inode -> [durable bytes, [(off, bytes) | ("trunc", n), ...]]
        for d, _, files in os.walk(root):
            for f in files:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    continue
                st = _R["stat"](p)
                self.ns[p] = self.key(st)
                self.data[self.key(st)] = [Path(p).read_bytes(), []]
        self.gen = {}

    def key(self, st):
        return (st.st_dev, st.st_ino, getattr(self, "gen", {}).get(st.st_ino, 0))

    def created(self, path, st):
        self.gen[st.st_ino] = self.gen.get(st.st_ino, 0) + 1      # inode numbers are reused
        k = self.key(st)
        self.data[k] = [b"", []]
        self.ops.append(("set", path, k))

    def name(self, *op):
        self.ops.append(op)

    def change(self, st, what):
        k = self.key(st)
        if k in self.data:
            self.data[k][1].append(what)

    def synced(self, st):
        k = self.key(st)
        if k in self.data:
            self.data[k] = [self._apply(self.data[k][0], self.data[k][1]), []]

    @staticmethod
    def _apply(b, ops):
        b = bytearray(b)
        for o in ops:
            if o[0] == "trunc":
                if len(b) > o[1]:
                    del b[o[1]:]
                else:
                    b.extend(bytes(o[1] - len(b)))
            else:
                off, d = o
                if len(b) < off:
                    b.extend(bytes(off - len(b)))
                b[off:off + len(d)] = d
        return bytes(b)

    def outcome(self, ch, path):
        """Content (None: absent) one power loss may leave for path."""
        ns = dict(self.ns)
        p = len(self.ops) if ch.pick(2) == 0 else ch.pick(len(self.ops) + 1)
        for o in self.ops[:p]:
            if o[0] == "set":
                ns[o[1]] = o[2]
            elif o[0] == "del":
                ns.pop(o[1], None)
            elif o[0] == "mv":
                k = ns.pop(o[1], None)
                if k is not None:
                    ns[o[2]] = k
        k = ns.get(path)
        if k is None:
            return None
        base, pend = self.data[k]
        if not pend:
            return base
        mode = ch.pick(4)
        if mode == 0:
            return base                                          # nothing of the unsynced data arrived
        if mode == 1:
            return self._apply(base, pend[:ch.pick(len(pend) + 1)])
        full = self._apply(base, pend)
        if mode == 2:
            return full[:ch.pick(len(full) + 1)]                 # size and part of the data
        return bytes(len(full))                                  # size without data


def _inside(method):
    """The body belongs to the harness: its own file operations are real ones."""
    def f(self, *a, **k):
        t = self.me()
        t.inside += 1
        try:
            return method(self, *a, **k)
        finally:
            t.inside -= 1
    return f


class SimRaw(io.RawIOBase):
    """Unbuffered file on top of the simulated operations."""

    def __init__(self, sim, fd, path, flags, name, closefd=True):
        self.sim, self._fd, self.path = sim, fd, path
        self._r = (flags & os.O_ACCMODE) in (os.O_RDONLY, os.O_RDWR)
        self._w = bool(flags & WRITE_FLAGS)
        self.name = name
        self._closefd = closefd
        self._task = sim.me()
        self.mode = "rb+" if self._r and self._w else "wb" if self._w else "rb"

    def _dead(self):
        return self.sim.over_all or self._task is None or self._task.crashed

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self._fd is None:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        if self._dead():
            return 0
        d = self.sim.op_read(self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        parts = []
        while True:
            if self._dead():
                return b"".join(parts)
            d = self.sim.op_read(self._fd, 65536)
            if not d:
                return b"".join(parts)
            parts.append(d)

    def write(self, b):
        b = bytes(b)
        if self._dead():
            return len(b)
        if not self._w:
            raise io.UnsupportedOperation("write")
        return self.sim.op_write(self._fd, b)

    def seek(self, off, whence=0):
        return _R["lseek"](self._fd, off, whence)

    def tell(self):
        return _R["lseek"](self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        if not self._dead():
            self.sim.op_ftruncate(self._fd, size)
        return size

    def close(self):
        if self._fd is None:
            return
        fd, self._fd = self._fd, None
        try:
            super().close()
        finally:
            if self._closefd and fd in self.sim.fds:
                if self._dead():
                    self.sim.drop_fd(fd)
                else:
                    self.sim.op_close(fd)


class FsSim(Baton):
    """One run. faults: list of dicts {kind, task (index), on (op name or "*"), n (occurrence), where, errno, sticky}."""

    def __init__(self, ch, res, root, faults=(), switch=2, short=0, pkg_saved=None, quota=None):
        super().__init__(ch, res, 100_000)
        self.root = os.path.realpath(root)
        self.faults = [dict(f) for f in faults]
        self.switch, self.short = switch, short
        self.pkg_saved = pkg_saved
        self.fds = {}                # fd -> (path, flags)
        self.over_all = False
        self.after = None            # called after each mutating operation
        self.journal = Journal(self.root)
        self.fired = []
        self.outside = []
        self.quota = quota
        self.used = 0
        self.opno = {}
        self.fault_hits = 0
        self.crash_any = False
        self.ops_total = 0
        self.names = {}

    # ------------------------------------------------------------------ paths
    def resolve(self, p, dir_fd=None):
        if isinstance(p, int):
            return None
        p = os.fsdecode(os.fspath(p))
        if self.pkg_saved and (p == self.pkg_saved[0] or p.startswith(self.pkg_saved[0] + os.sep)):
            p = self.pkg_saved[1] + p[len(self.pkg_saved[0]):]
        if not os.path.isabs(p):
            p = os.path.join(self.cwd, p)
        return os.path.normpath(p)

    def inside(self, full):
        return full == self.root or full.startswith(self.root + os.sep)

    def real(self, full):
        """Path with its directory resolved (symlinked folders)."""
        d, b = os.path.split(full)
        try:
            d = self._realpath(d)
        except OSError:
            pass
        return os.path.join(d, b)

    def _realpath(self, d):
        out = "/"
        for part in d.split("/"):
            if part:
                out = os.path.join(out, part)
                for _ in range(20):
                    try:
                        t = _R["readlink"](out)
                    except OSError:
                        break
                    out = os.path.normpath(os.path.join(os.path.dirname(out), t))
        return out

    def tag(self, full):
        """Name of a path in the event record: independent of scratch location, process ids and random parts."""
        if full is None:
            return "fd"
        b = os.path.basename(full)
        if b.endswith(".json") and not b.startswith("."):
            return b
        if os.path.isdir(full):
            return "dir"
        return "tmp"

    # ------------------------------------------------------------------ core of each operation
    def step(self, name, full):
        """Scheduling and fault point before an operation. Returns the fault that applies at it, or None."""
        t = self.current
        if self.over:
            raise Stop()
        if t.crashed:
            raise SimCrash()
        others = [x for x in self.tasks if not x.done and x.blocked is None and x is not t]
        if others and self.ch.pick(self.switch) == self.switch - 1:
            self.switch_to(others[self.ch.pick(len(others))])
            if t.crashed:
                raise SimCrash()
        t.n_ops += 1
        self.ops_total += 1
        key = (t.name, name)
        c = self.opno.get(key, 0); self.opno[key] = c + 1
        a = self.opno.get((t.name, "*"), 0); self.opno[(t.name, "*")] = a + 1
        for f in self.faults:
            if f["task"] != t.name:
                continue
            if f["on"] not in ("*", name):
                continue
            n = a if f["on"] == "*" else c
            if f["n"] == n or (f.get("sticky") and n > f["n"]):
                if f["kind"] == "errno" and f["on"] == "*" and name not in ALLOWED.get(f["errno"], ()):
                    f["n"] += 0 if f.get("sticky") else 1            # an error this operation cannot give: try the next one
                    continue
                return f
        return None

    def raise_fault(self, f, name, when, full):
        k = f["kind"]
        self.fired.append((f["kind"], f["task"], name, when))
        self.fault_hits += 1
        self.res.count("fault:" + (k if k != "errno" else f["errno"]))
        self.res.note("fault", k, f.get("errno"), f["task"], name, when, self.tag(full))
        if k == "crash":
            self.crash(self.current.pid)
            raise SimCrash()
        if k == "int":
            raise KeyboardInterrupt("injected")
        if k == "memory":
            raise MemoryError()
        e = getattr(_errno, f["errno"])
        raise OSError(e, os.strerror(e))

    def crash(self, pid):
        self.crash_any = True
        for t in self.tasks:
            if t.pid == pid and not t.done:
                t.crashed = True
                t.blocked = None

    def do(self, name, full, fn, arg=""):
        f = self.step(name, full)
        if f is not None and f.get("where", "before") == "before":
            self.raise_fault(f, name, "before", full)
        try:
            r = fn()
            self.res.note(self.current.name, name, self.tag(full), arg, "ok")
        except OSError as e:
            self.res.note(self.current.name, name, self.tag(full), arg, e.errno)
            raise
        if self.after is not None and name in MUTATING:
            self.after(name, full)
        if f is not None:
            self.raise_fault(f, name, "after", full)
        return r

    def deny(self, name, full):
        self.outside.append((name, full))
        self.res.note("outside", name)
        raise PermissionError(_errno.EACCES, "outside of the simulated file system", full)

    # ------------------------------------------------------------------ descriptors
    @_inside
    def op_open(self, path, flags, mode=0o666):
        full = self.resolve(path)
        if not self.inside(full):
            if flags & (WRITE_FLAGS | os.O_CREAT | os.O_TRUNC):
                self.deny("open", full)
            return None
        full = self.real(full)

        def fn():
            if self.quota is not None and flags & os.O_CREAT and self.used >= self.quota and not os.path.lexists(full):
                raise OSError(_errno.ENOSPC, os.strerror(_errno.ENOSPC), full)
            existed = os.path.lexists(full)
            before = _R["stat"](full).st_size if os.path.exists(full) else 0
            fd = _R["open"](full, flags & ~getattr(os, "O_TMPFILE", 0) if flags & os.O_CREAT else flags, mode)
            st = _R["fstat"](fd)
            if not existed and flags & os.O_CREAT:
                self.journal.created(full, st)
            elif flags & os.O_TRUNC and before:
                self.journal.change(st, ("trunc", 0))
                self.used -= before
            self.fds[fd] = (full, flags)
            return fd
        return self.do("open", full, fn, "w" if flags & WRITE_FLAGS else "r")

    def drop_fd(self, fd):
        if fd in self.fds:
            del self.fds[fd]
            try:
                _R["close"](fd)
            except OSError:
                pass

    @_inside
    def op_close(self, fd):
        full = self.fds[fd][0]

        def fn():
            self.drop_fd(fd)
        f = self.step("close", full)
        if f is not None and f["kind"] == "crash" and f.get("where") == "before":
            self.raise_fault(f, "close", "before", full)
        fn()                                                      # the descriptor is gone even if close() reports an error
        self.res.note(self.current.name, "close", self.tag(full))
        if f is not None:
            self.raise_fault(f, "close", "after", full)

    @_inside
    def op_read(self, fd, n):
        full = self.fds[fd][0]
        if self.short and n > 1:
            n = max(1, min(n, 1 + self.ch.pick(self.short * 40)))
            self.res.count("fault:short-read")
        return self.do("read", full, lambda: _R["read"](fd, n), "")

    @_inside
    def op_write(self, fd, data):
        full = self.fds[fd][0]
        part = None
        f = self.step("write", full)
        if f is not None and f.get("where", "before") == "before":
            if f.get("torn") and len(data) > 1 and f["kind"] in ("crash", "errno"):
                part = 1 + self.ch.pick(len(data) - 1)
                self._write(fd, full, data[:part])
                self.res.count("fault:torn-write")
            self.raise_fault(f, "write", "before", full)
        n = len(data)
        if self.short and n > 1:
            n = 1 + self.ch.pick(n)
            if n < len(data):
                self.res.count("fault:short-write")
        if self.quota is not None:
            room = max(0, self.quota - self.used)
            if room < n:
                self.res.count("fault:disk-full")
                self.fault_hits += 1
                if room == 0:
                    self.res.note(self.current.name, "write", self.tag(full), "ENOSPC")
                    raise OSError(_errno.ENOSPC, os.strerror(_errno.ENOSPC))
                n = room
            self.used += n
        self._write(fd, full, data[:n])
        self.res.note(self.current.name, "write", self.tag(full), n)
        if f is not None:
            self.raise_fault(f, "write", "after", full)
        return n

    def _write(self, fd, full, data):
        flags = self.fds[fd][1]
        off = _R["fstat"](fd).st_size if flags & os.O_APPEND else _R["lseek"](fd, 0, 1)
        done = 0
        while done < len(data):
            done += _R["write"](fd, data[done:])
        self.journal.change(_R["fstat"](fd), (off, bytes(data)))
        if self.after is not None:
            self.after("write", full)

    @_inside
    def op_ftruncate(self, fd, size):
        full = self.fds[fd][0]

        def fn():
            st = _R["fstat"](fd)
            _R["ftruncate"](fd, size)
            self.journal.change(st, ("trunc", size))
            self.used -= max(0, st.st_size - size)
        return self.do("ftruncate", full, fn, size)

    @_inside
    def op_fsync(self, fd, name="fsync"):
        full = self.fds[fd][0]

        def fn():
            self.journal.synced(_R["fstat"](fd))
        return self.do(name, full, fn)

    # ------------------------------------------------------------------ paths operations
    @_inside
    def op_two(self, name, a, b):
        fa, fb = self.resolve(a), self.resolve(b)
        if not self.inside(fa) or not self.inside(fb):
            self.deny(name, fb if self.inside(fa) else fa)
        fa, fb = self.real(fa), self.real(fb)

        def fn():
            st = _R["lstat"](fa) if name != "symlink" else None
            if name == "symlink":
                _R["symlink"](a, fb)
                return
            if name in ("replace", "rename"):
                if os.path.lexists(fb) and os.path.samestat(_R["lstat"](fb), st):
                    _R[name](fa, fb)
                    return
                if os.path.isfile(fb):
                    self.used -= _R["stat"](fb).st_size
            _R[name](fa, fb)
            if name == "link":
                self.journal.name("set", fb, self.journal.key(st))
            elif not os.path.isdir(fb):
                self.journal.name("mv", fa, fb)
        return self.do(name, fb, fn, self.tag(fa))

    @_inside
    def op_path(self, name, p, *args, **kw):
        full = self.resolve(p)
        if not self.inside(full):
            if name in MUTATING or name in ("chmod", "utime"):
                self.deny(name, full)
            return _R[name](p, *args, **kw)
        full = self.real(full)

        def fn():
            if name in ("unlink", "remove"):
                st = _R["lstat"](full)
                _R[name](full)
                self.journal.name("del", full)
                if st.st_nlink == 1:
                    self.used -= st.st_size
                return None
            if name == "truncate":
                st = _R["stat"](full)
                _R["truncate"](full, *args)
                self.journal.change(st, ("trunc", args[0]))
                return None
            return _R[name](full, *args, **kw)
        return self.do(name, full, fn)

    @_inside
    def _is_dir(self, full):
        return os.path.isdir(full)

    # ------------------------------------------------------------------ open() of Python
    def py_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            if file not in self.fds:
                return _r_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        else:
            full = self.resolve(file)
            writing = any(c in mode for c in "wax+")
            if not self.inside(full) and opener is None:
                if writing:
                    self.deny("open", full)
                return _r_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        creating, reading, writing, appending = "x" in mode, "r" in mode, "w" in mode, "a" in mode
        updating, text, binary = "+" in mode, "t" in mode, "b" in mode
        if set(mode) - set("axrwb+tU") or len(mode) > len(set(mode)) or creating + reading + writing + appending != 1 or (text and binary):
            raise ValueError(f"invalid mode: {mode!r}")
        if binary and (encoding is not None or errors is not None or newline is not None):
            raise ValueError("binary mode doesn't take an encoding argument")
        flags = os.O_CLOEXEC | (os.O_RDWR if updating else os.O_RDONLY if reading else os.O_WRONLY)
        if creating:
            flags |= os.O_CREAT | os.O_EXCL
        elif writing:
            flags |= os.O_CREAT | os.O_TRUNC
        elif appending:
            flags |= os.O_CREAT | os.O_APPEND
        if isinstance(file, int):
            fd, full = file, self.fds[file][0]
            flags |= self.fds[file][1] & os.O_APPEND
        else:
            if opener is not None:
                fd = opener(file, flags)
            else:
                fd = self.op_open(file, flags)
            if fd not in self.fds:
                return _r_open(fd, mode, buffering, encoding, errors, newline, closefd)
            full = self.fds[fd][0]
            if self._is_dir(full):
                self.drop_fd(fd)
                raise IsADirectoryError(_errno.EISDIR, os.strerror(_errno.EISDIR), file)
        raw = SimRaw(self, fd, full, flags, file, closefd)
        try:
            if appending:
                raw.seek(0, 2)
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            line = buffering == 1 and not binary
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            buf = io.BufferedRandom(raw, size) if updating else io.BufferedReader(raw, size) if reading else io.BufferedWriter(raw, size)
            if binary:
                return buf
            txt = io.TextIOWrapper(buf, encoding or "utf-8" if encoding != "locale" else "utf-8", errors, newline, line)
            txt.mode = mode
            return txt
        except BaseException:
            raw.close()
            raise

    # ------------------------------------------------------------------ run
    def finish(self):
        self.over_all = True
        for fd in list(self.fds):
            self.drop_fd(fd)

    def run(self):
        global ACTIVE
        self.cwd = os.getcwd()
        install()
        ACTIVE = self
        try:
            return super().run()
        finally:
            self.over_all = True
            ACTIVE = None
            uninstall()


ALLOWED = {
    "ENOSPC": ("open", "write", "fsync", "link", "mkdir", "replace", "rename", "close", "symlink"),
    "EDQUOT": ("open", "write", "fsync", "link", "mkdir", "close"),
    "EIO": ("open", "write", "fsync", "fdatasync", "read", "close", "replace", "rename", "link", "unlink", "remove", "stat"),
    "EACCES": ("open", "replace", "rename", "link", "unlink", "remove", "mkdir"),
    "EROFS": ("open", "replace", "rename", "link", "unlink", "remove", "mkdir"),
    "EMFILE": ("open",),
    "EPERM": ("link", "replace", "rename", "unlink", "remove", "open"),
    "ENOMEM": ("open", "stat", "read"),
    "EMLINK": ("link",), "ENOTSUP": ("link",), "EBUSY": ("replace", "rename", "unlink", "remove"), "ESTALE": ("read", "open", "stat"),
}


# ----------------------------------------------------------------------------------------------------- patching
def _sim():
    s = ACTIVE
    if s is None or s.over_all:
        return None
    t = s.me()
    if t is None or t.inside:
        return None
    return s


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = _sim()
    if s is None:
        return _r_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    return s.py_open(file, mode, buffering, encoding, errors, newline, closefd, opener)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    s = _sim()
    if s is None or dir_fd is not None or isinstance(path, int):
        return _R["open"](path, flags, mode, dir_fd=dir_fd)
    fd = s.op_open(path, flags, mode)
    return _R["open"](path, flags, mode) if fd is None else fd


def _fd_op(name, method):
    real = _R[name]

    def f(fd, *a, **k):
        s = _sim()
        if s is None or not isinstance(fd, int) or fd not in s.fds:
            return real(fd, *a, **k)
        return method(s, fd, *a, **k)
    f.__name__ = name
    return f


def _path_op(name):
    real = _R[name]

    def f(path=".", *a, **k):
        s = _sim()
        if s is None or isinstance(path, int) or k.get("dir_fd") is not None:
            if s is not None and isinstance(path, int) and path in s.fds and name == "truncate":
                return s.op_ftruncate(path, *a)
            return real(path, *a, **k)
        k.pop("dir_fd", None)
        return s.op_path(name, path, *a, **k)
    f.__name__ = name
    return f


def _two_op(name):
    real = _R[name]

    def f(src, dst, *a, **k):
        s = _sim()
        if s is None:
            return real(src, dst, *a, **k)
        return s.op_two(name, src, dst)
    f.__name__ = name
    return f


def _sendfile(out_fd, in_fd, offset, count, *a, **k):
    s = _sim()
    if s is None or (out_fd not in s.fds and in_fd not in s.fds):
        return _R["sendfile"](out_fd, in_fd, offset, count, *a, **k)
    data = _R["pread"](in_fd, count, offset) if offset is not None else s.op_read(in_fd, count)
    return s.op_write(out_fd, data) if data else 0


def _copy_file_range(src, dst, count, *a, **k):
    s = _sim()
    if s is None or dst not in s.fds:
        return _R["copy_file_range"](src, dst, count, *a, **k)
    raise OSError(_errno.EXDEV, os.strerror(_errno.EXDEV))


def _writev(fd, buffers):
    s = _sim()
    if s is None or fd not in s.fds:
        return _R["writev"](fd, buffers)
    return s.op_write(fd, b"".join(bytes(b) for b in buffers))


def _pwrite(s, fd, data, offset):
    pos = _R["lseek"](fd, 0, 1)
    _R["lseek"](fd, offset, 0)
    try:
        return s.op_write(fd, bytes(data))
    finally:
        _R["lseek"](fd, pos, 0)


def _getpid():
    s = _sim()
    return _R["getpid"]() if s is None else s.me().pid


def _get_ident():
    s = ACTIVE
    t = s.me() if s is not None and not s.over_all else None
    return _r_ident() if t is None or t.sim_ident is None else t.sim_ident


def _flock(real):
    def f(fd, op, *a):
        s = _sim()
        if s is None:
            return real(fd, op, *a)
        for _ in range(2000):
            try:
                return real(fd, op | fcntl.LOCK_NB, *a)
            except OSError:
                if op & fcntl.LOCK_NB:
                    raise
                others = [x for x in s.tasks if not x.done and x.blocked is None and x is not s.current]
                if not others:
                    raise
                s.switch_to(others[s.ch.pick(len(others))])
        raise HarnessError("file lock never released")
    return f


_PATCH = {
    "open": _os_open,
    "close": _fd_op("close", FsSim.op_close),
    "read": _fd_op("read", FsSim.op_read),
    "write": _fd_op("write", lambda s, fd, d: s.op_write(fd, bytes(d))),
    "pwrite": _fd_op("pwrite", _pwrite),
    "fsync": _fd_op("fsync", FsSim.op_fsync),
    "fdatasync": _fd_op("fdatasync", lambda s, fd: s.op_fsync(fd, "fdatasync")),
    "ftruncate": _fd_op("ftruncate", FsSim.op_ftruncate),
    "sendfile": _sendfile, "writev": _writev, "copy_file_range": _copy_file_range,
    "getpid": _getpid,
    "posix_fallocate": _fd_op("posix_fallocate", lambda s, fd, off, n: None),
}
for _n in ("replace", "rename", "link", "symlink"):
    _PATCH[_n] = _two_op(_n)
for _n in ("unlink", "remove", "truncate", "mkdir", "rmdir", "stat", "lstat", "access", "listdir", "scandir", "chmod", "utime", "readlink"):
    _PATCH[_n] = _path_op(_n)


def _sleep(seconds):
    s = _sim()
    if s is None:
        return _r_sleep(seconds)
    s.res.simtime += seconds
    others = [x for x in s.tasks if not x.done and x.blocked is None and x is not s.current]
    if others:
        s.switch_to(others[s.ch.pick(len(others))])


_globals = []          # (namespace, name, original)


def install():
    for n, f in _PATCH.items():
        setattr(os, n, f)
    builtins.open = io.open = _open
    fcntl.flock, fcntl.lockf = _flock(_r_flock), _flock(_r_lockf)
    threading.get_ident = _get_ident
    global _r_sleep
    _r_sleep, _t.sleep = _t.sleep, _sleep
    repl = {id(_r_ident): _get_ident, id(_r_open): _open}
    for n, f in _PATCH.items():
        repl[id(_R[n])] = f
    for name, m in list(sys.modules.items()):
        if (name == "zernpy" or name.startswith("zernpy.")) and m is not None:
            _rebind(m, repl)
    for mods in EXTRA:
        for m in mods.values():
            _rebind(m, repl)


EXTRA = []             # module dictionaries of further imported instances of the package


def _rebind(m, repl):
    d = vars(m)
    for k, v in list(d.items()):
        r = repl.get(id(v))
        if r is not None and not k.startswith("__"):
            _globals.append((d, k, v))
            d[k] = r


def uninstall():
    for d, k, v in _globals:
        d[k] = v
    _globals.clear()
    for n in _PATCH:
        setattr(os, n, _R[n])
    builtins.open = io.open = _r_open
    fcntl.flock, fcntl.lockf = _r_flock, _r_lockf
    threading.get_ident = _r_ident
    _t.sleep = _r_sleep


def scratch(tag):
    """A new empty scratch area with its folders; removed by the caller."""
    root = os.path.realpath(tempfile.mkdtemp(prefix=f"zsim_{tag}_"))
    for d in ("d", "cwd", "other", "tmp", "pkg"):
        os.mkdir(os.path.join(root, d))
    return root


def remove(root):
    if os.path.basename(root).startswith("zsim_"):
        shutil.rmtree(root, ignore_errors=True)


def tree(root):
    """All files below root with their bytes."""
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = os.readlink(p).encode() if os.path.islink(p) else Path(p).read_bytes()
    return out
