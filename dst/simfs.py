"""In-memory file system behind patched open()/os.* functions.

Only calls made by an actor inside library code are simulated; everything else goes to the real functions.
Durability model: file data is durable after fsync of that file; directory entries are durable after fsync of the
directory, otherwise a power cut keeps a prefix of the directory operations; un-synced data is kept, lost or torn.
"""
import builtins
import copy
import errno
import io
import _io
import os
import random
import stat as st
import sys
import tempfile
import threading
import time
import _thread

from . import kernel as K
from .kernel import REAL, SimCrash, HarnessError

REAL_PREFIXES = ("/usr/", "/opt/", "/lib", "/etc/", "/proc/", "/dev/", "/sys/", "/repo/", "/verif/", "/root/", "/bin/")
O_ACCMODE = 3


class Inode:
    __slots__ = ("ino", "kind", "data", "durable", "dirty", "entries", "target", "mode", "nlink", "ver", "mtime", "dev")

    def __init__(self, ino, kind, mode):
        self.ino, self.kind, self.mode = ino, kind, mode
        self.data = b""
        self.durable = b""
        self.dirty = False
        self.entries = {} if kind == "d" else None
        self.target = None
        self.nlink = 1
        self.dev = 77
        self.ver = 0
        self.mtime = 0


class OFD:
    __slots__ = ("inode", "flags", "pos", "proc", "path")

    def __init__(self, inode, flags, proc, path):
        self.inode, self.flags, self.pos, self.proc, self.path = inode, flags, 0, proc, path


def oserr(no, *paths):
    e = OSError(no, os.strerror(no), *[p for p in paths[:1]])
    if len(paths) > 1:
        e.filename2 = paths[1]
    return e


class SimFS:
    def __init__(self, w):
        self.w = w
        self.nino = 1
        self.inodes = {}
        self.root = self.new("d", 0o755)
        self.base = {}
        self.journal = []
        self.durable_meta = 0
        self.cwd = "/work"
        self.nfd = 1000000
        self.version = 0
        self.watch = {}
        self.mut_log = []
        self.umask = 0o022
        for d in ("/work", "/tmp", "/home", "/abs"):
            self._mkdir_p(d)
        self.resolve("/tmp").dev = 78                  # another file system, as on most hosts
        self.settle()

    # ------------------------------------------------------------------ structure
    def new(self, kind, mode):
        self.nino += 1
        i = Inode(self.nino, kind, mode)
        self.inodes[self.nino] = i
        return i

    def _mkdir_p(self, path):
        """Harness: the directory at path, made if it does not exist (links followed)."""
        full = self.norm(path)
        d, name, n = self.root, ".", self.root
        at = ""
        for p in full.split("/"):
            if p in ("", "."):
                continue
            at += "/" + p
            d, name, n = self.lookup(at)
            if n is None:
                n = self.new("d", 0o755)
                n.dev = d.dev
                d.entries[name] = n.ino
        return n

    def settle(self):
        """Everything so far is durable (test set-up)."""
        for i in self.inodes.values():
            if i.kind == "f":
                i.durable, i.dirty = i.data, False
        self.base = {i.ino: dict(i.entries) for i in self.inodes.values() if i.kind == "d"}
        self.journal = []
        self.durable_meta = 0

    def put(self, path, data):
        """Harness: create a file (durable after settle())."""
        self._mkdir_p(os.path.dirname(self.norm(path)) or "/")
        d, name, _ = self.lookup(path)
        f = self.new("f", 0o644)
        f.dev = d.dev
        f.data = bytes(data)
        d.entries[name] = f.ino
        self.version += 1

    def get(self, path):
        """Harness: visible content of path, or None."""
        try:
            i = self.resolve(path)
        except OSError:
            return None
        return i.data if i.kind == "f" else None

    def mode_of(self, path):
        return self.resolve(path).mode

    def tree(self):
        out = {}

        def walk(d, p):
            for n, ino in sorted(d.entries.items()):
                i = self.inodes[ino]
                out[p + "/" + n] = i.kind
                if i.kind == "d":
                    walk(i, p + "/" + n)
        walk(self.root, "")
        return out

    def norm(self, path):
        if not path.startswith("/"):
            path = self.cwd + "/" + path
        return path

    def lookup(self, path, follow=True, depth=0):
        """-> (parent inode, last name, inode or None)"""
        if path == "":
            raise oserr(errno.ENOENT, path)
        if depth > 20:
            raise oserr(errno.ELOOP, path)
        full = self.norm(path)
        trailing = full.endswith("/") and full.strip("/") != ""
        parts = [p for p in full.split("/") if p not in ("", ".")]
        cur, stack = self.root, []
        if not parts:
            return self.root, ".", self.root
        i = 0
        while i < len(parts):
            p = parts[i]
            last = i == len(parts) - 1
            if cur.kind != "d":
                raise oserr(errno.ENOTDIR, path)
            if len(os.fsencode(p)) > 255:
                raise oserr(errno.ENAMETOOLONG, path)
            if p == "..":
                cur = stack.pop() if stack else self.root
                i += 1
                if last:
                    return cur, ".", cur
                continue
            ino = cur.entries.get(p)
            if ino is None:
                if last:
                    return cur, p, None
                raise oserr(errno.ENOENT, path)
            n = self.inodes[ino]
            if n.kind == "l" and (not last or follow or trailing):
                tgt = n.target
                rest = "/".join(parts[i + 1:])
                if not tgt.startswith("/"):
                    tgt = self.path_of(cur) + "/" + tgt
                return self.lookup(tgt + ("/" + rest if rest else ""), follow, depth + 1)
            if last:
                if trailing and n.kind != "d":
                    raise oserr(errno.ENOTDIR, path)
                return cur, p, n
            stack.append(cur)
            cur = n
            i += 1

    def path_of(self, d):
        if d is self.root:
            return ""
        for i in self.inodes.values():
            if i.kind == "d":
                for n, ino in i.entries.items():
                    if ino == d.ino:
                        return self.path_of(i) + "/" + n
        return "/lost"

    def resolve(self, path, follow=True):
        _, _, n = self.lookup(path, follow)
        if n is None:
            raise oserr(errno.ENOENT, path)
        return n

    # ------------------------------------------------------------------ mutation bookkeeping
    def set_entries(self, *groups):
        for d, name, ino in groups:
            if ino is None:
                d.entries.pop(name, None)
            else:
                d.entries[name] = ino
        self.journal.append([(d.ino, name, ino) for d, name, ino in groups])
        self.changed()

    def changed(self):
        self.version += 1
        a = self.w.cur
        who = a.idx if a is not None else None
        self.mut_log.append(who)
        for path, rec in self.watch.items():
            c = self.get(path)
            if not rec or rec[-1][2] != c:
                rec.append((self.w.tick(), who, c))

    def watch_path(self, path):
        self.watch[path] = [(self.w.tick(), None, self.get(path))]

    def crash(self, f):
        """Power cut: keep a prefix of directory operations, and for each file durable, current or torn data."""
        n = len(self.journal)
        lo = self.durable_meta
        m = lo + int(round(f.get("meta", 1.0) * (n - lo)))
        ents = {k: dict(v) for k, v in self.base.items()}
        for group in self.journal[:m]:
            for d, name, ino in group:
                e = ents.setdefault(d, {})
                if ino is None:
                    e.pop(name, None)
                else:
                    e[name] = ino
        choice = f.get("data") or [0]
        k = 0
        for ino in sorted(self.inodes):
            i = self.inodes[ino]
            if i.kind == "d":
                i.entries = ents.get(ino, {})
            elif i.kind == "f" and i.dirty:
                c = choice[k % len(choice)]
                k += 1
                if c == 0:
                    pass
                elif c == 1:
                    i.data = i.durable
                else:
                    cut = int(len(i.data) * ((c * 37) % 101) / 101.0)
                    how = c % 3
                    if how == 0:
                        i.data = i.data[:cut]
                    elif how == 1:
                        i.data = i.data[:cut] + b"\0" * (len(i.data) - cut)
                    else:
                        i.data = i.data[:cut] + i.durable[cut:]
        self.settle()
        self.version += 1
        for path, rec in self.watch.items():
            rec.append((self.w.tick(), "power", self.get(path)))

    # ------------------------------------------------------------------ system calls (current actor, inside library)
    def sc(self, name, info=None):
        return self.w.point(name, sysc=True, info=info)

    def open(self, path, flags, mode=0o777):
        f = self.sc("open", (norm_info(path), flags & (os.O_CREAT | os.O_TRUNC | os.O_EXCL | O_ACCMODE)))
        w = self.w
        a = w.cur
        follow = not flags & (os.O_NOFOLLOW if hasattr(os, "O_NOFOLLOW") else 0)
        if flags & os.O_CREAT and flags & os.O_EXCL:
            follow = False
        d, name, n = self.lookup(path, follow)
        tmpf = getattr(os, "O_TMPFILE", 0)
        if tmpf and flags & tmpf == tmpf:
            raise oserr(errno.EOPNOTSUPP, path)
        if n is None:
            if not flags & os.O_CREAT:
                raise oserr(errno.ENOENT, path)
            if path.endswith("/"):
                raise oserr(errno.EISDIR, path)
            if d.ino not in self.inodes or d.nlink == 0:
                raise oserr(errno.ENOENT, path)
            n = self.new("f", mode & ~self.umask & 0o7777)
            n.dev = d.dev
            n.dirty = True
            self.set_entries((d, name, n.ino))
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise oserr(errno.EEXIST, path)
            if n.kind == "l":
                raise oserr(errno.ELOOP, path)
            if n.kind == "d" and flags & O_ACCMODE != os.O_RDONLY:
                raise oserr(errno.EISDIR, path)
            if n.kind != "d" and flags & getattr(os, "O_DIRECTORY", 0):
                raise oserr(errno.ENOTDIR, path)
            if flags & os.O_TRUNC and n.kind == "f" and flags & O_ACCMODE != os.O_RDONLY and n.data:
                n.data = b""
                n.dirty = True
                self.changed()
        self.nfd += 1
        a.proc.fds[self.nfd] = OFD(n, flags, a.proc, path)
        fd = self.nfd
        if f is not None and f["do"] not in ("kill", "power"):
            # the call took effect but its result was lost (Ctrl-C before the caller got the descriptor)
            a.proc.fds.pop(fd, None)
        w.after(f)
        return fd

    def ofd(self, fd, proc=None):
        a = self.w.cur
        p = proc or (a.proc if a is not None else None)
        o = p.fds.get(fd) if p is not None else None
        if o is None:
            raise oserr(errno.EBADF)
        return o

    def read(self, fd, n):
        f = self.sc("read", n)
        o = self.ofd(fd)
        if o.inode.kind == "d":
            raise oserr(errno.EISDIR)
        if o.flags & O_ACCMODE == os.O_WRONLY:
            raise oserr(errno.EBADF)
        if f is not None and f["do"] == "short":
            n = max(1, min(n, int(n * f.get("part", 0.5))))
            f = None
        b = o.inode.data[o.pos:o.pos + n]
        o.pos += len(b)
        self.w.after(f)
        return b

    def write(self, fd, data):
        data = bytes(data)
        f = self.sc("write", len(data))
        o = self.ofd(fd)
        if o.flags & O_ACCMODE == os.O_RDONLY:
            raise oserr(errno.EBADF)
        n = len(data)
        if f is not None and f.get("part") is not None:
            n = int(n * f["part"])
            if f["do"] == "short":
                n = max(1, n) if data else 0
        self._write_at(o, data[:n])
        if f is not None and f["do"] != "short":
            self.w.do_raise(f, self.w.cur)
        return n

    def _write_at(self, o, data):
        i = o.inode
        if o.flags & os.O_APPEND:
            o.pos = len(i.data)
        if not data:
            return
        old = i.data
        if len(old) < o.pos:
            old = old + b"\0" * (o.pos - len(old))
        i.data = old[:o.pos] + data + old[o.pos + len(data):]
        o.pos += len(data)
        i.dirty = True
        self.changed()

    def lseek(self, fd, off, how):
        o = self.ofd(fd)
        base = 0 if how == 0 else o.pos if how == 1 else len(o.inode.data)
        if base + off < 0:
            raise oserr(errno.EINVAL)
        o.pos = base + off
        return o.pos

    def close(self, fd):
        a = self.w.cur
        try:
            f = self.sc("close")
        except (OSError, KeyboardInterrupt, MemoryError):      # signals are handled after the call
            a.proc.fds.pop(fd, None)
            raise
        if fd not in a.proc.fds:
            raise oserr(errno.EBADF)
        # Linux releases the descriptor even when close() reports an error
        a.proc.fds.pop(fd)
        self.w.after(f)

    def fsync(self, fd, name="fsync"):
        f = self.sc(name)
        i = self.ofd(fd).inode
        if i.kind == "f":
            i.durable, i.dirty = i.data, False
        elif i.kind == "d":
            ents = self.base
            for group in self.journal:
                for d, nm, ino in group:
                    e = ents.setdefault(d, {})
                    if ino is None:
                        e.pop(nm, None)
                    else:
                        e[nm] = ino
            self.journal = []
            self.durable_meta = 0
        self.w.after(f)

    def ftruncate(self, fd, n):
        f = self.sc("ftruncate")
        o = self.ofd(fd)
        self._trunc(o.inode, n)
        self.w.after(f)

    def truncate(self, path, n):
        f = self.sc("ftruncate", norm_info(path))
        self._trunc(self.resolve(path), n)
        self.w.after(f)

    def _trunc(self, i, n):
        i.data = i.data[:n] + b"\0" * (n - len(i.data))
        i.dirty = True
        self.changed()

    def _stat(self, i):
        mode = i.mode | {"f": st.S_IFREG, "d": st.S_IFDIR, "l": st.S_IFLNK}[i.kind]
        return os.stat_result((mode, i.ino, i.dev, i.nlink, 0, 0, len(i.data) if i.kind == "f" else 0, 0, 0, 0))

    def stat(self, path, follow=True):
        f = self.sc("stat" if follow else "lstat", norm_info(path))
        r = self._stat(self.ofd(path).inode if isinstance(path, int) else self.resolve(path, follow))
        self.w.after(f)
        return r

    def fstat(self, fd):
        return self._stat(self.ofd(fd).inode)

    def access(self, path, mode=0):
        self.sc("access", norm_info(path))
        try:
            self.resolve(path)
            return True
        except OSError:
            return False

    def mkdir(self, path, mode=0o777):
        f = self.sc("mkdir", norm_info(path))
        d, name, n = self.lookup(path.rstrip("/") or "/" if path else path, follow=False)
        if n is not None:
            raise oserr(errno.EEXIST, path)
        x = self.new("d", mode & ~self.umask)
        x.dev = d.dev
        self.set_entries((d, name, x.ino))
        self.w.after(f)

    def rmdir(self, path):
        f = self.sc("rmdir", norm_info(path))
        d, name, n = self.lookup(path, follow=False)
        if n is None:
            raise oserr(errno.ENOENT, path)
        if n.kind != "d":
            raise oserr(errno.ENOTDIR, path)
        if n.entries:
            raise oserr(errno.ENOTEMPTY, path)
        n.nlink = 0
        self.set_entries((d, name, None))
        self.w.after(f)

    def rename(self, src, dst, name="rename"):
        f = self.sc(name, (norm_info(src), norm_info(dst)))
        sd, sn, s = self.lookup(src, follow=False)
        if s is None:
            raise oserr(errno.ENOENT, src, dst)
        dd, dn, d = self.lookup(dst, follow=False)
        if sd.dev != dd.dev:
            raise oserr(errno.EXDEV, src, dst)
        if d is not None:
            if d.kind == "d" and s.kind != "d":
                raise oserr(errno.EISDIR, src, dst)
            if s.kind == "d" and d.kind != "d":
                raise oserr(errno.ENOTDIR, src, dst)
            if d.kind == "d" and d.entries:
                raise oserr(errno.ENOTEMPTY, src, dst)
        if d is not s:
            self.set_entries((sd, sn, None), (dd, dn, s.ino))
        self.w.after(f)

    def unlink(self, path):
        f = self.sc("unlink", norm_info(path))
        d, name, n = self.lookup(path, follow=False)
        if n is None:
            raise oserr(errno.ENOENT, path)
        if n.kind == "d":
            raise oserr(errno.EISDIR, path)
        self.set_entries((d, name, None))
        self.w.after(f)

    def link(self, src, dst):
        f = self.sc("link", (norm_info(src), norm_info(dst)))
        n = self.resolve(src, follow=False)
        d, name, x = self.lookup(dst, follow=False)
        if x is not None:
            raise oserr(errno.EEXIST, src, dst)
        if n.dev != d.dev:
            raise oserr(errno.EXDEV, src, dst)
        self.set_entries((d, name, n.ino))
        self.w.after(f)

    def symlink(self, target, path):
        f = self.sc("symlink", norm_info(path))
        d, name, x = self.lookup(path, follow=False)
        if x is not None:
            raise oserr(errno.EEXIST, target, path)
        n = self.new("l", 0o777)
        n.target = target
        self.set_entries((d, name, n.ino))
        self.w.after(f)

    def put_link(self, path, target):
        self._mkdir_p(os.path.dirname(self.norm(path)) or "/")
        d, name, x = self.lookup(path, follow=False)
        n = self.new("l", 0o777)
        n.target = target
        d.entries[name] = n.ino

    def path_key(self, path):
        """Harness: the path the file has in tree(), links resolved."""
        try:
            _, _, n = self.lookup(path, follow=True)
        except OSError:
            n = None
        if n is not None:
            for p, ino in self.files():
                if ino == n.ino:
                    return p
        try:
            d, name, _ = self.lookup(path, follow=False)
            return self.path_of(d) + "/" + name
        except OSError:
            return os.path.normpath(self.norm(path))

    def files(self):
        def walk(d, p):
            for n, ino in sorted(d.entries.items()):
                yield p + "/" + n, ino
                if self.inodes[ino].kind == "d":
                    yield from walk(self.inodes[ino], p + "/" + n)
        return walk(self.root, "")

    def readlink(self, path):
        self.sc("readlink", norm_info(path))
        n = self.resolve(path, follow=False)
        if n.kind != "l":
            raise oserr(errno.EINVAL, path)
        return n.target

    def listdir(self, path="."):
        self.sc("listdir", norm_info(path))
        n = self.resolve(path)
        if n.kind != "d":
            raise oserr(errno.ENOTDIR, path)
        return list(n.entries)

    def chmod(self, path, mode, follow=True):
        f = self.sc("chmod", mode)
        i = self.ofd(path).inode if isinstance(path, int) else self.resolve(path, follow)
        i.mode = mode & 0o7777
        self.w.after(f)

    def dup_path_exists(self, path):
        try:
            self.resolve(path)
            return True
        except OSError:
            return False


class SimDirEntry:
    def __init__(self, fs, base, name):
        self.fs, self.name = fs, name
        self.path = os.path.join(base, name)

    def is_dir(self, follow_symlinks=True):
        return self.fs.resolve(self.path, follow_symlinks).kind == "d"

    def is_file(self, follow_symlinks=True):
        return self.fs.resolve(self.path, follow_symlinks).kind == "f"

    def is_symlink(self):
        return self.fs.resolve(self.path, False).kind == "l"

    def stat(self, follow_symlinks=True):
        return self.fs._stat(self.fs.resolve(self.path, follow_symlinks))

    def inode(self):
        return self.fs.resolve(self.path, False).ino

    def __fspath__(self):
        return self.path


class _ScanDir(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


_HEX = frozenset("0123456789")


def norm_info(path):
    """Paths in the event log: digits runs of temporary names (pid, thread id, random) are not logged."""
    if not isinstance(path, str):
        return path
    return path


class SimRaw(io.RawIOBase):
    """Raw file object over a simulated descriptor (like FileIO)."""

    def __init__(self, fs, fd, flags, name, mode, proc, closefd=True):
        self._fs, self._fd, self._flags, self.name, self._m, self._proc = fs, fd, flags, name, mode, proc
        self._closefd = closefd
        self._gone = False

    @property
    def mode(self):
        return self._m

    def _check(self):
        if self._proc.dead or K.W is None or K.W.cur is None:
            raise SimCrash

    def readable(self):
        return self._flags & O_ACCMODE != os.O_WRONLY

    def writable(self):
        return self._flags & O_ACCMODE != os.O_RDONLY

    def seekable(self):
        return True

    def fileno(self):
        if self._gone:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        self._check()
        d = self._fs.read(self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        self._check()
        out = []
        n = self._fs.w.knobs.get("bufsz") or 8192
        while True:
            d = self._fs.read(self._fd, n)
            if not d:
                break
            out.append(d)
        return b"".join(out)

    def write(self, b):
        self._check()
        return self._fs.write(self._fd, bytes(b))

    def seek(self, off, how=0):
        self._check()
        return self._fs.lseek(self._fd, off, how)

    def tell(self):
        self._check()
        return self._fs.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        self._check()
        self._fs.ftruncate(self._fd, self.tell() if size is None else size)
        return size

    def close(self):
        if self.closed:
            return
        super().close()
        if self._gone:
            return
        self._gone = True
        if not self._closefd:
            return
        if self._proc.dead or K.W is None or K.W.cur is None:
            return
        self._fs.close(self._fd)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = K.W.fs
    a = K.W.cur
    if isinstance(file, int):
        if file < 1000000:
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        file = os.fspath(file)
        if isinstance(file, bytes):
            file = os.fsdecode(file)
        if "\0" in file:
            raise ValueError("embedded null byte")
        if is_real(file):
            if any(c in mode for c in "wax+"):
                raise oserr(errno.EACCES, file)
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = set(mode)
    if len(m) != len(mode) or m - set("rwxabt+") or ("t" in m and "b" in m) or len(m & set("rwxa")) != 1:
        raise ValueError("invalid mode: %r" % mode)
    upd, binary = "+" in m, "b" in m
    if binary and (encoding or errors or newline is not None):
        raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
    if encoding == "locale" or (encoding is None and not binary):
        encoding = a.proc.enc
    flags = os.O_RDWR if upd else (os.O_RDONLY if "r" in m else os.O_WRONLY)
    if "w" in m:
        flags |= os.O_CREAT | os.O_TRUNC
    elif "x" in m:
        flags |= os.O_CREAT | os.O_EXCL
    elif "a" in m:
        flags |= os.O_CREAT | os.O_APPEND
    if isinstance(file, int):
        fd = file
        fs.ofd(fd)
    elif opener is not None:
        fd = opener(file, flags | getattr(os, "O_CLOEXEC", 0))
    else:
        fd = fs.open(file, flags, 0o666)
    if fs.ofd(fd).inode.kind == "d":
        if closefd:
            a.proc.fds.pop(fd, None)
        raise oserr(errno.EISDIR, file)
    raw = SimRaw(fs, fd, flags, file, mode, a.proc, closefd)
    if "a" in m:
        fs.lseek(fd, 0, 2)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    knob = K.W.knobs.get("bufsz") or 8192
    size = buffering if buffering > 1 else knob
    if upd:
        buf = io.BufferedRandom(raw, size)
    elif "r" in m:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    try:
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
    except BaseException:
        buf.close()
        raise
    t._CHUNK_SIZE = max(1, min(8192, knob))
    t.mode = mode
    return t


def is_real(path):
    return isinstance(path, str) and path.startswith(REAL_PREFIXES)


class Stdout:
    """sys.stdout/sys.stderr of the simulated processes; passes through for the harness itself."""

    def __init__(self, real, err=False):
        self._real, self._err = real, err

    def _actor(self):
        w = K.W
        a = w.cur if w is not None else None
        return a if a is not None and a.in_lib else None

    @property
    def encoding(self):
        a = self._actor()
        return a.proc.out if a is not None else "utf-8"

    @property
    def errors(self):
        return "backslashreplace" if self._err else "strict"

    @property
    def buffer(self):
        return _StdBuf(self)

    def write(self, s):
        a = self._actor()
        if a is None:
            return self._real.write(s)
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        if not self._err:
            b = s.encode(a.proc.out)
            f = K.W.point("stdout")
            a.proc.printed.append(s)
            K.W.after(f)
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        a = self._actor()
        if a is None:
            self._real.flush()

    def isatty(self):
        return False

    def writable(self):
        return True

    def readable(self):
        return False

    def fileno(self):
        if self._actor() is None:
            return self._real.fileno()
        raise io.UnsupportedOperation("fileno")

    @property
    def closed(self):
        return False

    def __getattr__(self, name):
        return getattr(self._real, name)


class _StdBuf:
    def __init__(self, t):
        self.t = t

    def write(self, b):
        a = self.t._actor()
        if a is None:
            return self.t._real.buffer.write(b)
        if not self.t._err:
            f = K.W.point("stdout")
            a.proc.printed.append(bytes(b).decode("utf-8", "backslashreplace"))
            K.W.after(f)
        return len(b)

    def flush(self):
        pass


_installed = False


def install():
    """Put the seams in place (once per OS process, before any library code is loaded)."""
    global _installed
    if _installed:
        return
    _installed = True
    REAL.update(open=builtins.open, pipe=os.pipe, read=os.read, write=os.write, close=os.close,
                monotonic=time.monotonic, allocate_lock=_thread.allocate_lock, getpid=os.getpid)

    def cur():
        w = K.W
        if w is None:
            return None
        a = w.cur
        return a if a is not None and a.in_lib else None

    real_open = builtins.open

    def open_(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if cur() is None:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        return sim_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    open_.__name__ = "open"
    builtins.open = open_
    io.open = open_
    _io.open = open_

    def simpath(p):
        p = os.fspath(p)
        return os.fsdecode(p) if isinstance(p, bytes) else p

    def patch(name, sim, npath=1):
        real = getattr(os, name, None)
        if real is None:
            return

        def wrapper(*args, **kw):
            if cur() is None:
                return real(*args, **kw)
            if kw.get("dir_fd") is not None or kw.get("src_dir_fd") is not None or kw.get("dst_dir_fd") is not None:
                raise NotImplementedError("dir_fd in simulation")
            return sim(real, *args, **{k: v for k, v in kw.items() if not k.endswith("dir_fd")})
        wrapper.__name__ = name
        setattr(os, name, wrapper)

    def fdok(fd):
        return isinstance(fd, int) and fd >= 1000000

    F = lambda: K.W.fs

    def s_open(real, path, flags, mode=0o777):
        p = simpath(path)
        if is_real(p):
            if flags & (os.O_CREAT | os.O_TRUNC) or flags & O_ACCMODE != os.O_RDONLY:
                raise oserr(errno.EACCES, p)
            return real(path, flags, mode)
        return F().open(p, flags, mode)
    patch("open", s_open)
    patch("read", lambda real, fd, n: F().read(fd, n) if fdok(fd) else real(fd, n))
    patch("write", lambda real, fd, b: F().write(fd, b) if fdok(fd) else real(fd, b))
    patch("close", lambda real, fd: F().close(fd) if fdok(fd) else real(fd))
    patch("lseek", lambda real, fd, o, h: F().lseek(fd, o, h) if fdok(fd) else real(fd, o, h))
    patch("fsync", lambda real, fd: F().fsync(fileno(fd)) if fdok(fileno(fd)) else real(fd))
    patch("fdatasync", lambda real, fd: F().fsync(fileno(fd), "fdatasync") if fdok(fileno(fd)) else real(fd))
    patch("sync", lambda real: sync_all())
    patch("fstat", lambda real, fd: F().fstat(fd) if fdok(fd) else real(fd))
    patch("ftruncate", lambda real, fd, n: F().ftruncate(fd, n) if fdok(fd) else real(fd, n))
    patch("isatty", lambda real, fd: False if fdok(fd) else real(fd))
    patch("set_inheritable", lambda real, fd, v: None if fdok(fd) else real(fd, v))
    patch("get_inheritable", lambda real, fd: False if fdok(fd) else real(fd))
    patch("get_blocking", lambda real, fd: True if fdok(fd) else real(fd))
    patch("posix_fallocate", lambda real, fd, o, n: None if fdok(fd) else real(fd, o, n))
    patch("posix_fadvise", lambda real, fd, *x: None if fdok(fd) else real(fd, *x))
    patch("fchmod", lambda real, fd, m: F().chmod(fd, m) if fdok(fd) else real(fd, m))
    patch("fchown", lambda real, fd, u, g: None if fdok(fd) else real(fd, u, g))

    def pwrite(real, fd, b, off):
        if not fdok(fd):
            return real(fd, b, off)
        fs = F()
        o = fs.ofd(fd)
        save, o.pos = o.pos, off
        try:
            return fs.write(fd, b)
        finally:
            o.pos = save

    def pread(real, fd, n, off):
        if not fdok(fd):
            return real(fd, n, off)
        fs = F()
        o = fs.ofd(fd)
        save, o.pos = o.pos, off
        try:
            return fs.read(fd, n)
        finally:
            o.pos = save
    patch("pwrite", pwrite)
    patch("pread", pread)
    patch("writev", lambda real, fd, bs: F().write(fd, b"".join(bytes(x) for x in bs)) if fdok(fd) else real(fd, bs))

    def fileno(f):
        return f if isinstance(f, int) else f.fileno()

    def sync_all():
        fs = F()
        fs.sc("fsync")
        fs.settle()

    def one(meth, write=False, fdable=False):
        def f(real, path=".", *args, **kw):
            if isinstance(path, int):
                if not fdok(path):
                    return real(path, *args, **kw)
                if not fdable:
                    raise TypeError("path should be string")
                return meth(path, *args, **kw)
            p = simpath(path)
            if is_real(p):
                if write:
                    raise oserr(errno.EACCES, p)
                return real(path, *args, **kw)
            return meth(p, *args, **kw)
        return f

    patch("stat", one(lambda p, follow_symlinks=True: F().stat(p, follow_symlinks), fdable=True))
    patch("lstat", one(lambda p: F().stat(p, False)))
    patch("access", one(lambda p, mode, effective_ids=False, follow_symlinks=True: F().access(p, mode)))
    patch("mkdir", one(lambda p, mode=0o777: F().mkdir(p, mode), write=True))
    patch("rmdir", one(lambda p: F().rmdir(p), write=True))
    patch("unlink", one(lambda p: F().unlink(p), write=True))
    patch("remove", one(lambda p: F().unlink(p), write=True))
    patch("truncate", one(lambda p, n: F().truncate(p, n) if isinstance(p, str) else F().ftruncate(p, n), write=True,
                          fdable=True))
    patch("chmod", one(lambda p, mode, follow_symlinks=True: F().chmod(p, mode), write=True, fdable=True))
    patch("chown", one(lambda p, *x, **k: None, write=True, fdable=True))
    patch("utime", one(lambda p, *x, **k: None, write=True, fdable=True))
    patch("readlink", one(lambda p: F().readlink(p)))
    patch("listdir", one(lambda p: F().listdir(p)))
    patch("scandir", one(lambda p: _ScanDir(SimDirEntry(F(), p, n) for n in F().listdir(p))))
    patch("listxattr", one(lambda p, follow_symlinks=True: [], fdable=True))
    patch("statvfs", one(lambda p: os.statvfs_result((4096, 4096, 1 << 20, 1 << 20, 1 << 20, 1 << 20, 1 << 20, 1 << 20,
                                                      0, 255)), fdable=True))

    def two(meth):
        def f(real, src, dst, **kw):
            s, d = simpath(src), simpath(dst)
            if is_real(s) or is_real(d):
                raise oserr(errno.EACCES, s, d)
            return meth(s, d)
        return f
    patch("rename", two(lambda s, d: F().rename(s, d)))
    patch("replace", two(lambda s, d: F().rename(s, d, "replace")))
    patch("link", two(lambda s, d: F().link(s, d)))

    def s_symlink(real, src, dst, target_is_directory=False):
        return F().symlink(simpath(src), simpath(dst))
    patch("symlink", s_symlink)
    patch("getcwd", lambda real: F().cwd)
    patch("getcwdb", lambda real: os.fsencode(F().cwd))

    import locale

    def patch_locale(name, sim):
        real = getattr(locale, name, None)

        def wrapper(*args, **kw):
            a = cur()
            return real(*args, **kw) if a is None else sim(a)
        if real is not None:
            setattr(locale, name, wrapper)
    patch_locale("getpreferredencoding", lambda a: a.proc.enc)
    patch_locale("getencoding", lambda a: a.proc.enc)
    patch_locale("getlocale", lambda a: ("en_US", a.proc.enc))

    def s_chdir(real, p):
        raise oserr(errno.EACCES, p)
    patch("chdir", s_chdir)

    def s_sendfile(real, *a, **k):
        raise oserr(errno.ENOTSOCK)
    patch("sendfile", s_sendfile)
    patch("copy_file_range", lambda real, *a, **k: (_ for _ in ()).throw(oserr(errno.ENOSYS)))
    patch("umask", lambda real, m: swap_umask(m))

    def swap_umask(m):
        fs = F()
        old, fs.umask = fs.umask, m
        return old
    patch("getpid", lambda real: K.W.cur.proc.pid)

    def s_urandom(real, n):
        p = K.W.cur.proc
        p.urandom += 1
        return random.Random("%d:%d" % (p.pid, p.urandom)).randbytes(n)
    patch("urandom", s_urandom)
    random._urandom = os.urandom
    try:
        import fcntl
        rf, rl = fcntl.flock, fcntl.lockf
        fcntl.flock = lambda fd, op: None if cur() is not None and fdok(fileno(fd)) else rf(fd, op)
        fcntl.lockf = lambda fd, *a: None if cur() is not None and fdok(fileno(fd)) else rl(fd, *a)
    except ImportError:
        pass

    # temporary names: deterministic, but different in every process
    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            w = K.W
            w.nrand += 1
            return "t%04dx%d" % (w.nrand, w.cur.proc.pid if w.cur else 0)
    real_names = tempfile._get_candidate_names
    tempfile._get_candidate_names = lambda: Names() if cur() is not None else real_names()
    tempfile.tempdir = "/tmp"
    tempfile._os = os
    tempfile._io = _io

    # clocks and sleeping: simulated, one microsecond per step
    def clock(name, scale):
        real = getattr(time, name)

        def f():
            return real() if cur() is None else scale(K.W.steps)
        setattr(time, name, f)
    clock("time", lambda s: 1.6e9 + s * 1e-6)
    clock("time_ns", lambda s: int(1.6e18) + s * 1000)
    for n in ("monotonic", "perf_counter"):
        clock(n, lambda s: 1000.0 + s * 1e-6)
    for n in ("monotonic_ns", "perf_counter_ns"):
        clock(n, lambda s: 10 ** 12 + s * 1000)
    rsleep = time.sleep
    time.sleep = lambda s: rsleep(s) if cur() is None else K.W.point("sleep", sysc=True)

    # thread identity and locks made by library code
    rident = threading.get_ident

    def get_ident():
        a = cur()
        if a is not None and sys._getframe(1).f_globals.get("__name__", "").startswith(K.LIB):
            return a.ident()
        return rident()
    threading.get_ident = get_ident
    if hasattr(threading, "get_native_id"):
        rnat = threading.get_native_id
        threading.get_native_id = lambda: 9000 + cur().idx if cur() is not None else rnat()
    rlock, rrlock = threading.Lock, threading.RLock

    def lib_caller():
        w = K.W
        return (w is not None and (w.loading or cur() is not None)
                and sys._getframe(2).f_globals.get("__name__", "").startswith(K.LIB))
    threading.Lock = lambda: K.SimLock() if lib_caller() else rlock()
    threading.RLock = lambda: K.SimLock(True) if lib_caller() else rrlock()

    # allocation-heavy call: a named fault point
    rdeep = copy.deepcopy

    def deepcopy(x, memo=None, _nil=[]):
        a = cur()
        if a is not None and memo is None and sys._getframe(1).f_globals.get("__name__", "").startswith(K.LIB):
            f = K.W.point("deepcopy")
            r = rdeep(x)
            K.W.after(f)
            return r
        return rdeep(x, memo)
    copy.deepcopy = deepcopy

    sys.stdout = Stdout(sys.stdout)
    sys.stderr = Stdout(sys.stderr, err=True)
    sys.unraisablehook = lambda *a: None
