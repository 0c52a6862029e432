"""In-memory operating system: files, directories, symbolic links, a clock,
temporary directories and a scripted subprocess.  Used both under symbolic
execution and in replay, so nothing the code under test does can reach the
real file system."""

from __future__ import annotations

import collections.abc
import errno
import os
import stat as statmod
import types

from . import core, strs
from .conts import SymDict
from .core import Unsupported, decide
from .strs import SymBytes, SymStr


class Node:
    __slots__ = ("kind", "children", "data", "target", "mtime", "ino", "parent", "name")

    def __init__(self, kind, ino, parent, name, mtime):
        self.kind = kind          # 'd' 'f' 'l'
        self.children = SymDict() if kind == 'd' else None
        self.data = b"" if kind == 'f' else None
        self.target = None
        self.mtime = mtime
        self.ino = ino
        self.parent = parent
        self.name = name

    def where(self):
        parts = []
        n = self
        while n.parent is not None:
            parts.append(n.name)
            n = n.parent
        return strs.join("/", [""] + parts[::-1]) if parts else "/"


class StatResult:
    def __init__(self, node):
        self.st_mode = {'d': statmod.S_IFDIR | 0o755, 'f': statmod.S_IFREG | 0o644, 'l': statmod.S_IFLNK | 0o777}[node.kind]
        self.st_mtime_ns = node.mtime
        self.st_mtime = node.mtime / 1e9 if isinstance(node.mtime, int) else node.mtime
        self.st_ctime_ns = self.st_atime_ns = node.mtime
        self.st_ctime = self.st_atime = self.st_mtime
        self.st_ino = node.ino
        self.st_dev = 1
        self.st_nlink = 1
        self.st_uid = self.st_gid = 0
        if node.kind == 'f':
            self.st_size = node.data.symlen() if isinstance(node.data, SymBytes) else len(node.data)
        else:
            self.st_size = 0


class Entry:
    def __init__(self, world, dirpath, node):
        self._w = world
        self._n = node
        self.name = node.name
        self.path = strs.join("", [dirpath if _ends_slash(dirpath) else dirpath + "/", node.name])

    def is_symlink(self):
        return self._n.kind == 'l'

    def _target(self, follow):
        if self._n.kind == 'l' and follow:
            try:
                return self._w.lookup(self.path, follow=True)
            except OSError:
                return None
        return self._n

    def is_dir(self, *, follow_symlinks=True):
        t = self._target(follow_symlinks)
        return t is not None and t.kind == 'd'

    def is_file(self, *, follow_symlinks=True):
        t = self._target(follow_symlinks)
        return t is not None and t.kind == 'f'

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self._w.stat(self.path, follow_symlinks=follow_symlinks)

    def inode(self):
        return self._n.ino

    def __fspath__(self):
        return self.path


def _ends_slash(s):
    return bool(len(s)) and bool(s[-1:] == "/")


class ScanDir:
    def __init__(self, it):
        self._it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class FakeFile:
    def __init__(self, world, node, mode, encoding, errors, newline):
        self.w, self.n, self.mode = world, node, mode
        self.binary = "b" in mode
        enc = encoding
        if enc in (None, "locale"):
            enc = "utf-8"
        self.encoding, self.errors, self.newline = enc, errors or "strict", newline
        self.closed = False
        self.pos = 0
        self._text = None
        self.fd = None
        self.name = node.name

    def _load(self):
        if self._text is not None:
            return self._text
        d = self.n.data
        if self.binary:
            self._text = d
            return d
        if isinstance(d, SymBytes):
            t = d.decode(self.encoding, self.errors)
        else:
            t = bytes(d).decode(self.encoding, self.errors)
        if self.newline is None:
            t = universal(t)
        self._text = t
        return t

    def read(self, n=-1):
        t = self._load()
        self.w.touch_log("read", self.n)
        if n is None or n < 0:
            r = t[self.pos:] if self.pos else t
            self.pos = len(t)
        else:
            r = t[self.pos:self.pos + n]
            self.pos += len(r)
        return r

    def readlines(self, hint=-1):
        t = self.read()
        if not self.binary and not bool(_contains(t, "\r")):
            parts = t.split("\n")
            out = [strs.join("", [x, "\n"]) for x in parts[:-1]]
            if len(parts[-1]):
                out.append(parts[-1])
            return out
        if self.binary:
            raise Unsupported("lines of a binary file")
        if self.newline is None:
            return t.splitlines(True)
        raise Unsupported("lines with carriage returns")

    def readline(self, size=-1):
        rest = self.readlines()
        if not rest:
            return self._load()[:0]
        self.pos -= sum(len(x) for x in rest[1:])
        return rest[0]

    def __iter__(self):
        return iter(self.readlines())

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def readable(self):
        return "r" in self.mode

    def writable(self):
        return "r" not in self.mode

    def seekable(self):
        return True

    def tell(self):
        if "r" in self.mode:
            return self.pos
        raise Unsupported("tell while writing")

    def seek(self, pos, whence=0):
        if "r" in self.mode and whence == 0:
            self.pos = pos
            return pos
        raise Unsupported("seek")

    def truncate(self, size=None):
        if "r" not in self.mode and size is None or size == 0:
            if size == 0:
                self.n.data = b""
            return size or 0
        raise Unsupported("truncate")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("file." + name)

    def write(self, data):
        if self.binary:
            if not isinstance(data, (bytes, bytearray, memoryview, SymBytes)):
                raise TypeError(f"a bytes-like object is required, not '{type(data).__name__}'")
            b = bytes(data) if isinstance(data, (bytearray, memoryview)) else data
            n = len(data)
        else:
            if not isinstance(data, (str, SymStr)):
                raise TypeError(f"write() argument must be str, not {type(data).__name__}")
            b = data.encode(self.encoding, self.errors)
            n = len(data)
        self.w.fault("write", self.n)
        if isinstance(self.n.data, bytes) and not self.n.data:
            self.n.data = b
        else:
            self.n.data = self.n.data + b
        self.n.mtime = self.w.tick()
        self.w.touch_log("write", self.n)
        return n

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def fileno(self):
        if self.fd is None:
            self.fd = self.w.new_fd(self)
        return self.fd

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def universal(t):
    if isinstance(t, str):
        return t.replace("\r\n", "\n").replace("\r", "\n")
    if not isinstance(t, SymStr):
        return t
    return t.replace("\r\n", "\n").replace("\r", "\n")


class Completed:
    def __init__(self, args, returncode=0, stdout="", stderr=""):
        self.args, self.returncode, self.stdout, self.stderr = args, returncode, stdout, stderr

    def check_returncode(self):
        if self.returncode:
            import subprocess
            raise subprocess.CalledProcessError(self.returncode, self.args, self.stdout, self.stderr)


def _err(code, path):
    cls = {errno.ENOENT: FileNotFoundError, errno.EEXIST: FileExistsError, errno.ENOTDIR: NotADirectoryError,
           errno.EISDIR: IsADirectoryError, errno.EACCES: PermissionError}.get(code, OSError)
    return cls(code, os.strerror(code), path)


class World:
    def __init__(self):
        self.reset()

    def reset(self):
        self.now = 1_700_000_000_000_000_000
        self.inos = 1
        self.root = Node('d', 1, None, "", self.now)
        self.cwd = "/work"
        self.log = []
        self.handler = None
        self.tmpn = 0
        self.fds = {}
        self.faults = None
        self.environ = {"PATH": "/bin"}
        for p in ("/work", "/tmp", "/etc", "/home"):
            self.mkdir(p)
        self.log = []

    # -- clock ---------------------------------------------------------------
    def tick(self):
        self.now += 1_000_000_000
        return self.now

    def time(self):
        self.now += 1_000_000
        return self.now / 1e9

    def time_ns(self):
        self.now += 1_000_000
        return self.now

    def touch_log(self, op, node):
        self.log.append((op, node))

    def fault(self, op, node):
        if self.faults is not None:
            self.faults(op, node)

    # -- lookup --------------------------------------------------------------
    @staticmethod
    def fspath(p):
        from .rt import sx_fspath
        return sx_fspath(p)

    def _abs(self, p):
        p = self.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if bool(_contains(p, "\0")):
            raise ValueError("embedded null byte")
        if len(p) == 0:
            raise _err(errno.ENOENT, p)
        if not bool(p[:1] == "/"):
            p = strs.join("", [self.cwd, "/", p])
        return p

    def _walk(self, p, follow, depth=0):
        """-> (parent, name, node or None)"""
        orig = p
        p = self._abs(p)
        parts = [x for x in p.split("/")]
        cur = self.root
        parent, name = None, ""
        trailing = len(parts) > 1 and len(parts[-1]) == 0
        parts = [x for x in parts if len(x)]
        i = 0
        n = len(parts)
        if n == 0:
            return None, "", self.root
        while i < n:
            part = parts[i]
            i += 1
            last = i == n
            if cur is None:
                raise _err(errno.ENOENT, orig)
            if cur.kind != 'd':
                raise _err(errno.ENOTDIR, orig)
            if bool(part == "."):
                parent, name = cur.parent, cur.name
                continue
            if bool(part == ".."):
                cur = cur.parent or cur
                parent, name = cur.parent, cur.name
                continue
            child = cur.children.get(part)
            parent, name = cur, part
            if child is None:
                if last:
                    return parent, name, None
                raise _err(errno.ENOENT, orig)
            if child.kind == 'l' and (not last or follow or trailing):
                if depth > 20:
                    raise _err(errno.ELOOP, orig)
                t = child.target
                if not bool(t[:1] == "/"):
                    t = strs.join("", [cur.where(), "/", t])
                rest = parts[i:]
                if rest:
                    t = strs.join("/", [t] + rest)
                return self._walk(t, follow, depth + 1)
            cur = child
        if parent is None:
            return None, "", cur
        return parent, name, cur

    def lookup(self, p, follow=True):
        _, _, node = self._walk(p, follow)
        if node is None:
            raise _err(errno.ENOENT, p)
        return node

    def _add(self, parent, name, kind):
        self.inos += 1
        n = Node(kind, self.inos, parent, name, self.tick())
        parent.children[name] = n
        parent.mtime = n.mtime
        return n

    # -- os functions ----------------------------------------------------------
    def stat(self, p, *, dir_fd=None, follow_symlinks=True):
        if isinstance(p, int):
            raise Unsupported("stat(fd)")
        n = self.lookup(p, follow_symlinks)
        self.touch_log("stat", n)
        return StatResult(n)

    def lstat(self, p, *, dir_fd=None):
        n = self.lookup(p, False)
        return StatResult(n)

    def mkdir(self, p, mode=0o777, *, dir_fd=None):
        parent, name, node = self._walk(p, False)
        if node is not None:
            raise _err(errno.EEXIST, p)
        n = self._add(parent, name, 'd')
        self.touch_log("mkdir", n)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        p = self._abs(p)
        parts = [x for x in p.split("/") if len(x)]
        cur = ""
        for i, part in enumerate(parts):
            cur = strs.join("/", [cur, part])
            try:
                self.mkdir(cur)
            except FileExistsError:
                if i == len(parts) - 1 and (not exist_ok or self.lookup(cur).kind != 'd'):
                    raise

    def readlink(self, p, *, dir_fd=None):
        n = self.lookup(p, False)
        if n.kind != 'l':
            raise _err(errno.EINVAL, p)
        return n.target

    def symlink(self, target, p, target_is_directory=False, *, dir_fd=None):
        parent, name, node = self._walk(p, False)
        if node is not None:
            raise _err(errno.EEXIST, p)
        n = self._add(parent, name, 'l')
        n.target = self.fspath(target)
        self.touch_log("symlink", n)

    def unlink(self, p, *, dir_fd=None):
        parent, name, node = self._walk(p, False)
        if node is None:
            raise _err(errno.ENOENT, p)
        if node.kind == 'd':
            raise _err(errno.EISDIR, p)
        self.fault("unlink", node)
        self.touch_log("unlink", node)
        del parent.children[name]
        parent.mtime = self.tick()

    def rmdir(self, p, *, dir_fd=None):
        parent, name, node = self._walk(p, False)
        if node is None:
            raise _err(errno.ENOENT, p)
        if node.kind != 'd':
            raise _err(errno.ENOTDIR, p)
        if len(node.children):
            raise _err(errno.ENOTEMPTY, p)
        self.touch_log("rmdir", node)
        del parent.children[name]

    def rename(self, a, b, **k):
        pa, na, node = self._walk(a, False)
        if node is None:
            raise _err(errno.ENOENT, a)
        pb, nb, old = self._walk(b, False)
        if old is node:
            return
        if old is not None:
            if old.kind == 'd':
                if node.kind != 'd':
                    raise _err(errno.EISDIR, b)
                if len(old.children):
                    raise _err(errno.ENOTEMPTY, b)
            elif node.kind == 'd':
                raise _err(errno.ENOTDIR, b)
            del pb.children[nb]
        self.touch_log("rename", node)
        del pa.children[na]
        node.parent, node.name = pb, nb
        pb.children[nb] = node
        self.touch_log("rename", node)

    def scandir(self, p="."):
        n = self.lookup(p, True)
        if n.kind != 'd':
            raise _err(errno.ENOTDIR, p)
        self.touch_log("scandir", n)
        d = self.fspath(p)
        return ScanDir([Entry(self, d, c) for c in list(n.children.values())])

    def listdir(self, p="."):
        n = self.lookup(p, True)
        if n.kind != 'd':
            raise _err(errno.ENOTDIR, p)
        self.touch_log("scandir", n)
        return list(n.children.keys())

    def walk(self, top, topdown=True, onerror=None, followlinks=False):
        top = self.fspath(top)
        dirs, files = [], []
        try:
            entries = list(self.scandir(top))
        except OSError as e:
            if onerror is not None:
                onerror(e)
            return
        for e in entries:
            (dirs if e.is_dir() else files).append(e.name)
        if topdown:
            yield top, dirs, files
        for d in dirs:
            np = strs.join("/", [top, d])
            if followlinks or self.lookup(np, False).kind != 'l':
                yield from self.walk(np, topdown, onerror, followlinks)
        if not topdown:
            yield top, dirs, files

    def utime(self, p, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        n = self.lookup(p, follow_symlinks)
        if ns is not None:
            n.mtime = ns[1]
        elif times is not None:
            n.mtime = int(times[1] * 1e9)
        else:
            n.mtime = self.tick()

    def _chdir(self, p):
        n = self.lookup(p)
        if n.kind != 'd':
            raise _err(errno.ENOTDIR, p)
        self.cwd = n.where()

    def access(self, p, mode, **k):
        try:
            self.lookup(p)
            return True
        except OSError:
            return False

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            return self.fdopen(file, mode, buffering, encoding, errors, newline)
        if "+" in mode:
            raise Unsupported("open mode " + mode)
        parent, name, node = self._walk(file, True)
        if "r" in mode:
            if node is None:
                raise _err(errno.ENOENT, file)
            if node.kind == 'd':
                raise _err(errno.EISDIR, file)
            self.fault("open-read", node)
            self.touch_log("open-read", node)
            return FakeFile(self, node, mode, encoding, errors, newline)
        if node is not None and node.kind == 'd':
            raise _err(errno.EISDIR, file)
        if node is not None and "x" in mode:
            raise _err(errno.EEXIST, file)
        self.fault("open-write", node if node is not None else parent)
        if node is None:
            node = self._add(parent, name, 'f')
        if "a" not in mode:
            node.data = b""
        node.mtime = self.tick()
        self.touch_log("open-write", node)
        return FakeFile(self, node, mode, encoding, errors, newline)

    # -- descriptors -------------------------------------------------------------
    def new_fd(self, f):
        fd = 100 + len(self.fds)
        self.fds[fd] = f
        return fd

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        kind = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        if kind == os.O_RDONLY:
            f = self.open(path, "rb")
        else:
            if kind == os.O_RDWR and not flags & os.O_TRUNC and not flags & os.O_EXCL:
                raise Unsupported("os.open read/write")
            parent, name, node = self._walk(path, not flags & os.O_EXCL)
            if node is None and not flags & os.O_CREAT:
                raise _err(errno.ENOENT, path)
            if node is not None and flags & os.O_NOFOLLOW and self.lookup(path, False).kind == 'l':
                raise _err(errno.ELOOP, path)
            if node is not None and not flags & (os.O_TRUNC | os.O_APPEND | os.O_EXCL):
                raise Unsupported("os.open without truncation")
            f = self.open(path, "xb" if flags & os.O_EXCL else "ab" if flags & os.O_APPEND else "wb")
        return self.new_fd(f)

    def _fd(self, fd):
        if fd not in self.fds or self.fds[fd] is None:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return self.fds[fd]

    def fdopen(self, fd, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        f = self._fd(fd)
        g = FakeFile(self, f.n, mode if "+" not in mode else "w" + ("b" if "b" in mode else ""), encoding, errors, newline)
        g.fd = fd
        return g

    def os_write(self, fd, data):
        return self._fd(fd).write(data)

    def os_read(self, fd, n):
        return self._fd(fd).read(n)

    def os_close(self, fd):
        self._fd(fd).closed = True
        self.fds[fd] = None

    def os_functions(self):
        real = os
        keep = {}
        for k, v in vars(real).items():
            if k.startswith("__"):
                continue
            if isinstance(v, (int, str, type(None))) or isinstance(v, type) or k in (
                    "fspath", "fsencode", "fsdecode", "strerror", "urandom", "supports_follow_symlinks", "supports_fd",
                    "getuid", "geteuid", "cpu_count"):
                keep[k] = v
            elif callable(v):
                keep[k] = _unsupported("os." + k)
        keep.update(stat=self.stat, lstat=self.lstat, mkdir=self.mkdir, makedirs=self.makedirs, readlink=self.readlink,
                    symlink=self.symlink, unlink=self.unlink, remove=self.unlink, rmdir=self.rmdir, rename=self.rename,
                    replace=self.rename, scandir=self.scandir, listdir=self.listdir, walk=self.walk, utime=self.utime,
                    access=self.access, getcwd=lambda: self.cwd, environ=_Env(self), getpid=lambda: 4242,
                    fspath=os.fspath, fsync=lambda fd: None, open=self.os_open, fdopen=self.fdopen, write=self.os_write, read=self.os_read,
                    close=self.os_close, fstat=lambda fd: StatResult(self._fd(fd).n), chdir=self._chdir,
                    removedirs=_unsupported("os.removedirs"), renames=_unsupported("os.renames"), chmod=lambda *a, **k: None,
                    getenv=lambda k, d=None: self.environ.get(k, d))
        return keep

    # -- tempfile / shutil / subprocess ------------------------------------------
    def tempfile_module(self):
        w = self

        class TemporaryDirectory:
            def __init__(self, suffix=None, prefix=None, dir=None, ignore_cleanup_errors=False, **k):
                self.name = unique(suffix, prefix, dir)
                w.mkdir(self.name)

            def __enter__(self):
                return self.name

            def __exit__(self, *a):
                self.cleanup()

            def cleanup(self):
                try:
                    w.rmtree(self.name)
                except OSError:
                    pass

        def mkdtemp(suffix=None, prefix=None, dir=None):
            name = unique(suffix, prefix, dir)
            w.mkdir(name)
            return name

        def unique(suffix, prefix, dir):
            w.tmpn += 1
            return strs.join("", [w.fspath(dir) if dir is not None else "/tmp", "/", prefix or "tmp", str(w.tmpn), suffix or ""])

        def mkstemp(suffix=None, prefix=None, dir=None, text=False):
            name = unique(suffix, prefix, dir)
            return w.os_open(name, os.O_RDWR | os.O_CREAT | os.O_EXCL), name

        class NamedTemporaryFile:
            def __init__(self, mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, *, errors=None, delete_on_close=True):
                self.name = unique(suffix, prefix, dir)
                self._f = w.open(self.name, "xb" if "b" in mode else "x", -1, encoding, errors, newline)
                self._delete = delete

            def __getattr__(self, name):
                return getattr(self._f, name)

            def close(self):
                if not self._f.closed:
                    self._f.close()
                    if self._delete:
                        try:
                            w.unlink(self.name)
                        except FileNotFoundError:
                            pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def __iter__(self):
                return iter(self._f)

        m = _Module("tempfile")
        m.mkstemp = mkstemp
        m.NamedTemporaryFile = NamedTemporaryFile
        m.tempdir = None
        m.TemporaryDirectory = TemporaryDirectory
        m.mkdtemp = mkdtemp
        m.gettempdir = lambda: "/tmp"
        return m

    def rmtree(self, p, ignore_errors=False, onerror=None, **k):
        parent, name, node = self._walk(p, False)
        if node is None:
            if ignore_errors:
                return
            raise _err(errno.ENOENT, p)
        del parent.children[name]

    def _into(self, src, dst):
        """The path shutil's functions use when dst is a directory."""
        dst = self.fspath(dst)
        try:
            if self.lookup(dst).kind == 'd':
                return strs.join("/", [dst, self.lookup(src, False).name])
        except OSError:
            pass
        return dst

    def copyfile(self, src, dst, *, follow_symlinks=True):
        n = self.lookup(src)
        if n.kind == 'd':
            raise _err(errno.EISDIR, src)
        with self.open(src, "rb") as f:
            data = f.read()
        with self.open(dst, "wb") as f:
            f.write(data)
        return dst

    def copytree(self, src, dst, symlinks=False, ignore=None, copy_function=None, ignore_dangling_symlinks=False, dirs_exist_ok=False):
        if ignore is not None:
            raise Unsupported("shutil.copytree with ignore")
        self.makedirs(dst, exist_ok=dirs_exist_ok)
        for e in self.scandir(src):
            to = strs.join("/", [self.fspath(dst), e.name])
            if e.is_symlink() and symlinks:
                self.symlink(self.readlink(e.path), to)
            elif e.is_dir():
                self.copytree(e.path, to, symlinks, None, copy_function, ignore_dangling_symlinks, dirs_exist_ok)
            else:
                (copy_function or self.copyfile)(e.path, to)
        return dst

    def shutil_module(self):
        m = _Module("shutil")
        m.rmtree = self.rmtree
        m.copyfile = self.copyfile
        m.copy = m.copy2 = lambda src, dst, **k: self.copyfile(src, self._into(src, dst))
        m.copytree = self.copytree

        def move(src, dst, copy_function=None):
            to = self._into(src, dst)
            self.rename(src, to)
            return to

        def copyfileobj(a, b, length=0):
            b.write(a.read())
        m.move = move
        m.copyfileobj = copyfileobj
        m.copystat = m.copymode = lambda *a, **k: None
        m.which = lambda *a, **k: None
        return m

    def subprocess_module(self):
        import subprocess as real
        m = _Module("subprocess")
        m.PIPE, m.STDOUT, m.DEVNULL = real.PIPE, real.STDOUT, real.DEVNULL
        m.CalledProcessError = real.CalledProcessError
        m.TimeoutExpired = real.TimeoutExpired
        m.SubprocessError = real.SubprocessError
        m.CompletedProcess = Completed

        def run(args, *, cwd=None, input=None, env=None, check=False, **k):
            if self.handler is None:
                raise Unsupported("subprocess.run without a scripted host")
            r = self.handler(args, cwd, input, env)
            if check:
                r.check_returncode()
            return r
        m.run = run

        def check_output(args, *, cwd=None, input=None, env=None, **k):
            return run(args, cwd=cwd, input=input, env=env, check=True).stdout

        def call(args, *, cwd=None, env=None, **k):
            return run(args, cwd=cwd, env=env).returncode

        def check_call(args, *, cwd=None, env=None, **k):
            run(args, cwd=cwd, env=env, check=True)
            return 0

        class Popen:
            def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, **k):
                self.args, self._cwd, self._env, self._r, self.returncode = args, cwd, env, None, None
                self.pid = 4243

            def communicate(self, input=None, timeout=None):
                if self._r is None:
                    self._r = run(self.args, cwd=self._cwd, input=input, env=self._env)
                    self.returncode = self._r.returncode
                return self._r.stdout, self._r.stderr

            def wait(self, timeout=None):
                self.communicate()
                return self.returncode

            def poll(self):
                return self.wait()

            def kill(self):
                pass

            terminate = kill

            def __enter__(self):
                return self

            def __exit__(self, *a):
                if self._r is None:
                    self.wait()

            def __getattr__(self, name):
                if name.startswith("__"):
                    raise AttributeError(name)
                raise Unsupported("Popen." + name)
        m.check_output, m.call, m.check_call, m.Popen = check_output, call, check_call, Popen
        m.list2cmdline = real.list2cmdline
        return m

    # -- harness conveniences ----------------------------------------------------
    def put(self, path, text, mtime=None):
        """Create or replace a file from outside the code under test."""
        parent, name, node = self._walk(path, True)
        if node is None:
            node = self._add(parent, name, 'f')
        node.data = text if isinstance(text, (bytes, SymBytes)) else text.encode("utf-8")
        node.mtime = self.tick() if mtime is None else mtime
        return node

    def text(self, path):
        d = self.lookup(path).data
        return d.decode("utf-8")

    def tree(self, path):
        """{relative path: ('d',) | ('f', bytes) | ('l', target)}"""
        out = []

        def rec(node, rel):
            for name, c in node.children.items():
                r = strs.join("/", [rel, name]) if rel else name
                if c.kind == 'd':
                    out.append((r, 'd', None))
                    rec(c, r)
                elif c.kind == 'f':
                    out.append((r, 'f', c.data))
                else:
                    out.append((r, 'l', c.target))
        rec(self.lookup(path), "")
        return out


class _Module(types.ModuleType):
    """A stand-in module; what it lacks is not modelled."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(self.__name__ + "." + name)


class _Env(collections.abc.MutableMapping):
    def __init__(self, w):
        self._w = w

    def __getitem__(self, k):
        return self._w.environ[k]

    def __setitem__(self, k, v):
        self._w.environ[k] = v

    def __delitem__(self, k):
        del self._w.environ[k]

    def __len__(self):
        return len(self._w.environ)

    def __contains__(self, k):
        return k in self._w.environ

    def __iter__(self):
        return iter(self._w.environ)

    def copy(self):
        return SymDict(self._w.environ) if core.ENGINE is not None else dict(self._w.environ)

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = SymDict(o) if core.ENGINE is not None else dict(o)
        d.update(self._w.environ)
        return d


def _contains(p, sub):
    if isinstance(p, SymStr):
        return p.contains(sub)
    return sub in p


def _unsupported(name):
    def f(*a, **k):
        raise Unsupported(name)
    f.__name__ = name
    return f
