"""Load /repo's sandfs (and the pure-Python stdlib modules it leans on) either
instrumented (symbolic execution) or verbatim (replay), always from source and
always isolated from sys.modules.  The operating system is replaced by the
in-memory stand-ins of fakefs.py in both modes."""

from __future__ import annotations

import builtins
import datetime
import functools
import io
import os
import sys
import sysconfig
import types

from . import rt, xform
from .fakefs import World, _unsupported

REPO = os.environ.get("SANDFS_REPO", "/repo")
STDLIB = sysconfig.get_paths()["stdlib"]
SHADOW = {"pathlib": "pathlib.py", "posixpath": "posixpath.py", "genericpath": "genericpath.py",
          "shlex": "shlex.py", "fnmatch": "fnmatch.py", "urllib.parse": "urllib/parse.py",
          "string": "string.py", "textwrap": "textwrap.py", "glob": "glob.py"}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_CODE = {}   # (path, mtime_ns, size, instrumented) -> code


class Proxy(types.ModuleType):
    def __init__(self, modname_, real_, **over):
        name, real = modname_, real_
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        return getattr(self.__dict__["_real"], name)


def _clock(w):
    real = datetime.datetime

    class Meta(type(real)):
        def __instancecheck__(cls, x):
            return isinstance(x, real)

    class Clock(real, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            return real.fromtimestamp(w.time(), tz)

        @classmethod
        def utcnow(cls):
            return real.fromtimestamp(w.time(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return real.fromtimestamp(w.time())

        @classmethod
        def fromtimestamp(cls, t, tz=None):
            return real.fromtimestamp(t, tz)
    Clock.__name__ = "datetime"
    return Clock


def _nocache(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        f = a[0]
        w = functools.wraps(f)(lambda *x, **y: f(*x, **y))
        w.cache_clear = lambda: None
        w.cache_info = lambda: None
        return w
    return lambda f: _nocache(f)


class Loader:
    def __init__(self, instrument, repo=None):
        self.instrument = instrument
        self.repo = repo or REPO
        self.world = World()
        self.mods = {}
        self._proxies = None
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self._import
        self.builtins["open"] = self._open
        if instrument:
            self.builtins.update(_sx_enter=rt.enter, _sx_call=rt.call, _sx_callm=rt.callm, _sx_in=rt.contains,
                                 _sx_notin=rt.not_contains, _sx_mod=rt.mod, _sx_fstr=rt.fstr, _sx_mkdict=rt.mkdict,
                                 _sx_mkdict_pairs=rt.mkdict_pairs, _sx_mkset=rt.mkset, _sx_Star=rt.Star,
                                 _sx_exec=rt.sx_exec, _sx_compile=rt.sx_compile)

    def _open(self, *a, **k):
        return self.world.open(*a, **k)

    # -- modules ---------------------------------------------------------------
    def proxies(self):
        if self._proxies is None:
            w = self.world
            p = self._proxies = {}
            p["time"] = Proxy("time", __import__("time"), time=w.time, time_ns=w.time_ns, monotonic=w.time, sleep=lambda s: None)
            p["datetime"] = Proxy("datetime", datetime, datetime=_clock(w))
            p["functools"] = Proxy("functools", functools, lru_cache=_nocache, cache=_nocache)
            osp = Proxy("os", os, **w.os_functions())
            p["os"] = osp
            osp.__dict__["path"] = self.load("posixpath")
            p["os.path"] = osp.path
            p["io"] = Proxy("io", io, open=w.open, FileIO=_unsupported("io.FileIO"))
            p["tempfile"] = w.tempfile_module()
            p["shutil"] = w.shutil_module()
            p["subprocess"] = w.subprocess_module()
        return self._proxies

    def source_of(self, name):
        if name in SHADOW:
            return os.path.join(STDLIB, SHADOW[name]), False
        if name == "sandfs" or name.startswith("sandfs."):
            base = os.path.join(self.repo, *name.split("."))
            init = os.path.join(base, "__init__.py")
            if os.path.exists(init):
                return init, True
            if os.path.exists(base + ".py"):
                return base + ".py", False
            return None
        if name == "props" or name.startswith("props."):
            base = os.path.join(HERE, *name.split("."))
            init = os.path.join(base, "__init__.py")
            if os.path.exists(init):
                return init, True
            if os.path.exists(base + ".py"):
                return base + ".py", False
        return None

    def code(self, name, path):
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size, self.instrument, name)
        c = _CODE.get(key)
        if c is None:
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
            if self.instrument:
                c = xform.transform(src, name, path)
            else:
                c = compile(src, path, "exec", dont_inherit=True)
            _CODE[key] = c
        return c

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            parent = name.rpartition(".")[0]
            if parent in SHADOW or self.source_of(parent):
                self.load(parent)
                m = self.mods.get(name)
                if m is not None:
                    return m
        src = self.source_of(name)
        if src is None:
            raise ModuleNotFoundError(f"No module named {name!r}")
        path, is_pkg = src
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        saved = sys.modules.get(name)
        if name not in SHADOW:
            sys.modules[name] = m     # dataclasses looks the module up by name
        try:
            exec(self.code(name, path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        finally:
            if name in SHADOW:
                pass
            elif saved is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = saved
        if "." in name and name not in SHADOW:
            parent, _, leaf = name.rpartition(".")
            if parent in self.mods:
                setattr(self.mods[parent], leaf, m)
        return m

    def ours(self, name):
        return name in SHADOW or name.split(".")[0] in ("sandfs", "props")

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            bits = pkg.split(".")
            bits = bits[:len(bits) - (level - 1)]
            full = ".".join(bits + ([name] if name else []))
        else:
            full = name
        if full == "posix" and fromlist and any(x in ("_path_normpath", "_path_splitroot_ex", "_path_splitroot") for x in fromlist):
            raise ImportError("pure Python fallback wanted")
        if full in ("os", "io", "time", "datetime", "tempfile", "subprocess", "functools", "os.path", "shutil"):
            p = self.proxies()
            if fromlist or full != "os.path":
                return p[full]
            return p["os"]
        if self.ours(full):
            if full == "urllib.parse" and not fromlist:
                real = types.ModuleType("urllib")
                real.parse = self.load(full)
                return real
            m = self.load(full)
            if fromlist:
                for x in fromlist:
                    if x != "*" and not hasattr(m, x) and self.source_of(f"{full}.{x}"):
                        self.load(f"{full}.{x}")
                return m
            if not level:
                return self.load(full.split(".")[0])
            return m
        if full == "urllib" and fromlist:
            m = types.ModuleType("urllib")
            m.parse = self.load("urllib.parse")
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)
