"""Load mlpaper from the working tree, a fresh set of modules per simulated process."""
import importlib.abc
import importlib.machinery
import os
import sys
import types

from vsim import seams
from vsim.seams import REPO

_code = {}


def salted(salt):
    """hash() as in an interpreter with a hash seed of its own: text hashes differently in each simulated process."""
    def h(x, _hash=hash):
        if type(x) in (str, bytes):
            return _hash((salt, x))
        if type(x) is tuple:
            return _hash(tuple(h(v) for v in x))
        if type(x) is frozenset:
            return _hash(frozenset(h(v) for v in x))
        return _hash(x)
    return h



class _Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        proc = seams.current()
        module.__dict__["hash"] = salted(proc.name if proc is not None else "")
        exec(code_of(self.path), module.__dict__)

    def get_source(self, name):
        with open(self.path, encoding="utf-8") as f:
            return f.read()

    def get_filename(self, name):
        return self.path


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "mlpaper" and not name.startswith("mlpaper."):
            return None
        base = os.path.join(REPO, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(name, _Loader(name, init), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.isfile(base + ".py"):
            spec = importlib.machinery.ModuleSpec(name, _Loader(name, base + ".py"), origin=base + ".py")
        else:
            return None
        spec.has_location = True
        return spec


def code_of(path):
    if path not in _code:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        _code[path] = compile(src, path, "exec")
    return _code[path]


def package_files():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "mlpaper")):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        out += [os.path.join(d, f) for f in sorted(files) if f.endswith(".py")]
    return out


_finder = _Finder()


def install():
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)


MODULES = ("constants", "util", "boot_util", "mlpaper", "perf_curves", "classification", "regression", "sciprint",
           "data_splitter")


class Lib(types.SimpleNamespace):
    pass


def fresh():
    """A new, independent instance of the whole package."""
    install()
    for name in [n for n in sys.modules if n == "mlpaper" or n.startswith("mlpaper.")]:
        del sys.modules[name]
    lib = Lib()
    for m in MODULES:
        __import__("mlpaper." + m)
        setattr(lib, "core" if m == "mlpaper" else m, sys.modules["mlpaper." + m])
    return lib
