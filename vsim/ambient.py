"""Process-wide state the library must leave alone: snapshot, compare, reset, perturb."""
import copy
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
import pandas as pd

_cfg = None
_start = {}


def _global_config():
    from pandas._config import config

    return config._global_config


def init():
    warnings.showwarning = lambda *a, **kw: None
    _start["pd"] = copy.deepcopy(_global_config())
    _start["env"] = dict(os.environ)
    _start["cwd"] = os.getcwd()
    _start["err"] = np.geterr()
    _start["errcall"] = np.geterrcall()
    _start["print"] = np.get_printoptions()
    _start["default_ctx"] = _ctx(decimal.DefaultContext)
    _start["umask"] = None
    _start["hooks"] = _hooks()
    _start["gc"] = (gc.isenabled(), gc.get_threshold())
    _start["path"] = list(sys.path)


HOOKS = ((sys, "stdout"), (sys, "stderr"), (sys, "stdin"), (sys, "excepthook"), (sys, "displayhook"), (sys, "unraisablehook"),
         (warnings, "showwarning"), (warnings, "formatwarning"), (threading, "excepthook"), (np.random.mtrand, "_rand"))


def _hooks():
    return [getattr(m, n) for m, n in HOOKS]


def _restore(dst, src):
    for k in list(dst):
        if k not in src:
            del dst[k]
    for k, v in src.items():
        if isinstance(v, dict) and isinstance(dst.get(k), dict):
            _restore(dst[k], v)
        else:
            dst[k] = copy.deepcopy(v)


def reset():
    _restore(_global_config(), _start["pd"])
    if dict(os.environ) != _start["env"]:
        os.environ.clear()
        os.environ.update(_start["env"])
    os.chdir(_start["cwd"])
    np.seterr(**_start["err"])
    np.seterrcall(_start["errcall"])
    np.set_printoptions(**_start["print"])
    for k, v in _start["default_ctx"].items():
        if k == "traps":
            for sig in list(decimal.DefaultContext.traps):
                decimal.DefaultContext.traps[sig] = sig.__name__ in v
        else:
            setattr(decimal.DefaultContext, k, v)
    for (m, n), v in zip(HOOKS, _start["hooks"]):
        if getattr(m, n) is not v:
            setattr(m, n, v)
    if (gc.isenabled(), gc.get_threshold()) != _start["gc"]:
        (gc.enable if _start["gc"][0] else gc.disable)()
        gc.set_threshold(*_start["gc"][1])
    if sys.path != _start["path"]:
        sys.path[:] = _start["path"]
    decimal.setcontext(decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN))
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    np.random.seed(12345)
    random.seed(12345)


def _ctx(c):
    return dict(prec=c.prec, rounding=c.rounding, Emin=c.Emin, Emax=c.Emax, capitals=c.capitals, clamp=c.clamp,
                traps=tuple(sorted(s.__name__ for s, on in c.traps.items() if on)))


def _freeze(x):
    if isinstance(x, dict):
        return tuple(sorted(((str(k), _freeze(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (list, tuple)):
        return tuple(_freeze(v) for v in x)
    if callable(x):
        return getattr(x, "__qualname__", repr(type(x)))
    return repr(x)


PUBLIC = (
    ("constants", "_PREFIX"), ("constants", "_PREFIX_TEX"), ("constants", "STD_STATS"), ("constants", "CURVE_STATS"),
    ("constants", "FMT_STATS"), ("constants", "PAIRWISE_DEFAULT"),
    ("classification", "STD_CLASS_LOSS"), ("classification", "STD_BINARY_CURVES"), ("classification", "DEFAULT_NGRID"),
    ("regression", "STD_REGR_LOSS"), ("data_splitter", "SPLITTER_LIB"), ("data_splitter", "DEFAULT_SPLIT"),
    ("core", "N_BOOT"), ("perf_curves", "EPSILON"), ("util", "STRICT_SPACING"),
)


def rng_state():
    st = np.random.get_state()
    return (st[0], st[1].tobytes(), st[2], st[3], st[4])


def snapshot(lib=None, rng=True):
    out = {
        "np.geterr": tuple(sorted(np.geterr().items())),
        "np.geterrcall": repr(np.geterrcall()),
        "np.printoptions": repr(sorted(np.get_printoptions().items(), key=str)),
        "decimal": _freeze(_ctx(decimal.getcontext())),
        "decimal.DefaultContext": _freeze(_ctx(decimal.DefaultContext)),
        "pandas options": _freeze(_global_config()),
        "warnings.filters": repr(warnings.filters),
        "os.environ": _freeze(dict(os.environ)),
        "cwd": os.getcwd(),
        "recursionlimit": sys.getrecursionlimit(),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "sys.path": tuple(sys.path),
        "files in the working directory": tuple(sorted(os.listdir("."))),
        "logging": (logging.root.level, tuple(map(id, logging.root.handlers)), logging.root.manager.disable),
        "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": tuple(repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM)),
    }
    for m, n in HOOKS:
        out["%s.%s" % (m.__name__, n)] = id(getattr(m, n))
    if rng:
        out["np.random"] = rng_state()
        out["random"] = random.getstate()
    if lib is not None:
        for mod, name in PUBLIC:
            m = getattr(lib, mod)
            if hasattr(m, name):
                out["%s.%s" % (mod, name)] = _freeze(getattr(m, name))
    return out


def resources():
    """What the process holds: open descriptors and threads."""
    fds = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            fds.append(os.readlink("/proc/self/fd/" + fd))
        except OSError:
            pass
    return {"open files": tuple(sorted(f for f in fds if f.startswith("/") and (f.startswith("/dev/shm/") or not f.startswith(("/proc", "/dev/"))))),
            "threads": threading.active_count()}


def diff(a, b, ignore=()):
    return [k for k in a if k not in ignore and a[k] != b.get(k)]


def perturb(spec):
    """Put the caller's ambient state into some other legal configuration."""
    for k, v in spec.items():
        if k == "prec":
            decimal.getcontext().prec = v
        elif k == "rounding":
            decimal.getcontext().rounding = v
        elif k == "np_err":
            np.seterr(all=v)
        elif k == "warn":
            warnings.simplefilter(v)
        elif k == "pd":
            for name, val in v.items():
                pd.set_option(name, val)
        elif k == "capitals":
            decimal.getcontext().capitals = v
        elif k == "py_seed":
            random.seed(v)
        else:
            raise ValueError(k)


# ---------------------------------------------------------------------------
# Deep comparison of results and inputs
# ---------------------------------------------------------------------------


def fp_in(x):
    """fp() of an input, and what else its owner would miss: whether it can be written to, and its attributes."""
    if isinstance(x, dict):
        return ("D",) + tuple((fp(k), fp_in(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(fp_in(v) for v in x)
    if isinstance(x, np.ndarray):
        return (fp(x), x.flags.writeable)
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return (fp(x), repr(x.attrs), repr(x.flags))
    return fp(x)


def fp(x):
    """A comparable, bit-exact picture of a value."""
    if isinstance(x, pd.DataFrame):
        return ("DF", fp_index(x.columns), fp_index(x.index), tuple(str(d) for d in x.dtypes),
                tuple(fp(x.iloc[:, j].values) for j in range(x.shape[1])))
    if isinstance(x, pd.Series):
        return ("S", fp_index(x.index), str(x.dtype), fp(x.values), repr(x.name))
    if isinstance(x, pd.Index):
        return fp_index(x)
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "O":
            return ("O", x.shape, tuple(fp(v) for v in x.ravel()))
        if x.dtype.kind == "f":  # one picture of NaN
            x = np.where(np.isnan(x), np.nan, x)
        return ("A", x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, dict):
        return ("D",) + tuple((fp(k), fp(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(fp(v) for v in x)
    if isinstance(x, (float, np.floating)):
        return ("f", "nan" if x != x else float(x).hex())
    if isinstance(x, (bool, np.bool_)):
        return ("b", bool(x))
    if isinstance(x, (int, np.integer)):
        return ("i", int(x))
    if isinstance(x, decimal.Decimal):
        return ("dec", str(x.as_tuple()))
    if isinstance(x, str):
        return ("s", x)
    return ("r", repr(type(x)), repr(x) if not callable(x) and "0x" not in repr(x) else "")


def fp_index(ix):
    if isinstance(ix, pd.MultiIndex):
        return ("MI", tuple(map(repr, ix.names)), tuple(repr(t) for t in ix))
    return ("I", repr(ix.name), tuple(repr(t) for t in ix))
