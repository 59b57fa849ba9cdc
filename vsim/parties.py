"""Estimators and metrics the simulator supplies: ordinary, failing and Byzantine.

What an estimator predicts is a function of its parameters and of every bit of
the training and test data it was given, through a digest, so a result taken
from anywhere else is visibly wrong.  Fault plans live in the simulated process
(`proc.party`), never in the estimator, whose state is what gets hashed.
"""
import hashlib

import numpy as np

from vsim import seams

_RandomState = None


def _rs(key):
    global _RandomState
    if _RandomState is None:
        _RandomState = seams._real.get("np.RandomState", np.random.RandomState)
    return _RandomState(np.frombuffer(key[:16], dtype=np.uint32))


def digest(kind, params, *arrays):
    h = hashlib.sha256()
    h.update(repr((kind, sorted(params.items(), key=str))).encode())
    for a in arrays:
        a = np.asarray(a)
        h.update(repr((a.dtype.str, a.shape)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.digest()


def ident(kind, params):
    return "%s%s" % (kind, sorted(params.items(), key=str))


def raw_clf(kind, params, X, y, Xt, n_labels):
    """The probabilities of a classifier party, row-normalised, some of them exactly zero."""
    rs = _rs(digest(kind, params, X, y, Xt))
    p = rs.gamma(0.7, size=(len(Xt), n_labels)) + 1e-6
    if params.get("zeros"):
        z = rs.rand(len(Xt), n_labels) < 0.2
        z[np.arange(len(Xt)), rs.randint(n_labels, size=len(Xt))] = False
        p[z] = 0.0
    return p / p.sum(axis=1, keepdims=True)


def raw_reg(kind, params, X, y, Xt):
    rs = _rs(digest(kind, params, X, y, Xt))
    return rs.randn(len(Xt)), rs.gamma(1.0, size=len(Xt)) + 1e-3


def _event(what, who):
    proc = seams.current()
    if proc is not None:
        proc.note(what, who.ident())
        proc.yield_point("party")
        if proc.party is not None:
            proc.party(what, who)


class _Base:
    def __init__(self, **params):
        self.params = params

    def ident(self):
        return ident(type(self).__name__, self.params)

    def __repr__(self):  # like an elided sklearn repr: says nothing about the parameters
        return "%s(...)" % type(self).__name__

    def fit(self, X, y):
        _event("fit", self)
        self.X_, self.y_ = np.array(X), np.array(y)
        _event("fit_end", self)
        return self


class ClfLog(_Base):
    """Has predict_log_proba."""

    n_labels = 2

    def _p(self, Xt):
        return raw_clf(type(self).__name__, self.params, self.X_, self.y_, Xt, self.params["n_labels"])

    def predict_log_proba(self, Xt):
        _event("predict_log_proba", self)
        with np.errstate(divide="ignore"):
            return np.log(self._p(Xt))


class ClfProba(ClfLog):
    """Only predict_proba, like an SVC."""

    def predict_log_proba(self, Xt):
        _event("predict_log_proba", self)
        raise AttributeError("predict_log_proba is not available when probability=False")

    def predict_proba(self, Xt):
        _event("predict_proba", self)
        return self._p(Xt)


class ClfBare(_Base):
    """No predict_log_proba attribute at all."""

    def predict_proba(self, Xt):
        _event("predict_proba", self)
        return raw_clf("ClfBare", self.params, self.X_, self.y_, Xt, self.params["n_labels"])


def some_params(self, deep=True):
    return {"a": self.params.get("a")}


class ClfBoth(ClfLog):
    """Both, which agree; the log one is allowed to fail (then predict_proba is what counts)."""

    get_params = some_params  # not all that matters is a parameter

    def predict_proba(self, Xt):
        _event("predict_proba", self)
        return self._p(Xt)


class RegStd(_Base):
    get_params = some_params

    def predict(self, Xt, return_std=False):
        _event("predict", self)
        mu, std = raw_reg("RegStd", self.params, self.X_, self.y_, Xt)
        return (mu, std) if return_std else mu


class RegNoStd(_Base):
    """predict() takes no return_std."""

    def predict(self, Xt):
        _event("predict", self)
        return raw_reg("RegNoStd", self.params, self.X_, self.y_, Xt)[0]


KINDS = {c.__name__: c for c in (ClfLog, ClfProba, ClfBare, ClfBoth, RegStd, RegNoStd)}


def make(spec):
    return KINDS[spec["kind"]](**spec["params"])


def model_clf(spec, X, y, Xt, n_labels):
    kind = spec["kind"]
    return raw_clf(kind, spec["params"], X, y, Xt, spec["params"]["n_labels"])


def model_reg(spec, X, y, Xt):
    mu, std = raw_reg(spec["kind"], spec["params"], X, y, Xt)
    return (mu, std) if spec["kind"] == "RegStd" else (mu, np.ones_like(mu))
