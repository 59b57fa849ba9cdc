"""Train/test histories: the operations C01 to C04 put their systems through."""
import copy

import joblib.memory
import numpy as np

from vsim import core, loader, parties, refmodel, seams

CLF = ("ClfLog", "ClfProba", "ClfBare", "ClfBoth")
REG = ("RegStd", "RegNoStd")


def gen_method(rng, task, n_labels):
    kind = rng.choice(CLF if task == "clf" else REG)
    params = {"a": rng.randrange(3)}
    if task == "clf":
        params["n_labels"] = n_labels
        params["zeros"] = rng.random() < 0.3
    if rng.random() < 0.4:
        params["c"] = rng.choice([0.5, 1.0, 1.5, "x", None, True, [1, 2], [1, 3], {"u": 1}, {"u": 2}])
    return {"kind": kind, "params": params}


def gen_methods(rng, task, n_labels, k=None):
    k = rng.choice([1, 2, 2, 3, 3, 4]) if k is None else k
    names = rng.sample(["zeta", "alpha", "m1", "m2", "Beta", "gp", "svc", "iid", "m10"], k)
    if rng.random() < 0.15:  # any string is a name
        names = rng.sample(["a/b", "../up", "beta", "Beta", "", " ", "k(1.5)", "\u00fc \u2020", "q" * 300, "a.b", "%s", "{}", "m1 "], k)
    return [dict(gen_method(rng, task, n_labels), name=n) for n in names]


def gen_op(rng, task=None):
    task = task or rng.choice(["clf", "clf", "reg"])
    n_labels = rng.choice([1, 2, 2, 3, 4] * 3 + [12]) if task == "clf" else 0
    data = {"seed": rng.randrange(4), "ntr": rng.choice([2, 3, 5, 8]), "nte": rng.choice([1, 2, 3, 6]),
            "nf": rng.choice([1, 2, 3]), "dtype": rng.choice(["f8", "f8", "f8", "i8", "f4"]), "mut": [],
            "ybool": bool(task == "clf" and n_labels == 2 and rng.random() < 0.3)}
    if task == "clf" and rng.random() < 0.12:  # as images come
        data["deep"] = rng.choice([2, 3])
    if rng.random() < 0.06:  # large enough that str() and head() no longer show all of it
        data["ntr"], data["nte"] = rng.choice([(1200, 3), (3, 1200), (700, 700)])
    op = {"task": task, "n_labels": n_labels, "data": data, "methods": gen_methods(rng, task, n_labels),
          "floor": gen_floor(rng, task), "dir": 0}
    if rng.random() < 0.2:
        op["dirform"] = rng.choice(["rel", "slash", "dot"])
    return op


def gen_floor(rng, task):
    if task == "clf":
        return rng.choice(["-inf", "-inf", -1.0, -0.3, -5.0, -1e-3, -50.0])
    return rng.choice([0.0, 0.0, 0.5, 1.0, 2.5])


MUTATIONS = ("xtr", "xtr_last", "ytr", "ytr_last", "xte", "xte_last", "reverse", "permute", "swap_cols", "fortran",
             "strided", "tiny", "swap", "neg_zero", "addrow", "addtest", "dtype",
             "permute_te", "swap_te", "balance", "balance_te", "tiny_te", "tiny_y", "permute_y", "pixels", "ytype")


def new_name(rng, op):
    while True:
        name = rng.choice(["n%d", "A%d", "z%d"]) % rng.randrange(100, 1000)
        if name not in [m["name"] for m in op["methods"]]:
            return name


def variant(rng, op):
    """A copy of op with one thing changed (or nothing: a plain rerun)."""
    op = copy.deepcopy(op)
    d = op["data"]
    what = rng.choice(["same", "same", "data", "data", "data", "param", "rename", "reorder", "add", "drop", "floor",
                       "floor", "kind", "swap_names", "labels", "yval"])
    if what == "data":
        d["mut"] = d["mut"] + [[rng.choice(MUTATIONS), rng.randrange(10000)]]
    elif what == "param":
        m = rng.choice(op["methods"])
        m["params"][rng.choice(["a", "c"])] = rng.choice([0, 1, 2, 0.5, 1.5, "y", [1, 4]])
    elif what == "rename":
        rng.choice(op["methods"])["name"] = new_name(rng, op)
    elif what == "reorder":
        rng.shuffle(op["methods"])
    elif what == "add":
        op["methods"].insert(rng.randrange(len(op["methods"]) + 1),
                             dict(gen_method(rng, op["task"], op["n_labels"]), name=new_name(rng, op)))
    elif what == "drop" and len(op["methods"]) > 1:
        op["methods"].pop(rng.randrange(len(op["methods"])))
    elif what == "floor":
        op["floor"] = gen_floor(rng, op["task"])
    elif what == "kind":
        rng.choice(op["methods"])["kind"] = rng.choice(CLF if op["task"] == "clf" else REG)
    elif what == "swap_names" and len(op["methods"]) > 1:
        a, b = rng.sample(range(len(op["methods"])), 2)
        A, B = op["methods"][a], op["methods"][b]
        A["name"], B["name"] = B["name"], A["name"]
    elif what == "labels" and op["task"] == "clf" and not d["ybool"]:
        op["n_labels"] += 1
        for m in op["methods"]:
            m["params"]["n_labels"] = op["n_labels"]
    elif what == "yval":
        d["mut"] = d["mut"] + [["ytr", rng.randrange(10000)]]
    return op, what


def mutate_op(rng, op):
    """The same methods on other data."""
    op = copy.deepcopy(op)
    op["data"]["mut"] = op["data"]["mut"] + [["xtr", rng.randrange(10000)]]
    return op


def build_data(op):
    d = op["data"]
    rs = parties._rs(parties.digest("data", {"s": d["seed"], "n": op["task"]}))
    nl = max(1, op["n_labels"])
    ntr, nte, nf = d["ntr"], d["nte"], d["nf"]
    if d["dtype"] == "i8":
        X, Xt = rs.randint(-3, 4, size=(ntr, nf)), rs.randint(-3, 4, size=(nte, nf))
    else:
        X, Xt = rs.randn(ntr, nf).round(3), rs.randn(nte, nf).round(3)
    if op["task"] == "clf":
        y = rs.randint(min(nl, 2) if nl < 12 else 12, size=ntr)
        if d["ybool"]:
            y = y.astype(bool)
    else:
        y = rs.randn(ntr).round(3)
    X, Xt = X.astype(d["dtype"]), Xt.astype(d["dtype"])
    if d.get("deep"):
        X, Xt = [np.stack([Z + 10 * k for k in range(d["deep"])], axis=2) for Z in (X, Xt)]
    for kind, k in d["mut"]:
        X, y, Xt = mutate(kind, k, X, y, Xt, op)
    return X, y, Xt


def mutate(kind, k, X, y, Xt, op):
    X, y, Xt = X.copy(), y.copy(), Xt.copy()
    nl = max(1, op["n_labels"])
    if kind == "xtr":
        X.flat[k % X.size] += 1
    elif kind == "xtr_last":
        X.flat[X.size - 1] += 1
    elif kind == "ytr" or kind == "ytr_last":
        j = (k % y.size) if kind == "ytr" else y.size - 1
        if y.dtype.kind == "b":
            y[j] = not y[j]
        elif op["task"] == "clf":
            y[j] = (y[j] + 1) % nl
        else:
            y[j] += 0.5
    elif kind == "xte":
        Xt.flat[k % Xt.size] += 1
    elif kind == "xte_last":
        Xt.flat[Xt.size - 1] += 1
    elif kind == "reverse":
        X, y = X[::-1], y[::-1]
    elif kind == "permute":
        p = parties._rs(parties.digest("perm", {"k": k})).permutation(len(X))
        X = X[p]
    elif kind == "swap_cols":
        X, Xt = X[:, ::-1], Xt[:, ::-1]
    elif kind == "pixels" and X.ndim > 2:
        X, Xt = X[:, :, ::-1], Xt[:, :, ::-1]
    elif kind == "ytype" and y.dtype.kind == "i":
        y = y.astype("i4" if y.dtype.itemsize == 8 else "i8")
    elif kind == "fortran":
        X, Xt = np.asfortranarray(X), np.asfortranarray(Xt)
    elif kind == "strided":
        X, y = np.repeat(X, 2, axis=0)[::2], np.repeat(y, 2)[::2]
    elif kind == "tiny" and X.dtype.kind == "f":
        X.flat[k % X.size] = np.nextafter(X.flat[k % X.size], np.inf, dtype=X.dtype)
    elif kind == "swap" and X.shape == Xt.shape:
        X, Xt = Xt, X
    elif kind == "permute_te":
        Xt = Xt[parties._rs(parties.digest("perm", {"k": k})).permutation(len(Xt))]
    elif kind == "permute_y":
        y = y[parties._rs(parties.digest("perm", {"k": k})).permutation(len(y))]
    elif kind == "swap_te":
        a, b = k % Xt.size, (k // 7) % Xt.size
        Xt.flat[a], Xt.flat[b] = Xt.flat[b], Xt.flat[a]
    elif kind in ("balance", "balance_te"):  # other values, the same total
        Z = X if kind == "balance" else Xt
        Z.flat[k % Z.size] += 1
        Z.flat[(k // 7) % Z.size] -= 1
    elif kind == "tiny_te" and Xt.dtype.kind == "f":
        Xt.flat[k % Xt.size] = np.nextafter(Xt.flat[k % Xt.size], np.inf, dtype=Xt.dtype)
    elif kind == "tiny_y" and y.dtype.kind == "f":
        y[k % y.size] = np.nextafter(y[k % y.size], np.inf)
    elif kind == "neg_zero" and X.dtype.kind == "f":
        X.flat[k % X.size] = 0.0 if k % 2 else -0.0
    elif kind == "addrow":
        X, y = np.concatenate([X, X[:1]]), np.concatenate([y, y[:1]])
    elif kind == "addtest":
        Xt = np.concatenate([Xt, Xt[-1:]])
    elif kind == "dtype" and X.dtype.kind == "f":
        dt = "f4" if X.dtype.itemsize == 8 else "f8"
        X, Xt = X.astype(dt), Xt.astype(dt)
    return X, y, Xt


def floor_of(op):
    return -np.inf if op["floor"] == "-inf" else op["floor"]


def dirname(disk, op):
    import os

    if op["dir"] is None:
        return None
    path = os.path.join(disk.root, "ckpt%s" % op["dir"])
    form = op.get("dirform")
    return {None: path, "rel": os.path.relpath(path), "slash": path + "/", "dot": os.path.join(disk.root, ".", "ckpt%s" % op["dir"])}[form]


def method_key(op, m, data):
    """What identifies a train/test operation: estimator and data, and where it is checkpointed."""
    return (op["task"], op["dir"], parties.digest(m["kind"], m["params"], *data).hex()[:16])


def call(lib, op, disk, objs=None, data=None):
    """The operation, as the user makes it. objs: method objects to use, else fresh ones."""
    X, y, Xt = build_data(op) if data is None else data
    methods = {}
    for m in op["methods"]:
        methods[m["name"]] = objs[m["name"]] if objs else parties.make(m)
    kw = {}
    if op.get("verbose"):
        kw["verbose"] = True
    if op["dir"] is not None:
        kw["checkpointdir"] = dirname(disk, op)
        # joblib's own memo of function sources does not tell directories apart: with one function object for two
        # directories in a process, the second lacks its source file. That is joblib's affair, keep it out of the runs.
        getattr(joblib.memory, "_FUNCTION_HASHES", {}).clear()
    if op["task"] == "clf":
        if op["floor"] != "-inf":
            kw["min_log_prob"] = op["floor"]
        return lib.classification.get_pred_log_prob(X, y, Xt, op["n_labels"], methods, **kw)
    if op["floor"]:
        kw["min_std"] = op["floor"]
    return lib.regression.get_gauss_pred(X, y, Xt, methods, **kw)


def expected(op, data=None):
    X, y, Xt = build_data(op) if data is None else data
    out = {}
    for m in op["methods"]:
        if op["task"] == "clf":
            out[m["name"]] = refmodel.pred_table(parties.model_clf(m, X, y, Xt, op["n_labels"]), floor_of(op))
        else:
            mu, std = parties.model_reg(m, X, y, Xt)
            out[m["name"]] = np.stack([mu, np.maximum(std, floor_of(op))], axis=1)
    return out


def check_table(tbl, op, where="", want=None):
    """The returned table is the model's, block by block."""
    want = expected(op) if want is None else want
    cols = range(op["n_labels"]) if op["task"] == "clf" else ("mu", "std")
    n = len(next(iter(want.values())))
    try:
        got_cols = list(tbl.columns)
        want_cols = [(m["name"], c) for m in op["methods"] for c in cols]
        if [tuple(c) for c in got_cols] != want_cols:
            raise core.Violation("wrong-columns", "%s: columns %r, expected %r" % (where, got_cols, want_cols))
        if list(tbl.columns.names) != ["method", "label" if op["task"] == "clf" else "moment"]:
            raise core.Violation("wrong-columns", "%s: columns named %r" % (where, list(tbl.columns.names)))
        if list(tbl.index) != list(range(n)):
            raise core.Violation("wrong-rows", "%s: index %r, expected range(%d)" % (where, list(tbl.index), n))
        for m in op["methods"]:
            got = tbl[m["name"]].values.astype(float)
            if not refmodel.close(got, want[m["name"]]):
                raise core.Violation("wrong-prediction", "%s: method %r (%s) has\n%s\nbut predicts\n%s" % (
                    where, m["name"], m.get("kind"), got, want[m["name"]]))
    except core.Violation:
        raise
    except Exception as e:
        raise core.Violation("malformed-result", "%s: %r" % (where, e))


def exc_text(e):
    return "%s: %s" % (type(e).__name__, str(e)[:300])


def data_id(data):
    """Identifies the data as the caller passed it: values, types, and memory layout."""
    layout = [(a.strides, a.flags.c_contiguous, a.flags.f_contiguous) for a in data]
    return parties.digest("data", {"layout": layout}, *data).hex()[:16]


class Work:
    """Which train/test work is finished, from the event log of the parties alone.

    Work is finished once the call returned, or once another method's fit began
    after the method had been fitted and had predicted.
    """

    def __init__(self):
        self.done = set()

    def fits(self, op, events, did):
        return [(op["task"], op["dir"], e[1], did) for e in events if e[0] == "fit"]

    def account(self, op, events, did, returned):
        """Returns the keys that were fitted although finished, then updates what is finished."""
        repeated, started, ready = [], [], set()
        for e in events:
            key = (op["task"], op["dir"], e[1], did)
            if e[0] == "fit":
                self.done |= ready
                ready = set()
                if key in self.done:
                    repeated.append(key)
                started.append(key)
            elif e[0].startswith("predict") and key in started:
                ready.add(key)
        if returned:
            for m in op["methods"]:
                self.done.add((op["task"], op["dir"], parties.ident(m["kind"], m["params"]), did))
        return repeated
