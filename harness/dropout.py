"""C17: dropout (spec/Dropout.tla)."""
import random

import numpy as np

import core
import pool

S = 65536
RATES = [0.0, 0.0, 0.5, 0.5, 0.75, 0.25, 0.1, 0.9, 1.0]


def fx(v):
    return core.enc_int(v, S)


class Program:
    """A model, its expression, its dropout nodes, and how it looks at data."""

    def __init__(self, r):
        self.r = r
        self.nodes = []  # (Model, attribute name)
        self.col = 0
        self.width = r.choice([1, 2, 3, 4])
        self.kind = r.choice(["plain"] * 6 + ["layer"] * 4 + ["embed", "embed", "hashembed"])
        self.arrays = {}

    def rate(self):
        return self.r.choice(RATES)

    def drop(self):
        from thinc.api import Dropout, registry

        rate = self.rate()
        m = self.r.choice([Dropout, registry.layers.get("Dropout.v1")])(rate)
        self.nodes.append((m, "dropout_rate", rate))
        return m, dict(k="drop", n=len(self.nodes))

    def expr(self, depth, wrap):
        import thinc.api as T

        k = self.r.random()
        if depth == 0 or k < 0.45:
            if len(self.nodes) >= 3 or self.r.random() < 0.2:
                m = T.noop()
                if self.r.random() < 0.5:
                    rate = self.rate()
                    m.attrs["other_rate"] = rate
                    self.nodes.append((m, "other_rate", rate))
                return m, dict(k="id")
            return self.drop()
        if k < 0.75:
            parts = [self.expr(depth - 1, wrap) for _ in range(self.r.choice([2, 2, 3]))]
            if len(parts) == 2 and self.r.random() < 0.2:
                parts.append(parts[0])  # the same layer once more
            return T.chain(*[p[0] for p in parts]), dict(k="seq", s=[p[1] for p in parts])
        if k < 0.87:
            m, e = self.expr(depth - 1, wrap)
            return T.residual(m), dict(k="res", s=[e])
        m, e = self.expr(depth - 1, [])
        return self.r.choice(wrap or [T.with_debug])(m), e

    def plain(self):
        import thinc.api as T
        from thinc.types import Padded, Ragged

        r = self.r
        self.form = r.choice(["array", "array", "list", "ragged", "padded"])
        wraps = {  # not within one another
            "array": [T.with_array, T.with_debug] if self.form == "array" else [],
            "list": [T.with_array, T.with_list, T.with_debug],
            "ragged": [T.with_array, T.with_ragged, T.with_debug],
            "padded": [T.with_padded, T.with_debug],
        }[self.form]
        self.model, self.e = self.expr(r.choice([0, 1, 2, 3]), wraps)
        while not self.nodes:
            self.model, self.e = self.expr(1, wraps)
        self.how = self.form

    def layer(self):
        """A layer with a dropout option; its function works on each cell on its own."""
        import thinc.api as T

        r, w = self.r, self.width
        name = r.choice(["Relu", "Maxout", "Mish", "Gelu", "Swish", "HardSwish", "HardSwishMobilenet", "Dish", "ClippedLinear", "ReluK", "HardSigmoid", "HardTanh"])
        kw = dict(nO=w, nI=w, dropout=r.choice(RATES))
        if name == "Maxout":
            kw["nP"] = r.choice([1, 2, 3])
        m = getattr(T, name)(**kw)
        m.initialize()
        inner = m.layers[0]
        W = np.eye(w, dtype="float32")
        if name == "Maxout":
            W = np.repeat(W[:, None, :], kw["nP"], axis=1)
        inner.set_param("W", W)
        inner.set_param("b", np.zeros(inner.get_param("b").shape, dtype="float32"))
        drops = [n for n in m.walk() if "dropout_rate" in n.attrs]
        if len(drops) != 1:
            raise AssertionError("dropout option without a dropout node")
        self.nodes.append((drops[0], "dropout_rate", kw["dropout"]))
        self.model, self.e, self.form, self.how = m, dict(k="drop", n=1), "array2", name

    def embed(self):
        import thinc.api as T

        r, w = self.r, self.width
        rate = r.choice(RATES)
        column = r.choice([None, 0, 1])
        if self.kind == "embed":
            m = T.Embed(w, 8, dropout=rate, column=column)
        else:
            m = T.HashEmbed(w, 16, seed=3, dropout=rate, column=column)
        m.initialize()
        e = next(n for n in m.walk() if n.has_param("E"))
        E = np.array([r.choice([1, 2, 3, 0.5]) for _ in range(e.get_param("E").size)], dtype="float32")
        e.set_param("E", E.reshape(e.get_param("E").shape))
        self.nodes.append((e, "dropout_rate", rate))
        self.table, self.column = e, column
        self.model, self.e, self.form, self.col = m, dict(k="drop", n=1), "ids", w
        self.how = self.kind

    def build(self):
        getattr(self, "embed" if self.kind == "hashembed" else self.kind)()
        return self

    def data(self, shape=None):
        """A batch of nonzero cells (in the given layout)."""
        from thinc.types import Padded, Ragged

        r, w = self.r, self.width
        dt = r.choice(["float32"] * 4 + ["float64"]) if self.form != "array2" else "float32"

        def cells(sh):
            lo = [0.25, 0.5, 1, 1.5, 2] if self.form == "array2" else [-3, -2, -1, -0.5, 0.25, 0.5, 1, 2, 4]
            return np.array([r.choice(lo) for _ in range(int(np.prod(sh)))], dtype=dt).reshape(sh)

        if shape is not None:
            if self.form == "array" or self.form == "array2":
                return cells(shape)
            if self.form == "list":
                return [cells(s) for s in shape]
            if self.form == "ragged":
                return Ragged(cells(shape[0]), np.array(shape[1], dtype="int32"))
            return Padded(cells(shape[0]), *[np.array(q, dtype="int32") for q in shape[1:]])
        if self.form == "array":
            return cells([(r.choice([0, 1, 2, 5]),) * 1, (r.choice([0, 1, 3]), w), (2, r.choice([0, 1, 3]), w), (2, 1, 2, w)][r.randrange(4)] if self.r.random() < 0.6 else (r.choice([1, 4]), w))
        if self.form == "array2":
            return cells((r.choice([1, 2, 3]), w))
        if self.form == "list":
            return [cells((r.choice([0, 1, 2, 2, 4]), w)) for _ in range(r.choice([0, 1, 2, 3]))]
        if self.form == "ragged":
            lens = [r.choice([0, 1, 2, 3]) for _ in range(r.choice([0, 1, 2, 3]))]
            return Ragged(cells((sum(lens), w)), np.array(lens, dtype="int32"))
        lens = sorted([r.choice([1, 2, 3]) for _ in range(r.choice([1, 2, 3]))], reverse=True)
        T = max(lens)
        size = [sum(1 for q in lens if q > t) for t in range(T)]
        idx = list(range(len(lens)))
        r.shuffle(idx)
        return Padded(cells((T, len(lens), w)), np.array(size, dtype="int32"), np.array(lens, dtype="int32"), np.array(idx, dtype="int32"))

    def shape(self, X):
        if self.form in ("array", "array2"):
            return X.shape
        if self.form == "list":
            return [x.shape for x in X]
        if self.form == "ragged":
            return (X.data.shape, [int(q) for q in X.lengths])
        return (X.data.shape,) + tuple([int(q) for q in z] for z in (X.size_at_t, X.lengths, X.indices))


def cells(X):
    from thinc.types import Padded, Ragged

    if isinstance(X, (Ragged, Padded)):
        X = X.data
    if isinstance(X, (list, tuple)):
        return [q for x in X for q in cells(x)]
    return [fx(v) for v in np.asarray(X).ravel()]


def meta(X):
    from thinc.types import Padded, Ragged

    if isinstance(X, Ragged):
        return ["ragged", str(X.data.shape), str([int(q) for q in X.lengths])]
    if isinstance(X, Padded):
        return ["padded", str(X.data.shape)] + [str([int(q) for q in z]) for z in (X.size_at_t, X.lengths, X.indices)]
    if isinstance(X, (list, tuple)):
        return ["list"] + [str(x.shape) for x in X]
    return ["array", str(X.shape)]


def raw(X):
    from thinc.types import Padded, Ragged

    if isinstance(X, Ragged):
        return [X.data, X.lengths]
    if isinstance(X, Padded):
        return [X.data, X.size_at_t, X.lengths, X.indices]
    return list(X) if isinstance(X, (list, tuple)) else [X]


class Watch:
    def __init__(self):
        self.xs = []

    def add(self, nm, X):
        self.xs += [(nm, a, a.copy()) for a in raw(X)]
        return X

    def dirty(self):
        return [nm for nm, a, b in self.xs if a.shape != b.shape or a.tobytes() != b.tobytes()]


def history(r):
    from thinc.api import set_dropout_rate

    p = Program(r).build()
    case = dict(how=p.how, e=p.e, col=p.col, steps=[], nodes=[dict(name=nm, rate=fx(rate), on=True) for _, nm, rate in p.nodes])
    w = Watch()
    backs = []  # of training passes: (their number, callback, reference callback, layout)
    npass = 0
    for _ in range(r.choice([4, 6, 9])):
        k = r.random()
        rec = dict(op="", exc="", dirty=[], x=[], y=[], meta=[], ymeta=[])
        try:
            if k < 0.2:
                rec["op"] = "rate"
                rate = r.choice(RATES)
                names = r.choice([["dropout_rate"]] * 3 + [["other_rate"], ["dropout_rate", "other_rate"], []])
                rec.update(rate=fx(rate), names=names)
                kw = {} if names == ["dropout_rate"] and r.random() < 0.7 else dict(attrs=names)
                got = set_dropout_rate(p.model, rate, **kw)
                if got is not p.model:
                    raise AssertionError("returned another model")
                rec["seen"] = [dict(name=nm, rate=fx(m.attrs.get(nm, -9)), on=bool(m.attrs.get("is_enabled", True))) for m, nm, _ in p.nodes]
                for m in p.model.walk():  # nothing else gets a rate
                    have = {q for q in ("dropout_rate", "other_rate") if q in m.attrs}
                    if have != {nm for n, nm, _ in p.nodes if n is m}:
                        rec["seen"] = []
            elif k < 0.3 and any("is_enabled" in m.attrs for m, _, _ in p.nodes):
                n = r.choice([j for j, q in enumerate(p.nodes) if "is_enabled" in q[0].attrs])
                on = r.random() < 0.5
                p.nodes[n][0].attrs["is_enabled"] = on
                rec.update(op="enable", n=n + 1, on=on)
            elif k < 0.7 or not backs:
                rec["op"] = "forward"
                train = r.random() < 0.75
                rec["train"] = train
                if p.form == "ids":
                    n = r.choice([1, 2, 4])
                    ids = np.array(r.sample(range(8), n), dtype=r.choice(["int32", "uint64", "int64"]))
                    X = ids if p.column is None else np.stack([ids, ids], axis=1)
                else:
                    X = p.data()
                w.add("the input", X)
                # without dropout
                saved = [(m, nm, m.attrs[nm]) for m, nm, _ in p.nodes]
                plain = p.form in ("array", "list", "ragged", "padded")
                if plain:
                    Y0 = X
                else:
                    for m, nm, _ in saved:
                        m.attrs[nm] = 0.0
                    Y0, back0 = p.model(X, is_train=True)
                    Y0 = Y0.copy()
                    for m, nm, rate in saved:
                        m.attrs[nm] = rate
                if train:
                    Y, back = p.model(X, is_train=True)
                else:
                    Y, back = (p.model.predict(X), None) if r.random() < 0.5 else p.model(X, is_train=False)
                npass += 1
                if plain and p.e["k"] != "drop":
                    w.add("a result", Y)
                rec.update(x=cells(Y0), y=cells(Y), meta=meta(Y0), ymeta=meta(Y))
                if train:
                    backs.append((npass, back, None if plain else back0, X))
            else:
                rec["op"] = "backward"
                j, back, back0, X = backs.pop(r.randrange(len(backs)))
                rec["j"] = j
                if p.form == "ids":
                    dY = np.array([r.choice([-2, -1, 1, 3]) for _ in range(len(X) * p.col)], dtype="float32").reshape((len(X), p.col))
                    w.add("the gradient", dY)
                    g = []
                    for b in (back0, back):
                        if p.table.has_grad("E"):
                            p.table.set_grad("E", np.zeros(p.table.get_param("E").shape, dtype="float32"))
                        b(dY)
                        g.append(p.table.get_grad("E").copy())
                    rec.update(x=cells(g[0]), y=cells(g[1]), meta=meta(g[0]), ymeta=meta(g[1]))
                else:
                    dY = w.add("the gradient", p.data(p.shape(X)))
                    if back0 is None:
                        d0 = dY
                    else:
                        dY = dY.astype("float32")
                        d0 = back0(dY)
                    d = back(dY)
                    rec.update(x=cells(d0), y=cells(d), meta=meta(d0), ymeta=meta(d))
            rec["dirty"] = w.dirty()
        except Exception as ex:
            rec["exc"] = f"{type(ex).__name__}" + (f" {ex}" if isinstance(ex, AssertionError) else "")
        case["steps"].append(rec)
        if rec["exc"]:
            break
    return case


def drawn(r):
    """Two masks of many cells."""
    from thinc.api import Dropout, NumpyOps
    from thinc.types import Padded, Ragged

    rate = r.choice([0.5, 0.25, 0.1, 0.9, 0.75])
    form = r.choice(["array", "list", "ragged", "padded", "method"])
    rec = dict(op="drawn", exc="", dirty=[], n=4096, kinds=[], first=0, second=0, both=0)
    case = dict(how="drawn " + form, e=dict(k="drop", n=1), col=0, nodes=[dict(name="dropout_rate", rate=fx(rate), on=True)], steps=[rec])
    try:
        X = np.ones((64, 64), dtype="float32")
        m = Dropout(rate)
        if form == "list":
            a, b = m([X, X], is_train=True)[0]  # each sequence has a mask of its own
        elif form == "method":
            ops = NumpyOps()
            a, b = ops.get_dropout_mask((64, 64), rate), ops.get_dropout_mask((64, 64), rate)
        else:
            wrap = {
                "array": lambda: X,
                "ragged": lambda: Ragged(X, np.array([30, 0, 34], dtype="i")),
                "padded": lambda: Padded(X.reshape((16, 4, 64)), np.full(16, 4, dtype="i"), np.full(4, 16, dtype="i"), np.arange(4, dtype="i")),
            }[form]
            a, b = (raw(m(wrap(), is_train=True)[0])[0].reshape((64, 64)) for _ in range(2))
        rec["kinds"] = sorted({fx(v) for v in np.unique(a)} | {fx(v) for v in np.unique(b)})
        rec["first"], rec["second"] = int((a == 0).sum()), int((b == 0).sum())
        rec["both"] = int(((a == 0) & (b == 0)).sum())
        if len(rec["kinds"]) > 4:
            rec["kinds"] = [core.BADNUM]
    except Exception as ex:
        rec["exc"] = type(ex).__name__
    return case


def case(job):
    r = random.Random(job[0])
    np.random.seed(r.randrange(2**31))
    return drawn(r) if r.random() < 0.05 else history(r)


def crash(reason):
    return dict(how="crash", e=dict(k="id"), col=0, nodes=[], steps=[dict(op="?", exc=reason, dirty=[])])


def check(ctx):
    ctx.design("DropoutMC", f"DropoutMC_{ctx.tier}.cfg")
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(2500, 40000))]
    cases = [crash(c.reason) if isinstance(c, pool.Crash) else c for c in pool.pmap(case, jobs)]
    count = {}
    for c in cases:
        for s in c["steps"]:
            k = c["how"] + " " + s["op"]
            count[k] = count.get(k, 0) + 1
    ctx.notes["steps"] = count
    for c in cases[:2]:
        ctx.sample(c)
    ctx.conform("DropoutTrace", "DropoutTrace.cfg", cases, plans=[list(j) for j in jobs])
