"""C11: wrapped layers and the representations of a batch (spec/Represent.tla)."""
import random

import numpy as np

import core
import pool


def row(a):
    return [core.enc_int(v) for v in np.asarray(a).ravel()]


def rws(a):
    return [row(r) for r in a]


# ----------------------------------------------------------------- containers
def order(r, lens):
    """Positions by decreasing length; ties in any order."""
    idx = list(range(len(lens)))
    if r is not None and r.random() < 0.3:
        r.shuffle(idx)
    return sorted(idx, key=lambda j: -lens[j])


def make(kind, seqs, w, r):
    from thinc.types import Padded, Ragged

    lens = [len(s) for s in seqs]
    flat = np.concatenate([np.zeros((0, w), dtype="float32")] + list(seqs))
    if kind == "list":
        return [s.copy() for s in seqs]
    if kind == "nested":
        return [[v.copy() for v in s] for s in seqs]
    if kind == "ragged":
        return Ragged(flat, np.array(lens, dtype="i"))
    if kind == "tuple2":
        return (flat, np.array(lens, dtype="i"))
    if kind == "array":
        return seqs[0].copy()
    if kind == "planes":
        return np.stack(seqs)
    if kind == "array3":
        return np.ascontiguousarray(np.stack(seqs, axis=1))
    ordr = order(r, lens)
    T = max(lens, default=0)
    data = np.zeros((T, len(seqs), w), dtype="float32")
    for b, j in enumerate(ordr):
        data[: lens[j], b] = seqs[j]
    meta = (
        np.array([sum(n > t for n in lens) for t in range(T)], dtype="i"),
        np.array([lens[j] for j in ordr], dtype="i"),
        np.array(ordr, dtype="i"),
    )
    return (data, *meta) if kind == "tuple4" else Padded(data, *meta)


def kind_of(x, like, nd=2):
    """The name of x's representation; like is the one expected."""
    from thinc.types import Padded, Ragged

    if isinstance(x, Ragged):
        return "ragged"
    if isinstance(x, Padded):
        return "padded"
    if isinstance(x, tuple):
        return f"tuple{len(x)}"
    if isinstance(x, list):
        if like == "nested" and all(isinstance(s, list) for s in x):
            return "nested"
        return "list" if all(isinstance(s, np.ndarray) and s.ndim == nd for s in x) else "list of something"
    if isinstance(x, np.ndarray):
        if x.ndim == 3 and like in ("array3", "planes"):
            return like
        return {nd: "array"}.get(x.ndim, f"array of {x.ndim} dimensions")
    return type(x).__name__


def enc(x, kind):
    if kind == "nested" or kind == "list":
        return dict(t="l", s=[rws(s) for s in x])
    if kind == "array":
        return dict(t="l", s=[rws(x)])
    if kind == "planes":
        return dict(t="l", s=[rws(s) for s in x])
    if kind == "array3":
        T, B = x.shape[:2]
        return dict(t="p", r=[[row(x[t, b]) for b in range(B)] for t in range(T)], z=[B] * T, n=[T] * B, x=list(range(B)), ln=B)
    if kind == "ragged":
        return dict(t="g", r=rws(x.dataXd), n=row(x.lengths), ln=len(x))
    if kind == "tuple2":
        return dict(t="g", r=rws(x[0]), n=row(x[1]), ln=len(x[1]))
    if kind in ("padded", "tuple4"):
        d, z, n, i = x if isinstance(x, tuple) else (x.data, x.size_at_t, x.lengths, x.indices)
        return dict(t="p", r=[[row(d[t, b]) for b in range(d.shape[1])] for t in range(d.shape[0])], z=row(z), n=row(n), x=row(i), ln=len(n))
    return dict(t="none")


def grad_like(y, kind, r, item):
    """A gradient with the layout of y, zero in padding."""
    from thinc.types import Padded, Ragged

    def g(a):
        a = np.asarray(a)
        return np.array([r.randint(-2, 2) for _ in range(a.size)], dtype="float32").reshape(a.shape)

    if kind == "list":
        return [g(a) for a in y]
    if kind == "nested":
        return [[g(v) for v in s] for s in y]
    if kind in ("array", "planes", "array3"):
        return g(y)
    if kind == "ragged":
        return Ragged(g(y.dataXd), y.lengths.copy())
    if kind == "tuple2":
        return (g(y[0]), y[1].copy())
    d, z, n, i = y if kind == "tuple4" else (y.data, y.size_at_t, y.lengths, y.indices)
    e = g(d)
    for b, k in enumerate(n):
        e[int(k):, b] = 0
    out = (e, z.copy(), n.copy(), i.copy())
    return out if kind == "tuple4" else Padded(*out)


def arrays(x):
    from thinc.types import Padded, Ragged

    if isinstance(x, Ragged):
        return [x.dataXd, x.lengths]
    if isinstance(x, Padded):
        return [x.data, x.size_at_t, x.lengths, x.indices]
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in arrays(y)]
    return [x] if isinstance(x, np.ndarray) else []


def reshaped(x, tail):
    from thinc.types import Ragged

    if isinstance(x, Ragged):
        return Ragged(reshaped(x.dataXd, tail), x.lengths)
    if isinstance(x, list):
        return [reshaped(y, tail) for y in x]
    return x.reshape((x.shape[0],) + tail)


def shapes(x):
    """The shapes of the data in a batch."""
    return [a.shape for a in arrays(x)]


class Watch:
    def __init__(self):
        self.xs = []

    def add(self, nm, x):
        self.xs += [(nm, a, a.copy()) for a in arrays(x)]

    def dirty(self):
        return [nm for nm, a, b in self.xs if a.shape != b.shape or a.tobytes() != b.tobytes()]


# ---------------------------------------------------------------- inner layer
def stage(g, W, b, s):
    if g == "aff":
        return s @ W.T + b
    if g == "sq":
        return s * s
    if g == "cum":
        return np.cumsum(s, axis=0)
    if g == "rev":
        return s[::-1].copy()
    if g == "tot":
        return np.tile(s.sum(axis=0), (len(s), 1)).reshape(s.shape)
    if g == "head":
        return s[:1].copy()
    return np.repeat(s, 2, axis=0)


def pull(g, W, s, d):
    if g == "aff":
        return d @ W
    if g == "sq":
        return 2 * s * d
    if g == "cum":
        return np.cumsum(d[::-1], axis=0)[::-1].copy()
    if g == "rev":
        return d[::-1].copy()
    if g == "tot":
        return np.tile(d.sum(axis=0), (len(s), 1)).reshape(s.shape)
    if g == "head":
        out = np.zeros_like(s)
        out[:1] = d
        return out
    return d[0::2] + d[1::2]


def split(x, kind, w):
    from thinc.types import Padded, Ragged

    if kind == "list":
        assert isinstance(x, list) and all(a.ndim == 2 for a in x), "inner layer needs a list of arrays"
        return list(x)
    if kind == "ragged":
        assert isinstance(x, Ragged), "inner layer needs Ragged"
        assert isinstance(x.lengths, np.ndarray) and x.dataXd.shape[0] == int(x.lengths.sum()), "inner layer needs consistent lengths"
        out, at = [], 0
        for n in x.lengths:
            out.append(x.dataXd[at : at + int(n)])
            at += int(n)
        return out
    if kind == "padded":
        assert isinstance(x, Padded), "inner layer needs Padded"
        return [x.data[: int(n), b] for b, n in enumerate(x.lengths)]
    if kind == "items":
        assert isinstance(x, list) and all(a.ndim == 1 for a in x), "inner layer needs a list of rows"
        return [np.stack(x) if x else np.zeros((0, w), dtype="float32")]
    assert isinstance(x, np.ndarray), "inner layer needs an array"
    return [x.reshape((-1, x.shape[-1])) if x.ndim > 1 else x.reshape((-1, 1))]


def join(ys, x, kind, w, keep=False):
    from thinc.types import Padded, Ragged

    if kind == "list":
        return ys
    if kind == "ragged":
        return Ragged(np.concatenate([np.zeros((0, w), dtype="float32")] + ys), np.array([len(y) for y in ys], dtype="i"))
    if kind == "padded":
        data = np.full((x.data.shape[0], len(ys), w), 99, dtype="float32")
        for b, y in enumerate(ys):
            data[: len(y), b] = y
        return Padded(data, x.size_at_t, x.lengths, x.indices)
    if kind == "items":
        return ys[0]
    if keep:  # keeps the shape, also of arrays that are not matrices
        return ys[0].reshape(x.shape)
    return ys[0].reshape(x.shape[:-1] + (w,))


class Inner:
    def __init__(self, kind, gs, W, b):
        from thinc.api import Model

        self.kind, self.gs, self.W, self.b = kind, gs, W, b
        self.seen = None
        self.out = W.shape[0] if "aff" in gs else W.shape[1]
        self.rows_out = False  # give a list of rows back
        self.model = Model("inner", self.forward, dims={"nI": W.shape[1], "nO": self.out}, params={"W": W, "b": b})

    def forward(self, model, X, is_train):
        gs, W, kind, w = self.gs, self.W, self.kind, self.W.shape[1]
        if isinstance(X, np.ndarray):
            X = X.copy()
        self.seen = enc(X, kind) if kind in ("list", "ragged", "padded") else dict(t="none")
        runs = []
        for s in split(X, kind, w):
            run = [s.copy()]
            for g in gs:
                run.append(stage(g, W, self.b, run[-1]).astype("float32"))
            runs.append(run)
        keep = "aff" not in gs
        Y = join([run[-1] for run in runs], X, kind, self.out, keep)
        if self.rows_out:
            Y = list(Y)

        def backprop(dY):
            if self.rows_out:
                assert isinstance(dY, list)
                dY = np.stack(dY) if dY else np.zeros((0, self.out), dtype="float32")
            elif kind == "items":
                assert isinstance(dY, np.ndarray), "inner layer needs an array as gradient"
            ds = [dY] if kind == "items" else split(dY, kind, self.out)
            assert len(ds) == len(runs), "inner layer needs as many gradients as sequences"
            back = []
            for d, run in zip(ds, runs):
                assert d.shape == run[-1].shape, "inner layer needs gradients of the result's shape"
                for g, s in zip(reversed(gs), reversed(run[:-1])):
                    if g == "aff" and len(s):
                        model.inc_grad("W", d.T @ s)
                        model.inc_grad("b", d.sum(axis=0))
                    d = pull(g, W, s, d).astype("float32")
                back.append(d)
            dX = join(back, X, kind, w, keep)
            return list(dX) if self.rows_out else dX

        return Y, backprop


ROWWISE = ["aff", "sq"]
SEQWISE = ["aff", "sq", "cum", "rev", "tot"]


class Program:
    def __init__(self, r):
        import thinc.api as T

        self.r = r
        base = r.choice(["array", "array2d", "list", "list", "ragged", "ragged", "padded", "padded", "flatten1", "flatten2", "reshape"])
        wi, wo = r.choice([1, 2, 3]), r.choice([1, 2, 3])
        W = np.array([r.randint(-2, 2) for _ in range(wi * wo)], dtype="float32").reshape((wo, wi))
        b = np.array([r.randint(-2, 2) for _ in range(wo)], dtype="float32")
        rowwise = base in ("array", "array2d", "flatten1", "flatten2", "reshape")
        pool_ = ROWWISE if rowwise else SEQWISE
        gs = [r.choice(pool_) for _ in range(r.choice([0, 1, 2, 2]))]
        while gs.count("sq") > 1:
            gs.remove("sq")
        if base in ("list", "ragged") and r.random() < 0.25:
            gs.insert(r.randint(0, len(gs)), r.choice(["head", "twice"]))
        if gs.count("aff") > 1:  # one affine stage
            k = gs.index("aff")
            gs = [g for j, g in enumerate(gs) if g != "aff" or j == k]
        self.gs, self.W, self.b, self.wi = gs, W, b, wi
        self.same = not ({"head", "twice"} & set(gs))
        kind = {"array": "array", "array2d": "array", "reshape": "array", "flatten1": "items", "flatten2": "items"}.get(base, base)
        self.inner = Inner(kind, gs, W, b)
        m = self.inner.model
        self.how = base
        if base in ("array", "array2d"):
            pad = r.choice([0, 0, 0, 1, 2])
            m = (T.with_array if base == "array" else T.with_array2d)(m, pad=pad)
            self.kinds = ["array", "list", "ragged", "padded"]
            self.how += f" pad {pad}" if pad else ""
        elif base == "reshape":
            m, self.kinds = T.with_reshape(m), ["planes"]
            m.set_dim("nO", self.inner.out)
        elif base == "flatten1":
            m, self.kinds = T.with_flatten(m), ["nested"]
        elif base == "flatten2":
            self.inner.rows_out = True
            m, self.kinds = T.with_flatten_v2(m), ["nested"]
        else:
            m, self.kinds = self.wrap(base, m)
        # rows that are not vectors
        self.tail = None
        if "aff" not in gs and base in ("array", "array2d") and r.random() < 0.6:
            self.tail = r.choice([(wi, 1), (1, wi)]) if wi > 1 else r.choice([(), (1, 1)])
            self.kinds = ["ragged"] if base == "array2d" else ["array", "list", "ragged"]
            self.how += f" rows of shape {self.tail}"
        # wrappers of wrappers
        if self.tail is None and base in ("array", "array2d", "list", "ragged", "padded"):
            while r.random() < 0.3:
                top = r.choice(["list", "ragged", "padded"])
                self.how = f"{top}({self.how})"
                m, self.kinds = self.wrap(top, m)
        self.idx = None
        k = r.random()
        if k < 0.08:
            m = T.with_debug(m)
            self.how = f"debug({self.how})"
        elif k < 0.14:
            m = T.with_cpu(m, m.ops)
            self.how = f"cpu({self.how})"
            self.kinds = [q for q in self.kinds if q in ("array", "list", "planes", "array3", "tuple2", "tuple4")] or None
        elif k < 0.24:
            self.idx = r.choice([0, 1, 2])
            m = T.with_getitem(self.idx, m)
            self.how = f"getitem({self.how})"
        if self.kinds is None:
            self.__init__(r)
            return
        self.model = m
        self.nd = 2 if self.tail is None else 1 + len(self.tail)
        if r.random() < 0.4:  # nothing to infer, but the functions must cope
            x = self.batch(r.choice(self.kinds))[1]
            m.initialize(X=x if r.random() < 0.7 else None)

    def wrap(self, base, m):
        import thinc.api as T

        if base == "list":
            return T.with_list(m), ["list", "ragged", "padded"]
        if base == "ragged":
            return T.with_ragged(m), ["ragged", "padded", "tuple2", "list"]
        return T.with_padded(m), ["padded", "ragged", "tuple4", "array3", "list"]

    def batch(self, kind):
        r, w = self.r, self.wi
        n = 1 if kind == "array" else r.choice([1, 1, 2, 2, 3, 3, 4, 5])
        lens = [r.choice([0, 1, 1, 2, 3, 4]) for _ in range(n)]
        if kind in ("planes", "array3"):
            lens = [max(1, lens[0])] * n
        if kind == "array":
            lens = [max(1, lens[0])]
        seqs = [np.array([r.randint(-3, 3) for _ in range(k * w)], dtype="float32").reshape((k, w)) for k in lens]
        X = make(kind, seqs, w, r)
        if self.tail is not None:
            X = reshaped(X, self.tail)
        return seqs, self.among(X)

    def among(self, x, what="item"):
        if self.idx is None:
            return x
        out = [f"{what} {j}" for j in range(3)]
        out[self.idx] = x
        return tuple(out)

    def pick(self, x):
        """The batch, and what else is in the tuple."""
        if self.idx is None:
            return x, ""
        assert isinstance(x, tuple) and len(x) == 3, "not a tuple of three"
        return x[self.idx], repr([y for j, y in enumerate(x) if j != self.idx])


def history(r):
    p = Program(r)
    case = dict(how=p.how, gs=p.gs, P=dict(W=rws(p.W), b=row(p.b)), steps=[])
    w = Watch()
    pend = []
    passes = 0
    none = dict(t="none")
    for _ in range(r.choice([2, 4, 8])):
        rec = dict(op="", exc="", dirty=[], kind="", ykind="", X=none, Y=none, dY=none, dX=none, seen=none, rest="", wantrest="", train=False, j=0, G=dict(W=[], b=[]))
        try:
            if not pend or r.random() < 0.5:
                rec["op"] = "pass"
                kind = rec["kind"] = r.choice(p.kinds)
                seqs, X = p.batch(kind)
                w.add("the input", X)
                x, rec["wantrest"] = p.pick(X)
                rec["X"] = enc(x, kind)
                rec["train"] = r.random() < 0.7
                if rec["train"]:
                    Y, back = p.model(X, is_train=True)
                else:
                    Y = p.model.predict(X)
                y, rec["rest"] = p.pick(Y)
                rec["ykind"] = kind_of(y, "list" if p.how.find("flatten1") >= 0 else kind, p.nd)
                if "flatten1" in p.how and rec["ykind"] == "list":
                    ykind, rec["ykind"] = "list", kind
                else:
                    ykind = kind
                rec["Y"] = enc(y, ykind) if rec["ykind"] == kind else none
                rec["seen"] = p.inner.seen
                if rec["train"]:
                    passes += 1
                    pend.append((passes, kind, ykind, y, back, x))
            else:
                rec["op"] = "back"
                j, kind, ykind, y, back, x = pend.pop(r.randrange(len(pend)))
                rec["j"], rec["kind"] = j, kind
                dy = grad_like(y, ykind, r, None)
                dY = p.among(dy, "gradient")
                w.add("the gradient", dY)
                rec["wantrest"] = p.pick(dY)[1]
                rec["dY"] = enc(dy, ykind)
                dx, rec["rest"] = p.pick(back(dY))
                rec["ykind"] = kind_of(dx, kind, p.nd)
                if "flatten1" in p.how and rec["ykind"] == "list":
                    rec["ykind"] = "nested"
                if p.tail is not None and rec["ykind"] == kind and shapes(dx) != shapes(x):
                    rec["ykind"] = f"{shapes(dx)} instead of {shapes(x)}"
                rec["dX"] = enc(dx, kind) if rec["ykind"] == kind else none
                m = p.inner.model
                for q, a in (("W", p.W), ("b", p.b)):
                    g = m.get_grad(q) if m.has_grad(q) else np.zeros_like(a)
                    rec["G"][q] = rws(g) if q == "W" else row(g)
            rec["dirty"] = w.dirty()
        except Exception as ex:
            rec["exc"] = type(ex).__name__ + " " + str(ex)[:60]
        case["steps"].append(rec)
        if rec["exc"]:
            break
    return case


def case(job):
    return history(random.Random(job[0]))


def crash(reason):
    return dict(how="crash", gs=[], P=dict(W=[[0]], b=[0]), steps=[dict(op="?", exc=reason, dirty=[], kind="")])


def check(ctx):
    ctx.design("RepresentMC", f"RepresentMC_{ctx.tier}.cfg")
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(6000, 80000))]
    cases = [crash(c.reason) if isinstance(c, pool.Crash) else c for c in pool.pmap(case, jobs)]
    count = {}
    for c in cases:
        for s in c["steps"]:
            k = f"{c['how']} {s['op']} {s['kind']}"
            count[k] = count.get(k, 0) + 1
    ctx.notes["kinds of steps"] = len(count)
    ctx.notes["steps"] = dict(sorted(count.items(), key=lambda kv: -kv[1])[:80])
    for c in cases[:2]:
        ctx.sample(c)
    ctx.conform("RepresentTrace", "RepresentTrace.cfg", cases, plans=[list(j) for j in jobs])
