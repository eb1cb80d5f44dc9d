"""C24: dense, output, normalization, attention and similarity layers (spec/Smooth.tla)."""
import random

import numpy as np

import core
import pool
from dropout import Watch

S = 65536
ACTS = {
    "Relu": dict(f="relu", p=[]),
    "Mish": dict(f="mish", p=[20 * S]),
    "Gelu": dict(f="gelu", p=[]),
    "Swish": dict(f="swish", p=[]),
    "HardSwish": dict(f="hard_swish", p=[]),
    "HardSwishMobilenet": dict(f="hard_swish_mobilenet", p=[]),
    "Dish": dict(f="dish", p=[]),
    "HardSigmoid": dict(f="clipped_linear", p=[13107, S // 2, 0, S]),
    "HardTanh": dict(f="clipped_linear", p=[S, 0, -S, S]),
    "ReluK": None,
    "ClippedLinear": None,
    "Sigmoid": dict(f="sigmoid", p=[]),
    "Linear": dict(f="identity", p=[]),
}
PLAIN = ("Sigmoid", "Linear")


def fx(v):
    return core.enc_int(v, S)


def rows(a):
    a = np.asarray(a)
    return [[fx(v) for v in r] for r in a.reshape((a.shape[0], -1))]


def grid(r, *shape, den=4, lim=5):
    n = int(np.prod(shape))
    return np.array([r.randint(-lim, lim) / den for _ in range(n)], dtype="float32").reshape(shape)


def offs(r, n):
    """Biases that keep sums of the grid's products away from kinks."""
    return np.array([(2 * r.randint(-24, 24) + 1) / 64 for _ in range(n)], dtype="float32")


class Program:
    def __init__(self, r):
        import thinc.api as T

        self.r, self.T = r, T
        self.items = []  # (layer, its expression without parameters, names of its parameters)
        self.ragged = False
        kind = r.choice(["dense"] * 5 + ["softmax", "softmax", "multi", "norm", "act", "attention", "attention", "attention2", "attention2", "cauchy", "cauchy"])
        self.pair = kind == "cauchy"
        self.how = kind
        w = r.choice([1, 2, 3, 4])
        self.nI = w
        if kind == "cauchy":
            self.items.append((T.CauchySimilarity(self.maybe(w)), dict(k="cauchy"), ["W"]))
        else:
            if kind != "dense" and r.random() < 0.4:
                w = self.dense(w)
            if kind == "dense":
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    w = self.dense(w)
            elif kind == "softmax":
                o = r.choice([1, 2, 3, 4])
                t, norm = 1.0, True
                if r.random() < 0.3:
                    m = T.Softmax(self.maybe(o), self.maybe(w))
                else:
                    t, norm = r.choice([1.0, 1.0, 0.5, 2.0, 4.0, 0.25]), r.random() < 0.7
                    m = T.Softmax_v2(self.maybe(o), self.maybe(w), temperature=t, normalize_outputs=norm)
                m.maybe_get_dim("nO") or m.set_dim("nO", o)
                self.items.append((m, dict(k="softmax", t=fx(t), norm=norm), ["W", "b"]))
                self.how = f"softmax, temperature {t}" + ("" if norm else ", scores at prediction")
            elif kind == "multi":
                parts = [r.choice([1, 2, 3]) for _ in range(r.choice([1, 2, 3]))]
                self.items.append((T.MultiSoftmax(tuple(parts), self.maybe(w)), dict(k="multisoftmax", parts=parts), ["W", "b"]))
            elif kind == "norm":
                self.items.append((T.LayerNorm(self.maybe(w)), dict(k="layernorm"), ["G", "b"]))
            elif kind == "act":
                nm = r.choice(["softmax_activation", "sigmoid_activation", "Logistic"])
                e = dict(k="softmax_activation") if nm == "softmax_activation" else dict(k="act", a=ACTS["Sigmoid"])
                self.items.append((getattr(T, nm)(), e, []))
                self.how = nm
            elif kind == "attention":
                self.ragged = True
                self.items.append((T.ParametricAttention(self.maybe(w)), dict(k="attention", key=[]), ["Q"]))
            else:
                self.ragged = True
                if r.random() < 0.3:
                    self.items.append((T.ParametricAttention_v2(nO=self.maybe(w)), dict(k="attention", key=[]), ["Q"]))
                else:
                    nm, key, a = self.activated(w, w)
                    self.how = "attention2 of " + nm
                    m = T.ParametricAttention_v2(key_transform=key, nO=self.maybe(w))
                    self.items.append((m, dict(k="attention", key=[dict(k="dense", a=a)]), ["Q"]))
            if kind not in ("dense", "softmax") and r.random() < 0.3:
                w = self.dense(w if kind != "multi" else sum(parts))
        self.build()

    def maybe(self, n):
        return n if self.r.random() < 0.6 else None

    def activated(self, w, o):
        r, T = self.r, self.T
        nm = r.choice(list(ACTS))
        kw = {}
        a = ACTS[nm]
        if nm == "ReluK":
            k = r.choice([6.0, 1.0, 2.5])
            kw["k"] = k
            a = dict(f="clipped_linear", p=[S, 0, 0, fx(k)])
        elif nm == "ClippedLinear":
            p = dict(slope=r.choice([1.0, 0.5, 2.0]), offset=r.choice([0.0, 0.25]), min_val=r.choice([0.0, -1.0, -0.5]), max_val=r.choice([1.0, 2.0]))
            kw.update(p)
            a = dict(f="clipped_linear", p=[fx(p[x]) for x in ("slope", "offset", "min_val", "max_val")])
        return nm, getattr(T, nm)(o, w, **kw), a

    def dense(self, w):
        r, T = self.r, self.T
        o = r.choice([1, 2, 3, 4])
        nm, m, a = self.activated(w, o)
        how = nm
        if nm not in PLAIN and r.random() < 0.4:
            # the same with its options
            args = dict(m.attrs) if nm == "ClippedLinear" else dict(k=a["p"][3] / S) if nm == "ReluK" else {}
            norm, drop = r.random() < 0.6 and o > 1, r.random() < 0.4
            m = getattr(T, nm)(o, w, normalize=norm, dropout=0.0 if drop else None, **args)
            parts = [m]
            if norm or drop:
                parts = []
                todo = [m]
                while todo:
                    x = todo.pop(0)
                    if x.layers:
                        todo = list(x.layers) + todo
                    else:
                        parts.append(x)
            self.items.append((parts[0], dict(k="dense", a=a), ["W", "b"]))
            if norm:
                self.items.append((parts[1], dict(k="layernorm"), ["G", "b"]))
                how += " normalized"
            if drop:
                self.items.append((parts[-1], dict(k="id"), []))
            assert len(parts) == 1 + norm + drop, parts
            self.items[-1] += (m, len(parts))
        else:
            self.items.append((m, dict(k="dense", a=a), ["W", "b"]))
        self.how += " " + how
        return o

    def build(self):
        r, T = self.r, self.T
        # the layers to chain: some entries belong to one layer with options
        tops = []
        for it in self.items:
            if len(it) == 5:
                if it[4] > 1:
                    del tops[len(tops) - (it[4] - 1) :]
                tops.append(it[3])
            else:
                tops.append(it[0])
        self.items = [it[:3] for it in self.items]
        if self.ragged or (not self.pair and r.random() < 0.3):
            self.form = r.choice(["ragged", "list"] if self.ragged else ["ragged", "list", "padded"])
            wrap = T.with_array2d if self.form == "padded" else T.with_array
            tops = [t if t.name == "para-attn" else wrap(t) for t in tops]
            tops = [T.with_ragged(t) if t.name == "para-attn" and self.form == "list" else t for t in tops]
        else:
            self.form = "pair" if self.pair else "array"
        self.model = tops[0] if len(tops) == 1 else T.chain(*tops)
        ops = r.choice([T.NumpyOps, T.NumpyOps, T.Ops])()
        if type(ops) is T.Ops:
            self.how += " (generic)"
        self.ops = ops
        for n in self.model.walk():
            n.ops = ops
        X, _ = self.batch()
        self.model.initialize(X=self.give(X, [len(X)] if not self.pair else []))
        self.P, self.nodes = [], []
        for m, e, names in self.items:
            e = dict(e)
            e, nodes = self.fill(m, e, names)
            if e["k"] == "attention" and e["key"]:
                key = m.layers[0]
                k, kn = self.fill(key, dict(e["key"][0]), ["W", "b"])
                e["key"] = [k]
                nodes += kn
            self.P.append(e)
            self.nodes.append(nodes)

    def fill(self, m, e, names):
        r = self.r
        for nm in names:
            shape = m.get_param(nm).shape
            if nm == "b":
                v = offs(r, shape[0])
            elif e["k"] == "cauchy":
                v = np.abs(grid(r, *shape))
            else:
                v = grid(r, *shape)
            if r.random() < 0.85 or e["k"] == "dense":
                m.set_param(nm, v)
            v = m.get_param(nm)
            e[nm] = rows(v) if v.ndim == 2 else [fx(x) for x in v]
        return e, [(m, nm) for nm in names]

    def batch(self):
        r = self.r
        n = r.choice([1, 1, 2, 3, 4])
        big = r.choice([1, 1, 1, 1, 4])
        X = grid(r, n, self.nI, lim=8) * big
        if self.pair:
            return np.concatenate([X, grid(r, n, self.nI, lim=8)], axis=1), []
        if self.form in ("ragged", "list", "padded"):
            lens = []
            left = n
            while left:
                k = r.randint(1, left)
                if self.form == "ragged" and r.random() < 0.2:
                    lens.append(0)
                lens.append(k)
                left -= k
            return X, lens
        return X, [n]

    def give(self, X, lens):
        from thinc.types import Ragged

        if self.pair:
            n = X.shape[1] // 2
            return (np.ascontiguousarray(X[:, :n]), np.ascontiguousarray(X[:, n:]))
        if self.form == "array":
            return X.copy()
        if self.form == "ragged":
            return Ragged(X.copy(), np.array(lens, dtype="int32"))
        seqs = [s.copy() for s in np.split(X, np.cumsum(lens)[:-1])]
        if self.form == "padded":
            return self.ops.list2padded(seqs)
        return seqs

    def take(self, X):
        from thinc.types import Padded, Ragged

        if self.pair and isinstance(X, tuple):
            return rows(np.concatenate(X, axis=1))
        if isinstance(X, Ragged):
            return rows(X.data)
        if isinstance(X, Padded):
            X = self.ops.padded2list(X)
        if isinstance(X, list):
            return rows(np.concatenate(X)) if X else []
        return rows(X)

    def gives(self, D, lens, Y):
        """A gradient like the result."""
        if self.pair:
            return D.reshape(-1)
        return self.give(D, lens)

    def zero(self):
        return [[rows(np.zeros_like(m.get_param(nm)).reshape((-1, m.get_param(nm).shape[-1]))) for m, nm in ns] for ns in self.nodes]

    def grads(self):
        out = []
        for ns in self.nodes:
            out.append([])
            for m, nm in ns:
                g = m.get_grad(nm) if m.has_grad(nm) else np.zeros_like(m.get_param(nm))
                out[-1].append(rows(g.reshape((-1, g.shape[-1]))))
        return out


def raw(X):
    from thinc.types import Padded, Ragged

    if isinstance(X, Ragged):
        return [X.data, X.lengths]
    if isinstance(X, Padded):
        return [X.data, X.size_at_t, X.lengths, X.indices]
    return list(X) if isinstance(X, (tuple, list)) else [X]


def case(job):
    r = random.Random(job[0])
    p = Program(r)
    m = p.model
    out = dict(how=p.how + ", " + p.form, P=p.P, zero=p.zero(), steps=[])
    w = Watch()
    pending = []
    fresh = True
    for _ in range(r.choice([2, 3, 5])):
        rec = dict(op="", exc="", why="", dirty=[], fresh=False, X=[], lens=[], Y=[], dY=[], dX=[], G=[])
        try:
            if pending and r.random() < 0.5:
                rec, back, shape = pending.pop(r.randrange(len(pending)))
            else:
                X, lens = p.batch()
                rec.update(X=rows(X), lens=lens)
                inp = p.give(X, lens)
                for a in raw(inp):
                    w.add("the input", a if isinstance(a, np.ndarray) else np.asarray(a))
                rec["op"] = r.choice(["predict", "eval", "train", "train", "train"])
                if rec["op"] == "predict":
                    rec["Y"] = p.take(m.predict(inp)) if not p.pair else rows(m.predict(inp).reshape((-1, 1)))
                    back = None
                else:
                    Y, back = m(inp, is_train=rec["op"] == "train")
                    rec["Y"] = p.take(Y) if not p.pair else rows(Y.reshape((-1, 1)))
                    shape = (len(rec["Y"]), len(rec["Y"][0]))
                    if rec["op"] == "eval":
                        if p.P[-1]["k"] == "softmax" and not p.P[-1]["norm"] and r.random() < 0.7:
                            out["steps"].append(rec)
                            rec = dict(rec, op="refuse", why="scores that are not normalized have no gradient")
                            back(p.gives(grid(r, *shape), lens, None))
                    elif r.random() < 0.4:
                        pending.append((rec, back, shape))
                        continue
            if rec["op"] == "train":
                if r.random() < 0.3:
                    for n in m.walk():
                        for nm in n.grad_names:
                            n.set_grad(nm, np.zeros_like(n.get_grad(nm)))
                    rec["fresh"] = True
                D = grid(r, *shape)
                rec["dY"] = rows(D)
                dY = p.gives(D, rec["lens"], None)
                for a in raw(dY):
                    w.add("the gradient", np.asarray(a))
                rec["dX"] = p.take(back(dY))
                rec["G"] = p.grads()
            rec["dirty"] = w.dirty()
        except Exception as e:
            rec["exc"] = f"{type(e).__name__} {e}"[:80]
        out["steps"].append(rec)
        if rec["exc"]:
            break
    return out


def crash(reason):
    return dict(how="crash", P=[], zero=[], steps=[dict(op="?", exc=reason, why="", dirty=[], fresh=False)])


def check(ctx):
    ctx.design("SmoothMC", f"SmoothMC_{ctx.tier}.cfg", timeout=800 if ctx.tier == "quick" else 7200)
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(4000, 40000))]
    cases = [crash(c.reason) if isinstance(c, pool.Crash) else c for c in pool.pmap(case, jobs)]
    count = {}
    for c in cases:
        k = c["how"].split(",")[0]
        count[k] = count.get(k, 0) + len(c["steps"])
    ctx.notes["passes"] = count
    for c in cases[:2]:
        ctx.sample(c["steps"][:1])
    ctx.conform("SmoothTrace", "SmoothTrace.cfg", cases, plans=[list(j) for j in jobs], timeout=800 if ctx.tier == "quick" else 7200)
