"""Typed random programs over the layer combinators, executed on real models.

A program is an expression (judged by spec/Layers.tla) together with the thinc model built
from the same description through the public API.  All numbers are small integers that
float32 represents exactly, so results are compared exactly.
"""
import random
import zlib

import numpy as np

import core
import pool

BOUND = 2**22


# ------------------------------------------------------------------ building
def width(r):
    return r.choice([1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 6])


class TooBig(Exception):
    pass


class Builder:
    def __init__(self, seed, K=1, mean=False, rows=None, zero_len=True, share=True):
        self.rng = random.Random(seed)
        self.root = self.rng.random() < 0.5
        self.K = K
        self.mean = mean
        self.params = []  # spec records
        self.nodes = []  # real models, aligned
        self.rows = rows or self.rng.randint(1, 4)
        self.zero_len = zero_len
        self.share = share
        self.pool = {}
        self.occ = {}
        self.used = set()

    # -- parameters
    def w(self):
        return self.rng.choice([-1, 0, 1, 1, -1, 1])

    def b(self):
        return self.rng.randint(-2, 2) * self.K

    def leaf_params(self, kind, **arrs):
        self.params.append(dict(kind=kind, **arrs))
        return len(self.params)

    def set_params(self, model, **arrs):
        import numpy

        for k, v in arrs.items():
            model.set_param(k, numpy.array(v, dtype="float32"))
        self.nodes.append(model)

    # -- leaves m -> m
    def leaf(self, win, wout):
        import thinc.api as T
        from thinc.layers.clipped_linear import ClippedLinear, HardTanh, ReluK

        r = self.rng
        kind = r.choice(["linear", "relu", "maxout", "cliplin", "linear", "relu"])
        if kind in ("linear", "relu", "cliplin"):
            W = [[self.w() for _ in range(win)] for _ in range(wout)]
            b = [self.b() for _ in range(wout)]
            e = dict(op=kind, nO=wout, k=[])
            if kind == "linear":
                m = T.Linear(wout, win)
            elif kind == "relu":
                m = T.Relu(wout, win)
            else:
                v = r.choice(["clip", "clip", "tanh", "reluk"])
                K = self.K
                if v == "tanh" and K == 1:
                    m = HardTanh(wout, win)
                    e.update(slope=1, offset=0, lo=-1, hi=1)
                elif v == "reluk" and K == 1:
                    m = ReluK(wout, win)
                    e.update(slope=1, offset=0, lo=0, hi=6)
                else:
                    lo = r.randint(-3, 0) * K
                    e.update(
                        slope=r.choice([1, 2, -1]),
                        offset=r.randint(-2, 2) * K,
                        lo=lo,
                        hi=lo + r.randint(1, 6) * K,
                    )
                    m = ClippedLinear(
                        wout,
                        win,
                        slope=float(e["slope"]),
                        offset=float(e["offset"]),
                        min_val=float(e["lo"]),
                        max_val=float(e["hi"]),
                    )
        else:
            nP = r.randint(2, 3)
            W = [[[self.w() for _ in range(win)] for _ in range(nP)] for _ in range(wout)]
            b = [[self.b() for _ in range(nP)] for _ in range(wout)]
            e = dict(op="maxout", nO=wout, k=[])
            m = T.Maxout(wout, win, nP=nP)
        e["id"] = self.leaf_params(kind, W=W, b=b)
        self.set_params(m, W=W, b=b)
        return e, m

    def embed(self, wout, nV):
        import thinc.api as T

        E = [[self.rng.randint(-2, 2) * self.K for _ in range(wout)] for _ in range(nV)]
        e = dict(op="embed", nO=wout, k=[], id=self.leaf_params("embed", E=E))
        m = T.Embed(wout, nV)
        self.set_params(m, E=E)
        return e, m

    # -- cloning: parallel walk of an expression and its copies
    def clone_expr(self, e, mapping):
        e2 = dict(e)
        if "id" in e:
            if e["id"] not in mapping:
                p = self.params[e["id"] - 1]
                self.params.append(
                    {k: core_copy(v) for k, v in p.items()}
                )
                self.nodes.append(None)
                mapping[e["id"]] = len(self.params)
            e2["id"] = mapping[e["id"]]
        e2["k"] = [self.clone_expr(c, mapping) for c in e["k"]]
        return e2

    def clone(self, e, m, n):
        import thinc.api as T

        orig_nodes = list(m.walk())
        out = T.clone(m, n)
        copies = out.layers[-(n - 1):]
        exprs = [e]
        for cp in copies:
            mapping = {}
            exprs.append(self.clone_expr(e, mapping))
            copy_nodes = list(cp.walk())
            by = {id(a): b for a, b in zip(orig_nodes, copy_nodes)}
            for old, new in mapping.items():
                self.nodes[new - 1] = by.get(id(self.nodes[old - 1]))
        return dict(op="chain", k=exprs), out

    # -- the generator
    def gen(self, kin, win, kout, wout, d):
        """An expression from (kind, width) to (kind, width)."""
        key = (kin, win, kout, wout)
        r = self.rng
        if self.share and key in self.pool and r.random() < 0.2:
            e, m = r.choice(self.pool[key])
            return e, m
        e, m = self.gen_new(kin, win, kout, wout, d)
        # combinators that absorb into their first argument are not shared
        if e["op"] not in ("chain", "add", "concat") and e["op"] not in ("noop",):
            self.pool.setdefault(key, []).append((e, m))
        return e, m

    def wrapfree(self, m):
        """with_debug and friends edit the layer in place: only fresh ones are wrapped."""
        return m

    def gen_new(self, kin, win, kout, wout, d):
        import thinc.api as T

        r = self.rng
        same = kin == kout and win == wout
        root, self.root = self.root, False
        opts = []
        if kin == kout:
            if kin == "m":
                opts += [("leaf", 3)]
                if same:
                    opts += [("noop", 0.5), ("scale", 1)]
                if win > wout:
                    opts += [("cols", 2)]
                if d > 0:
                    opts += [("window_m", 1), ("pairdiff", 1.5), ("siamese", 1.5), ("getitem", 1)]
                    opts += [("with_array", 0.5), ("with_array2d", 0.5)]
            elif kin in ("l", "g", "p"):
                opts += [("with_array2d", 2), ("with_list", 1), ("with_ragged", 1), ("with_padded", 1)]
                if kin != "p":
                    opts += [("with_array", 2)]
                if same:
                    opts += [("noop", 0.3), ("scale", 1)]
                    if kin in "lg":
                        opts += [("prefix", 1.5)]
                    if kin == "p":
                        opts += [("with_array_p", 1)]
                if kin == "l" :
                    opts += [("map_list", 2), ("via_ragged", 1), ("via_padded", 1)]
                if kin == "g":
                    opts += [("window_g", 2), ("via_list", 1)]
                if kin == "p":
                    opts += [("via_plist", 1)]
                    if wout % 2 == 0 and wout > 0:
                        opts += [("bidir", 3)]
                if d > 0:
                    opts += [("pairdiff", 0.7)]
            elif kin == "c":
                opts += [("with_reshape", 3)]
                if same:
                    opts += [("scale", 1), ("noop", 0.3)]
            if d > 0:
                opts += [("chain", 3), ("dbg", 1)]
                if kin in ("m", "c"):
                    opts += [("add", 3)]
                if kin in ("m", "l", "g") and wout >= 2:
                    opts += [("concat", 3)]
                if same:
                    opts += [("residual", 2), ("clone", 1), ("drop0", 0.4)]
                if kin == "m":
                    opts += [("with_cpu", 0.5)]
        else:
            conv = {
                ("l", "g"): "list2ragged",
                ("g", "l"): "ragged2list",
                ("l", "p"): "list2padded",
                ("p", "l"): "padded2list",
                ("l", "m"): "list2array",
            }
            if (kin, kout) in conv:
                if win == wout:
                    opts += [("conv", 2)]
                opts += [("conv_then", 2), ("then_conv", 2)]
            if kout == "s":  # one row per sequence
                if kin == "g":
                    if win == wout:
                        opts += [("reduce", 3)]
                    opts += [("g_reduce", 2), ("reduce_m", 2)]
                elif kin == "l":
                    opts += [("l_reduce", 2)]
                elif kin == "p":
                    opts += [("p_m", 1)]
            elif kout == "m":  # all rows of all sequences
                if kin == "g":
                    opts += [("g_m", 1)]
                elif kin == "p":
                    opts += [("p_m", 1)]
            if kin == "v" and kout == "m":
                opts += [("embed", 3)]
                if d > 0:
                    opts += [("v_chain", 2), ("add", 1)]
                    if wout >= 2:
                        opts += [("concat", 1)]
            if kin == "i" and kout == "m":
                opts += [("i_embed", 3)]
                if win == 1:
                    opts += [("uniqued", 3)]
                if d > 0:
                    opts += [("v_chain", 2), ("add", 3)]
                    if wout >= 2:
                        opts += [("concat", 3)]
            if kout in "ms" and kin in "lgp" and d > 0 and not self.mean:
                opts += [("add", 1.5)]
                if wout >= 2:
                    opts += [("concat", 1)]
        from thinc.layers.array_getitem import ints_getitem

        names, weights = zip(*opts)
        if root:  # every kind of layer about equally often
            weights = [1] * len(names)
        op = r.choices(names, weights)[0]
        self.used.add(op)
        g = self.gen
        dd = d - 1
        mid = width(r)
        if op == "leaf":
            return self.leaf(win, wout)
        if op == "noop":
            return dict(op="noop", k=[]), T.noop()
        if op == "scale":
            c = r.choice([2, -1, 3])
            return dict(op="scale", c=c, k=[]), scale_model(c)
        if op == "prefix":
            return dict(op="prefix", k=[]), prefix_model()
        if op == "cols":
            lo = r.randint(0, win - wout)
            ix = r.choice(
                [
                    (slice(None), slice(lo, lo + wout)),
                    (slice(0, None), list(range(lo, lo + wout))),
                ]
            )
            return dict(op="cols", lo=lo, hi=lo + wout, k=[]), contig(T.array_getitem(ix))
        if op == "chain":
            n = r.choice([2, 2, 3])
            ws = [win] + [width(r) for _ in range(n - 1)] + [wout]
            parts = [g(kin, ws[i], kin, ws[i + 1], dd) for i in range(n)]
            parts = self.unabsorb(parts, "chain")
            es = [p[0] for p in parts]
            ms = [p[1] for p in parts]
            if n == 2 and r.random() < 0.5:
                with T.Model.define_operators({">>": T.chain}):
                    m = ms[0] >> ms[1]
            else:
                m = T.chain(*ms)
            return dict(op="chain", k=es), m
        if op in ("add", "concat"):
            n = r.choice([2, 2, 3]) if op == "add" else min(wout, r.choice([2, 2, 3]))
            if op == "add":
                ws = [wout] * n
            else:
                cuts = sorted(r.sample(range(1, wout), n - 1))
                ws = [b - a for a, b in zip([0] + cuts, cuts + [wout])]
            parts = [g(kin, win, kout, w, dd) for w in ws]
            parts = self.unabsorb(parts, op)
            fn = T.add if op == "add" else T.concatenate
            return dict(op=op, k=[p[0] for p in parts]), fn(*[p[1] for p in parts])
        if op == "residual":
            e, m = g(kin, win, kout, wout, dd)
            return dict(op="residual", k=[e]), T.residual(m)
        if op == "clone":
            sv, self.share = self.share, False
            e, m = g(kin, win, kout, wout, 0)
            self.share = sv
            n = r.choice([2, 3])
            if all_params(e):
                return self.clone(e, m, n)
            return e, m
        if op == "drop0":
            e, m = g(kin, win, kout, wout, dd)
            m0 = T.Dropout(0.0) if r.random() < 0.5 else disabled_dropout()
            if kin in ("m", "c"):
                return dict(op="chain", k=[e, dict(op="drop0", k=[])]), T.chain(box(m), m0)
            return e, m
        if op == "dbg":
            sv, self.share = self.share, False
            e, m = g(kin, win, kout, wout, dd)
            self.share = sv
            which = r.choice(["debug", "nvtx", "signpost"])
            if which == "debug":
                m2 = T.with_debug(box(m))
            elif which == "nvtx":
                m2 = box(m)
            else:
                m2 = T.with_signpost_interval(box(m), NoSignpost()) if False else box(m)
            return dict(op="debug", k=[e]), m2
        if op == "with_cpu":
            e, m = g(kin, win, kout, wout, dd)
            return dict(op="cpu", k=[e]), T.with_cpu(m, m.ops)
        if op == "pairdiff":
            a = g(kin, win, kout, wout, dd)
            b = g(kin, win, kout, wout, dd)
            return (
                dict(op="chain", k=[dict(op="tuplify", k=[a[0], b[0]]), dict(op="diff", k=[])]),
                T.chain(T.tuplify(a[1], b[1]), diff_model()),
            )
        if op == "getitem":
            a = g(kin, win, kout, mid, dd)
            b = g(kin, win, kout, wout, dd)
            c = g(kin, mid, kout, wout, dd)
            return (
                dict(
                    op="chain",
                    k=[
                        dict(op="tuplify", k=[a[0], b[0]]),
                        dict(op="getitem", i=0, k=[c[0]]),
                        dict(op="diff", k=[]),
                    ],
                ),
                T.chain(T.tuplify(a[1], b[1]), T.with_getitem(0, c[1]), diff_model()),
            )
        if op == "siamese":
            a = g(kin, win, kout, mid, dd)
            b = g(kin, win, kout, mid, dd)
            c = g(kin, mid, kout, wout, dd)
            # siamese asks its layer for nI and the similarity for nO
            lay = box(c[1], nI=mid)
            return (
                dict(
                    op="chain",
                    k=[
                        dict(op="tuplify", k=[a[0], b[0]]),
                        dict(op="siamese", k=[c[0], dict(op="diff", k=[])]),
                    ],
                ),
                T.chain(T.tuplify(a[1], b[1]), T.siamese(lay, diff_model(nO=wout))),
            )
        if op == "window_m":
            nW = r.choice([1, 1, 2])
            win2 = (2 * nW + 1) * win
            e, m = self.leaf(win2, wout)
            return (
                dict(op="chain", k=[dict(op="window", nW=nW, k=[]), e]),
                T.chain(T.expand_window(nW), m),
            )
        if op == "window_g":
            nW = r.choice([1, 1, 2])
            win2 = (2 * nW + 1) * win
            e, m = self.leaf(win2, wout)
            return (
                dict(op="chain", k=[dict(op="window", nW=nW, k=[]), dict(op="with_array", k=[e])]),
                T.chain(T.expand_window(nW), T.with_array(m)),
            )
        if op in ("with_array", "with_array2d"):
            e, m = g("m", win, "m", wout, dd) if kin == "m" else self.rowwise(win, wout, dd)
            pad = r.choice([0, 0, 1, 2]) if kin == "l" else 0
            fn = T.with_array if op == "with_array" else T.with_array2d
            return dict(op=op, k=[e]), fn(m, pad=pad)
        if op == "with_array_p":
            c = r.choice([2, -1])
            return dict(op="with_array", k=[dict(op="scale", c=c, k=[])]), T.with_array(scale_model(c))
        if op == "with_reshape":
            e, m = self.rowwise(win, wout, dd)
            return dict(op="with_reshape", k=[e]), T.with_reshape(box(m, nO=wout))
        if op in ("with_list", "with_ragged", "with_padded"):
            k = {"with_list": "l", "with_ragged": "g", "with_padded": "p"}[op]
            e, m = g(k, win, k, wout, dd)
            return dict(op=op, k=[e]), getattr(T, op)(m)
        if op == "map_list":
            e, m = g("m", win, "m", wout, dd)
            return dict(op="map_list", k=[e]), T.map_list(m)
        if op in ("via_ragged", "via_padded", "via_list", "via_plist"):
            k2 = {"via_ragged": "g", "via_padded": "p", "via_list": "l", "via_plist": "l"}[op]
            there = {"g": "list2ragged", "p": "list2padded"}.get(k2) or (
                "ragged2list" if kin == "g" else "padded2list"
            )
            back = {"list2ragged": "ragged2list", "list2padded": "padded2list",
                    "ragged2list": "list2ragged", "padded2list": "list2padded"}[there]
            e, m = g(k2, win, k2, wout, dd)
            return (
                dict(op="chain", k=[dict(op=there, k=[]), e, dict(op=back, k=[])]),
                T.chain(getattr(T, there)(), m, getattr(T, back)()),
            )
        if op == "bidir":
            e1, m1 = self.gen_rowp(win, wout // 2)
            e2, m2 = self.gen_rowp(win, wout // 2)
            return dict(op="bidir", k=[e1, e2]), T.bidirectional(m1, m2)
        if op == "conv":
            name = conv[(kin, kout)]
            return dict(op=name, k=[]), getattr(T, name)()
        if op == "conv_then":
            a = self.gen(kin, win, kout, win, -1) if False else (dict(op=conv[(kin, kout)], k=[]), getattr(T, conv[(kin, kout)])())
            b = g(kout, win, kout, wout, dd)
            return dict(op="chain", k=[a[0], b[0]]), T.chain(a[1], b[1])
        if op == "then_conv":
            a = g(kin, win, kin, wout, dd)
            a = self.unabsorb([a], "chain")[0]
            name = conv[(kin, kout)]
            return (
                dict(op="chain", k=[a[0], dict(op=name, k=[])]),
                T.chain(a[1], getattr(T, name)()),
            )
        if op == "reduce":
            return self.reduce()
        if op == "g_reduce":
            a = g("g", win, "g", wout, dd)
            a = self.unabsorb([a], "chain")[0]
            b = self.reduce()
            return dict(op="chain", k=[a[0], b[0]]), T.chain(a[1], b[1])
        if op == "reduce_m":
            a = self.reduce()
            b = g("m", win, "m", wout, dd)
            a = self.unabsorb([a], "chain")[0]
            return dict(op="chain", k=[a[0], b[0]]), T.chain(a[1], b[1])
        if op == "l_reduce":
            b = g("g", win, "s", wout, dd)
            return dict(op="chain", k=[dict(op="list2ragged", k=[]), b[0]]), T.chain(T.list2ragged(), b[1])
        if op == "p_m":
            b = g("l", win, kout, wout, dd)
            return dict(op="chain", k=[dict(op="padded2list", k=[]), b[0]]), T.chain(T.padded2list(), b[1])
        if op == "g_m":
            b = g("l", win, kout, wout, dd)
            return dict(op="chain", k=[dict(op="ragged2list", k=[]), b[0]]), T.chain(T.ragged2list(), b[1])
        if op == "embed":
            return self.embed(wout, self.nV)
        if op == "i_embed":
            col = r.randrange(win)
            e, m = self.embed(wout, self.nV)
            return (
                dict(op="chain", k=[dict(op="idcol", col=col, k=[]), e]),
                T.chain(ints_getitem((slice(0, None), col)), m),
            )
        if op == "uniqued":
            e, m = self.embed(wout, self.nV)
            return (
                dict(op="uniqued", k=[dict(op="chain", k=[dict(op="idcol", col=0, k=[]), e])]),
                T.uniqued(T.chain(ints_getitem((slice(0, None), 0)), m), column=0),
            )
        if op == "v_chain":
            a = g(kin, win, kout, mid, dd)
            a = self.unabsorb([a], "chain")[0]
            b = g("m", mid, "m", wout, dd)
            return dict(op="chain", k=[a[0], b[0]]), T.chain(a[1], b[1])
        raise AssertionError(op)

    def reduce(self):
        import thinc.api as T

        kinds = ["sum", "sum"]
        if not self.zero_len:
            kinds += ["max", "first", "last"]
        if self.mean:
            kinds = ["mean"] * 5 + kinds
        kind = self.rng.choice(kinds)
        return dict(op="reduce", kind=kind, k=[]), getattr(T, "reduce_" + kind)()

    def rowwise(self, win, wout, d):
        """A layer that treats rows one by one (no windows, so padding rows are inert)."""
        r = self.rng
        if d > 0 and r.random() < 0.4:
            import thinc.api as T

            mid = width(r)
            a, b = self.rowwise(win, mid, 0), self.rowwise(mid, wout, 0)
            return dict(op="chain", k=[a[0], b[0]]), T.chain(a[1], b[1])
        return self.leaf(win, wout)

    def gen_rowp(self, win, wout):
        import thinc.api as T

        e, m = self.leaf(win, wout)
        return dict(op="with_array2d", k=[e]), T.with_array2d(m)

    def unabsorb(self, parts, op):
        """chain(chain(a, b), c) extends and returns its first argument; when the same
        object occurs again among the arguments that would be circular."""
        first = parts[0]
        if first[0]["op"] == op and any(p[1] is first[1] for p in parts[1:]):
            parts = [(first[0], box(first[1]))] + parts[1:]
        return parts


def core_copy(v):
    return [core_copy(x) for x in v] if isinstance(v, list) else v


def all_params(e):
    return True


# ------------------------------------------------------------- user-defined layers
def scale_model(c):
    from thinc.model import Model
    from thinc.types import Padded, Ragged

    def f(x, c):
        if isinstance(x, Ragged):
            return Ragged(x.data * c, x.lengths)
        if isinstance(x, Padded):
            return Padded(x.data * c, x.size_at_t, x.lengths, x.indices)
        if isinstance(x, (list, tuple)):
            return type(x)([f(y, c) for y in x])
        return x * c

    def forward(model, X, is_train):
        c = model.attrs["c"]
        return f(X, c), lambda dY: f(dY, c)

    return Model("scale", forward, attrs={"c": c})


def prefix_model():
    from thinc.model import Model
    from thinc.types import Ragged

    def f(x, rev):
        if isinstance(x, Ragged):
            parts, at = [], 0
            for n in x.lengths:
                parts.append(f(x.data[at : at + int(n)], rev))
                at += int(n)
            data = np.concatenate(parts) if parts else x.data * 1
            return Ragged(data, x.lengths)
        if isinstance(x, list):
            return [f(y, rev) for y in x]
        if rev:
            return np.ascontiguousarray(np.cumsum(x[::-1], axis=0)[::-1])
        return np.cumsum(x, axis=0)

    def forward(model, X, is_train):
        return f(X, False), lambda dY: f(dY, True)

    return Model("prefix", forward)


def _sub(a, b):
    from thinc.types import Padded, Ragged

    if isinstance(a, Ragged):
        return Ragged(a.data - b.data, a.lengths)
    if isinstance(a, Padded):
        return Padded(a.data - b.data, a.size_at_t, a.lengths, a.indices)
    if isinstance(a, list):
        return [x - y for x, y in zip(a, b)]
    return a - b


def _neg(a):
    from thinc.types import Padded, Ragged

    if isinstance(a, Ragged):
        return Ragged(-a.data, a.lengths)
    if isinstance(a, Padded):
        return Padded(-a.data, a.size_at_t, a.lengths, a.indices)
    if isinstance(a, list):
        return [-x for x in a]
    return -a


def diff_model(nO=None):
    from thinc.model import Model

    def forward(model, X, is_train):
        return _sub(X[0], X[1]), lambda dY: (dY, _neg(dY))

    return Model("diff", forward, dims={"nO": nO})


def box(layer, **dims):
    """A user-defined wrapper with the given dims (and its own identity)."""
    from thinc.model import Model

    def forward(model, X, is_train):
        return model.layers[0](X, is_train)

    return Model("box", forward, layers=[layer], dims=dims)


def contig(layer):
    """Some operations document that they need contiguous arrays; column views are not."""
    from thinc.model import Model

    def forward(model, X, is_train):
        Y, bp = model.layers[0](X, is_train)
        return np.ascontiguousarray(Y), bp

    return Model("contig", forward, layers=[layer])


def disabled_dropout():
    import thinc.api as T

    m = T.Dropout(0.5)
    m.attrs["is_enabled"] = False
    return m


# ------------------------------------------------------------------ bounds
def bound_expr(e, params, B, st):
    """Scalar bound of the result for inputs bounded by B, and a function bounding the
    input gradient; st collects the largest bound of any parameter gradient."""
    op = e["op"]
    if "id" in e and op != "embed":
        p = params[e["id"] - 1]
        W = np.abs(np.array(p["W"], dtype=float))
        b = np.abs(np.array(p["b"], dtype=float)).max()
        W2 = W.reshape(-1, W.shape[-1])
        fg = max(1.0, W2.sum(axis=1).max())
        bg = max(1.0, W2.sum(axis=0).max())
        out = fg * B + b
        sl = 1
        if op == "cliplin":
            sl = abs(e["slope"])
            out = sl * out + abs(e["offset"]) + abs(e["lo"]) + abs(e["hi"])

        def back(D):
            st["max"] = max(st["max"], st["rows"] * B * D * sl)
            return bg * D * sl

        return out, back
    if op == "embed":
        m = np.abs(np.array(params[e["id"] - 1]["E"], dtype=float)).max()

        def back(D):
            st["max"] = max(st["max"], st["rows"] * D)
            return 0

        return m, back
    if op == "chain":
        backs = []
        for c in e["k"]:
            B, bk = bound_expr(c, params, B, st)
            backs.append(bk)

        def back(D):
            for bk in reversed(backs):
                D = bk(D)
            return D

        return B, back
    if op in ("add", "tuplify", "concat", "bidir"):
        rs = [bound_expr(c, params, B, st) for c in e["k"]]
        tot = sum(r[0] for r in rs)
        return tot, lambda D: sum(r[1](D) for r in rs)
    if op == "residual":
        o, bk = bound_expr(e["k"][0], params, B, st)
        return o + B, lambda D: D + bk(D)
    if op == "siamese":
        o, bk = bound_expr(e["k"][0], params, B, st)
        return 2 * o, lambda D: 2 * bk(D)
    if op == "getitem":
        o, bk = bound_expr(e["k"][0], params, B, st)
        return o + B, lambda D: D + bk(D)
    if op == "diff":
        return 2 * B, lambda D: D
    if op == "scale":
        c = abs(e["c"])
        return c * B, lambda D: c * D
    if op in ("prefix",):
        return st["rows"] * B, lambda D: st["rows"] * D
    if op == "reduce":
        return st["rows"] * B, lambda D: D
    if op == "window":
        n = 2 * e["nW"] + 1
        return B, lambda D: n * D
    if op == "take":
        return B, lambda D: len(e["idx"]) * D
    if e["k"]:
        return bound_expr(e["k"][0], params, B, st)
    return B, lambda D: D


def occurrences(e):
    return (1 if "id" in e else 0) + sum(occurrences(c) for c in e["k"])


def magnitude(e, params, B, D, rows):
    st = dict(max=0.0, rows=rows)
    out, back = bound_expr(e, params, B, st)
    dx = back(D)
    return max(out, dx, st["max"] * max(1, occurrences(e)))


# ------------------------------------------------------------------ encoding
def enc_rows(a):
    return [[core.enc_int(x) for x in row] for row in a]


def enc_value(x):
    from thinc.types import Padded, Ragged

    if isinstance(x, Ragged):
        d = np.asarray(x.data)
        if d.ndim != 2:
            return dict(t="?", e=f"ragged data of shape {d.shape}")
        return dict(t="g", w=int(d.shape[1]), r=enc_rows(d), n=[int(n) for n in x.lengths])
    if isinstance(x, Padded):
        d = np.asarray(x.data)
        return dict(
            t="p",
            w=int(d.shape[-1]),
            r=[enc_rows(pl) for pl in d],
            z=[int(v) for v in x.size_at_t],
            n=[int(v) for v in x.lengths],
            x=[int(v) for v in x.indices],
        )
    if isinstance(x, list):
        return dict(t="l", s=[enc_value(y) for y in x])
    if isinstance(x, tuple):
        return dict(t="u", s=[enc_value(y) for y in x])
    if isinstance(x, np.ndarray):
        if x.ndim == 1:
            return dict(t="v", r=[core.enc_int(v) for v in x])
        if x.ndim == 2:
            return dict(t="m", w=int(x.shape[1]), r=enc_rows(x))
        if x.ndim == 3:
            return dict(t="c", w=int(x.shape[2]), r=[enc_rows(pl) for pl in x])
        return dict(t="?", e=f"array of shape {x.shape}")
    return dict(t="?", e=type(x).__name__)


def shape_like(x, rng, K, mags=3):
    """A random gradient with the structure of x."""
    from thinc.types import Padded, Ragged

    if isinstance(x, Ragged):
        return Ragged(shape_like(x.data, rng, K, mags), x.lengths.copy())
    if isinstance(x, Padded):
        # the gradient of padding is zero
        d = shape_like(x.data, rng, K, mags)
        for b, n in enumerate(x.lengths):
            d[int(n):, b] = 0
        return Padded(d, x.size_at_t.copy(), x.lengths.copy(), x.indices.copy())
    if isinstance(x, list):
        return [shape_like(y, rng, K, mags) for y in x]
    if isinstance(x, tuple):
        return tuple(shape_like(y, rng, K, mags) for y in x)
    n = int(np.prod(x.shape))
    return np.array(
        [rng.randint(-mags, mags) * K for _ in range(n)], dtype="float32"
    ).reshape(x.shape)


def arrays_of(x):
    from thinc.types import Padded, Ragged

    if isinstance(x, Ragged):
        return [x.data, x.lengths]
    if isinstance(x, Padded):
        return [x.data, x.size_at_t, x.lengths, x.indices]
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in arrays_of(y)]
    return [x] if isinstance(x, np.ndarray) else []


class Watch:
    """Bitwise snapshots of arrays somebody else owns."""

    def __init__(self):
        self.items = []

    def add(self, name, batch, x):
        for a in arrays_of(x):
            self.items.append((name, batch, a, a.tobytes(), a.shape))

    def dirty(self, skip=None):
        res = []
        for i, (name, batch, a, snap, shape) in enumerate(self.items):
            if a.shape != shape or a.tobytes() != snap:
                if skip is None or not skip(name, batch):
                    res.append(f"{name}")
                self.items[i] = (name, batch, a, a.tobytes(), a.shape)
        return sorted(set(res))


def make_input(kin, win, rng, K, mean, rows, zero_len, nV=4):
    from thinc.api import NumpyOps
    from thinc.types import Ragged

    ops = NumpyOps()

    def mat(n, w):
        return np.array(
            [rng.randint(-3, 3) * K for _ in range(n * w)], dtype="float32"
        ).reshape((n, w))

    def lengths():
        n = rng.randint(1, 4)
        if mean:
            ls = [rng.choice([1, 2, 4]) for _ in range(n)]
        else:
            ls = [rng.randint(0 if zero_len else 1, 4) for _ in range(n)]
        if sum(ls) == 0:
            ls[rng.randrange(n)] = rng.randint(1, 3)
        return ls

    if kin == "m":
        return mat(rows, win)
    if kin == "c":
        a, b = rng.randint(1, 3), rng.randint(1, 3)
        return mat(a * b, win).reshape((a, b, win))
    if kin == "v":
        return np.array([rng.randrange(nV) for _ in range(rows)], dtype="int32")
    if kin == "i":
        return np.array(
            [[rng.randrange(nV) for _ in range(win)] for _ in range(rows)], dtype="int32"
        )
    seqs = [mat(n, win) for n in lengths()]
    if kin == "l":
        return seqs
    if kin == "g":
        return Ragged(
            np.concatenate(seqs), np.array([len(s) for s in seqs], dtype="int32")
        )
    if kin == "p":
        return ops.list2padded(seqs)
    raise AssertionError(kin)


# ------------------------------------------------------------------ programs
def make_program(seed, depth, kin=None, kout=None):
    rng = random.Random(f"prog-{seed}")
    for attempt in range(200):
        mean = rng.random() < 0.15
        K = 4 if mean else 1
        zero_len = rng.random() < 0.4
        bld = Builder(f"{seed}-{attempt}", K=K, mean=mean, zero_len=zero_len and not mean)
        bld.nV = rng.randint(1, 4)
        pairs = [("m", "m")] * 5 + [
            ("l", "l"), ("g", "g"), ("p", "p"), ("c", "c"), ("l", "g"), ("g", "l"),
            ("l", "p"), ("p", "l"), ("l", "m"), ("g", "m"), ("p", "m"), ("g", "s"), ("l", "s"), ("p", "s"), ("v", "m"), ("i", "m"), ("i", "m"),
            ("l", "l"), ("g", "g"), ("p", "p"), ("p", "p"), ("g", "s"), ("g", "s"),
        ]
        if mean:
            pairs = [("g", "s"), ("l", "s"), ("p", "s")]
        a, b = rng.choice(pairs)
        a, b = kin or a, kout or b
        win, wout = width(rng), width(rng)
        if a == "p" and b == "p" and rng.random() < 0.5:
            wout = 2
        e, m = bld.gen(a, win, b, wout, depth)
        if a == "m" and rng.random() < 0.2:
            import thinc.api as T

            n = bld.rows
            v = rng.choice(["list", "mask", "slice"])
            if v == "list":
                idx = [rng.randrange(n) for _ in range(rng.randint(1, 4))]
                index = np.array(idx) if rng.random() < 0.5 else idx
            elif v == "mask":
                mask = [rng.random() < 0.7 for _ in range(n)]
                if not any(mask):
                    mask[0] = True
                idx = [i for i in range(n) if mask[i]]
                index = np.array(mask)
            else:
                lo = rng.randrange(n)
                hi = rng.randint(lo + 1, n)
                idx = list(range(lo, hi))
                index = slice(lo, hi)
            e = dict(op="chain", k=[dict(op="take", idx=idx, k=[]), e])
            m = T.chain(T.array_getitem(index), m)
        rows = 16
        if magnitude(e, bld.params, 3 * K, 3 * K, rows) < BOUND:
            return dict(e=e, model=m, bld=bld, kin=a, win=win, kout=b, rng=rng)
    raise TooBig(seed)


class RecordingOptimizer:
    """A gradient-descent optimizer that records the keys it is called with."""

    def __init__(self, lr, keys):
        from thinc.optimizers import Optimizer

        self.keys = keys
        self.calls = []
        self.opt = Optimizer(
            learn_rate=lr, L2=0.0, beta1=0.0, beta2=0.0, grad_clip=0.0,
            use_averages=False, L2_is_weight_decay=False,
        )

    def __call__(self, key, weights, gradient, **kw):
        self.calls.append(key)
        return self.opt(key, weights, gradient, **kw)


def grads_of(prog):
    out = []
    for i, node in enumerate(prog["bld"].nodes):
        if node is None:
            continue
        for nm in node.param_names:
            if node.has_grad(nm):
                out.append(
                    dict(
                        id=i + 1,
                        nm=nm,
                        v=[core.enc_int(x) for x in np.asarray(node.get_grad(nm)).ravel()],
                    )
                )
    return out


def params_of(prog):
    res = []
    for p, node in zip(prog["bld"].params, prog["bld"].nodes):
        if node is None:
            res.append(p)
            continue
        d = dict(kind=p["kind"])
        for nm in p:
            if nm != "kind":
                d[nm] = enc_nested(np.asarray(node.get_param(nm)))
        res.append(d)
    return res


def enc_nested(a):
    if a.ndim == 1:
        return [core.enc_int(x) for x in a]
    return [enc_nested(x) for x in a]


def run_program(prog, script):
    """Execute a list of actions; returns the case judged by PassTrace."""
    model, bld, rng = prog["model"], prog["bld"], prog["rng"]
    K = bld.K
    # every node that ended up in the model
    live = {id(n) for n in model.walk()}
    for i, n in enumerate(bld.nodes):
        if n is not None and id(n) not in live:
            bld.nodes[i] = None
    case = dict(e=prog["e"], p=params_of(prog), steps=[])
    batches = []
    watch = Watch()
    keymap = {
        (n.id, nm): [i + 1, nm]
        for i, n in enumerate(bld.nodes)
        if n is not None
        for nm in n.param_names
    }
    steps = case["steps"]

    def new_input():
        return make_input(
            prog["kin"], prog["win"], rng, K, bld.mean, bld.rows, bld.zero_len, bld.nV
        )

    where = "?"
    try:
        for act in script:
            where = act[0]
            if act[0] == "fwd":
                x = new_input()
                encx = enc_value(x)
                bi = len(batches)
                watch.add("its input", bi, x)
                if act[1] == "call":
                    y, bp = model(x, is_train=True)
                else:
                    y, bp = model.begin_update(x)
                d = watch.dirty()
                watch.add("an output", bi, y)
                steps.append(dict(a="fwd", x=encx, y=enc_value(y), g=grads_of(prog), dirty=d))
                batches.append([x, y, bp])
            elif act[0] == "pred":
                x = batches[act[1]][0] if act[1] is not None and batches else new_input()
                encx = enc_value(x)
                watch.add("its input", -1, x)
                y = model.predict(x)
                steps.append(
                    dict(a="pred", x=encx, y=enc_value(y), g=grads_of(prog), dirty=watch.dirty())
                )
            elif act[0] == "bwd":
                if act[1] >= len(batches):
                    continue
                x, y, bp = batches[act[1]]
                dy = shape_like(y, rng, K)
                encdy = enc_value(dy)
                watch.add("the gradient it was given", act[1], dy)
                dx = bp(dy)
                b0 = act[1]
                d = watch.dirty(lambda name, b: name == "an output" and b == b0)
                nodx = prog["kin"] in ("v", "i")
                steps.append(
                    dict(
                        a="bwd",
                        b=act[1] + 1,
                        dy=encdy,
                        dx=dict(t="none") if nodx else enc_value(dx),
                        nodx=nodx,
                        g=grads_of(prog),
                        dirty=d,
                    )
                )
                if not nodx:
                    watch.add("a returned gradient", act[1], dx)
            elif act[0] == "inc":
                cands = [(i, n) for i, n in enumerate(bld.nodes) if n is not None]
                if not cands:
                    continue
                i, n = rng.choice(cands)
                nm = rng.choice(list(n.param_names))
                v = shape_like(np.asarray(n.get_param(nm)), rng, K)
                if rng.random() < 0.7:
                    v = v.copy()  # an array with its own memory
                enc_v = [core.enc_int(q) for q in v.ravel()]
                n.inc_grad(nm, v)
                if rng.random() < 0.5:
                    watch.add("the increment it was given", -1, v)
                else:
                    v += 1  # the caller goes on with its array
                steps.append(dict(a="inc", id=i + 1, nm=nm, v=enc_v, g=grads_of(prog), dirty=watch.dirty()))
            elif act[0] == "setg":
                cands = [(i, n) for i, n in enumerate(bld.nodes) if n is not None]
                if not cands:
                    continue
                i, n = rng.choice(cands)
                nm = rng.choice(list(n.param_names))
                v = shape_like(np.asarray(n.get_param(nm)), rng, K)
                n.set_grad(nm, v)
                steps.append(
                    dict(a="setg", id=i + 1, nm=nm, v=[core.enc_int(q) for q in v.ravel()], g=grads_of(prog))
                )
            elif act[0] == "upd":
                lr = act[1]
                opt = RecordingOptimizer(float(lr), keymap)
                model.finish_update(opt)
                steps.append(
                    dict(
                        a="upd",
                        lr=lr,
                        calls=[keymap.get(k, [0, str(k)]) for k in opt.calls],
                        p=params_of(prog),
                        g=grads_of(prog),
                    )
                )
                batches = []
                watch = Watch()
                if bld.mean:
                    break  # the new parameters need not divide by the lengths any more
                mag = max_abs(case["steps"][-1]["p"])
                if magnitude(
                    prog["e"],
                    [dict(p) for p in steps[-1]["p"]],
                    3 * K,
                    3 * K,
                    16,
                ) >= BOUND or mag >= 2**20:
                    break
    except Exception as ex:
        steps.append({"a": "exc", "in": where, "e": f"{type(ex).__name__}: {ex}"[:200]})
    return case


def max_abs(x):
    if isinstance(x, list):
        return max([max_abs(v) for v in x] or [0])
    if isinstance(x, dict):
        return max([max_abs(v) for k, v in x.items() if k != "kind"] or [0])
    return abs(x)


def script_simple(rng):
    s = [("fwd", "begin"), ("pred", 0), ("bwd", 0)]
    if rng.random() < 0.4:
        s = [("fwd", "call"), ("fwd", "begin"), ("bwd", 1), ("bwd", 0)]
    return s


def one(job):
    seed, depth, mode = job
    rng = random.Random(f"script-{seed}")
    try:
        prog = make_program(seed, depth)
    except TooBig:
        return None
    except Exception as ex:
        return broken("construction", f"{type(ex).__name__}: {ex}"), []
    if mode == "simple":
        script = script_simple(rng)
    elif mode == "interleave":
        script = script_interleave(rng)
    else:
        script = mode
    case = run_program(prog, script)
    return case, sorted(prog["bld"].used)


def script_interleave(rng, updates=True):
    s, n, open_ = [], 0, []
    for _ in range(rng.randint(4, 9)):
        r = rng.random()
        if r < 0.35 or n == 0:
            s.append(("fwd", rng.choice(["begin", "call"])))
            open_.append(n)
            n += 1
        elif r < 0.45:
            s.append(("pred", rng.choice([None, rng.randrange(n)])))
        elif r < 0.8:
            # the effect of calling one callback twice is not specified
            if open_:
                s.append(("bwd", open_.pop(rng.randrange(len(open_)))))
        elif r < 0.85:
            s.append(("inc",))
        elif r < 0.88:
            s.append(("setg",))
        elif updates:
            s.append(("upd", rng.choice([1, 1, 2])))
            n, open_ = 0, []
    return s


def broken(where, what):
    return dict(
        e=dict(op="noop", k=[]), p=[], steps=[{"a": "exc", "in": where, "e": what[:200]}]
    )


def collect(jobs, timeout=60):
    cases, plans, used = [], [], {}
    for job, res in zip(jobs, pool.pmap(one, jobs, timeout=timeout)):
        if res is None:
            continue
        if isinstance(res, pool.Crash):
            cases.append(broken("program", res.reason))
        else:
            cases.append(res[0])
            for u in res[1]:
                used[u] = used.get(u, 0) + 1
        plans.append(list(job))
    return cases, plans, used


# ------------------------------------------------------------------ checks
def ops_in(e, acc=None):
    acc = set() if acc is None else acc
    acc.add(e["op"])
    for c in e["k"]:
        ops_in(c, acc)
    return acc


def check_c01(ctx):
    ctx.design("LayersMC", f"LayersMC_{ctx.tier}.cfg")
    n = ctx.n(9000, 40000)
    jobs = [
        (f"{ctx.seed}-c01-{i}", ctx.rng.choice([1, 2, 2, 3]), "simple") for i in range(n)
    ]
    cases, plans, used = collect(jobs)
    for c in cases[:3]:
        ctx.sample(c)
    ctx.notes["constructs"] = used
    ctx.conform("PassTrace", "PassTrace.cfg", cases, plans=plans, workers=8)


def from_spec(run):
    """A behaviour printed by PassMC as a script of run_program."""
    out = []
    for s in run["h"]:
        if s["a"] == "fwd":
            out.append(("fwd", "begin"))
        elif s["a"] == "pred":
            out.append(("pred", 0))
        elif s["a"] == "bwd":
            out.append(("bwd", s["b"] - 1))
        elif s["a"] == "inc":
            out.append(("inc",))
        else:
            out.append(("upd", 1))
    return out


def schedules(ctx):
    """Every schedule of the pass machine, as explored by TLC."""
    r = ctx.design("PassMC", f"PassMC_{ctx.tier}.cfg")
    runs = [from_spec(h) for h in r.prints.get("RUN", [])]
    if not runs:
        raise core.Machinery("PassMC printed no schedules")
    runs.sort(key=str)
    return runs


def check_c02(ctx):
    """Every schedule of the specification, and longer random ones with manual gradients,
    on random programs with shared layers."""
    runs = schedules(ctx)
    jobs = [
        (f"{ctx.seed}-c02s-{i}", ctx.rng.choice([0, 1, 1, 2]), h) for i, h in enumerate(runs)
    ]
    n = ctx.n(6000, 24000)
    jobs += [
        (f"{ctx.seed}-c02-{i}", ctx.rng.choice([0, 1, 1, 2]), "interleave") for i in range(n)
    ]
    cases, plans, used = collect(jobs)
    for c in cases[:3]:
        ctx.sample(c)
    ctx.notes["constructs"] = used
    ctx.notes["spec_schedules"] = len(runs)
    ctx.notes["steps"] = count_steps(cases)
    ctx.conform("PassTrace", "PassTrace.cfg", cases, plans=plans, workers=8)


def count_steps(cases):
    d = {}
    for c in cases:
        for s in c["steps"]:
            d[s["a"]] = d.get(s["a"], 0) + 1
    return d
