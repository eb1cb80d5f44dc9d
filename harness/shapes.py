"""C18: dimension inference of composed models (spec/Shapes.tla)."""
import random

import numpy as np

import core
import pool

ACTS = ["Relu", "Mish", "Gelu", "Swish", "HardSwish", "HardSwishMobilenet", "Dish", "HardSigmoid", "HardTanh", "ReluK", "ClippedLinear"]
NONE = -1


def const(v):
    def init(ops, shape):
        return ops.alloc(shape) + np.float32(v)

    return init


class Gen:
    def __init__(self, r):
        import thinc.api as T

        self.r, self.T = r, T
        self.D, self.models, self.by = [], [], {}
        self.small = r.random() < 0.3  # with layers of width one (and without layer normalization)
        self.lie = r.choice([0, 0, 0, 0.15, 0.3])  # how often a wrong dimension is given
        self.give = r.choice([0.2, 0.5, 0.8, 1.0])  # how often a dimension is given
        self.pool = {}
        self.used = set()

    def w(self):
        return self.r.choice([1, 2, 3] if self.small else [2, 3, 4])

    def maybe(self, w):
        r = self.r
        if r.random() >= self.give:
            return None
        if r.random() < self.lie:
            return r.choice([v for v in ([1, 2, 3, 4] if self.small else [2, 3, 4, 5]) if v != w])
        return w

    def node(self, m, k, s=(), D=None, **kw):
        self.models.append(m)
        d = D or {}
        self.D.append([d.get("nO", NONE), d.get("nI", NONE)])
        return dict(k=k, n=len(self.models), s=list(s), **kw)

    # ------------------------------------------------------------ leaves
    def leaf(self, wi):
        r, T = self.r, self.T
        kind = r.choice(["linear", "linear", "dense", "dense", "maxout", "softmax", "sigmoid", "multisoftmax"] + ["norm"] * (not self.small) * 2)
        self.used.add(kind)
        wo = self.w()
        nI = self.maybe(wi)
        init, kw = [], {}
        if kind == "norm":
            m = T.LayerNorm(nI)
            return self.node(m, "norm", D=dict(nO=nI or 0, nI=nI or 0), init=[]), m, wi
        if kind == "multisoftmax":
            nOs = [r.choice([2, 3]) for _ in range(r.choice([1, 2]))]
            wo = sum(nOs)
            m = T.MultiSoftmax(tuple(nOs), nI)
            return self.node(m, kind, D=dict(nO=wo, nI=nI or 0), init=[]), m, wo
        nO = self.maybe(wo)
        if r.random() < 0.4:
            for p, arg in (("W", "init_W"), ("b", "init_b")):
                if r.random() < 0.7:
                    v = r.choice([1, 2, 3])
                    kw[arg] = const(v)
                    init.append([p, v])
        d = dict(nO=nO or 0, nI=nI or 0)
        if kind == "maxout":
            nP = r.choice([1, 2, 3])
            m = T.Maxout(nO, nI, nP=nP, **kw)
            e = self.node(m, kind, D=d, nP=nP, init=init)
        elif kind == "dense":
            nm = r.choice(ACTS)
            norm = r.random() < 0.3 and not self.small
            drop = r.random() < 0.2
            m = getattr(T, nm)(nO, nI, normalize=norm, dropout=0.0 if drop else None, **kw)
            top, parts = m, []
            if norm or drop:
                # chains around the dense layer, the normalization and the dropout
                e, wo2 = self.read(m, d, init, nO, wo)
                return e, m, wo2
            e = self.node(m, kind, D=d, init=init)
        else:
            m = {"linear": T.Linear, "softmax": r.choice([T.Softmax, T.Softmax_v2]), "sigmoid": T.Sigmoid}[kind](nO, nI, **kw)
            e = self.node(m, kind, D=d, init=init)
        return e, m, wo

    def read(self, m, d, init, nO, wo):
        """The chains that the options of a dense layer make."""
        if m.layers:
            s = [self.read(x, d, init, nO, wo)[0] for x in m.layers]
            return self.node(m, "chain", s), wo
        if m.name == "dropout":
            return self.node(m, "id"), wo
        if m.name == "layernorm":
            return self.node(m, "norm", D=dict(nO=nO or 0, nI=nO or 0), init=[]), wo
        return self.node(m, "dense", D=d, init=init), wo

    def embed(self, wi):
        r, T = self.r, self.T
        wo, nV = self.w(), r.choice([5, 7])
        v = r.choice([1, 2, 3])
        init = [["E", v]] if r.random() < 0.4 else []
        kw = dict(initializer=const(v)) if init else {}
        col = r.choice(range(wi))
        if r.random() < 0.6:
            nO = self.maybe(wo)
            m = T.Embed(nO, nV, column=col, **kw)
            e = self.node(m, "embed", D=dict(nO=nO or 0), nV=nV, init=init)
        else:
            m = T.HashEmbed(wo, nV, column=col, seed=5, **kw)
            e = self.node(m, "hashembed", D=dict(nO=wo, nI=0), nV=nV, init=init)
        # (the column option makes a chain)
        col0, inner = m.layers
        self.models[e["n"] - 1] = inner
        e = self.node(m, "chain", [self.node(col0, "id"), e])
        if r.random() < 0.25:
            m = T.uniqued(m, column=col)
            e = self.node(m, "uniqued", [e])
        return e, m, wo

    # -------------------------------------------------------- compositions
    def gen(self, form, w, depth):
        """An expression for batches of the form and width."""
        r = self.r
        if (form, w) in self.pool and r.random() < 0.1:
            return self.pool[form, w]
        got = self.new(form, w, depth)
        if got[0]["k"] not in ("add", "concat"):
            self.pool[form, w] = got
        return got

    def parts(self, form, w, depth, n, not_first=()):
        out = []
        for j in range(n):
            got = self.gen(form, w, depth)
            while j == 0 and got[0]["k"] in not_first:
                got = self.gen(form, w, depth)
            out.append(got)
        return out

    def new(self, form, w, depth, kind=None):
        r, T = self.r, self.T
        if form == "ids":
            opts = ["embed"] * 3
            if depth:
                opts += ["chain"] * 4 + ["concat", "add"]
        elif form == "array":
            opts = ["leaf"] * 3
            if depth:
                opts += ["chain"] * 5 + ["add", "concat", "residual"] * 2 + ["id", "window", "with_array", "with_array2d", "with_cpu", "resizable", "clone"]
        elif form == "cube":
            opts = ["with_reshape"] * 2
            if depth:
                opts += ["chain", "residual"]
        elif form == "nested":
            opts = ["with_flatten2", "with_flatten2", "with_flatten2"]
            if depth:
                opts += ["chain"]
        else:
            opts = ["with_array"] * 2 + ["with_array2d"]
            if depth:
                opts += ["chain"] * 4 + ["with_list", "with_ragged", "with_padded", "lstm", "residual", "clone"]
                if form == "list":
                    opts += ["map_list"] * 2 + ["concat"]
                if form == "ragged":
                    opts += ["attention", "attention2", "concat", "with_list", "window"]
            if form == "padded":
                opts = [o for o in opts if o not in ("with_array",)]
        k = kind or r.choice(opts)
        self.used.add(k)
        if k == "leaf":
            return self.leaf(w)
        if k == "embed":
            return self.embed(w)
        if k == "id":
            m = T.noop()
            return self.node(m, "id"), m, w
        if k == "window":
            m = T.expand_window(1)
            return self.node(m, "window", size=1), m, 3 * w
        if k in ("attention", "attention2"):
            nO = self.maybe(w)
            if k == "attention":
                m = T.ParametricAttention(nO)
                return self.node(m, k, D=dict(nO=nO or 0), init=[]), m, w
            if r.random() < 0.4:
                m = T.ParametricAttention_v2(nO=nO)
                s = self.node(m.layers[0], "id")
            else:
                a, b = self.maybe(w), self.maybe(w)
                key = T.Linear(a, b)
                m = T.ParametricAttention_v2(key_transform=key, nO=nO)
                s = self.node(key, "linear", D=dict(nO=a or 0, nI=b or 0), init=[])
            return self.node(m, k, [s], D=dict(nO=nO or 0), init=[]), m, w
        if k == "lstm":
            dirs, deep = r.choice([1, 1, 2]), r.choice([1, 1, 2])
            h = self.w()
            nO, nI = self.maybe(h), self.maybe(w)
            if dirs == 2:
                h = h * 2
                nO = nO and nO * 2
            m = T.LSTM(nO, nI, bi=dirs == 2, depth=deep)
            if m.layers:
                raise core.Machinery("LSTM is a composition")
            e = self.node(m, "lstm", D=dict(nO=nO or 0, nI=nI or 0), dirs=dirs, depth=deep, init=[])
            if form == "padded" and r.random() < 0.5:
                return e, m, h
            m = T.with_padded(m)
            return self.node(m, "with_padded", [e]), m, h
        if k == "chain":
            n = r.choice([2, 2, 3])
            f, ws, parts = form, w, []
            for _ in range(n):
                parts.append(self.gen(f, ws, depth - 1))
                ws = parts[-1][2]
                f = "array" if f == "ids" else f
            m = T.chain(*[p[1] for p in parts])
            return self.node(m, k, [p[0] for p in parts]), m, ws
        if k in ("add", "concat"):
            ps = self.parts(form, w, depth - 1, r.choice([2, 2, 3]), (k,))
            if k == "add" and self.lie == 0:
                # widths that agree
                ps = [ps[0]] + [p for p in ps[1:] if p[2] == ps[0][2]]
                for _ in range(12):
                    if len(ps) > 1:
                        break
                    ps += [p for p in self.parts(form, w, depth - 1, 1) if p[2] == ps[0][2]]
                if len(ps) == 1:
                    ps.append(ps[0])
            m = {"add": T.add, "concat": T.concatenate}[k](*[p[1] for p in ps])
            return self.node(m, k, [p[0] for p in ps]), m, ps[0][2] if k == "add" else sum(p[2] for p in ps)
        if k == "residual":
            p = self.gen(form, w, depth - 1)
            for _ in range(12):
                if p[2] == w or self.lie:
                    break
                p = self.gen(form, w, depth - 1)
            if p[2] != w and not self.lie:
                return p
            m = T.residual(p[1])
            return self.node(m, k, [p[0]]), m, p[2]
        if k == "clone":
            p = self.new(form, w, 0)
            for _ in range(12):
                if p[2] == w:
                    break
                p = self.new(form, w, 0)
            if p[2] != w:
                return p
            n = r.choice([2, 3])
            orig = list(p[1].walk())
            m = T.clone(p[1], n)
            es = [p[0]]
            for c in m.layers[1:]:
                seen = {}
                es.append(self.copied(p[0], dict(zip(map(id, orig), c.walk())), seen))
            return self.node(m, "chain", es), m, w
        if k == "pair":
            a, b = self.parts("array", w, depth - 1, 2)
            t = T.tuplify(a[1], b[1])
            te = self.node(t, "tuplify", [a[0], b[0]])
            lay = self.gen("array", a[2], depth - 1)
            for _ in range(12):
                if lay[1].has_dim("nI"):  # siamese refuses the others
                    break
                lay = self.gen("array", a[2], depth - 1)
            if not lay[1].has_dim("nI"):
                return a
            nI = self.maybe(lay[2])
            c = T.CauchySimilarity(nI)
            ce = self.node(c, "cauchy", D=dict(nO=1, nI=nI or 0), init=[])
            m = T.siamese(lay[1], c)
            e = self.node(m, "siamese", [lay[0], ce])
            m = T.chain(t, m)
            e = self.node(m, "chain", [te, e])
            self.pairs = True
            return e, m, NONE
        if k == "tuple":
            a, b = self.parts("array", w, depth - 1, 2)
            m = T.tuplify(a[1], b[1])
            return self.node(m, "tuplify", [a[0], b[0]]), m, [a[2], b[2]]
        if k == "getitem":
            a, b = self.parts("array", w, depth - 1, 2)
            t = T.tuplify(a[1], b[1])
            te = self.node(t, "tuplify", [a[0], b[0]])
            i = r.choice([0, 1])
            c = self.gen("array", (a, b)[i][2], depth - 1)
            g = T.with_getitem(i, c[1])
            ge = self.node(g, k, [c[0]], idx=i)
            m = T.chain(t, g)
            out = [a[2], b[2]]
            out[i] = c[2]
            return self.node(m, "chain", [te, ge]), m, out
        if k == "resizable":
            from thinc.layers.resizable import resize_linear_weighted

            p = self.leaf(w)
            m = T.resizable(p[1], resize_layer=resize_linear_weighted)
            return self.node(m, k, [p[0]]), m, p[2]
        inner, fn = {
            "with_array": ("array", T.with_array), "with_array2d": ("array", T.with_array2d), "with_cpu": ("array", lambda m: T.with_cpu(m, m.ops)),
            "with_reshape": ("array", T.with_reshape), "map_list": ("array", T.map_list), "with_list": ("list", T.with_list),
            "with_ragged": ("ragged", T.with_ragged), "with_padded": ("padded", T.with_padded), "with_flatten2": ("list", T.with_flatten_v2),
        }[k]
        p = self.gen(inner, w, max(depth - 1, 0))
        if k == "with_reshape" and not determined(p[0]):
            p = self.leaf(w)
            if p[0]["k"] == "chain":
                return self.new(form, w, depth, k)
        m = fn(p[1])
        return self.node(m, k, [p[0]]), m, p[2]

    def copied(self, e, by, seen):
        if e["n"] in seen:
            return seen[e["n"]]
        s = [self.copied(x, by, seen) for x in e["s"]]
        got = dict(e)
        got["s"] = s
        self.models.append(by[id(self.models[e["n"] - 1])])
        self.D.append(list(self.D[e["n"] - 1]))
        got["n"] = len(self.models)
        seen[e["n"]] = got
        return got


def determined(e):
    """Whether the layer knows its output width without running."""
    if e["k"] in ("id", "window"):
        return False
    if e["k"] in ("chain",):
        return determined(e["s"][-1])
    return all(determined(s) for s in e["s"])


def data(r, form, w, ops):
    """A batch of the width; the form may be that of outputs."""
    from thinc.types import Ragged

    if isinstance(w, list):
        return tuple(data(r, form, x, ops) for x in w)

    def arr(*shape):
        return np.array([r.choice([-1.0, -0.5, 0.5, 1.0, 2.0]) for _ in range(int(np.prod(shape)))], dtype="float32").reshape(shape)

    n = r.choice([1, 2, 3])
    if w == NONE:
        return arr(n)
    if form == "ids":
        return np.array([[r.randrange(5) for _ in range(w)] for _ in range(n)], dtype="uint64" if r.random() < 0.3 else "int32")
    if form == "array":
        return arr(n, w)
    if form == "cube":
        return arr(n, r.choice([1, 2]), w)
    lens = [r.choice([1, 2, 3]) for _ in range(n)]
    seqs = [arr(k, w) for k in lens]
    if form == "list":
        return seqs
    if form == "nested":
        return [seqs[:1], seqs[1:]] if n > 1 else [seqs]
    if form == "padded":
        return ops.list2padded(seqs)
    return Ragged(np.concatenate(seqs), np.array(lens, dtype="int32"))


def seq(w):
    return w if isinstance(w, list) else [w] if w else []


def width(v):
    from thinc.types import Padded, Ragged

    if isinstance(v, tuple):
        return [width(x)[0] for x in v]
    if isinstance(v, (Ragged, Padded)):
        return [int(v.data.shape[-1])]
    if isinstance(v, list):
        return width(next(x for x in v if len(x)))
    return [int(v.shape[-1]) if v.ndim > 1 else NONE]


def dims(ms):
    out = []
    for m in ms:
        one = []
        for nm in ("nO", "nI"):
            one.append(NONE if nm not in m.dim_names else (m.maybe_get_dim(nm) or 0))
        out.append(one)
    return out


def params(e, models, out):
    if e["k"] not in ("chain",) and "init" in e:
        m = models[e["n"] - 1]
        ps = []
        for nm in m.param_names:
            if m.has_param(nm):
                v = np.asarray(m.get_param(nm))
                c = v.ravel()[0] if v.size else 0
                ps.append([nm, list(v.shape), int(c) if v.size and np.all(v == c) and c == int(c) else 99, str(v.dtype)])
            else:
                ps.append([nm, [], 99, "unset"])
        out[e["n"]] = dict(n=e["n"], ps=ps)
    for s in e["s"]:
        params(s, models, out)
    return out


def aliased(ms):
    seen, arrs = set(), []
    for m in ms:
        if id(m) in seen:
            continue
        seen.add(id(m))
        for nm in m.param_names:
            if m.has_param(nm):
                arrs.append(m.get_param(nm))
    return any(np.shares_memory(a, b) for j, a in enumerate(arrs) for b in arrs[:j])


def case(job):
    r = random.Random(job[0])
    if r.random() < 0.15:
        return resizing(r)
    g = Gen(r)
    form = r.choice(["array", "array", "array", "ids", "list", "ragged", "padded", "cube", "nested"])
    w = r.choice([1, 2]) if form == "ids" else g.w()
    out = dict(how=form, steps=[], ops=0)
    try:
        if form == "array" and r.random() < 0.25:
            e, m, wo = g.new(form, w, r.choice([1, 2]), r.choice(["pair", "getitem", "tuple"]))
        else:
            e, m, wo = g.gen(form, w, r.choice([0, 1, 2, 2, 3]))
    except core.Machinery:
        raise
    except Exception as x:
        return crash(f"construction: {type(x).__name__} {x}"[:120])
    oform = "array" if form == "ids" else form
    out.update(e=e, D=g.D, used=sorted(g.used))
    ops = m.ops
    steps = out["steps"]
    steps.append(dict(op="built", D=dims(g.models)))

    def outs():
        if r.random() < 0.5 or wo == NONE or (isinstance(wo, list) and e["k"] != "tuplify") or (isinstance(wo, list) and NONE in wo):
            return 0
        if isinstance(wo, list) and r.random() < 0.3 * (g.lie > 0):
            return [r.choice([2, 3, 4, 5]) for _ in wo]
        if not isinstance(wo, list) and r.random() < 0.25 * (g.lie > 0):
            return r.choice([v for v in (2, 3, 4, 5) if v != wo])
        return wo

    for j in range(r.choice([1, 2, 3])):
        x = w if r.random() < 0.75 else 0
        y = outs()
        rec = dict(op="init", x=seq(x), y=seq(y), exc="", D=[], ps=[], alias=False)
        try:
            m.initialize(X=data(r, form, w, ops) if x else None, Y=data(r, oform, y, ops) if y else None)
            rec.update(D=dims(g.models), ps=list(params(e, g.models, {}).values()), alias=aliased(g.models))
        except Exception as ex:
            rec["exc"] = f"{type(ex).__name__} {ex}"[:80]
        steps.append(rec)
        if rec["exc"]:
            break
        if r.random() < 0.6:
            rec = dict(op="pass", x=[w], exc="", out=[], dx=[])
            try:
                X = data(r, form, w, ops)
                Y, back = m(X, is_train=True)
                rec["out"] = width(Y)
                dX = back(Y)
                rec["dx"] = [w] if form == "ids" else width(dX) if form != "nested" else width(dX[0])
                if form == "nested":
                    rec["out"] = width(Y[0])
            except Exception as ex:
                rec["exc"] = f"{type(ex).__name__} {ex}"[:80]
            steps.append(rec)
            if rec["exc"]:
                break
    if not steps[-1].get("exc") and steps[-1]["op"] == "init":
        rec = dict(op="pass", x=[w], exc="", out=[], dx=[])
        try:
            X = data(r, form, w, ops)
            Y, back = m(X, is_train=True)
            dX = back(Y)
            rec["out"] = width(Y if form != "nested" else Y[0])
            rec["dx"] = [w] if form == "ids" else width(dX) if form != "nested" else width(dX[0])
        except Exception as ex:
            rec["exc"] = f"{type(ex).__name__} {ex}"[:80]
        steps.append(rec)
    return out


def resizing(r):
    import thinc.api as T
    from thinc.layers.resizable import resize_linear_weighted, resize_model
    from functools import partial

    kind = r.choice(["linear", "linear", "maxout", "softmax"])
    nI, nO = r.choice([1, 2, 3]), r.choice([1, 2, 3])
    gI, gO = r.random() < 0.8, r.random() < 0.8
    nP = r.choice([1, 2])
    mk = {"linear": T.Linear, "softmax": T.Softmax_v2, "maxout": partial(T.Maxout, nP=nP)}[kind]
    inner = mk(nO if gO else None, nI if gI else None)
    fill = r.choice([None, {}, dict(b=-4), dict(W=2, b=3), dict(W=1)])
    m = T.resizable(inner, resize_layer=partial(resize_linear_weighted, fill_defaults=fill))
    out = dict(how="resizing " + kind, e=dict(k=kind, n=1, s=[], nP=nP), D=[[nO if gO else 0, nI if gI else 0]], steps=[], used=["resizing"])
    fillW, fillb = (fill or {}).get("W", 0), (fill or {}).get("b", 0)

    def flat(a):
        a = np.asarray(a)
        return [[core.enc_int(v) for v in row.ravel()] for row in a.reshape((len(a), -1))]

    def state(layer):
        return dict(
            D=dims([layer])[0],
            W=flat(layer.get_param("W")) if layer.has_param("W") else [],
            b=flat(layer.get_param("b")) if layer.has_param("b") else [],
        )

    X = np.array([[r.randint(-2, 2) for _ in range(nI)] for _ in range(2)], dtype="float32")
    for _ in range(r.choice([1, 2, 3])):
        lay = m.layers[0]
        if r.random() < 0.6 and gI and lay.has_dim("nO") and not lay.has_param("W"):
            m.initialize()
            for nm in ("W", "b"):
                p = lay.get_param(nm)
                lay.set_param(nm, np.array([r.randint(-3, 3) for _ in range(p.size)], dtype="float32").reshape(p.shape))
        rec = dict(op="resize", exc="", new=(lay.maybe_get_dim("nO") or 0) + r.choice([0, 1, 1, 2]) or 2, fillW=fillW, fillb=fillb, before=state(lay), after={}, old={}, Y0=[], Y1=[])
        try:
            if kind == "linear" and lay.has_param("W"):
                rec["Y0"] = flat(m.predict(X))
            m = resize_model(m, rec["new"])
            rec["old"] = state(lay)
            rec["after"] = state(m.layers[0])
            rec["same"] = m.layers[0] is lay
            if rec["Y0"]:
                rec["Y1"] = flat(m.predict(X))
        except Exception as ex:
            rec["exc"] = f"{type(ex).__name__} {ex}"[:80]
        out["steps"].append(rec)
        if rec["exc"]:
            break
    return out


def crash(reason):
    return dict(how="crash", e=dict(k="id", n=1, s=[]), D=[[NONE, NONE]], used=[], steps=[dict(op="crash", exc=reason)])


def check(ctx):
    ctx.design("ShapesMC", f"ShapesMC_{ctx.tier}.cfg", timeout=800 if ctx.tier == "quick" else 7200)
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(12000, 100000))]
    cases = [crash(c.reason) if isinstance(c, pool.Crash) else c for c in pool.pmap(case, jobs)]
    used, refused = {}, 0
    for c in cases:
        for k in c.pop("used"):
            used[k] = used.get(k, 0) + 1
        refused += any(s["exc"] for s in c["steps"][1:])
    ctx.notes["models_with"] = used
    ctx.notes["refused"] = refused
    for c in cases[:3]:
        ctx.sample(c)
    ctx.conform("ShapesTrace", "ShapesTrace.cfg", cases, plans=[list(j) for j in jobs], timeout=800 if ctx.tier == "quick" else 7200)
