"""C20: activation operations (spec/Activation.tla)."""
import random

import numpy as np

import core
import pool

S = 65536
LAYOUTS = ["C", "C", "C", "columns", "transposed", "reversed", "F", "rows"]
# name -> parameters (in the spec's order) and their keyword arguments
PLAIN = "relu hard_sigmoid hard_tanh sigmoid swish hard_swish hard_swish_mobilenet dish gelu_approx gelu".split()
BACK_FROM_X = "hard_sigmoid hard_tanh hard_swish hard_swish_mobilenet dish gelu_approx gelu".split()


def fx(v):
    return core.enc_int(v, S)


def vec(a):
    return [fx(x) for x in np.asarray(a).ravel()]


def lay(a, how, r):
    """An array equal to `a` in the given layout, and the whole buffer it is a view of."""
    if a.ndim == 0 or how == "C":
        b = a.copy()
        return b, b
    if how == "F":
        b = np.asfortranarray(a)
        return b, b
    if how == "columns":
        buf = np.full(a.shape[:-1] + (2 * a.shape[-1],), 7.0, dtype=a.dtype)
        buf[..., ::2] = a
        return buf[..., ::2], buf
    if how == "rows":
        buf = np.full((2 * a.shape[0],) + a.shape[1:], 7.0, dtype=a.dtype)
        buf[1::2] = a
        return buf[1::2], buf
    if how == "reversed":
        buf = a[::-1].copy()
        return buf[::-1], buf
    buf = a.T.copy()
    return buf.T, buf


def shape(r):
    k = r.randrange(8)
    if k == 0:
        return (r.choice([1, 3, 7]),)
    if k == 1:
        return (r.choice([1, 2]), 2, r.choice([1, 3]))
    if k == 2:
        return r.choice([(0, 3), (2, 0), (0,)])
    return (r.choice([1, 2, 3]), r.choice([1, 2, 4]))


def values(r, n, d=8, wide=True):
    hi = r.choice([3, 3, 7, 22]) if wide else 3
    return [r.randint(-hi * d, hi * d) / d for _ in range(n)]


def array(r, sh, dt, **kw):
    return np.array(values(r, int(np.prod(sh)), **kw), dtype=dt).reshape(sh)


def setup(r):
    import thinc.api as T

    via = r.choice(["NumpyOps", "NumpyOps", "Ops"])
    dt = r.choice(["float32", "float32", "float64"])
    return getattr(T, via)(), via, dt


def act_params(r, f):
    if f == "relu_k":
        n = r.choice([6.0, 6.0, 2.0, 3.5])
        return [fx(n)], ({} if n == 6.0 and r.random() < 0.5 else dict(n=n))
    if f == "mish":
        n = r.choice([20.0, 20.0, 5.0, 1.0, 0.5])
        return [fx(n)], ({} if n == 20.0 else dict(threshold=n))
    if f == "clipped_linear":
        sl, of = r.choice([1.0, 2.0, 0.5, -1.0, -0.25]), r.choice([0.0, 1.0, -0.5])
        lo, hi = r.choice([(0.0, 1.0), (-1.0, 2.0), (-8.0, 8.0)])
        return [fx(sl), fx(of), fx(lo), fx(hi)], dict(slope=sl, offset=of, min_val=lo, max_val=hi)
    return [], {}


class Run:
    """One call with arrays in random layouts, watching what it writes."""

    def __init__(self, r, how):
        self.r, self.how, self.items, self.place = r, how, [], True

    def add(self, name, a, layout):
        v, buf = lay(a, layout, self.r)
        self.items.append([name, v, buf, buf.copy(), False])
        return v

    def target(self, v):
        """v may be overwritten."""
        for it in self.items:
            if it[1] is v:
                it[4] = True

    def dirty(self):
        out = []
        for name, v, buf, old, target in self.items:
            if not target:
                if not np.array_equal(buf, old):
                    out.append(name)
            else:
                now = buf.copy()
                # the same view into copies of both buffers
                w = np.ndarray(v.shape, v.dtype, now, v.__array_interface__["data"][0] - buf.__array_interface__["data"][0] if v.size else 0, v.strides) if v.size else None
                if w is not None:
                    w[...] = 0
                    o = old.copy()
                    np.ndarray(v.shape, v.dtype, o, v.__array_interface__["data"][0] - buf.__array_interface__["data"][0], v.strides)[...] = 0
                    if not np.array_equal(now, o):
                        out.append("memory next to " + name)
        return out


def step(r):
    ops, via, dt = setup(r)
    kind = r.choice(["forward"] * 5 + ["backward"] * 5 + ["from output", "softmax", "softmax", "backprop softmax", "sequences", "maxout", "backprop maxout", "misc"])
    sh = shape(r)
    layout = r.choice(LAYOUTS)
    inplace = r.random() < 0.4
    how = f"{via} {dt} {layout}" + (" in place" if inplace else "")
    rec = dict(op=kind, a=dict(f="", p=[]), how=how, exc="", x=[], dy=[], out=[], place=True, dtype=True, dirty=[], temp=S, which=[], pieces=0)
    run = Run(r, how)
    try:
        with np.errstate(all="ignore"):
            if kind == "forward":
                f = r.choice(PLAIN + ["relu_k", "mish", "mish", "clipped_linear", "clipped_linear"])
                p, kw = act_params(r, f)
                rec["a"] = dict(f=f, p=p)
                a = array(r, sh, dt)
                rec["x"] = vec(a)
                X = run.add("the input", a, layout)
                if inplace:
                    run.target(X)
                Y = getattr(ops, f)(X, inplace=inplace, **kw)
                rec["out"] = vec(Y)
                rec["dtype"] = Y.dtype == dt and Y.shape == sh
                rec["place"] = (np.array_equal(X, Y)) if inplace else not np.shares_memory(X, Y)
            elif kind == "backward":
                f = r.choice(BACK_FROM_X + ["relu_k", "mish", "mish", "clipped_linear", "clipped_linear", "relu", "swish"])
                p, kw = act_params(r, f)
                rec["a"] = dict(f=f, p=p)
                a, d = array(r, sh, dt), array(r, sh, dt, wide=False)
                rec["x"], rec["dy"] = vec(a), vec(d)
                l2 = r.choice(LAYOUTS)
                rec["how"] += f"/{l2}"
                X, dY = run.add("the input", a, layout), run.add("the gradient", d, l2)
                if inplace:
                    run.target(dY)
                args = [dY, X]
                if f == "relu" and r.random() < 0.5:
                    # from the output
                    args = [dY, run.add("the output", np.maximum(a, 0), r.choice(LAYOUTS))]
                if f == "swish":
                    args.append(run.add("the output", np.asarray(a / (1 + np.exp(-a.astype("float64"))), dtype=dt), r.choice(LAYOUTS)))
                dX = getattr(ops, "backprop_" + f)(*args, inplace=inplace, **kw)
                rec["out"] = vec(dX)
                rec["dtype"] = dX.dtype == dt and dX.shape == sh
                rec["place"] = np.array_equal(dY, dX) if inplace else not any(np.shares_memory(q, dX) for q in args)
            elif kind == "from output":
                f = r.choice(["dtanh", "dsigmoid", "backprop_sigmoid"])
                a = array(r, sh, dt) / 32
                d = array(r, sh, dt, wide=False) if f == "backprop_sigmoid" else np.ones(sh, dtype=dt)
                rec["a"] = dict(f="tanh" if f == "dtanh" else "sigmoid", p=[])
                rec["how"] = f + " " + rec["how"]
                rec["x"], rec["dy"] = vec(a), vec(d)
                Y = run.add("the output", a, layout)
                if inplace:
                    run.target(Y)
                args = [run.add("the gradient", d, r.choice(LAYOUTS))] if f == "backprop_sigmoid" else []
                dX = getattr(ops, f)(*args, Y, inplace=inplace)
                rec["out"] = vec(dX)
                rec["dtype"] = dX.dtype == dt and dX.shape == sh
                rec["place"] = np.array_equal(Y, dX) if inplace else not np.shares_memory(Y, dX)
            elif kind in ("softmax", "backprop softmax"):
                sh = r.choice([(1, 3), (2, 4), (3, 2), (2, 3, 2), (4, 1), (0, 3)])
                axis = -1 if r.random() < 0.7 or sh[0] == 0 else r.randrange(len(sh))
                temp = r.choice([1.0, 1.0, 2.0, 0.5, 4.0])
                kw = dict(temperature=temp)
                if temp == 1.0 and r.random() < 0.5:
                    kw = {}
                if axis != -1 or r.random() < 0.3:
                    kw["axis"] = axis
                rows = lambda q: [vec(z) for z in np.moveaxis(np.asarray(q), axis, -1).reshape((-1, sh[axis]))]  # noqa: E731
                rec["temp"] = fx(temp)
                rec["how"] = f"{via} {dt} {layout} axis {axis}"
                if kind == "softmax":
                    a = array(r, sh, dt)
                    if r.random() < 0.2:
                        a = a + r.choice([-1000, 1000, 200])
                    rec["x"] = rows(a)
                    X = run.add("the input", a, layout)
                    Y = ops.softmax(X, **kw)
                    rec["dtype"] = Y.dtype == dt and Y.shape == sh
                    rec["place"] = not np.shares_memory(X, Y)
                    rec["out"] = rows(Y)
                else:
                    a = np.abs(array(r, sh, dt, wide=False)) + 0.25
                    a = (a / a.sum(axis=axis, keepdims=True)).astype(dt)
                    d = array(r, sh, dt, wide=False)
                    rec["x"], rec["dy"] = rows(a), rows(d)
                    Y, dY = run.add("the output", a, layout), run.add("the gradient", d, r.choice(LAYOUTS))
                    dX = ops.backprop_softmax(Y, dY, **kw)
                    rec["dtype"] = dX.dtype == dt and dX.shape == sh
                    rec["out"] = rows(dX)
            elif kind == "sequences":
                lens = [r.choice([1, 2, 3, 4]) for _ in range(r.randint(1, 3))]
                w = r.choice([1, 2])
                n = sum(lens)
                layout = "C"
                ln = np.array(lens, dtype="int32")
                cols = lambda q: [vec(q[sum(lens[:b]) : sum(lens[: b + 1]), j]) for b in range(len(lens)) for j in range(w)]  # noqa: E731
                rec["how"] = f"sequences {via} {dt}"
                a = array(r, (n, w), dt)
                if r.random() < 0.5:
                    rec["op"] = "softmax"
                    rec["x"] = cols(np.clip(a, -20, 20))
                    X = run.add("the input", a, layout)
                    Y = ops.softmax_sequences(X, ln)
                    rec["dtype"] = Y.dtype == dt
                    rec["out"] = cols(Y)
                else:
                    rec["op"] = "backprop softmax"
                    y = np.abs(a) + 0.25
                    for b in range(len(lens)):
                        q = y[sum(lens[:b]) : sum(lens[: b + 1])]
                        q /= q.sum(axis=0)
                    d = array(r, (n, w), dt, wide=False)
                    rec["x"], rec["dy"] = cols(y), cols(d)
                    dX = ops.backprop_softmax_sequences(run.add("the gradient", d, layout), run.add("the output", y, layout), ln)
                    rec["dtype"] = dX.dtype == dt
                    rec["out"] = cols(dX)
            elif kind == "maxout":
                sh = (r.choice([0, 1, 2, 3]), r.choice([1, 2, 3]), r.choice([1, 2, 3, 5]))
                a = array(r, sh, dt, d=r.choice([1, 8]), wide=False)
                rec["how"] = f"{via} {dt}"
                rec["x"] = [vec(q) for q in a.reshape((sh[0] * sh[1], sh[2]))]
                Y, which = ops.maxout(run.add("the input", a, "C"))
                rec["out"], rec["which"] = vec(Y), [int(q) for q in which.ravel()]
                rec["dtype"] = Y.dtype == dt and Y.shape == sh[:2] and which.shape == sh[:2]
            elif kind == "backprop maxout":
                B, O, P = r.choice([0, 1, 2, 3]), r.choice([1, 2, 3]), r.choice([1, 2, 3, 5])
                d = array(r, (B, O), dt, wide=False)
                which = np.array([r.randrange(P) for _ in range(B * O)], dtype="int32").reshape((B, O))
                rec["how"] = f"{via} {dt}"
                rec["dy"], rec["which"], rec["pieces"] = vec(d), [int(q) for q in which.ravel()], P
                dX = ops.backprop_maxout(run.add("the gradient", d, "C"), which, P)
                rec["out"] = [vec(q) for q in np.asarray(dX).reshape((B * O, P))]
                rec["dtype"] = dX.dtype == dt and dX.shape == (B, O, P)
            else:
                f = r.choice(["erf", "sechsq"])
                rec["op"] = "forward"
                rec["a"] = dict(f=f, p=[])
                a = array(r, sh, dt)
                rec["x"] = vec(a)
                X = run.add("the input", a, layout)
                Y = getattr(ops, f)(X)
                rec["out"] = vec(Y)
                rec["dtype"] = Y.dtype == dt and Y.shape == sh
        rec["dirty"] = run.dirty()
    except Exception as e:
        rec["exc"] = type(e).__name__
    rec["place"], rec["dtype"] = bool(rec["place"]), bool(rec["dtype"])
    return rec


def case(job):
    r = random.Random(job[0])
    return dict(steps=[step(r) for _ in range(10)])


def crash(reason):
    return dict(steps=[dict(op="?", a=dict(f="?"), how="?", exc="crash: " + reason)])


def check(ctx):
    ctx.design("FixedMC", f"FixedMC_{ctx.tier}.cfg")
    ctx.design("ActivationMC", f"ActivationMC_{ctx.tier}.cfg")
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(1500, 20000))]
    cases = [crash(c.reason) if isinstance(c, pool.Crash) else c for c in pool.pmap(case, jobs)]
    count = {}
    for c in cases:
        for s in c["steps"]:
            q = f"{s['op']} {s['a']['f']}".strip()
            count[q] = count.get(q, 0) + 1
    ctx.notes["calls"] = count
    for c in cases[:2]:
        ctx.sample(c["steps"][:2])
    ctx.conform("ActivationTrace", "ActivationTrace.cfg", cases, plans=[list(j) for j in jobs])
