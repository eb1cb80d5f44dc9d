"""C10: reductions and window features (spec/Reduce.tla)."""
import random

import numpy as np

import core
import pool

OPS = ["sum", "mean", "max", "first", "last"]


def rows(a):
    return [[core.enc_int(v) for v in r] for r in np.asarray(a).reshape((len(a), int(np.prod(np.asarray(a).shape[1:]))))]


def layer(op):
    import thinc.api as T

    return {"sum": T.reduce_sum, "mean": T.reduce_mean, "max": T.reduce_max, "first": T.reduce_first, "last": T.reduce_last}[op]()


def data(r, n, w, dt, mean, ties):
    lo = 2 if ties else 20
    f = 60 if mean else 1
    return (np.array([r.randint(-lo, lo) * f for _ in range(n * w)], dtype=dt)).reshape((n, w))


class Watch:
    def __init__(self):
        self.xs = []

    def add(self, nm, a):
        self.xs.append((nm, a, a.tobytes()))
        return a

    def dirty(self):
        return [nm for nm, a, b in self.xs if a.tobytes() != b]


def rand_lens(r, op):
    B = r.choice([0, 1, 1, 2, 3, 4, 5])
    if op in ("sum", "mean", "window"):
        z = r.random() < 0.1
        return [0 if z else r.choice([0, 1, 1, 2, 3, 4, 6]) for _ in range(B)]
    return [r.choice([1, 1, 2, 3, 4, 6]) for _ in range(B)]


def one(r):
    import thinc.api as T
    from thinc.types import Ragged

    op = r.choice(OPS + ["window", "window"])
    dt = r.choice(["float32", "float32", "float64"])
    via = r.choice(["layer", "layer", "numpy", "base"])
    w = r.choice([1, 2, 3, 5])
    lens = rand_lens(r, op)
    k = r.choice([1, 1, 2, 3]) if op == "window" else 1
    whole = False
    if op == "window" and via == "base":
        k, whole = 1, True  # the generic version covers only this case
    if op == "window" and not whole and r.random() < 0.3:
        whole = True
    if whole:
        lens = [r.choice([0, 1, 2, 3, 6]) if via != "base" else r.choice([1, 2, 3, 6])]
    n = sum(lens)
    X = data(r, n, w, dt, op == "mean", r.random() < 0.5)
    ow = w * (2 * k + 1) if op == "window" else w
    dY = data(r, n if op == "window" else len(lens), ow, dt, op == "mean", False)
    ops = T.NumpyOps() if via != "base" else T.Ops()
    ln = np.array(lens, dtype="int32")
    W = Watch()
    for nm, a in (("the input", X), ("the lengths", ln), ("the gradient", dY)):
        W.add(nm, a)
    rec = dict(kind="run", op=op, via=via, x=rows(X), n=lens, w=w, k=k, dy=rows(dY), exc="", y=[], dx=[], lens=list(lens), dirty=[])
    try:
        if op == "window":
            if via == "layer":
                model = T.expand_window(k)
                if whole:
                    y, back = model(X, is_train=True)
                    rec["y"] = rows(y)
                    rec["dirty"] = W.dirty()
                    rec["dx"] = rows(back(dY))
                else:
                    y, back = model(Ragged(X, ln), is_train=True)
                    rec["y"] = rows(y.data)
                    dx = back(Ragged(dY, ln))
                    rec["dx"] = rows(dx.data)
                    rec["lens"] = rows(y.lengths.reshape((-1, 1)))
                    rec["lens"] = [q[0] for q in rec["lens"]]
                    if list(dx.lengths) != lens:
                        rec["lens"] = []
            else:
                kw = {} if whole else dict(lengths=ln)
                rec["y"] = rows(ops.seq2col(X, k, **kw))
                rec["dx"] = rows(ops.backprop_seq2col(dY, k, **kw))
        elif via == "layer":
            y, back = layer(op)(Ragged(X, ln), is_train=True)
            rec["y"] = rows(y)
            dx = back(dY)
            rec["dx"] = rows(dx.data)
            rec["lens"] = [int(q) for q in dx.lengths]
        elif op in ("sum", "mean"):
            rec["y"] = rows(getattr(ops, "reduce_" + op)(X, ln))
            rec["dx"] = rows(getattr(ops, "backprop_reduce_" + op)(dY, ln))
        elif op == "max":
            y, which = ops.reduce_max(X, ln)
            rec["y"] = rows(y)
            rec["dx"] = rows(ops.backprop_reduce_max(dY, which, ln))
        else:
            y, at = getattr(ops, "reduce_" + op)(X, ln)
            rec["y"] = rows(y)
            rec["dx"] = rows(getattr(ops, "backprop_reduce_" + op)(dY, at))
    except Exception as e:
        rec["exc"] = type(e).__name__
    rec["dirty"] += W.dirty()
    return rec


def reject(r):
    import thinc.api as T
    from thinc.types import Ragged

    op = r.choice(OPS + ["window"])
    via = r.choice(["layer", "numpy", "base"]) if op != "window" else r.choice(["layer", "numpy"])
    lens = [r.randint(1, 4) for _ in range(r.randint(1, 4))]
    n, w = sum(lens), r.choice([1, 2, 3])
    ops = T.Ops() if via == "base" else T.NumpyOps()
    X = data(r, n, w, "float32", False, False)
    how = r.choice(["long", "long", "short", "negative", "negative balanced", "zero", "gradient", "gradient width"])
    bad = list(lens)
    j = r.randrange(len(bad))
    if how == "long":
        bad[j] += r.choice([1, 2, 50])
    elif how == "short":
        if bad[j] == 1 and len(bad) == 1:
            bad = [n + 1]
        else:
            bad[j] -= 1
            bad = [q for q in bad if q] or [n + 1]
    elif how == "negative":
        bad[j] = -bad[j]
    elif how == "negative balanced":
        bad.insert(j, -2)
        bad[-1 if j < len(bad) - 1 else 0] += 2
    elif how == "zero":
        if op in ("sum", "mean", "window"):
            bad[j] += 1
        else:
            bad.insert(j, 0)
    ln = np.array(bad, dtype="int32")
    good = np.array(lens, dtype="int32")
    rec = dict(kind="reject", op=op, via=via, x=rows(X), n=bad, how=how, exc="", dirty=[])
    try:
        if how.startswith("gradient"):
            if op == "window":
                return None
            y, back = layer(op)(Ragged(X, good), is_train=True)
            dy = np.zeros((len(lens) + 1, w) if how == "gradient" else (len(lens), w + 1), dtype="float32")
            rec["via"] = "layer gradient"
            back(dy)
        elif op == "window":
            if via == "layer":
                T.expand_window(r.choice([1, 2])).predict(Ragged(X, ln))
            elif r.random() < 0.5:
                ops.seq2col(X, 1, lengths=ln)
            else:
                rec["via"] = "backward numpy"
                ops.backprop_seq2col(data(r, n, 3 * w, "float32", False, False), 1, lengths=ln)
        elif via == "layer":
            layer(op).predict(Ragged(X, ln))
        else:
            getattr(ops, "reduce_" + op)(X, ln)
    except Exception as e:
        rec["exc"] = type(e).__name__
    return rec


def case(job):
    r = random.Random(job[0])
    steps = []
    while len(steps) < 12:
        x = reject(r) if r.random() < 0.25 else one(r)
        if x:
            steps.append(x)
    return dict(steps=steps)


def crash(reason):
    return dict(steps=[dict(kind="reject", op="?", via="crashed: " + reason, exc="", dirty=[])])


def check(ctx):
    ctx.design("ReduceMC", f"ReduceMC_{ctx.tier}.cfg")
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(700, 12000))]
    cases = [crash(c.reason) if isinstance(c, pool.Crash) else c for c in pool.pmap(case, jobs)]
    count = {}
    for c in cases:
        for s in c["steps"]:
            q = f"{s['kind']} {s['op']} {s['via']}"
            count[q] = count.get(q, 0) + 1
    ctx.notes["calls"] = count
    for c in cases[:2]:
        ctx.sample(c["steps"][:3])
    ctx.conform("ReduceTrace", "ReduceTrace.cfg", cases, plans=[list(j) for j in jobs])
