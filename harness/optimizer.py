"""C15: the optimizer's update of one parameter (spec/Optimizer.tla)."""
import random

import numpy as np

import core
import pool

S = 65536
KEYS = [(1, "W"), (1, "b"), (2, "W"), (11, "W"), (1, "1W")]
SHAPES = [(3,), (1,), (2, 3), (1, 4), (2, 1, 3), (5,), (2, 2, 1, 2)]


def fx(v):
    return core.enc_int(v, S)


def vec(a):
    return [fx(x) for x in np.asarray(a).ravel()]


def table(r, vals, vary):
    """(values by step, what to pass to the constructor)"""
    import thinc.api as T

    if not vary:
        v = r.choice(vals)
        return [fx(v)], r.choice([v, T.constant(v)])
    n = r.randint(2, 5)
    t = [r.choice(vals) for _ in range(n)]
    k = r.randrange(3)
    if k == 0:
        return [fx(x) for x in t], list(t)
    if k == 1:
        return [fx(x) for x in t], (x for x in list(t))
    a, b = t[0], t[1]
    return [fx(a)] * n + [fx(b)], T.constant_then(a, n, T.constant(b))


def grid(r, n, lo, hi, d):
    return [r.randint(lo * d, hi * d) / d for _ in range(n)]


def kernel(r):
    import thinc.api as T

    n = r.choice([1, 2, 3, 5, 8, 17])
    f = lambda v: np.array(v, dtype="float32")  # noqa: E731
    w, g, m1 = f(grid(r, n, -8, 8, 64)), f(grid(r, n, -8, 8, 4)), f(grid(r, n, -4, 4, 64))
    m2 = f(grid(r, n, 0, 16, 64))
    b1, b2, eps, lr = r.choice([0.5, 0.75, 0.9]), r.choice([0.5, 0.75, 0.9, 0.9375]), r.choice([0.125, 0.25, 1.0]), r.choice([0.5, 0.25, 0.125])
    via = r.choice(["NumpyOps", "Ops"])
    rec = dict(op="kernel", via=via, w=vec(w), g=vec(g), m1=vec(m1), m2=vec(m2), b1=fx(b1), b2=fx(b2), eps=fx(eps), lr=fx(lr), exc="", out=[], outm1=[], outm2=[])
    try:
        ow, og, o1, o2 = getattr(T, via)().adam(w, g, m1, m2, b1, b2, eps, lr)
        rec.update(out=vec(ow), outm1=vec(o1), outm2=vec(o2))
    except Exception as e:
        rec["exc"] = type(e).__name__
    return rec


def case(job):
    import thinc.api as T

    r = random.Random(job[0])
    algo = r.choice(["sgd", "adam", "adam", "radam", "radam"])
    avg = r.random() < 0.6
    decay = r.random() < 0.5
    vary = lambda: r.random() < 0.35  # noqa: E731
    lr, alr = table(r, [0.5, 0.25, 0.125, 0.0625], vary())
    b1, ab1 = table(r, [0.5, 0.75, 0.875, 0.9], vary())
    b2, ab2 = table(r, [0.75, 0.875, 0.9375, 0.5] if algo == "radam" else [0.5, 0.75, 0.9, 0.9375], vary())
    eps, aeps = table(r, [0.125, 0.25, 1.0, 0.0625], vary())
    if algo == "sgd":
        b1 = b2 = [0]
    l2, al2 = table(r, [0.0, 0.125, 0.25] if r.random() < 0.6 else [0.0], vary())
    clip, aclip = table(r, [1.0, 4.0, 0.5, 2.5] if r.random() < 0.5 else [0.0], vary())
    kw = dict(L2=al2, grad_clip=aclip, L2_is_weight_decay=decay, use_averages=avg)
    if algo == "sgd":
        if r.random() < 0.5:
            opt = T.SGD(alr, **kw)
        else:
            opt = T.Optimizer(alr, beta1=0.0, beta2=0.0, eps=aeps, **kw)
    else:
        kw.update(beta1=ab1, beta2=ab2, eps=aeps)
        if r.random() < 0.5:
            opt = (T.Adam if algo == "adam" else T.RAdam)(alr, **kw)
        else:
            opt = T.Optimizer(alr, use_radam=algo == "radam", **kw)
    nk = r.choice([1, 2, 2, 3])
    keys = r.sample(KEYS, nk)
    ws = []
    for _ in keys:
        sh = r.choice(SHAPES)
        ws.append(np.array(grid(r, int(np.prod(sh)), -8, 8, 64), dtype="float32").reshape(sh))
    rec = dict(algo=algo, avg=avg, decay=decay, lr=lr, b1=b1, b2=b2, eps=eps, l2=l2, clip=clip, sizes=[int(w.size) for w in ws], steps=[])
    steps = rec["steps"]
    for _ in range(r.choice([4, 8, 14])):
        z = r.random()
        if z < 0.2:
            opt.step_schedules()
            steps.append(dict(op="advance"))
            continue
        if z < 0.23:
            w = np.zeros((0, 3), dtype="float32") if r.random() < 0.5 else np.ones((0,), dtype="float32")
            s = dict(op="empty", w=list(w.shape), exc="", out=[])
            try:
                s["out"] = list(opt(("empty", "W"), w, np.zeros(w.shape, dtype="float32"))[0].shape)
            except Exception as e:
                s["exc"] = type(e).__name__
            steps.append(s)
            continue
        if z < 0.26:
            steps.append(kernel(r))
            continue
        k = r.randrange(nk)
        w = ws[k]
        kind = r.random()
        if kind < 0.1:
            g = np.zeros(w.shape, dtype="float32")
        else:
            g = np.array(grid(r, w.size, -8, 8, 4), dtype="float32").reshape(w.shape)
        scale = r.choice([1.0, 1.0, 0.5, 2.0])
        akw = {} if scale == 1.0 else dict(lr_scale=scale)
        s = dict(op="update", key=k + 1, w=vec(w), g=vec(g), scale=fx(scale), exc="", out=[], gout=[], emas=[], shape=True, step=0)
        try:
            ow, og = opt(keys[k], w, g, **akw)
            s["out"], s["gout"] = vec(ow), vec(og)
            s["shape"] = ow.shape == w.shape and og.shape == g.shape
            s["step"] = opt.step
            if opt.averages is not None:
                s["emas"] = [vec(opt.averages[q]) if q in opt.averages else [] for q in keys]
                s["shape"] = s["shape"] and all(q not in opt.averages or opt.averages[q].shape == x.shape for q, x in zip(keys, ws))
            ws[k] = ow
        except Exception as e:
            s["exc"] = type(e).__name__
        steps.append(s)
        if s["exc"]:
            break
        if np.abs(ws[k]).max() > 500:
            break
    return rec


def check(ctx):
    ctx.design("FixedMC", f"FixedMC_{ctx.tier}.cfg")
    ctx.design("OptimizerMC", f"OptimizerMC_{ctx.tier}.cfg")
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(2500, 30000))]
    cases = [
        dict(algo="crash: " + c.reason, sizes=[], steps=[dict(op="empty", w=[], out=[], exc="crash")]) if isinstance(c, pool.Crash) else c
        for c in pool.pmap(case, jobs)
    ]
    for c in cases[:2]:
        ctx.sample(c)
    ctx.notes["updates"] = {a: sum(s["op"] == "update" for c in cases if c["algo"] == a for s in c["steps"]) for a in ("sgd", "adam", "radam")}
    ctx.conform("OptimizerTrace", "OptimizerTrace.cfg", cases, plans=[list(j) for j in jobs])
