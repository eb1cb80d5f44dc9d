"""C19: schedules of the pass machine on every kind of layer (see spec/PurityTrace.tla)."""
import random

import numpy as np

import core
import layers
import pool
import zoo

SCALE = 4096


def enc(x):
    s, v = zoo.flat_value(x)
    return dict(s=s, v=[core.enc_int(a, SCALE) for a in v])


def grads(model):
    out = []
    for i, node in enumerate(model.walk()):
        for nm in node.param_names:
            if node.has_grad(nm):
                out.append(
                    dict(
                        k=f"{i}.{nm}",
                        v=[core.enc_int(a, SCALE) for a in np.asarray(node.get_grad(nm)).ravel()],
                    )
                )
        for shim in node.shims:
            for nm, p in shim._model.named_parameters():
                if p.grad is not None:
                    out.append(
                        dict(
                            k=f"{i}.shim.{nm}",
                            v=[core.enc_int(a, SCALE) for a in p.grad.numpy().ravel()],
                        )
                    )
    return out


class Params:
    def __init__(self, model):
        self.model = model
        self.snap = self.take()

    def take(self):
        res = {}
        for i, node in enumerate(self.model.walk()):
            for nm in node.param_names:
                if node.has_param(nm):
                    p = np.asarray(node.get_param(nm))
                    res[f"parameter {nm} of {node.name}", i] = (p.shape, p.tobytes())
            for shim in node.shims:
                for nm, p in shim._model.named_parameters():
                    res[f"parameter {nm} of the wrapped module", i] = p.detach().numpy().tobytes()
        return res

    def dirty(self):
        now = self.take()
        res = sorted({k[0] for k in set(now) | set(self.snap) if now.get(k) != self.snap.get(k)})
        self.snap = now
        return res


def seeded(seed):
    """Dropout masks come from numpy's global generator: the same for the same batch."""
    np.random.seed(seed)
    try:
        import torch

        torch.manual_seed(seed)
    except ImportError:
        pass


def alone(name, seed, x, k):
    model, _ = zoo.build(name, seed)
    seeded(1000 + k)
    y, bp = model.begin_update(zoo.copy_value(x))
    res = dict(y=enc(y))
    dy = zoo.grad_like(y, np.random.default_rng(seed * 7 + k))
    dx = bp(zoo.copy_value(dy))
    res["dx"] = enc(dx)
    res["g"] = grads(model)
    model2, _ = zoo.build(name, seed)
    res["p"] = enc(model2.predict(zoo.copy_value(x)))
    return res, dy


def inputs(data, seed, n, same):
    rng = np.random.default_rng(seed + 1)
    data(rng)
    out = [data(rng)]
    want = zoo.flat_value(out[0])[0]
    while len(out) < n:
        x = data(rng)
        if same:
            for _ in range(60):
                if zoo.flat_value(x)[0] == want:
                    break
                x = data(rng)
        out.append(x)
    return out


def one(job):
    name, seed, script, drop = job
    nb = sum(1 for s in script if s[0] == "fwd")
    case = dict(name=name, drop=drop, alone=[], steps=[])
    steps = case["steps"]
    where = "construction"
    try:
        model, data = zoo.build(name, seed)
        xs = inputs(data, seed, nb, same=seed % 2 == 0)
        where = "a single pass"
        dys = []
        for k, x in enumerate(xs):
            r, dy = alone(name, seed, x, k)
            case["alone"].append(r)
            dys.append(dy)
        watch = layers.Watch()
        par = Params(model)
        live = []
        for act in script:
            where = act[0]
            if act[0] == "fwd":
                b = len(live)
                x = xs[b]
                watch.add("its input", b, x)
                seeded(1000 + b)
                if seed % 3 == 0:
                    y, bp = model(x, is_train=True)
                else:
                    y, bp = model.begin_update(x)
                d = watch.dirty() + par.dirty()
                watch.add("an output", b, y)
                live.append([y, bp])
                steps.append(dict(a="fwd", b=b + 1, y=enc(y), g=grads(model), dirty=d))
            elif act[0] == "pred":
                b = act[1]
                y = model.predict(xs[b])
                steps.append(
                    dict(a="pred", b=b + 1, y=enc(y), g=grads(model), dirty=watch.dirty() + par.dirty())
                )
            else:
                b = act[1]
                watch.add("the gradient it was given", b, dys[b])
                dx = live[b][1](dys[b])
                d = watch.dirty(lambda nm, q: nm == "an output" and q == b) + par.dirty()
                watch.add("a returned gradient", b, dx)
                steps.append(dict(a="bwd", b=b + 1, dx=enc(dx), g=grads(model), dirty=d))
    except Exception as ex:
        steps.append({"a": "exc", "b": 1, "in": where, "e": f"{type(ex).__name__}: {ex}"[:200]})
        if not case["alone"]:
            case["alone"] = [{}]
    return case


def broken(name, why):
    return dict(name=name, drop=False, alone=[{}], steps=[{"a": "exc", "b": 1, "in": "a pass", "e": why}])


def check(ctx):
    runs = [h for h in layers.schedules(ctx) if all(s[0] in ("fwd", "bwd", "pred") for s in h)]
    runs = [h for h in runs if any(s[0] == "bwd" for s in h)]
    pure = ["bwd", "pred"]
    ctx.notes["spec_schedules"] = len(runs)
    names = sorted(zoo.catalogue())
    per = ctx.n(8, 60)
    jobs = []
    for nm in names:
        for i in range(per):
            h = runs[ctx.rng.randrange(len(runs))]
            h = [(s[0], s[1]) if s[0] != "fwd" else s for s in h]
            jobs.append((nm, ctx.rng.randrange(1 << 20), h, "dropout" in nm))
    cases = []
    for job, res in zip(jobs, pool.pmap(one, jobs, timeout=60)):
        cases.append(broken(job[0], res.reason) if isinstance(res, pool.Crash) else res)
    ctx.notes["layers"] = len(names)
    ctx.notes["not_finite"] = sum(1 for c in cases if str(core.BADNUM) in str(c))
    for c in cases[:2]:
        ctx.sample(c)
    plans = [list(j) for j in jobs]
    ctx.conform(
        "PurityTrace", "PurityTrace.cfg", cases, plans=plans,
        describe=lambda case, b: f"{case['name']}: {b.get('clause')}",
    )
    n = ctx.n(500, 5000)
    jobs = []
    for i in range(n):
        rng = random.Random(f"{ctx.seed}-c19-{i}")
        jobs.append(
            (f"{ctx.seed}-c19-{i}", rng.choice([1, 2, 2, 3]),
             [s for s in layers.script_interleave(rng, updates=False) if s[0] not in ("inc", "setg")])
        )
    cases, plans, used = layers.collect(jobs)
    ctx.notes["constructs"] = used
    ctx.conform("PassTrace", "PassTrace.cfg", cases, plans=plans, label="programs")
