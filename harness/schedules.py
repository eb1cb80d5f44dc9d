"""C14: schedules (spec/Schedules.tla)."""
import random

import core
import pool

S = 65536


def fx(v):
    return core.enc_int(v, S)


def q(r, lo, hi, d=64):
    """A number with few binary digits."""
    return r.randint(int(lo * d), int(hi * d)) / d


def leaf(r):
    """(node, real schedule)"""
    import thinc.api as T
    from thinc.schedules import plateau  # noqa: F401

    k = r.choice(["constant", "decaying", "compounding", "compounding", "slanted", "warmup", "cyclic"])
    if k == "constant":
        a = q(r, -4, 60)
        return dict(k=k, a=fx(a)), T.constant(a)
    if k == "decaying":
        a, b, t = q(r, 1, 60), q(r, 0, 2), r.choice([0.0, 0.0, 1.0, 2.5])
        return dict(k=k, a=fx(a), b=fx(b), t=fx(t)), T.decaying(a, b, t=t)
    if k == "compounding":
        a, b = q(r, 1, 60), q(r, 1, 60)
        c = r.choice([1.5, 1.25, 1.0625, 2.0, 1.0]) if a <= b else r.choice([0.5, 0.75, 0.875, 0.9375, 1.0])
        if r.random() < 0.15:
            c = 0.9375 if a <= b else 1.03125
        n = r.choice([0, 0, 0, 1, 3])
        return dict(k=k, a=fx(a), b=fx(b), c=fx(c), n=n), T.compounding(a, b, c, t=float(n))
    if k == "slanted":
        inv = r.choice([2, 4, 4, 8])
        cut = r.choice([1, 2, 3, 6])
        a, rt, t = q(r, 1, 60), r.choice([32, 2, 8]), r.choice([0.0, 0.0, 1.0, 0.5])
        n = inv * cut
        kw = dict(cut_frac=1.0 / inv)
        if r.random() < 0.15:
            n = 10 * cut  # the default fraction
            inv, kw = 10, {}
        return (
            dict(k=k, a=fx(a), n=n, cut=cut, c=inv * S, r=rt, t=fx(t)),
            T.slanted_triangular(a, n, ratio=rt, t=t, **kw),
        )
    if k == "warmup":
        a, n = q(r, 1, 60), r.choice([0, 1, 2, 5, 9])
        m = n + r.choice([0, 1, 2, 7, 20])
        return dict(k=k, a=fx(a), n=n, m=m), T.warmup_linear(a, n, m)
    a, b, n = q(r, 0, 8), q(r, 0, 60), r.choice([1, 2, 3, 5, 8])
    return dict(k=k, a=fx(a), b=fx(b), n=n), T.cyclic_triangular(a, b, n)


def chain(r, depth):
    import thinc.api as T
    from thinc.schedules import plateau

    if depth == 0:
        node, s = leaf(r)
        # beyond its last step a slanted triangle is not documented
        return [node], s
    ch, s = chain(r, depth - 1)
    if r.random() < 0.45:
        a, n = q(r, 0, 60), r.choice([0, 1, 2, 4, 9])
        return [dict(k="then", a=fx(a), n=n)] + ch, T.constant_then(a, n, s)
    n, c = r.choice([1, 1, 2, 3]), r.choice([0.5, 0.25, 0.75])
    return [dict(k="plateau", n=n, c=fx(c))] + ch, plateau(n, c, s)


def gen_node(r):
    k = r.choice(["list", "finite", "infinite", "schedule"])
    n = r.randint(1, 6)
    vals = [q(r, 0, 60) for _ in range(n)]
    if k == "list":
        return dict(k="gen", vals=[fx(x) for x in vals], how=k), list(vals)
    if k == "finite":
        return dict(k="gen", vals=[fx(x) for x in vals], how=k), (x for x in vals)
    if k == "infinite":
        a = q(r, 0, 4)

        def g():
            x = a
            while True:
                yield x
                x += 0.5

        return dict(k="gen", vals=[fx(a + 0.5 * j) for j in range(60)], how=k), g()
    import thinc.api as T

    a = q(r, 1, 4)
    return (
        dict(k="gen", vals=[fx(a * 0.5**j) for j in range(60)], how=k),
        T.compounding(a, 0.0, 0.5).to_generator(),
    )


def limit_of(ch):
    """steps up to which every node of the chain is specified"""
    m = 40
    for x in ch:
        if x["k"] == "slanted":
            m = min(m, x["n"] - 2 - x["t"] // S)
        if x["k"] == "compounding" and (x["a"] <= x["b"]) != (x["c"] >= S) and x["c"] > S:
            m = min(m, 30)
    return max(m, 0)


def ask(f):
    try:
        return dict(out=fx(f()), exc="")
    except Exception as e:
        return dict(out=0, exc=type(e).__name__)


class Scores:
    def __init__(self, r):
        self.r, self.at, self.last = r, 0, None

    def next(self):
        r = self.r
        k = r.random()
        if k < 0.15:
            return None
        if k < 0.3 and self.last:
            return self.last
        if k < 0.36 and self.last and self.last[0] > 1:
            # an outdated evaluation that is no improvement either
            return (self.last[0] - 1, -1)
        self.at += r.choice([1, 1, 5])
        self.last = (self.at, r.choice([0, 1, 2, 2, 3, 4]))
        return self.last


def name(ch):
    return " of ".join({"then": "constant_then", "gen": "generator"}.get(x["k"], x["k"]) for x in ch)


def case_plain(r):
    ch, s = chain(r, r.choice([0, 0, 1, 1, 2, 3]))
    top = limit_of(ch)
    sc = Scores(r)
    has_plateau = any(x["k"] == "plateau" for x in ch)
    steps, gens = [], []
    extra = {"key": (1, "W")} if r.random() < 0.3 else {}
    for _ in range(r.randint(6, 16)):
        k = r.random()
        if k < 0.04:
            steps.append(dict(op="negative", **ask(lambda: s(-1))))
        elif k < 0.15 and len(gens) < 2:
            a, by = r.randint(0, min(3, top)), r.choice([1, 1, 2, 0, 5])
            score = sc.next() if has_plateau and r.random() < 0.5 else None
            g = s.to_generator(a, by, last_score=score) if score else s.to_generator(a, by)
            gens.append([g, a, by])
            steps.append(dict(op="generate", start=a, by=by, score=list(score or [])))
        elif k < 0.5 and gens:
            j = r.randrange(len(gens))
            if gens[j][1] > top:
                continue
            gens[j][1] += gens[j][2]
            steps.append(dict(op="next", g=j + 1, **ask(lambda: next(gens[j][0]))))
            if steps[-1]["exc"]:
                gens[j][1] = top + 1  # Python ends a generator that raised
        else:
            step = r.randint(0, top)
            score = sc.next() if has_plateau and r.random() < 0.85 else None
            kw = dict(extra)
            if score is not None or r.random() < 0.3:
                kw["last_score"] = score
            steps.append(dict(op="call", step=step, score=list(score or []), **ask(lambda: s(step, **kw))))
    if r.random() < 0.1:
        try:
            s.to_generator(-1)
            steps.append(dict(op="negative", exc="", out=0))
        except Exception as e:
            steps.append(dict(op="negative", exc=type(e).__name__, out=0))
    return dict(chain=ch, name=name(ch), steps=steps)


ATTRS = {"learn_rate": "learn_rate", "beta1": "b1", "beta2": "b2", "eps": "eps", "L2": "L2", "grad_clip": "grad_clip"}


def case_optimizer(r):
    import thinc.api as T

    k = r.random()
    if k < 0.5:
        node, s = gen_node(r)
        ch = [node]
    elif k < 0.6:
        v = r.choice([0.5, 2, True])
        ch, s = [dict(k="constant", a=fx(v))], v
    else:
        ch, s = chain(r, r.choice([0, 1, 1, 2]))
    arg = r.choice(list(ATTRS))
    kw = {"learn_rate": 0.001}
    kw[arg] = s
    lr = kw.pop("learn_rate")
    opt = T.Optimizer(lr, **kw)
    top = limit_of(ch)
    steps = []
    get = lambda: getattr(opt, ATTRS[arg])  # noqa: E731
    for _ in range(r.randint(6, 20)):
        z = r.random()
        if z < 0.3 and opt.step < top:
            opt.step_schedules()
            steps.append(dict(op="step"))
        elif z < 0.45:
            v = r.randint(0, 5)
            opt.last_score = v
            steps.append(dict(op="score", value=v))
        elif z < 0.55 and ch[0]["k"] == "gen":
            # a query for another step: earlier ones are refused
            at = r.randint(0, 12)
            steps.append(dict(op="call", step=at, score=[], **ask(lambda: get()(at))))
        else:
            steps.append(
                dict(op="attr", step=opt.step, score=list(opt.last_score or []),
                     **ask(lambda: get()(opt.step, key=(1, "W"), last_score=opt.last_score)))
            )
    return dict(chain=ch, name=name(ch) + " as " + arg, steps=steps)


def case(job):
    r = random.Random(job[0])
    return case_optimizer(r) if r.random() < 0.35 else case_plain(r)


def check(ctx):
    ctx.design("FixedMC", f"FixedMC_{ctx.tier}.cfg")
    ctx.design("SchedulesMC", f"SchedulesMC_{ctx.tier}.cfg")
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(4000, 50000))]
    cases = [
        dict(chain=[], name="crash: " + c.reason, steps=[dict(op="negative", exc="", out=0)]) if isinstance(c, pool.Crash) else c
        for c in pool.pmap(case, jobs)
    ]
    for c in cases[:2]:
        ctx.sample(c)
    count = {}
    for c in cases:
        for x in c["chain"]:
            count[x["k"]] = count.get(x["k"], 0) + 1
    ctx.notes["schedules"] = count
    ctx.conform("SchedulesTrace", "SchedulesTrace.cfg", cases, plans=[list(j) for j in jobs])
