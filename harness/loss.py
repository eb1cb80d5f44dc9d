"""C16: losses (spec/Loss.tla)."""
import random

import numpy as np

import core
import pool
from lookup import Watch

S = 65536


def fx(v):
    return core.enc_int(v, S)


def rows(a):
    return [[fx(v) for v in r] for r in np.asarray(a)]


def chars(s):
    return [-1] if s is None else [ord(q) for q in s]


def guesses(r, b, n, dt, outside=False):
    g = np.array([[r.choice([0, 0, 1, r.randint(0, 16) / 16, r.random()]) for _ in range(n)] for _ in range(b)], dtype=dt).reshape((b, n))
    if outside and b:
        g[r.randrange(b), r.randrange(n)] = r.choice([-0.25, 1.5])
    return g


NAMES = ["a", "b", "dog", "cat", "!", "x!", "été"]


class Options:
    """Settings of a cross-entropy, and how truths look."""

    def __init__(self, r):
        self.r = r
        self.n = r.choice([1, 2, 2, 3, 4, 5])
        self.form = r.choice(["ids", "strings", "strings", "rows"])
        self.norm = r.random() < 0.6
        self.smooth = 0.0
        if self.form != "rows" and self.n > 1 and r.random() < 0.4:
            self.smooth = r.choice([0.125, 0.25, 0.1, 0.4])
        if r.random() < 0.03:
            self.smooth = r.choice([0.9, 0.95])
        self.names = r.sample(NAMES, self.n) if self.form == "strings" or r.random() < 0.3 else None
        self.prefix = r.choice(["!", "~", "no-"]) if self.form == "strings" and r.random() < 0.6 else None
        if self.prefix and any(k.startswith(self.prefix) for k in self.names):
            self.prefix = "~"
        self.missing = {
            "ids": [None, None, 0, self.n - 1],
            "strings": [None, None, "", "?", self.names[0] if self.names else "?"],
            "rows": [None, None, 0, self.n - 1],
        }[self.form]
        self.missing = r.choice(self.missing)

    def kw(self, seq):
        kw = dict(normalize=self.norm)
        for k, v in dict(names=self.names, neg_prefix=self.prefix, missing_value=self.missing).items():
            if v is not None:
                kw[k] = v
        if self.smooth:
            kw["label_smoothing"] = self.smooth
        return kw

    def make(self, seq):
        import thinc.loss as L
        from thinc.api import registry

        kw = self.kw(seq)
        base = "SequenceCategoricalCrossentropy" if seq else "CategoricalCrossentropy"
        k = self.r.randrange(4)
        if k == 0:
            return registry.losses.get(base + ".v3")(**kw)
        if k == 1 and not self.smooth and not (seq and self.missing is not None):
            return registry.losses.get(base + ".v2")(**kw)
        if k == 2 and not self.smooth and not self.prefix and not (seq and self.missing is not None):
            return registry.losses.get(base + ".v1")(**kw)
        return getattr(L, base)(**kw)

    def truths(self, b, outside=False):
        """As given to thinc, and as given to the specification."""
        r, n = self.r, self.n
        if self.form == "ids":
            t = [r.randrange(n) for _ in range(b)]
            if r.random() < 0.5:
                return np.array(t, dtype=r.choice(["int32", "int64"])), t
            return list(t), t
        if self.form == "strings":
            pick = list(self.names)
            if self.prefix:
                pick += [self.prefix + q for q in self.names]
            pick.append(self.missing)
            t = [r.choice(pick) for _ in range(b)]
            return list(t), [chars(q) for q in t]
        if r.random() < 0.6:
            a = np.eye(n, dtype="float32")[[r.randrange(n) for _ in range(b)]].reshape((b, n))
        else:
            a = guesses(r, b, n, "float32")
        if outside and b:
            a[r.randrange(b), r.randrange(n)] = r.choice([-1.0, 1.25])
        return a, rows(a)

    def spec(self):
        m = self.missing
        if self.form == "strings":
            missing = [chars(m)]
        else:
            missing = [] if m is None else [m]
        return dict(
            form=self.form, n=self.n, norm=self.norm, smooth=fx(self.smooth), zeros=False, missing=missing,
            names=[chars(q) for q in self.names or []], prefix=chars(self.prefix) if self.prefix else [],
        )


def plain(norm, zeros=False):
    return dict(form="", n=0, norm=norm, smooth=0, zeros=zeros, missing=[], names=[], prefix=[])


def step(r):
    from thinc.api import CosineDistance, L2Distance, to_categorical

    op = r.choice(["crossentropy"] * 4 + ["sequences"] * 3 + ["l2", "cosine", "categorical"])
    rec = dict(op=op, how="", exc="", dirty=[], o=plain(True), G=[], T=[], out=[], loss=[])
    w = Watch()
    dt = r.choice(["float32", "float32", "float64"])
    try:
        if op == "categorical":
            n = r.choice([1, 2, 3, 5])
            s = r.choice([0.0, 0.125, 0.25, 0.1]) if n > 1 else 0.0
            Y = np.array([r.randrange(n) for _ in range(r.randrange(4))] + ([n - 1] if r.random() < 0.5 else []), dtype="int32")
            kw = dict(n_classes=n) if len(Y) == 0 or Y.max() < n - 1 or r.random() < 0.5 else {}
            rec["o"] = dict(plain(True), n=n, smooth=fx(s))
            rec["T"] = [int(q) for q in Y]
            rec["out"] = [rows(to_categorical(w.add("the ids", Y), label_smoothing=s, **kw))]
        elif op in ("crossentropy", "sequences"):
            o = Options(r)
            rec["o"] = o.spec()
            rec["how"] = o.form + (" smoothed" if o.smooth else "") + (" negated" if o.prefix else "")
            seq = op == "sequences"
            if seq and (o.form == "rows" or o.n == 1) and o.smooth:
                o.smooth = 0.0
                rec["o"] = o.spec()
            if seq and o.smooth >= 0.9:
                o.smooth = 0.1
                rec["o"] = o.spec()
            if seq and o.n == 2 and o.smooth > 0.45:
                o.smooth = 0.25
                rec["o"] = o.spec()
            Gs, Ts, Gx, Tx = [], [], [], []
            outside = not seq and r.random() < 0.1
            for _ in range(r.choice([0, 1, 2, 3, 3]) if seq else 1):
                b = r.choice([0, 1, 1, 2, 3, 4, 6])
                which = r.random() < 0.5
                g = guesses(r, b, o.n, dt, outside and which)
                t, tx = o.truths(b, outside and not which)
                w.add("the guesses", g)
                if isinstance(t, list):
                    w.xs.append(("the truths", np.array([repr(t)]), np.array([repr(t)])))
                else:
                    w.add("the truths", t)
                Gs.append(g), Ts.append(t), Gx.append(rows(g)), Tx.append(tx)
            rec["G"], rec["T"] = (Gx, Tx) if seq else (Gx[0], Tx[0])
            loss = o.make(seq)
            args = (Gs, Ts) if seq else (Gs[0], Ts[0])
            before = repr(Ts)
            d, val = loss(*args)
            d2 = loss.get_grad(*args)
            enc = (lambda q: [rows(z) for z in q]) if seq else rows  # noqa: E731
            rec["out"] = [enc(d), enc(d2)]
            rec["loss"] = [fx(val), fx(loss.get_loss(*args))]
            if repr(Ts) != before:
                rec["dirty"] = ["the truths"]
                return rec
            shapes = all(z.shape == g.shape for z, g in zip(d, Gs)) if seq else d.shape == Gs[0].shape
            if not shapes:
                raise AssertionError("shape")
        else:
            b, n = r.choice([0, 1, 2, 3, 5]), r.choice([1, 2, 3, 4])
            norm = r.random() < 0.6
            vals = [-3, -2, -1, -0.5, 0.25, 0.5, 1, 2] if op == "cosine" else [-3, -1, 0, 0, 0.25, 1, 2]
            G = np.array([r.choice(vals) for _ in range(b * n)], dtype=dt).reshape((b, n))
            T = np.array([r.choice(vals) for _ in range(b * n)], dtype=dt).reshape((b, n))
            if op == "l2":
                L = L2Distance(normalize=norm)
                rec["o"] = plain(norm)
            else:
                zeros = r.random() < 0.5
                if zeros and b and r.random() < 0.6:
                    T[r.randrange(b)] = 0
                L = CosineDistance(normalize=norm, ignore_zeros=zeros)
                rec["o"] = plain(norm, zeros)
            rec["G"], rec["T"] = rows(G), rows(T)
            w.add("the guesses", G), w.add("the truths", T)
            d, val = L(G, T)
            rec["out"] = [rows(d), rows(L.get_grad(G, T))]
            rec["loss"] = [fx(val), fx(L.get_loss(G, T))]
        rec["dirty"] = w.dirty()
    except Exception as e:
        rec["exc"] = type(e).__name__ if not isinstance(e, AssertionError) else f"{type(e).__name__} {e}"
    return rec


def case(job):
    r = random.Random(job[0])
    return dict(steps=[step(r) for _ in range(10)])


def crash(reason):
    return dict(steps=[dict(op="?", how="?", exc="crash: " + reason, dirty=[])])


def check(ctx):
    ctx.design("LossMC", f"LossMC_{ctx.tier}.cfg")
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(1500, 20000))]
    cases = [crash(c.reason) if isinstance(c, pool.Crash) else c for c in pool.pmap(case, jobs)]
    count = {}
    for c in cases:
        for s in c["steps"]:
            count[s["op"]] = count.get(s["op"], 0) + 1
    ctx.notes["calls"] = count
    for c in cases[:2]:
        ctx.sample(c["steps"][:2])
    ctx.conform("LossTrace", "LossTrace.cfg", cases, plans=[list(j) for j in jobs])
