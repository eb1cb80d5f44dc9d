"""C23: recurrent layers (spec/Recurrent.tla)."""
import random

import numpy as np

import core
import pool
from dropout import Watch

S = 65536


def fx(v):
    return core.enc_int(v, S)


def rows(a):
    return [[fx(v) for v in r] for r in np.asarray(a)]


def split(p, nI, nO, depth, dirs, with_b=True):
    """thinc's parameter vector as [layer][direction] (x, h, bx, bh), gates f, i, o, c."""
    out, at = [], 0
    for i in range(depth):
        nin = nI if i == 0 else nO * dirs
        out.append([])
        for d in range(dirs):
            def take(*shape):
                nonlocal at
                n = int(np.prod(shape))
                at += n
                return p[at - n : at].reshape(shape)

            x, bx = take(4, nO, nin), take(4, nO)
            h, bh = take(4, nO, nO), take(4, nO)
            out[-1].append((x, h, bx, bh))
    assert at == len(p)
    return out


def enc(x, h, b, h0=None, c0=None):
    r = dict(x=[rows(g) for g in x], h=[rows(g) for g in h], b=rows(b))
    if h0 is not None:
        r.update(h0=[fx(v) for v in h0], c0=[fx(v) for v in c0])
    return r


def values(r, n, big):
    vals = [-8, 8, 0, -1, 1, 2] if big else [-1, -0.5, -0.25, 0, 0.25, 0.5, 0.75, 1, 1.5]
    return np.array([r.choice(vals) for _ in range(n)], dtype="float32")


class Native:
    """LSTM, or bidirectional around LSTMs."""

    def __init__(self, r, kind):
        import thinc.api as T

        self.r, self.kind = r, kind
        self.nI, self.nO = r.choice([1, 2, 3]), r.choice([1, 1, 2])
        self.depth = r.choice([1, 1, 2, 2, 3])
        self.dirs = 1
        self.drop = 0.0
        self.how = kind
        nI, nO = self.nI, self.nO
        if kind == "LSTM":
            self.dirs = r.choice([1, 1, 2])
            self.drop = r.choice([0.0, 0.0, 0.5])
            self.inner = T.LSTM(nO * self.dirs, nI, depth=self.depth, bi=self.dirs == 2, dropout=self.drop)
            self.lstms = [self.inner]
            self.how = "LSTM bi" if self.dirs == 2 else "LSTM"
        elif kind == "stack":
            self.lstms = [T.LSTM(nO, nI if j == 0 else nO) for j in range(self.depth)]
            self.inner = self.lstms[0] if self.depth == 1 else T.chain(*self.lstms)
        else:
            self.depth, self.dirs = 1, 2
            self.lstms = [T.LSTM(nO, nI), T.LSTM(nO, nI)]
            self.inner = T.bidirectional(*self.lstms)
        self.model = T.with_padded(self.inner)
        self.model.initialize()
        ops = r.choice([T.NumpyOps, T.NumpyOps, T.Ops])()
        if type(ops) is T.Ops:
            self.how += ", generic"
        for n in self.model.walk():
            n.ops = ops
        self.ops = ops
        big = r.random() < 0.15
        zero = r.random() < 0.5
        for m in self.lstms:
            m.set_param("LSTM", values(r, m.get_param("LSTM").size, big))
            hc = m.get_param("HC0")
            m.set_param("HC0", np.zeros_like(hc) if zero else values(r, hc.size, False).reshape(hc.shape))

    def parts(self, vecs):
        """Vectors of the LSTMs as [layer][direction] parts."""
        if self.kind == "LSTM":
            return split(vecs[0], self.nI, self.nO, self.depth, self.dirs)
        if self.kind == "stack":
            return [split(v, self.nI if j == 0 else self.nO, self.nO, 1, 1)[0] for j, v in enumerate(vecs)]
        return [[split(v, self.nI, self.nO, 1, 1)[0][0] for v in vecs]]

    def initial(self, i, d):
        if self.kind == "LSTM":
            hc = self.inner.get_param("HC0")[:, i, d]
        else:
            hc = self.lstms[i if self.kind == "stack" else d].get_param("HC0")[:, 0, 0]
        return hc[0], hc[1]

    def P(self, masks=None):
        vecs = [m.get_param("LSTM") for m in self.lstms]
        if masks is not None:
            vecs = [v * m for v, m in zip(vecs, masks)]
        return [[enc(x, h, bx + bh, *self.initial(i, d)) for d, (x, h, bx, bh) in enumerate(l)] for i, l in enumerate(self.parts(vecs))]

    def G(self):
        vecs = [m.get_grad("LSTM") if m.has_grad("LSTM") else np.zeros_like(m.get_param("LSTM")) for m in self.lstms]
        return [[enc(x, h, bx) for x, h, bx, bh in l] for l in self.parts(vecs)]

    def begin(self, X):
        """A training pass; the factors by which it drops weights."""
        if not self.drop:
            return self.model(X, is_train=True), None
        seed = self.r.randrange(2**31)
        np.random.seed(seed)
        masks = [self.ops.get_dropout_mask(m.get_param("LSTM").shape, self.drop) for m in self.lstms]
        np.random.seed(seed)
        return self.model(X, is_train=True), masks

    def drops(self, masks):
        return [[enc(x, h, bx) for x, h, bx, bh in l] for l in self.parts(masks)]


class Torch:
    def __init__(self, r, kind):
        import thinc.api as T

        self.r = r
        self.nI, h = r.choice([1, 2, 3]), r.choice([1, 1, 2])
        self.depth, self.dirs = r.choice([1, 2]), r.choice([1, 2])
        self.nO, self.drop, self.ops = h, 0.0, T.NumpyOps()
        self.how = "PyTorchLSTM bi" if self.dirs == 2 else "PyTorchLSTM"
        self.model = T.PyTorchLSTM(h * self.dirs, self.nI, bi=self.dirs == 2, depth=self.depth)
        self.model.initialize()
        self.module = next(s for n in self.model.walk() for s in n.shims)._model
        big = r.random() < 0.15
        import torch

        with torch.no_grad():
            for p in self.module.parameters():
                p.copy_(torch.from_numpy(values(r, p.numel(), big).reshape(tuple(p.shape))))

    def parts(self, get):
        out = []
        for i in range(self.depth):
            out.append([])
            for d in range(self.dirs):
                end = f"_l{i}" + ("_reverse" if d else "")
                w = []
                for nm in ("weight_ih", "weight_hh", "bias_ih", "bias_hh"):
                    a = get(getattr(self.module, nm + end))
                    w.append(a.reshape((4, self.nO) + a.shape[1:])[[1, 0, 3, 2]])  # i f g o
                out[-1].append(w)
        return out

    def P(self, masks=None):
        z = [0.0] * self.nO
        return [[enc(x, h, b1 + b2, z, z) for x, h, b1, b2 in l] for l in self.parts(lambda p: p.detach().numpy())]

    def G(self):
        return [[enc(x, h, b1) for x, h, b1, b2 in l] for l in self.parts(lambda p: p.grad.numpy() if p.grad is not None else np.zeros(tuple(p.shape), dtype="f"))]

    def begin(self, X):
        return self.model(X, is_train=True), None


def give(form, ops, seqs, w, like=None):
    """Sequences in a form; like: a padded batch that gives the layout."""
    from thinc.types import Ragged

    if form == "list":
        return list(seqs)
    if form == "ragged":
        return Ragged(np.concatenate(seqs).astype("float32") if seqs else np.zeros((0, w), dtype="f"), np.array([len(s) for s in seqs], dtype="int32"))
    if form == "array":
        return np.ascontiguousarray(np.stack(seqs, axis=1))
    p = ops.list2padded(list(seqs))
    if form == "padded":
        return p
    if form == "tuple64":
        p.size_at_t, p.lengths = p.size_at_t.astype("int64"), p.lengths.astype("int64")
    return (p.data, p.size_at_t, p.lengths, p.indices)


def take(form, ops, X):
    """The sequences of a batch in a form, and whether it looks right."""
    from thinc.types import Padded, Ragged

    if form == "list":
        assert isinstance(X, list)
        return X
    if form == "ragged":
        assert isinstance(X, Ragged)
        return ops.unflatten(X.data, X.lengths)
    if form == "array":
        assert isinstance(X, np.ndarray)
        return [X[:, b] for b in range(X.shape[1])]
    if form in ("tuple", "tuple64"):
        assert isinstance(X, tuple)
        X = Padded(*X)
    return ops.padded2list(X)


def raw(X):
    return list(X) if isinstance(X, tuple) else X


def case(job):
    from thinc.api import Ops

    r = random.Random(job[0])
    kind = r.choice(["LSTM"] * 4 + ["stack", "bidirectional", "bidirectional", "torch", "torch"])
    if kind == "torch":
        import torch

        torch.set_num_threads(1)
        m = Torch(r, kind)
    else:
        m = Native(r, kind)
    out = dict(how=m.how, P=m.P(), steps=[])
    w = Watch()
    pending = []
    host = Ops()
    for _ in range(r.choice([2, 3, 4])):
        rec = dict(form="", exc="", dirty=[], train=False, drop=[], P=[], X=[], Y=[], D=[], dX=[], G=[])
        try:
            if pending and r.random() < 0.5:
                rec, back, seqs, layout = pending.pop(r.randrange(len(pending)))
            else:
                form = r.choice(["list", "list", "ragged", "padded", "tuple", "tuple64", "array"])
                B = r.choice([1, 1, 2, 2, 3])
                n = r.choice([1, 2, 3])
                lens = [n] * B if form == "array" else [r.choice([1, 1, 2, 3, 4]) for _ in range(B)]
                seqs = [values(r, k * m.nI, False).reshape((k, m.nI)) for k in lens]
                X = give(form, host, seqs, m.nI)
                w.add("the input", raw(X))
                rec.update(form=form, X=[rows(q) for q in seqs], train=r.random() < 0.75)
                if not rec["train"]:
                    rec["Y"] = [rows(q) for q in take(form, host, m.model.predict(X))]
                else:
                    (Y, back), masks = m.begin(X)
                    if masks is not None:
                        rec.update(drop=m.drops(masks), P=m.P(masks))
                    rec["Y"] = [rows(q) for q in take(form, host, Y)]
                    if r.random() < 0.4:
                        pending.append((rec, back, seqs, None))
                        continue
            if rec["train"]:
                ow = m.nO * m.dirs
                D = [values(r, len(q) * ow, False).reshape((len(q), ow)) for q in seqs]
                dY = give(rec["form"], host, D, ow)
                w.add("the gradient", raw(dY))
                rec["D"] = [rows(q) for q in D]
                dX = back(dY)
                rec["dX"] = [rows(q) for q in take(rec["form"], host, dX)]
                rec["G"] = m.G()
            rec["dirty"] = w.dirty()
        except Exception as e:
            rec["exc"] = f"{type(e).__name__} {e}"[:80]
        out["steps"].append(rec)
        if rec["exc"]:
            break
    return out


def crash(reason):
    return dict(how="crash", P=[], steps=[dict(form="?", exc=reason, dirty=[])])


def check(ctx):
    ctx.design("RecurrentMC", f"RecurrentMC_{ctx.tier}.cfg", timeout=800 if ctx.tier == "quick" else 7200)
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(500, 6000))]
    cases = [crash(c.reason) if isinstance(c, pool.Crash) else c for c in pool.pmap(case, jobs)]
    count = {}
    for c in cases:
        for s in c["steps"]:
            k = c["how"] + " " + s["form"]
            count[k] = count.get(k, 0) + 1
    ctx.notes["passes"] = count
    for c in cases[:2]:
        ctx.sample(c["steps"][:1])
    ctx.conform("RecurrentTrace", "RecurrentTrace.cfg", cases, plans=[list(j) for j in jobs], timeout=800 if ctx.tier == "quick" else 7200)
