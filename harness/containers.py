"""C08, C09: conversions between sequence containers and indexing (spec/Containers.tla)."""
import json
import random

import numpy as np

import core
import pool

DTYPES = ["float32", "float64", "int32", "int64", "uint64"]


# ---------------------------------------------------------------- encoding
def row(x):
    return [core.enc_int(v) for v in np.asarray(x).ravel()]


def item(arrs, axis):
    """Inner shape and dtype of a list of arrays; they must agree."""
    shapes = {a.shape[axis:] for a in arrs}
    dts = {str(a.dtype) for a in arrs}
    if not arrs:
        return [], ""
    if len(shapes) > 1 or len(dts) > 1:
        return [-1], "mixed " + ",".join(sorted(dts))
    return [int(d) for d in shapes.pop()], dts.pop()


def enc(x):
    from thinc.types import Padded, Pairs, Ragged

    if isinstance(x, list):
        sh, dt = item([np.asarray(a) for a in x], 1)
        return dict(t="l", sh=sh, dt=dt, s=[[row(r) for r in a] for a in x], ln=len(x))
    if isinstance(x, Ragged):
        d = np.asarray(x.dataXd)
        if x.data.ndim != 2 or (d.size and x.data.shape != (d.shape[0], d.size // d.shape[0])):
            return dict(t="bad ragged data shape")
        return dict(t="g", sh=[int(v) for v in d.shape[1:]], dt=str(d.dtype), r=[row(r) for r in d], n=row(x.lengths), ln=len(x), md=str(x.lengths.dtype))
    if isinstance(x, Padded):
        d = np.asarray(x.data)
        if d.shape[1] != len(x.lengths):
            return dict(t="bad padded batch size")
        md = {str(a.dtype) for a in (x.lengths, x.size_at_t, x.indices)}
        return dict(
            t="p", sh=[int(v) for v in d.shape[2:]], dt=str(d.dtype), r=[[row(r) for r in p] for p in d],
            z=row(x.size_at_t), n=row(x.lengths), x=row(x.indices), ln=len(x), md="/".join(sorted(md)),
        )
    if isinstance(x, Pairs):
        return dict(t="q", one=enc(x.one), two=enc(x.two), ln=len(x))
    if isinstance(x, Dense):
        d = x.a
        return dict(t="c", sh=[int(v) for v in d.shape[2:]], dt=str(d.dtype), r=[[row(r) for r in p] for p in d], ln=len(d))
    if isinstance(x, np.ndarray):
        return dict(t="m", sh=[int(v) for v in x.shape[1:]], dt=str(x.dtype), r=[row(r) for r in x], ln=len(x))
    return dict(t="not a container: " + type(x).__name__)


class Dense:
    """The dense form of a batch (batch x time), to tell it from a flat array."""

    def __init__(self, a):
        self.a = a


def snap(x):
    from thinc.types import Padded, Pairs, Ragged

    if isinstance(x, list):
        return [a.tobytes() for a in x]
    if isinstance(x, Ragged):
        return [x.data.tobytes(), x.lengths.tobytes(), x.data_shape]
    if isinstance(x, Padded):
        return [a.tobytes() for a in (x.data, x.size_at_t, x.lengths, x.indices)]
    if isinstance(x, Pairs):
        return [snap(x.one), snap(x.two)]
    return (x.a if isinstance(x, Dense) else x).tobytes()


# ------------------------------------------------------------------- world
class World:
    def __init__(self, rng, ops):
        self.rng, self.ops = rng, ops
        self.K, self.snaps, self.lens, self.steps = [], [], [], []

    def add(self, x, lens):
        self.K.append(x)
        self.snaps.append(snap(x))
        self.lens.append(lens)

    def dirty(self):
        return [type(x).__name__ for x, s in zip(self.K, self.snaps) if snap(x) != s]

    def start(self, x, lens):
        self.add(x, lens)
        self.steps.append(dict(op="start", a=1, out=enc(x)))

    def grad(self, y):
        """A gradient with the layout of y."""
        from thinc.types import Padded, Ragged

        r = self.rng

        def like(a):
            g = np.random.RandomState(r.randrange(10**6)).randint(-9, 10, a.shape).astype("float32")
            return g

        if isinstance(y, list):
            return [like(a) for a in y]
        if isinstance(y, Ragged):
            return Ragged(like(np.asarray(y.dataXd)), y.lengths)
        if isinstance(y, Padded):
            d = like(y.data)
            for b, n in enumerate(y.lengths):
                d[int(n):, b] = 0
            return Padded(d, y.size_at_t, y.lengths, y.indices)
        return like(y)

    def conv(self, a, x):
        """Run a conversion on container a; x is the specification's operation."""
        import thinc.api as T
        from thinc.types import Padded, Ragged

        k, ops, op = self.K[a - 1], self.ops, x["op"]
        arr = k.a if isinstance(k, Dense) else k
        if op == "flatten":
            return ops.flatten(k, pad=x["pad"]) if x["pad"] else ops.flatten(k)
        if op == "unflatten":
            n = ops.asarray1i(x["n"])
            return ops.unflatten(arr, n, pad=x["pad"]) if x["pad"] else ops.unflatten(arr, n)
        if op == "pad":
            return Dense(ops.pad(k, round_to=x["rd"]))
        if op == "unpad":
            return ops.unpad(arr, x["n"])
        if op == "list2padded":
            return ops.list2padded(k)
        if op == "padded2list":
            return ops.padded2list(k)
        if op == "ragged":
            return Ragged(arr, ops.asarray1i(x["n"]))
        if op == "dataxd":
            return np.asarray(k.dataXd)
        if op == "copy":
            y = k.copy()
            if any(np.shares_memory(p, q) for p, q in zip((y.data, y.lengths, y.indices, y.size_at_t), (k.data, k.lengths, k.indices, k.size_at_t)) if p.size):
                raise RuntimeError("the copy shares memory")
            return y
        raise AssertionError(op)

    def step(self, a, x):
        import thinc.api as T

        rec = dict(x)
        rec.update(a=a, exc="", layer=False, bad=0, dirty=[])
        k = self.K[a - 1]
        lens = self.lens[a - 1]
        out = None
        watch = []
        try:
            if x["op"] == "index":
                ix = self.index(x["ix"], k)
                if isinstance(ix, np.ndarray):
                    watch.append((ix, ix.tobytes()))
                out = k[ix]
            elif x["op"] == "iter":
                rec["outs"] = [enc(y) for y in k]
            elif x.get("layer"):
                rec["layer"] = True
                model = getattr(T, x["op"])()
                out, back = model(k, is_train=True)
                self.rng.random()
                dy = self.grad(out)
                before = snap(dy)
                rec["dy"] = enc(dy)
                rec["dx"] = enc(back(dy))
                if snap(dy) != before:
                    rec["dirty"] = ["the gradient"]
            else:
                out = self.conv(a, x)
        except Exception as e:
            rec["exc"] = type(e).__name__
            if x["op"] == "index" and isinstance(e, IndexError):
                rec["exc"] = "IndexError"
        for w, b in watch:
            if w.tobytes() != b:
                rec["dirty"] = ["the index"]
        if x["op"] == "index":
            rec["bad"] = int(x.get("bad", 0))
        rec["dirty"] += self.dirty()
        if out is not None and not rec["exc"]:
            try:
                rec["out"] = enc(out)
            except Exception as e:
                rec["exc"] = f"unreadable result ({type(e).__name__})"
                rec["out"] = dict(t="?")
            # lengths of the sequences in a flat array made without padding
            lens = None
            if isinstance(out, np.ndarray) and not x.get("pad") and x["op"] in ("flatten", "list2array", "dataxd"):
                lens = [len(q) for q in k] if isinstance(k, list) else [int(q) for q in k.lengths]
            self.add(out, lens)
        else:
            rec["out"] = dict(t="none")
            if x["op"] == "iter" and not rec["exc"]:
                self.K.append(k), self.snaps.append(snap(k)), self.lens.append(lens)
        self.steps.append(rec)
        return not rec["exc"] and not rec["bad"]

    def index(self, ix, k):
        r = self.rng
        if ix["k"] == "i":
            return ix["v"]
        if ix["k"] == "s":
            return slice(*[(p[0] if p else None) for p in ix["v"]])
        if ix["k"] == "a":
            return r.choice([lambda: list(ix["v"]), lambda: np.array(ix["v"], dtype="int64"), lambda: np.array(ix["v"], dtype="int32")])()
        m = [bool(v) for v in ix["v"]]
        return np.array(m, dtype=bool) if r.random() < 0.7 or not m else m


def rand_index(r, n, bad=False):
    if bad:
        v = r.choice([n, n + 1, -n - 1, n + 5, -n - 4])
        if r.random() < 0.7:
            return dict(k="i", v=v)
        return dict(k="a", v=[r.randrange(-n, n) for _ in range(r.randint(0, 2)) if n] + [v])
    c = r.random()
    if c < 0.25 and n:
        return dict(k="i", v=r.randrange(-n, n))
    if c < 0.6:
        part = lambda: [] if r.random() < 0.35 else [r.randint(-n - 2, n + 2)]
        return dict(k="s", v=[part(), part(), [] if r.random() < 0.5 else [r.choice([1, 1, 2, 3, -1, -2])]])
    if c < 0.8 and n:
        return dict(k="a", v=[r.randrange(-n, n) for _ in range(r.randint(0, n + 1))])
    return dict(k="m", v=[r.randint(0, 1) for _ in range(n)])


def make_list(r, dims=None, dt=None, n=None, maxlen=4, ties=None):
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 6]) if n is None else n
    dims = r.choice([(), (1,), (2,), (3,), (2, 2)]) if dims is None else dims
    dt = r.choice(DTYPES) if dt is None else dt
    style = r.random()
    lens = [0 if style < 0.12 else r.choice([0, 1, 2, 2, 3, maxlen]) if style < 0.7 else r.randint(1, maxlen) for _ in range(n)]
    lo = 0 if dt.startswith("u") else -50
    return [np.array([r.randint(lo, 50) for _ in range(k * int(np.prod(dims)))], dtype=dt).reshape((k,) + dims) for k in lens], lens


def get_ops(r):
    from thinc.api import NumpyOps, Ops

    return NumpyOps() if r.random() < 0.7 else Ops()


def random_case(job):
    seed, prop, length = job
    from thinc.types import Padded, Pairs, Ragged

    r = random.Random(seed)
    np.random.seed(r.randrange(2**31))
    w = World(r, get_ops(r))
    dims = r.choice([(), (1,), (2,), (2,), (3,), (2, 2)])
    dt = r.choice(["float32"] * 4 + DTYPES)
    base, lens = make_list(r, dims, dt)
    w.start(base, lens)
    if prop == "C09":
        # a second batch of the same number of sequences, to pair with
        other, lens2 = make_list(r, (2,), "float32", n=len(base))
        w.start(other, lens2)
        flat = np.array([r.randint(-50, 50) for _ in range(2 * len(base))], dtype="float32").reshape((len(base), 2))
        w.start(flat, None)
    if r.random() < 0.3:
        # a padded batch somebody else laid out: ties in the other order, extra steps
        seqs, ls = make_list(r, (r.choice([1, 2]),), "float32", maxlen=3)
        if seqs:
            order = sorted(range(len(seqs)), key=lambda i: (-ls[i], i if r.random() < 0.5 else -i))
            T = max(ls) + (1 if r.random() < 0.3 else 0)
            d = np.zeros((T, len(seqs), seqs[0].shape[1]), dtype="float32")
            for b, i in enumerate(order):
                d[: ls[i], b] = seqs[i]
            i32 = lambda v: np.array(v, dtype="int32")
            w.start(Padded(d, i32([sum(n > t for n in ls) for t in range(T)]), i32([ls[i] for i in order]), i32(order)), ls)
    tries = 0
    while len(w.steps) < length and tries < 12 * length:
        tries += 1
        a = r.randint(1, len(w.K)) if r.random() < 0.5 else len(w.K)
        k, ls = w.K[a - 1], w.lens[a - 1]
        opts = []
        if isinstance(k, list):
            two = all(x.ndim == 2 for x in k)
            # the container of an empty list of sequences has no item shape
            opts += ["flatten", "L:list2ragged", "L:list2array"]
            if k:
                opts += ["pad"]
            if two:
                opts += ["list2padded", "L:list2padded"]
        elif isinstance(k, Ragged):
            opts += ["L:ragged2list", "dataxd"] + ["index"] * (8 if prop == "C09" else 1) + ["iter"]
        elif isinstance(k, Padded):
            opts += ["copy"] + ["index"] * (8 if prop == "C09" else 1) + ["iter"]
            if sorted(k.indices.tolist()) == list(range(len(k))):
                opts += ["padded2list", "L:padded2list"] * 2
        elif isinstance(k, Pairs):
            opts += ["index"] * 8
        elif isinstance(k, np.ndarray) and ls is not None:
            opts += ["unflatten", "ragged"]
        if not opts:
            continue
        op = r.choice(opts)
        ok = True
        if op == "index":
            n = len(k)
            bad = r.random() < 0.1
            ix = rand_index(r, n, bad)
            if isinstance(k, Pairs):
                if ix["k"] == "i" and any(isinstance(p, (list, np.ndarray)) for p in (k.one, k.two)):
                    continue
                if ix["k"] in "am" and any(isinstance(p, list) for p in (k.one, k.two)):
                    continue
            if ix["k"] == "a" and not ix["v"] and isinstance(k, Pairs):
                continue
            x = dict(op="index", ix=ix)
            if bad:
                x["bad"] = 1
            ok = w.step(a, x) or bad
        elif op.startswith("L:"):
            ok = w.step(a, dict(op=op[2:], layer=True))
        elif op == "flatten":
            p = r.choice([0, 0, 1, 2])
            ok = w.step(a, dict(op="flatten", pad=p))
            if ok and isinstance(w.K[-1], np.ndarray) and r.random() < 0.8:
                ok = w.step(len(w.K), dict(op="unflatten", n=[len(s) for s in k], pad=p))
        elif op == "unflatten":
            ok = w.step(a, dict(op="unflatten", n=ls, pad=0))
        elif op == "ragged":
            ok = w.step(a, dict(op="ragged", n=ls))
        elif op == "pad":
            ok = w.step(a, dict(op="pad", rd=r.choice([1, 1, 2, 3, 4])))
            if ok:
                ok = w.step(len(w.K), dict(op="unpad", n=[len(s) for s in k]))
        else:
            ok = w.step(a, dict(op=op))
        if not ok:
            break
        if prop == "C09" and r.random() < 0.3:
            # pair two containers of the same length
            same = [i for i in range(len(w.K)) if not isinstance(w.K[i], (Pairs, Dense)) and len(w.K[i]) == len(w.K[-1]) and (not isinstance(w.K[i], np.ndarray) or w.lens[i] is None)]
            if len(same) > 1 and not isinstance(w.K[-1], Pairs):
                i, j = r.choice(same), r.choice(same)
                # a padded batch re-sorts what it is indexed with, so it only pairs with others like it
                if isinstance(w.K[i], Padded) == isinstance(w.K[j], Padded):
                    w.start(Pairs(w.K[i], w.K[j]), None)
    return dict(steps=w.steps)


def rejects(job):
    """Inputs that have no such form are refused."""
    from thinc.types import Ragged

    seed, _, _ = job
    r = random.Random(seed)
    ops = get_ops(r)
    steps = []

    def rej(what, want, f):
        try:
            f()
            exc = ""
        except Exception as e:
            exc = type(e).__name__
        steps.append(dict(op="reject", what=what, want=want, exc=exc, a=1, dirty=[], out=dict(t="none"), layer=False))

    seqs, _ = make_list(r, (2,), "float32", n=r.randint(1, 4))
    steps.append(dict(op="start", a=1, out=enc(seqs)))
    rej("pad of no sequences", "ValueError", lambda: ops.pad([]))
    rej("pad with rounding below one", "ValueError", lambda: ops.pad(seqs, round_to=r.choice([0, -1, -3])))
    rej("pad of mixed dtypes", "ValueError", lambda: ops.pad(seqs + [seqs[0].astype("float64")]))
    rej("pad of mixed widths", "ValueError", lambda: ops.pad(seqs + [np.zeros((1, 3), dtype="float32")]))
    rej("pad of mixed ranks", "ValueError", lambda: ops.pad(seqs + [np.zeros((1,), dtype="float32")]))
    g = Ragged(ops.flatten(seqs), ops.asarray1i([len(s) for s in seqs]))
    rej("indexing ragged data in two dimensions", "IndexError", lambda: g[0, 0])
    return dict(steps=steps)


def args_case(job):
    from thinc.types import ArgsKwargs

    seed, _, _ = job
    r = random.Random(seed)
    steps = [dict(op="start", a=1, out=dict(t="none"))]
    for _ in range(6):
        n = r.randint(0, 6)
        names = r.sample(["a", "b", "c", "d", "e", "f", "x0", "1"], n)
        given, items = [], []
        for j in range(n):
            v = r.randint(-9, 9)
            # integer keys need not be the positions, and may repeat
            key = r.randint(0, 5) if r.random() < 0.5 else names[j]
            items.append((key, v))
            given.append(dict(i=isinstance(key, int), k=str(key), v=v))
        try:
            ak = ArgsKwargs.from_items(items)
            back = ArgsKwargs.from_items(list(ak.items()))
            obs = [dict(i=isinstance(q, int), k=str(q), v=v) for q, v in ak.items()]
            keys, vals = [str(q) for q in ak.keys()], list(ak.values())
            exc = "" if back == ak and isinstance(ak.args, tuple) else "not reproduced by its items"
            obs = obs if (lambda *a, **k: (a, k))(*ak.args, **ak.kwargs) == (ak.args, ak.kwargs) else []
        except Exception as e:
            obs, keys, vals, exc = [], [], [], type(e).__name__
        steps.append(dict(op="args", a=1, given=given, items=obs, keys=keys, vals=vals, exc=exc, dirty=[], layer=False, out=dict(t="none")))
    return dict(steps=steps)


def replay_case(job):
    """A path of the specification's machine (ContainersMC), on real containers."""
    run, seed = job
    from thinc.types import Padded

    r = random.Random(seed)
    w = World(r, get_ops(r))
    seqs = [np.array(s, dtype="float32").reshape((-1, 1)) for s in run["s"]]
    w.start(seqs, None)
    for x in run["h"]:
        x = dict(x)
        if x["op"] in ("list2ragged", "ragged2list") or (x["op"] in ("list2padded", "padded2list") and r.random() < 0.5):
            x["layer"] = True
        if not w.step(len(w.K), x):
            break
    return dict(steps=w.steps)


def guard(fn, jobs, out):
    for job, res in zip(jobs, pool.pmap(fn, jobs)):
        if isinstance(res, pool.Crash):
            res = dict(steps=[dict(op="crash", a=1, exc=res.reason, dirty=[], layer=False, bad=0), ])
            res["steps"].insert(0, dict(op="start", a=1, out=dict(t="none")))
        out.append(res)


def check(ctx):
    r = ctx.design("ContainersMC", f"ContainersMC_{ctx.tier}.cfg")
    runs = r.prints.get("RUN") or ctx.design("ContainersMC", "ContainersMC_quick.cfg").prints["RUN"]
    runs = sorted(runs, key=lambda x: json.dumps(x, sort_keys=True))
    has = lambda x: any(h["op"] == "index" for h in x["h"])
    runs = [x for x in runs if has(x) == (ctx.prop == "C09")]
    ctx.notes["enumerated_paths"] = len(runs)
    k = ctx.n(2500, 20000)
    if len(runs) > k:
        runs = ctx.rng.sample(runs, k)
    cases, jobs = [], [(x, f"{ctx.seed}-{i}") for i, x in enumerate(runs)]
    guard(replay_case, jobs, cases)
    more = [(f"{ctx.seed}-{ctx.prop}-{i}", ctx.prop, ctx.n(10, 16)) for i in range(ctx.n(2500, 20000))]
    guard(random_case, more, cases)
    jobs = [list(j) for j in jobs] + [list(j) for j in more]
    extra = [(f"{ctx.seed}-{ctx.prop}-x{i}", ctx.prop, 0) for i in range(40)]
    guard(rejects if ctx.prop == "C08" else args_case, extra, cases)
    jobs += [list(j) for j in extra]
    ops = {}
    for c in cases:
        for s in c["steps"]:
            q = s["op"] + ("/layer" if s.get("layer") else "") + ("!" if s.get("exc") else "")
            ops[q] = ops.get(q, 0) + 1
    ctx.notes["operations"] = ops
    for c in cases[len(runs) : len(runs) + 2]:
        ctx.sample(c["steps"][:5])
    ctx.conform("ContainersTrace", "ContainersTrace.cfg", cases, plans=jobs)
