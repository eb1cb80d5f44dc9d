"""C25: array operations (spec/Arrays.tla)."""
import random

import numpy as np

import core
import pool

FL = ["float32", "float64"]
IN = ["int32", "int64"]
real_empty = np.empty


def poisoned(*a, **k):
    """np.empty whose memory is never accidentally zero."""
    y = real_empty(*a, **k)
    if y.dtype.kind in "fiu" and y.size:
        y[...] = 77
    return y


def enc(a, scale=1):
    a = np.asarray(a)
    return dict(s=[int(q) for q in a.shape], v=[core.enc_int(q, scale) for q in a.reshape(-1)], t=a.dtype.newbyteorder("=").name)


NOTHING = dict(s=[-9], v=[], t="none")


def lay(r, a):
    """The same array in another memory layout."""
    how = r.choice(["C", "C", "C", "F", "strided", "reversed", "turned", "columns", "frozen"])
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided" and a.ndim:
        b = np.full((a.shape[0] * 2,) + a.shape[1:], 5, dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if how == "reversed" and a.ndim:
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == "turned":
        return np.ascontiguousarray(a.T).T
    if how == "columns" and a.ndim > 1:
        b = np.full(a.shape[:-1] + (a.shape[-1] + 2,), 5, dtype=a.dtype)
        b[..., 1:-1] = a
        return b[..., 1:-1]
    if how == "frozen":
        a = a.copy()
        a.flags.writeable = False
    return a


def mk(r, shape, t, lo=-3, hi=3):
    n = int(np.prod(shape, dtype="int64"))
    return np.array([r.randint(lo, hi) for _ in range(n)], dtype=t).reshape(shape)


def dim(r):
    return r.choice([0, 1, 1, 2, 2, 3, 4]) if r.random() < 0.9 else r.choice([5, 7, 9, 13])


def backend(r):
    import thinc.api as T

    via = r.choice(["blis", "blis", "numpy", "base"])
    return via, {"blis": T.NumpyOps, "numpy": lambda: T.NumpyOps(use_blis=False), "base": T.Ops}[via]()


class Watch:
    def __init__(self):
        self.xs = []

    def __call__(self, nm, a):
        self.xs.append((nm, a, self.state(a)))
        return a

    def state(self, a):
        return (a.shape, a.strides, a.dtype.str, a.tobytes()) if isinstance(a, np.ndarray) else (repr(a),)

    def dirty(self):
        return [nm for nm, a, b in self.xs if self.state(a) != b]


def attempt(rec, W, f, scale=1):
    try:
        y = f()
        rec["res"] = enc(y, scale) if not isinstance(y, (int, dict)) else y
        return y
    except Exception as e:
        rec["exc"] = type(e).__name__
    finally:
        rec["dirty"] = W.dirty()


def gemm(r, rec, ops, W):
    t = r.choice(FL)
    n, k, m = dim(r), dim(r), dim(r)
    k2 = k if r.random() < 0.85 else dim(r)
    t1, t2 = r.random() < 0.5, r.random() < 0.5
    X = W("the first operand", lay(r, mk(r, (k, n) if t1 else (n, k), t)))
    Y = W("the second operand", lay(r, mk(r, (m, k2) if t2 else (k2, m), t)))
    rec.update(x=enc(X), y=enc(Y), t1=t1, t2=t2, out=False)
    kw = {}
    if t1 or r.random() < 0.3:
        kw["trans1"] = t1
    if t2 or r.random() < 0.3:
        kw["trans2"] = t2
    if r.random() < 0.4:
        s = (n, m)
        q = r.random()
        if q < 0.2:
            s = r.choice([(n + 1, m), (n, m + 1), (m, n), (n + 1, m + 2), (max(n - 1, 0), m), (n, max(m - 1, 0)), (1, n * m), (n * m,), (n, m, 1)])
        ot = t if r.random() < 0.9 else [u for u in FL if u != t][0]
        out = np.full(s, 9, dtype=ot)
        if r.random() < 0.3:
            out = lay(r, out)
            if not out.flags.writeable:
                out = out.copy()
        kw["out"] = out
        rec.update(out=True, before=enc(out), tight=bool(out.flags["C_CONTIGUOUS"]))
        y = attempt(rec, W, lambda: ops.gemm(X, Y, **kw))
        rec["after"] = enc(out)
        return
    attempt(rec, W, lambda: ops.gemm(X, Y, **kw))


def affine(r, rec, ops, W):
    t = r.choice(FL)
    n, i, o = dim(r), dim(r), dim(r)
    i2 = i if r.random() < 0.9 else dim(r)
    o2 = o if r.random() < 0.9 else r.choice([0, 2, 3, 4])
    X = W("the input", lay(r, mk(r, (n, i), t)))
    A = W("the weights", lay(r, mk(r, (o, i2), t)))
    b = W("the bias", lay(r, mk(r, (o2,), t)))
    if o == 1 and o2 > 1 or o2 == 1 and o != 1:
        b = W("the bias", mk(r, (o,), t))
    rec.update(x=enc(X), w=enc(A), b=enc(b))
    attempt(rec, W, lambda: ops.affine(X, A, b))


def tile(r, rec, ops, W):
    X = W("the input", lay(r, mk(r, (dim(r), dim(r)), r.choice(FL + IN))))
    n = r.choice([0, 1, 2, 3, 4])
    rec.update(x=enc(X), n=n)
    attempt(rec, W, lambda: ops.tile(X, n))


def alloc(r, rec, ops, W):
    nd = r.choice([1, 2, 3, 4])
    s = [r.choice([0, 1, 2, 3]) for _ in range(nd)]
    kind = r.choice(["", "f", "i"])
    t = r.choice([None, r.choice({"": FL + IN, "f": FL, "i": IN}[kind])])
    zeros = r.random() < 0.7
    kw = {}
    if t:
        kw["dtype"] = t
    if not zeros or r.random() < 0.5:
        kw["zeros"] = zeros
    form = r.choice(["shape", "dims"])
    if form == "dims" and kind:
        call = lambda: getattr(ops, f"alloc{nd}{kind}")(*s, **kw)  # noqa
    else:
        nm = "alloc" + ("_" + kind if kind else "")
        sh = s[0] if nd == 1 and r.random() < 0.5 else tuple(s)
        call = lambda: getattr(ops, nm)(sh, **kw)  # noqa
    rec.update(s=s, t=t or {"": "float32", "f": "float32", "i": "int32"}[kind], zeros=zeros)
    attempt(rec, W, call)


def asarray(r, rec, ops, W):
    nd = r.choice([1, 2, 3, 4])
    s = tuple(r.choice([0, 1, 2, 3]) for _ in range(nd))
    kind = r.choice(["", "f", "i"])
    st = r.choice(FL + IN)
    form = r.choice(["array", "array", "list", "tuple", "tensor", "arrays"])
    X = mk(r, s, st)
    rec["x"] = enc(X)
    if form == "array":
        src = W("the source", lay(r, X))
    elif form == "list":
        src = X.tolist()
    elif form == "tuple":
        def tup(x):
            return tuple(tup(q) for q in x) if isinstance(x, list) else x

        src = tup(X.tolist())
    elif form == "arrays":
        if nd == 1 or 0 in s:
            src = W("the source", lay(r, X))
        else:
            src = [W("a source", lay(r, q)) for q in X]
    else:
        import torch

        src = W("the source", torch.from_numpy(X))
    if form in ("list", "tuple"):
        if 0 in s:  # nested lists do not say the shape of what they lack
            s = (1,) * nd
            X = mk(r, s, st)
            src = X.tolist()
        rec["x"] = dict(enc(X), t="float64" if st in FL else "int64")
    t = r.choice([None, None, r.choice({"": FL + IN, "f": FL, "i": IN}[kind])])
    kw = dict(dtype=t) if t else {}
    rec["t"] = t or {"": "", "f": "float32", "i": "int32"}[kind]
    nm = "asarray" + (kind and r.choice([f"{nd}{kind}", "_" + kind]))
    rec["via"] += " " + form
    attempt(rec, W, lambda: getattr(ops, nm)(src, **kw))


def as_contig(r, rec, ops, W):
    X = W("the source", lay(r, mk(r, tuple(r.choice([0, 1, 2, 3]) for _ in range(r.choice([1, 2, 3]))), r.choice(FL + IN))))
    t = r.choice([None, None, r.choice(FL + IN)])
    rec.update(x=enc(X), t=t or "")
    y = attempt(rec, W, lambda: ops.as_contig(X, **(dict(dtype=t) if t else {})))
    rec["flag"] = y is None or bool(y.flags["C_CONTIGUOUS"])


def to_numpy(r, rec, ops, W):
    import thinc.api as T
    from thinc.util import to_numpy as conv

    X = lay(r, mk(r, tuple(r.choice([0, 1, 2, 3]) for _ in range(r.choice([1, 2, 3]))), r.choice(FL + IN)))
    bo = r.choice([None, "<", ">", "<"])
    if r.random() < 0.3:
        X = X.astype(X.dtype.newbyteorder(r.choice("<>")))
    W("the source", X)
    rec.update(x=enc(X), t="")
    if rec["via"] == "base" and r.random() < 0.4:
        rec["via"] = "util"
        attempt(rec, W, lambda: conv(X))
    else:
        y = attempt(rec, W, lambda: ops.to_numpy(X, **(dict(byte_order=bo) if bo else {})))
        if y is not None and bo:
            rec["flag"] = y.dtype == y.dtype.newbyteorder(bo)


def reshape(r, rec, ops, W):
    fs = [q for q in (1, 2, 3, 4, 6) if r.random() < 0.7] or [2]
    s = tuple(r.choice(fs) for _ in range(r.choice([1, 2, 3, 4])))
    if r.random() < 0.1:
        s = s[:-1] + (0,)
    t = r.choice(FL + IN)
    X = W("the source", lay(r, mk(r, s, t)))
    n = X.size
    nd = r.choice([1, 2, 3, 4])
    new = []
    rest = n
    for _ in range(nd - 1):
        d = r.choice([q for q in (1, 2, 3, 4, 6) if rest % q == 0])
        new.append(d)
        rest //= d
    new.append(rest)
    r.shuffle(new)
    if r.random() < 0.4:
        new[r.randrange(nd)] = -1
    if r.random() < 0.2:
        new[r.randrange(nd)] = r.choice([0, 2, 5, 7, -1])
    kind = "f" if t in FL else "i"
    form = r.choice([f"reshape{nd}", f"reshape{nd}{kind}", f"reshape_{kind}", "reshape"])
    rec.update(x=enc(X), s=new)
    if "_" in form or form == "reshape":
        sh = new[0] if nd == 1 and form == "reshape" and r.random() < 0.5 else tuple(new)
        attempt(rec, W, lambda: getattr(ops, form)(X, sh))
    else:
        attempt(rec, W, lambda: getattr(ops, form)(X, *new))


def copy(r, rec, ops, W):
    from thinc.util import copy_array

    s = tuple(r.choice([1, 2, 3]) for _ in range(r.choice([1, 2, 3])))
    t = r.choice(FL)
    X = W("the source", lay(r, mk(r, s, t)))
    d = s
    if r.random() < 0.2:
        d = (s[0] + 3,) + s[1:]
        if s[0] == 1:
            d = s
    D = lay(r, mk(r, d, r.choice([t, t, "float64"])))
    if not D.flags.writeable:
        D = D.copy()
    rec.update(x=enc(X), y=enc(D), via="util")

    def f():
        copy_array(D, X)
        return D

    attempt(rec, W, f)


def onehot(r, rec, ops, W):
    from thinc.api import to_categorical

    s = tuple(r.choice([1, 2, 3, 4]) for _ in range(r.choice([1, 1, 2])))
    n = r.choice([-1, -1, 1, 2, 3, 4, 5, 9])
    hi = max(n if n != -1 else r.choice([1, 2, 3, 4, 5]), 1)
    Y = W("the classes", lay(r, mk(r, s, r.choice(IN), 0, hi - 1 if r.random() < 0.9 else hi)))
    k = n if n != -1 else int(Y.max()) + 1
    sm = 0
    if r.random() < 0.6:
        sm = r.choice([1, 2, 4, 8, 12, 14, 16, -1, 20, 30]) * max(k - 1, 1)
    kw = {}
    if n != -1:
        kw["n_classes"] = n
    if sm:
        kw["label_smoothing"] = sm / 64
    rec.update(x=enc(Y), n=n, sm=sm, via="util")
    attempt(rec, W, lambda: to_categorical(Y, **kw), scale=64)


def insert(r, rec, ops, W):
    t = r.choice(FL + IN)
    rows = [W("a row", lay(r, mk(r, (r.choice([0, 1, 2, 3]),), t))) for _ in range(r.randint(1, 4))]
    n = len(rows) + r.choice([0, 0, 1])
    m = max(len(q) for q in rows) + r.choice([0, 0, 1, 2])
    rec.update(n=n, m=m, rows=[enc(q)["v"] for q in rows], t=t)
    attempt(rec, W, lambda: ops.insert_into((n, m), rows))


def info(r, rec, ops, W):
    from thinc.util import ArrayInfo

    s = tuple(r.choice([0, 1, 2]) for _ in range(r.choice([1, 2, 3])))
    s2 = s if r.random() < 0.6 else r.choice([s + (1,), s[::-1], s[:-1], (1,) + s, tuple(q + 1 for q in s)])
    t = r.choice(FL + IN)
    X = W("the output", lay(r, mk(r, s, t)))
    Y = W("the gradient", lay(r, mk(r, s2, t if r.random() < 0.7 else r.choice(FL + IN))))
    rec.update(x=enc(X), y=enc(Y), via="util")

    def f():
        ArrayInfo.from_array(X).check_consistency(Y)
        return dict(s=[], v=[0], t="")

    attempt(rec, W, f)


def tree(r, depth=0, root=None):
    from thinc.types import ArgsKwargs, Padded, Ragged

    k = root or r.choice(["arr"] * 4 + ["other"] * 2 + (["list", "tuple", "dict", "args", "ragged"] if depth < 3 else []))
    if k == "arr":
        nd = r.choice([1, 2, 2, 3, 0])
        return lay(r, mk(r, tuple(r.choice([1, 2, 3]) for _ in range(nd)), r.choice(FL + IN), 0, 5))
    if k == "other":
        return r.choice(["text", 5, None, 2.5, b"x", True, {1, 2}])
    kids = [tree(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3]))]
    if k == "list":
        return kids
    if k == "tuple":
        return tuple(kids)
    if k == "dict":
        return {f"k{j}": q for j, q in enumerate(kids)}
    if k == "args":
        j = r.randint(0, len(kids))
        return ArgsKwargs(tuple(kids[:j]), {f"w{i}": q for i, q in enumerate(kids[j:])})
    a = mk(r, (3, r.choice([1, 2, 4])), "float32", 0, 5)
    if k == "padded":
        return Padded(a.reshape((3, 1, -1)), np.ones(3, dtype="int32"), np.array([3], dtype="int32"), np.array([0], dtype="int32"))
    return Ragged(a, np.array([1, 2], dtype="int32"))


def enc_tree(x):
    from thinc.types import ArgsKwargs, Padded, Ragged

    if type(x) is np.ndarray:
        return dict(k="arr", a=enc(x))
    if type(x) in (list, tuple):
        return dict(k=type(x).__name__, q=[enc_tree(q) for q in x])
    if type(x) is dict:
        return dict(k="dict", n=list(x), q=[enc_tree(q) for q in x.values()])
    if type(x) is ArgsKwargs:
        return dict(k="args", q=[enc_tree(q) for q in x.args], n=list(x.kwargs), p=[enc_tree(q) for q in x.kwargs.values()])
    if type(x) is Ragged:
        return dict(k="ragged", a=enc(x.data))
    if type(x) is Padded:
        return dict(k="padded", a=enc(x.data))
    return dict(k="other", o=repr(x))


def width(r, rec, ops, W):
    from thinc.util import get_width

    x = tree(r, root=r.choice(["arr", "arr", "ragged", "padded", "list", "list", "tuple", "other", "dict", "args"]))
    rec.update(tree=enc_tree(x), via="util")
    attempt(rec, W, lambda: int(get_width(x)))


def nest(r, rec, ops, W):
    from thinc.util import convert_recursive, iterate_recursive

    x = tree(r, root=r.choice(["arr", "list", "tuple", "dict", "args", "list", "dict", "other", "ragged"]))
    d = r.randint(1, 5)
    arr = lambda q: isinstance(q, np.ndarray)  # noqa
    rec.update(tree=enc_tree(x), d=d, via="util")
    before = str(enc_tree(x))
    try:
        rec["leaves"] = [enc(q) for q in iterate_recursive(arr, x)]
        rec["res"] = enc_tree(convert_recursive(arr, lambda q: np.asarray(q + np.asarray(d, dtype=q.dtype)), x))
    except Exception as e:
        rec["exc"] = type(e).__name__
    rec["dirty"] = ["the container"] if str(enc_tree(x)) != before else []


def reject(r, rec, ops, W):
    if rec["via"] == "base":
        return False
    a, b = mk(r, (2, 2), "float32"), mk(r, r.choice([(2,), (2, 2, 2), (1, 2, 2)]), "float32")
    W("the first operand", a), W("the second operand", b)
    if r.random() < 0.5:
        a, b = b, a
    rec["how"] = "operands that are not matrices"
    attempt(rec, W, lambda: ops.gemm(a, b))


CALLS = dict(gemm=(gemm, 8), affine=(affine, 3), tile=(tile, 1), alloc=(alloc, 2), asarray=(asarray, 5), as_contig=(as_contig, 2), to_numpy=(to_numpy, 1), reshape=(reshape, 4), copy=(copy, 1), onehot=(onehot, 3), insert=(insert, 1), info=(info, 2), width=(width, 2), nest=(nest, 4), reject=(reject, 1))


def case(job):
    np.empty = poisoned
    r = random.Random(job[0])
    steps = []
    names = [k for k, (f, n) in CALLS.items() for _ in range(n)]
    while len(steps) < 16:
        op = r.choice(names)
        via, ops = backend(r)
        rec = dict(op=op, via=via, exc="", res=NOTHING, flag=True, dirty=[])
        if CALLS[op][0](r, rec, ops, Watch()) is not False:
            steps.append(rec)
    return dict(steps=steps)


def crash(reason):
    return dict(steps=[dict(op="reject", via="crashed: " + reason, how="", exc="", dirty=[])])


def check(ctx):
    ctx.design("ArraysMC", f"ArraysMC_{ctx.tier}.cfg")
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(1500, 25000))]
    cases = [crash(c.reason) if isinstance(c, pool.Crash) else c for c in pool.pmap(case, jobs)]
    count = {}
    for c in cases:
        for s in c["steps"]:
            q = f"{s['op']} {s['via']}"
            count[q] = count.get(q, 0) + 1
    ctx.notes["calls"] = count
    for c in cases[:2]:
        ctx.sample(c["steps"][:3])
    ctx.conform("ArraysTrace", "ArraysTrace.cfg", cases, plans=[list(j) for j in jobs])
