"""C13: minibatch iterators (spec/Minibatch.tla)."""
import random

import numpy as np

import pool

KINDS = ["list", "tuple", "array1", "array2", "ragged", "pairs", "padded"]


def build(kind, n, r):
    """Item j (1..n) of the container is recognisable as j."""
    from thinc.api import NumpyOps
    from thinc.types import Pairs, Ragged

    if kind == "list":
        return list(range(1, n + 1))
    if kind == "tuple":
        return tuple(str(j) for j in range(1, n + 1))
    if kind == "array1":
        a = np.arange(1, n + 1, dtype=r.choice(["int32", "int64", "uint64", "float32"]))
        return a if r.random() < 0.7 else np.repeat(a, 2)[::2]
    if kind == "array2":
        a = np.arange(1, n + 1, dtype="float32")[:, None] * np.array([[1, 10, 100]], dtype="float32")
        return a if r.random() < 0.7 else np.asfortranarray(a)
    lens = [r.randint(1, 3) for _ in range(n)]
    if kind == "ragged":
        data = np.repeat(np.arange(1, n + 1, dtype="float32"), lens)[:, None] * np.array([[1, 10]], dtype="float32")
        return Ragged(data, np.array(lens, dtype="int32"))
    if kind == "pairs":
        f, g = [r.choice([list, tuple, np.array]) for _ in "12"]
        return Pairs(f(list(range(1, n + 1))), g([10 * j for j in range(1, n + 1)]))
    seqs = [np.full((k, 2), 0, dtype="float32") for k in lens]
    p = NumpyOps().list2padded(seqs) if n else None
    for b in range(n):
        p.data[: int(p.lengths[b]), b] = b + 1
    return p


def read(kind, b):
    """(items, type as expected)"""
    from thinc.types import Padded, Pairs, Ragged

    if kind == "list":
        return list(b), "list" if type(b) is list else type(b).__name__
    if kind == "tuple":
        return [int(q) for q in b], "tuple" if type(b) is tuple else type(b).__name__
    if kind in ("array1", "array2"):
        ok = isinstance(b, np.ndarray) and b.flags["C_CONTIGUOUS"] and b.ndim == int(kind[-1])
        if kind == "array1":
            return [int(q) for q in b], kind if ok else "not a contiguous array"
        its = [int(q) for q in b[:, 0]]
        ok = ok and b.shape[1] == 3 and all(list(q) == [j, 10 * j, 100 * j] for j, q in zip(its, b))
        return its, kind if ok else "not a contiguous array of the items"
    if kind == "ragged":
        its, at, ok = [], 0, isinstance(b, Ragged)
        for k in b.lengths:
            row = b.dataXd[at : at + int(k)]
            at += int(k)
            its.append(int(row[0][0]))
            ok = ok and all(list(q) == [its[-1], 10 * its[-1]] for q in row)
        return its, kind if ok and at == len(b.dataXd) else "not ragged data of the items"
    if kind == "pairs":
        return [int(q) for q in b.one], kind if isinstance(b, Pairs) and list(b.two) == [10 * q for q in b.one] else "not pairs of the items"
    its, ok = [], isinstance(b, Padded)
    for j, k in enumerate(b.lengths):
        col = b.data[:, j, 0]
        its.append(int(col[0]))
        ok = ok and all(col[: int(k)] == its[-1]) and not any(col[int(k) :])
    return its, kind if ok else "not padded data of the items"


def schedule(r):
    import thinc.api as T

    k = r.randrange(5)
    if k == 0:
        return T.compounding(r.choice([1.0, 2.0]), r.choice([3.0, 8.0]), r.choice([1.5, 1.25, 1.125]))
    if k == 1:
        return T.compounding(6.0, 1.0, 0.75)
    if k == 2:
        return T.constant(r.choice([1, 2, 3, 2.5]))
    if k == 3:
        return T.constant_then(1, r.randint(0, 3), T.compounding(2.0, 7.0, 1.5))
    return T.decaying(r.choice([6.0, 4.0]), 0.0625)


def case(job):
    import thinc.api as T

    r = random.Random(job[0])
    np.random.seed(r.randrange(2**31))
    ops = T.NumpyOps()
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13])
    multi = r.random() < 0.5
    if multi:
        kinds = [r.choice(KINDS[:-1]) for _ in range(r.choice([1, 2, 2, 3]))]
    else:
        kinds = [r.choice(KINDS if n else KINDS[:-1])]
    shuffled = r.random() < 0.5
    data = [build(k, n, random.Random(f"{job[0]}-{q}")) for q, k in enumerate(kinds)]
    buffer = r.choice([1, 1, 1, 2, 3, 20])
    how = r.choice(["int", "int", "schedule", "schedule", "list", "count"])
    gen_left = None
    if how == "int":
        s = r.choice([1, 2, 3, 4, 5, 8, 20])
        size, sizes = s, [s] * (n + 1)
    elif how == "schedule":
        # the same schedule read twice
        seed = r.random()
        size = schedule(random.Random(seed)).to_generator()
        g = schedule(random.Random(seed)).to_generator()
        sizes = [next(g) for _ in range(n + 3)]
    else:
        sizes = [r.choice([1, 1, 2, 3, 5]) for _ in range(n + 3)]
        if how == "list":
            size = iter(list(sizes))
        else:
            size = (q for q in list(sizes))
    rec = dict(
        n=n,
        how=("shuffled " if shuffled else "") + ("multibatch" if multi else "minibatch") + " with " + ("a schedule of sizes" if how == "schedule" else "a sequence of sizes" if how != "int" else "one size"),
        sizes=[int(q * 256) for q in sizes],
        kinds=kinds,
        shuffled=shuffled or kinds == ["padded"],
        steps=[],
    )
    # a padded batch is reordered by length, so only the set is comparable there
    if kinds == ["padded"] and not shuffled:
        rec["padded_in_order"] = True
    before = [read(k, d) for k, d in zip(kinds, data)]
    steps = rec["steps"]
    try:
        if multi:
            it = ops.multibatch(size, *data, shuffle=shuffled, buffer=buffer)
        else:
            it = ops.minibatch(size, data[0], shuffle=shuffled, buffer=buffer)
        steps.append(dict(op="create", exc="", len=len(it)))
    except Exception as e:
        steps.append(dict(op="create", exc=type(e).__name__, len=0))
        return rec
    passes, live = [], []
    want = r.choice([1, 2, 2, 3])
    overlap = r.random() < 0.5
    while len(passes) < want or live:
        if len(passes) < want and (not live or (overlap and r.random() < 0.4)):
            passes.append(iter(it))
            live.append(len(passes))
            steps.append(dict(op="begin"))
            continue
        p = r.choice(live)
        try:
            b = next(passes[p - 1])
        except StopIteration:
            steps.append(dict(op="end", p=p, exc=""))
            live.remove(p)
            continue
        except Exception as e:
            steps.append(dict(op="end", p=p, exc=type(e).__name__))
            break
        try:
            if multi:
                if type(b) is not list or len(b) != len(kinds):
                    raise ValueError
                got = [read(k, q) for k, q in zip(kinds, b)]
            else:
                got = [read(kinds[0], b)]
        except Exception:
            got = [([0], "unreadable")] * len(kinds)
        steps.append(dict(op="yield", p=p, batch=got[0][0], others=[g[0] for g in got[1:]], kinds=[g[1] for g in got]))
    steps.append(dict(op="input", same=[read(k, d) for k, d in zip(kinds, data)] == before))
    return rec


def check(ctx):
    ctx.design("MinibatchMC", f"MinibatchMC_{ctx.tier}.cfg")
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(4000, 40000))]
    cases = [
        dict(n=0, how="crash: " + c.reason, sizes=[256], kinds=[], shuffled=False, steps=[dict(op="create", exc="crash", len=0)]) if isinstance(c, pool.Crash) else c
        for c in pool.pmap(case, jobs)
    ]
    for c in cases[:2]:
        ctx.sample(c)
    ctx.notes["shuffled"] = sum(c["shuffled"] for c in cases)
    ctx.notes["interleaved passes"] = sum(sum(s["op"] == "begin" for s in c["steps"]) > 1 for c in cases)
    ctx.conform("MinibatchTrace", "MinibatchTrace.cfg", cases, plans=[list(j) for j in jobs])
