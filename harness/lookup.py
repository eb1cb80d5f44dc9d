"""C12: embeddings, hashes and id remapping (spec/Lookup.tla)."""
import random

import numpy as np

import core
import pool

U64 = 2**64


def word(v, n):
    return list((int(v) % 256**n).to_bytes(n, "little"))


def ints(a):
    a = np.asarray(a)
    return [[core.enc_int(v) for v in r] for r in a.reshape((a.shape[0], int(np.prod(a.shape[1:]))))] if a.ndim > 1 else [core.enc_int(v) for v in a]


class Watch:
    def __init__(self):
        self.xs = []

    def add(self, nm, a):
        self.xs.append((nm, a, np.array(a)))
        return a

    def dirty(self):
        return [nm for nm, a, b in self.xs if not np.array_equal(a, b)]


def rand_key(r):
    return r.choice([0, 1, 2, 3, 7, 255, 256, 2**31, 2**32 - 1, 2**32, 2**63, U64 - 1, r.randrange(U64), r.randrange(U64), r.randrange(2**32)])


def rand_seed(r):
    return r.choice([0, 1, 5, 2**31, 2**32 - 1, r.randrange(2**32)])


def table(r, n, w, dt="float32"):
    return np.array([[r.randint(-9, 9) for _ in range(w)] for _ in range(n)], dtype=dt).reshape((n, w))


def get_ops(r):
    import thinc.api as T

    via = r.choice(["NumpyOps", "NumpyOps", "Ops"])
    return getattr(T, via)(), via


def lay(r, a):
    """The same array in another layout."""
    k = r.randrange(4)
    if a.ndim == 0 or a.size == 0 or k == 0:
        return a.copy()
    if k == 1:
        b = np.repeat(a, 2, axis=0)
        b[1::2] = 0
        return b[::2]
    if k == 2:
        return a[::-1].copy()[::-1]
    return np.asfortranarray(a)


def k_neg(k):
    """premap_ids maps no negative ids."""
    return not isinstance(k, str) and k < 0


WORDS = ["", "a", "b", "ab", "abc", "abcd", "abcde", "the cat", "é", "日本語", "a\u0000b", "ß" * 9, "😀", "x" * 17, "naïve", "A"]


def step(r):
    import thinc.api as T
    from thinc.api import premap_ids, remap_ids, remap_ids_v2, strings2arrays

    op = r.choice(["hash", "ngrams", "strings", "gather", "gather", "scatter", "scatter", "embed", "embed", "embed", "hashembed", "hashembed", "hashembed", "remap", "remap", "sparse", "sparse"])
    rec = dict(op=op, how="", exc="", dirty=[])
    w = Watch()
    try:
        if op in ("hash", "ngrams"):
            ops, via = get_ops(r)
            ids = np.array([rand_key(r) for _ in range(r.randrange(7))], dtype="uint64")
            rec.update(how=via, ids=[word(q, 8) for q in ids])
            w.add("the ids", ids)
            if op == "hash":
                seed = rand_seed(r)
                rec["seed"] = word(seed, 4)
                out = ops.hash(ids, seed)
                rec["out"] = [[word(q, 4) for q in row] for row in out]
            else:
                n = r.choice([0, 1, 1, 2, 2, 3, 4, 7])
                rec["n"] = n
                rec["out"] = [word(q, 8) for q in ops.ngrams(n, ids)]
        elif op == "strings":
            Xs = [[r.choice(WORDS) for _ in range(r.randrange(4))] for _ in range(r.randrange(3))]
            rec["words"] = [[list(x.encode("utf8")) for x in X] for X in Xs]
            keep = [list(X) for X in Xs]
            m = strings2arrays()
            Y, bp = m(Xs, r.random() < 0.5)
            if any(y.ndim != 2 or y.shape[1] != 1 for y in Y):
                raise AssertionError("shape")
            rec["out"] = [[word(q, 8) for q in y[:, 0]] for y in Y]
            rec["dirty"] = [] if keep == Xs else ["the strings"]
            return rec
        elif op == "gather":
            ops, via = get_ops(r)
            n, cols, k, b = r.choice([1, 2, 3, 5]), r.choice([1, 2, 3, 9]), r.choice([1, 2, 4]), r.choice([1, 2, 3, 4])
            tab = table(r, n, cols, r.choice(["float32", "float64"]))
            lo, hi = (0, n - 1)
            if r.random() < 0.25 and via == "NumpyOps":
                lo, hi = r.choice([(0, n), (-1, n - 1), (-1, n), (n, n + 2)])
            idx = np.array([[r.randint(lo, hi) for _ in range(k)] for _ in range(b)], dtype=r.choice(["int32", "int32", "uint32"]) if lo >= 0 else "int32").reshape((b, k))
            rec.update(how=f"{via} {tab.dtype} {idx.dtype}", table=ints(tab), w=cols, idx=ints(idx))
            w.add("the table", tab)
            w.add("the indices", idx)
            out = ops.gather_add(tab, idx)
            rec["out"] = ints(out)
            if out.dtype != tab.dtype:
                rec["exc"] = "the wrong type " + str(out.dtype)
        elif op == "scatter":
            ops, via = get_ops(r)
            n, cols, b = r.choice([1, 2, 3, 5]), r.choice([1, 2, 3, 9]), r.randrange(6)
            tab = table(r, n, cols, r.choice(["float32", "float32", "float64"]))
            ids = np.array([r.randrange(n) for _ in range(b)], dtype=r.choice(["int32", "int32", "int64", "uint64"]))
            d = table(r, b, cols, r.choice([tab.dtype, tab.dtype, "float32"]))
            rec.update(how=f"{via} {tab.dtype} {ids.dtype} {d.dtype}", table=ints(tab) if n else [], w=cols, idx=[[int(q)] for q in ids], dY=ints(d))
            T_ = lay(r, tab)
            ops.scatter_add(T_, w.add("the indices", lay(r, ids)), w.add("the values", lay(r, d)))
            rec["out"] = ints(T_)
        elif op in ("embed", "hashembed"):
            n, cols = r.choice([1, 2, 3, 5, 8]), r.choice([1, 2, 3, 5])
            column = r.choice([None, None, 0, 1, 2])
            if op == "embed":
                m = T.Embed(nO=cols, nV=n, column=column)
                idt = r.choice(["int32", "int32", "int64", "uint64"])
            else:
                seed = r.choice([None, rand_seed(r), rand_seed(r)])
                m = T.HashEmbed(cols, n, column=column, **({} if seed is None else dict(seed=seed)))
                idt = "uint64"
            m.initialize()
            emb = m if column is None else m.layers[-1]
            tab = table(r, n, cols)
            emb.set_param("E", tab.copy())
            how = "column" if column is not None else "ids"
            if op == "hashembed":
                rec["seed"] = word(seed if seed is not None else emb.attrs["seed"], 4)
                k = r.randrange(4)
                if k == 0:
                    m = m.copy()
                    how += ", copied"
                elif k == 1:
                    m2 = T.HashEmbed(cols, n, column=column)
                    m = m2.from_bytes(m.to_bytes())
                    how += ", loaded"
                if k < 2:
                    emb = m if column is None else m.layers[-1]
            bad = op == "embed" and r.random() < 0.1
            calls, xs, ys, ds = [], [], [], []
            for _ in range(r.choice([1, 1, 2, 3])):
                b = r.choice([0, 1, 2, 3, 4, 6])
                top = n + 1 if bad else n - 1
                ids = np.array([rand_key(r) if op == "hashembed" else r.randint(0, top) for _ in range(b)], dtype=idt)
                if op == "hashembed" and b > 1 and r.random() < 0.5:
                    ids[1] = ids[0]
                X = ids
                if column is not None:
                    X = np.zeros((b, 3), dtype=idt)
                    X[:, :] = r.randrange(5)
                    X[:, column] = ids
                rec.update(how=how + " " + idt, table=ints(tab), w=cols)
                if op == "embed":
                    xs += [[int(q)] for q in ids]
                    rec["idx"] = xs
                else:
                    xs += [word(q, 8) for q in ids]
                    rec["ids"] = xs
                w.add("the ids", X)
                Y, bp = m(X, True)
                if Y.shape != (b, cols):
                    raise AssertionError(f"shape {Y.shape}")
                P = m.predict(X)
                if not np.array_equal(P, Y):
                    raise AssertionError("prediction differs")
                dY = table(r, b, cols)
                w.add("the gradient", dY)
                ys += ints(Y) if b else []
                ds += ints(dY) if b else []
                calls.append((bp, dY, X))
            r.shuffle(calls)
            for bp, dY, X in calls:
                dX = bp(dY)
                if dX.shape != X.shape or np.any(dX):
                    raise AssertionError("gradient of the ids")
            if not np.array_equal(emb.get_param("E"), tab):
                rec["dirty"] = ["the table"]
                return rec
            rec.update(out=ys, dY=ds, grad=ints(emb.get_grad("E")))
        elif op == "remap":
            kind = r.choice(["v1", "v2", "v2 array", "v2 column", "premap", "premap column"])
            string = kind in ("v1", "v2") and r.random() < 0.5
            pre = kind.startswith("premap")
            keys = WORDS[:6] if string else [0, 1, 2, 3, 10, 255, 65536, -1, -7, 10**9] if pre or "array" in kind or "column" in kind else list(range(6))
            mp = {k: r.choice([0, 1, 2, 5, 9, 1000]) for k in r.sample(keys, r.randrange(len(keys))) if not (pre and k_neg(k))}
            default = r.choice([0, 0, 1, 7, 42])
            xs = [r.choice(keys + ([] if string else [11, 4])) for _ in range(r.randrange(6))]
            enc = (lambda q: [list(q.encode("utf8"))]) if string else int  # noqa: E731
            rec.update(how=kind, pairs=[[enc(k), v] for k, v in mp.items()], default=default, xs=[enc(q) for q in xs])
            column = r.randrange(2) if "column" in kind else None
            if pre:
                m = premap_ids(mp, default, **({} if column is None else dict(column=column)))
            elif kind == "v1" and r.random() < 0.5:
                m = remap_ids(mp, default)
            elif kind == "v1":
                # the table is filled later, as is that of another layer
                m, other = remap_ids(default=default), remap_ids()
                other.attrs["mapping_table"].update({q: 3 for q in r.sample(keys, r.randrange(len(keys)))})
                m.attrs["mapping_table"].update(mp)
            elif r.random() < 0.5:
                m = remap_ids_v2(mp, default, **({} if column is None else dict(column=column)))
            else:
                m = remap_ids_v2(default=default, **({} if column is None else dict(column=column)))
                m.attrs["mapping_table"] = mp
            X = xs
            if pre or "array" in kind or column is not None:
                X = np.array(xs, dtype=r.choice(["int64", "int64", "int32" if max(xs, default=0) < 2**31 else "int64"]))
                if column is not None:
                    X2 = np.full((len(xs), 2), 77, dtype=X.dtype)
                    X2[:, column] = X
                    X = X2
                w.add("the ids", X)
            Y, bp = m(X, r.random() < 0.5)
            if Y.shape != (len(xs), 1):
                raise AssertionError(f"shape {Y.shape}")
            rec["out"] = [core.enc_int(q) for q in Y[:, 0]]
            dX = bp(np.ones(Y.shape, dtype="float32"))
            if not isinstance(X, list) and np.any(dX):
                raise AssertionError("gradient of the ids")
        else:
            from thinc.layers.sparselinear import SparseLinear, SparseLinear_v2

            v1 = r.random() < 0.3
            nO, length = r.choice([1, 2, 3]), r.choice([1, 2, 4, 8]) if v1 else r.choice([1, 2, 3, 4, 7, 8])
            m = (SparseLinear if v1 else SparseLinear_v2)(nO, length)
            m.initialize()
            B = r.choice([0, 1, 1, 2, 3])
            lens = [r.choice([0, 1, 2, 3]) for _ in range(B)]
            F = sum(lens)
            keys = np.array([rand_key(r) for _ in range(F)], dtype="uint64")
            vals = table(r, F, 1).reshape((F,))
            W, b = table(r, 1, nO * length).reshape((-1,)), table(r, 1, nO).reshape((-1,))
            m.set_param("W", W.copy())
            m.set_param("b", b.copy())
            dY = table(r, B, nO)
            rec.update(how="v1" if v1 else "v2", v1=v1, nO=nO, len=length, lens=lens, keys=[word(q, 8) for q in keys], vals=ints(vals), W=ints(W), b=ints(b), dY=ints(dY))
            X = (w.add("the keys", lay(r, keys)), w.add("the values", lay(r, vals)), w.add("the lengths", lay(r, np.array(lens, dtype=r.choice(["int32", "int32", "int64"])))))
            Y, bp = m(X, True)
            bp(w.add("the gradient", dY))
            rec.update(out=ints(Y), dW=ints(m.get_grad("W")), db=ints(m.get_grad("b")))
        rec["dirty"] = w.dirty()
    except Exception as e:
        rec["exc"] = type(e).__name__ if not isinstance(e, AssertionError) else f"{type(e).__name__} {e}"
    return rec


def case(job):
    r = random.Random(job[0])
    return dict(steps=[step(r) for _ in range(8)])


def crash(reason):
    return dict(steps=[dict(op="?", how="?", exc="crash: " + reason, dirty=[])])


def check(ctx):
    ctx.design("LookupMC", f"LookupMC_{ctx.tier}.cfg")
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(1200, 15000))]
    cases = [crash(c.reason) if isinstance(c, pool.Crash) else c for c in pool.pmap(case, jobs)]
    count = {}
    for c in cases:
        for s in c["steps"]:
            count[s["op"]] = count.get(s["op"], 0) + 1
    ctx.notes["calls"] = count
    for c in cases[:2]:
        ctx.sample(c["steps"][:2])
    ctx.conform("LookupTrace", "LookupTrace.cfg", cases, plans=[list(j) for j in jobs])
