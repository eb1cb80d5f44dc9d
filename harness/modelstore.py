"""C03-C07: histories of operations on model objects (spec/ModelStore.tla).

A history is a list of operations (records, see Do in the specification).  It is executed
on real Model objects through the public API; after every operation the observable state
of every node is recorded.
"""
import contextvars
import json
import random
import shutil
import tempfile
from pathlib import Path

import numpy as np

import core
import pool

OPS = ["+", "-", "*", "@", "/", "//", "%", "**", "<<", ">>", "&", "^", "|"]
U = dict(d=["nO", "nI", "zz"], p=["W", "b", "zz"], r=["r", "q", "zz"], a=["dropout_rate", "at"], ops=OPS)
BACKENDS = ["numpy", "vops1", "vops2"]


def setup():
    """Two more CPU backends, so that a change of backend is visible."""
    from thinc.api import NumpyOps
    from thinc.config import registry

    for nm in BACKENDS[1:]:
        if nm not in registry.ops.get_all():
            cls = type(nm, (NumpyOps,), {"name": nm})
            registry.ops(nm)(cls)


def fwd(model, X, is_train):
    return X, lambda d: d


def typed_forward(model, X, is_train: bool):
    return X, lambda d: d


def make_probe():
    from typing import Callable, Tuple

    from thinc.api import Model
    from thinc.types import Floats2d

    def forward(model: Model[Floats2d, Floats2d], X: Floats2d, is_train: bool) -> Tuple[Floats2d, Callable]:
        return X, lambda d: d

    return Model("probe", forward, dims={"nO": None, "nI": None})


def apply_op(sym, a, b):
    return {
        "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "@": lambda: a @ b,
        "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b,
        "<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b, "^": lambda: a ^ b,
        "|": lambda: a | b,
    }[sym]()


def arr(v):
    return np.array(v, dtype="float32")


def enc(a):
    return [core.enc_int(x) for x in np.asarray(a).ravel()]


def query(has, get, maybe, value):
    try:
        h = has()
        h = 9 if h not in (True, False, None) else {False: 0, None: 1, True: 2}[h]
    except Exception:
        h = 8
    try:
        g = [1] + value(get())
    except Exception:
        g = [-1]
    try:
        m = maybe()
        m = [0] if m is None else [1] + value(m)
    except Exception:
        m = [-1]
    return [[h], g, m]


class World:
    def __init__(self, seed, tmp):
        self.rng = random.Random(seed)
        self.nodes, self.shims, self.msgs, self.scopes = [], [], [], []
        self.index = {}
        self.tmp = Path(tmp)
        self.last = {}
        self.watch = []
        self.dead = set()  # messages that share memory with parameters changed since
        self.kw = []
        self.pa = make_probe()
        self.nfile = 0

    # ---------------------------------------------------------- observation
    def idx(self, node):
        return self.index.get(id(node), 0)

    def register(self, node):
        self.nodes.append(node)
        self.index[id(node)] = len(self.nodes)

    def proj(self, node):
        o = dict(nm=node.name, ly=[self.idx(x) for x in node.layers])
        o["d"] = [query(lambda: node.has_dim(k), lambda: node.get_dim(k), lambda: node.maybe_get_dim(k), lambda x: [int(x)]) for k in U["d"]]
        o["p"] = [query(lambda: node.has_param(k), lambda: node.get_param(k), lambda: node.maybe_get_param(k), enc) for k in U["p"]]
        o["g"] = [query(lambda: node.has_grad(k), lambda: node.get_grad(k), lambda: node.maybe_get_grad(k), enc) for k in U["p"]]
        o["r"] = [query(lambda: node.has_ref(k), lambda: node.get_ref(k), lambda: node.maybe_get_ref(k), lambda x: [self.idx(x)]) for k in U["r"]]
        o["a"] = [[1] + enc(node.attrs[k]) if k in node.attrs else [0] for k in U["a"]]
        o["sh"] = [self.shim_state(s) for s in node.shims]
        # the *_names properties list exactly the registered names
        if sorted(node.dim_names) != sorted(k for k in U["d"] if node.has_dim(k) is not False):
            o["nm"] += "!dim_names"
        if sorted(node.param_names) != sorted(k for k in U["p"] if node.has_param(k) is not False):
            o["nm"] += "!param_names"
        if sorted(node.ref_names) != sorted(k for k in U["r"] if node.has_ref(k) is not False):
            o["nm"] += "!ref_names"
        if sorted(node.grad_names) != sorted(k for k in node.param_names if node.has_grad(k)):
            o["nm"] += "!grad_names"
        return o

    def shim_state(self, s):
        p = s._model.w
        return dict(w=enc(p.detach().numpy()), g=[] if p.grad is None else [enc(p.grad.numpy())])

    def env(self):
        from thinc.api import Model, get_current_ops
        from thinc.backends import contextvars_eq_thread_ops
        from thinc.util import DataValidationError

        codes = []
        for sym in OPS:
            try:
                codes.append(int(apply_op(sym, self.pa, self.pa)))
            except TypeError:
                codes.append(-1)
        try:
            self.pa.initialize(X="not an array")
            val = 0
        except DataValidationError:
            val = 1
        def code(ops):  # name and settings
            return BACKENDS.index(ops.name) + (0 if ops.use_blis else len(BACKENDS)) if ops.name in BACKENDS else 99

        be = code(get_current_ops())
        if code(Model("m", fwd).ops) != be or not contextvars_eq_thread_ops():
            be = 98
        return [codes, [val, be]]

    def diff(self):
        out = []
        for k, node in enumerate(self.nodes, 1):
            o = self.proj(node)
            if self.last.get(k) != o:
                self.last[k] = o
                out.append(dict(n=k, o=o))
        return out

    def keep(self, a):
        """An array handed to the library that it must not write to."""
        self.watch.append((a, a.tobytes()))
        return a

    # ------------------------------------------------------------ execution
    def node(self, i):
        return self.nodes[i - 1]

    def shared(self, v):
        """Sometimes hand out the same argument object to several constructors."""
        for w in self.kw:
            if type(w) is type(v) and w == v and self.rng.random() < 0.7:
                return w
        self.kw.append(v)
        return v

    def run(self, x):
        import thinc.api as T

        op = x["op"]
        if op == "new":
            kw = {}
            if x["ly"]:
                kw["layers"] = self.shared([self.node(i) for i in x["ly"]])
            if x["d"]:
                kw["dims"] = self.shared({k: (v[0] if v else None) for k, v in x["d"].items()})
            if x["p"]:
                kw["params"] = {k: (arr(v[0]) if v else None) for k, v in x["p"].items()}
            if x["a"]:
                kw["attrs"] = {k: (v[0] if k == "dropout_rate" else list(v)) for k, v in x["a"].items()}
            if x["r"]:
                kw["refs"] = self.shared({k: (self.node(v) if v else None) for k, v in x["r"].items()})
            if x["sh"]:
                kw["shims"] = [self.shims[i - 1] for i in x["sh"]]
            self.register(T.Model(x["nm"], fwd, **kw))
        elif op == "newshim":
            self.shims.append(make_shim(x["v"]))
        elif op == "layer":
            self.node(x["n"]).layers.append(self.node(x["m"]))
        elif op == "dim":
            n = self.node(x["n"])
            n.set_dim(x["k"], x["v"], force=x["force"]) if x["force"] else n.set_dim(x["k"], x["v"])
        elif op == "param":
            self.node(x["n"]).set_param(x["k"], arr(x["v"][0]) if x["v"] else None)
        elif op == "grad":
            self.node(x["n"]).set_grad(x["k"], arr(x["v"]))
        elif op == "inc":
            self.node(x["n"]).inc_grad(x["k"], self.keep(arr(x["v"])))
        elif op == "attr":
            self.node(x["n"]).attrs[x["k"]] = x["v"][0] if x["k"] == "dropout_rate" else list(x["v"])
        elif op == "attrapp":
            self.node(x["n"]).attrs[x["k"]].append(x["v"])
        elif op == "ref":
            self.node(x["n"]).set_ref(x["k"], self.node(x["m"]) if x["m"] else None)
        elif op == "shimgrad":
            import torch

            p = self.shims[x["m"] - 1]._model.w
            g = torch.tensor([float(q) for q in x["v"]])
            p.grad = g if p.grad is None else p.grad + g
        elif op == "walk":
            n = self.node(x["n"])
            w = n.walk() if x["order"] == "bfs" and x["n"] % 2 else n.walk(order=x["order"])
            return [self.idx(y) for y in w]
        elif op == "remove":
            self.node(x["n"]).remove_node(self.node(x["m"]))
        elif op == "replace":
            r = self.node(x["n"]).replace_node(self.node(x["m"]), self.node(x["q"]))
            return [1 if r else 0]
        elif op == "copy":
            cp = self.node(x["n"]).copy()
            return self.adopt([cp])
        elif op == "clone":
            c = T.clone(self.node(x["n"]), x["c"])
            if x["c"] == 1:
                return [self.idx(c)]
            new = self.adopt(c.layers[1:])
            return [self.idx(c.layers[0])] + new
        elif op == "wrap":
            r = T.wrap_model_recursive(
                self.node(x["n"]), lambda m: T.Model("wrap", fwd, layers=[m])
            )
            return self.adopt([r])
        elif op == "save":
            n = self.node(x["n"])
            med = x["medium"]
            if med == "bytes":
                self.msgs.append((med, n.to_bytes()))
            elif med == "dict":
                self.msgs.append((med, n.to_dict()))
            else:
                self.nfile += 1
                path = self.tmp / f"m{self.nfile}"
                n.to_disk(path if self.nfile % 2 else str(path))
                self.msgs.append((med, path))
        elif op == "load":
            n = self.node(x["n"])
            med, msg = self.msgs[x["m"] - 1]
            r = {"bytes": n.from_bytes, "dict": n.from_dict, "disk": n.from_disk}[med](msg)
            if r is not n:
                raise RuntimeError("load returned another model")
        elif op == "can":
            n = self.node(x["n"])
            med, msg = self.msgs[x["m"] - 1]
            f = {"bytes": n.can_from_bytes, "dict": n.can_from_dict, "disk": n.can_from_disk}[med]
            r = f(msg) if x["strict"] and x["n"] % 2 else f(msg, strict=x["strict"])
            return [{True: 1, False: 0}[r]]
        elif op == "update":
            opt = T.Optimizer(
                float(x["lr"]), L2=0.0, beta1=0.0, beta2=0.0, grad_clip=0.0,
                use_averages=False, L2_is_weight_decay=False,
            )
            self.node(x["n"]).finish_update(opt)
            self.dead |= {i for i, (med, _) in enumerate(self.msgs, 1) if med == "dict"}
        elif op == "grads":
            out = []
            for (nid, nm), (p, g) in self.node(x["n"]).get_gradients().items():
                k = next((i for i, n in enumerate(self.nodes, 1) if n.id == nid), 0)
                n = self.nodes[k - 1]
                ok = k and enc(p) == enc(n.get_param(nm)) and enc(g) == enc(n.get_grad(nm))
                out.append(10 * k + 1 + x["names"].index(nm) if ok else 0)
            return sorted(out)
        elif op == "rate":
            n = self.node(x["n"])
            if x["ks"] == ["dropout_rate"]:
                T.set_dropout_rate(n, x["v"][0])
            else:
                T.set_dropout_rate(n, x["v"][0], attrs=list(x["ks"]))
        elif op == "chattr":
            T.change_attr_values(self.node(x["n"]), {x["nm"]: {x["k"]: x["v"][0]}, "nobody": {x["k"]: 77}})
        elif op == "params":
            ps = {}
            for e in x["ps"]:
                if e["n"]:
                    ps[self.node(e["n"]).id, e["k"]] = arr(e["v"])
                else:
                    ps[f"pytorch_{self.shims[e['t'] - 1].id}_w"] = arr(e["v"])
            ps[10**9, "W"] = arr([1.0])  # nobody's
            self.enter(self.node(x["n"]).use_params(ps))
        elif op == "ops":
            fns = {k: (lambda a, b, c=c: c) for k, c in x["ov"].items()}
            self.enter(T.Model.define_operators(fns))
        elif op == "val":
            self.enter(T.data_validation(bool(x["v"])))
        elif op == "be":
            kw = dict(use_blis=False) if x["v"] >= len(BACKENDS) else {}
            self.enter(T.use_ops(BACKENDS[x["v"] % len(BACKENDS)], **kw))
        elif op == "leave":
            cm = self.scopes.pop()
            if x["how"] == "normal":
                cm.__exit__(None, None, None)
            else:
                exc = {"error": ValueError("v"), "interrupt": KeyboardInterrupt()}[x["how"]]
                try:
                    swallowed = cm.__exit__(type(exc), exc, None)
                except BaseException as e:
                    if e is not exc:
                        raise
                    swallowed = False
                if swallowed:
                    raise RuntimeError("the scope swallowed the exception")
        else:
            raise AssertionError(op)
        return []

    def enter(self, cm):
        cm.__enter__()
        self.scopes.append(cm)

    def adopt(self, roots):
        """Register new nodes (and shims) in breadth-first order."""
        out = []
        for r in roots:
            for n in r.walk():
                if id(n) not in self.index:
                    self.register(n)
                    out.append(len(self.nodes))
                    for s in n.shims:
                        if not any(s is t for t in self.shims):
                            self.shims.append(s)
        return out

    def step(self, x):
        before = len(self.nodes)
        exc, res = "", []
        try:
            res = self.run(x)
        except BaseException as e:
            exc = f"{type(e).__name__}: {e}"[:150]
        ids = [int(n.id) for n in self.nodes[before:]]
        dirty = any(a.tobytes() != b for a, b in self.watch)
        rec = dict(x)
        rec.update(exc=exc, res=res, diff=self.diff(), ids=ids, dirty=dirty, env=self.env(), total=len(self.nodes))
        return rec

    # ------------------------------------------- state the generator looks at
    def reach(self, n):
        return [self.idx(m) for m in self.node(n).walk()]

    def rooted(self, n):
        for m in self.node(n).walk():
            sub = {id(q) for q in m.walk()}
            for k in m.ref_names:
                r = m.maybe_get_ref(k)
                if r is not None and id(r) not in sub:
                    return False
        return True

    def can_update(self, n):
        for m in self.node(n).walk():
            for k in m.param_names:
                if m.has_grad(k) and (not m.has_param(k) or len(m.get_param(k)) != len(m.get_grad(k))):
                    return False
        return True


def make_shim(v):
    import torch

    from thinc.api import PyTorchShim

    class W(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(torch.tensor([float(q) for q in v]))

        def forward(self, x):
            return x * self.w.sum()

    return PyTorchShim(W())


# ------------------------------------------------------------------ generator
WEIGHTS = {
    "C03": dict(params=5, ops=3, val=2, be=3, leave=7, param=2, update=2, inc=2, copy=1, remove=1, replace=1, dim=1, new=1, save=1, load=1),
    "C04": dict(new=3, layer=2, ref=5, walk=6, remove=5, replace=5, rate=2, chattr=1, copy=1, save=1, wrap=2),
    "C05": dict(copy=6, clone=2, new=2, dim=2, param=3, grad=2, inc=3, attr=2, attrapp=4, ref=3, update=3, layer=1, remove=2, replace=2, rate=1, shimgrad=1, walk=1, params=1, leave=1, load=1, save=1),
    "C06": dict(save=6, load=6, can=8, new=2, twin=4, dim=3, param=4, attr=3, attrapp=1, ref=3, copy=2, update=1, inc=1, layer=1, remove=1, shimgrad=1),
    "C07": dict(dim=8, param=6, grad=4, inc=6, ref=4, update=3, grads=4, attr=1, copy=1, new=2, params=1, leave=1, rate=1),
}


class Gen:
    def __init__(self, prop, seed):
        self.rng = random.Random(seed)
        self.w = WEIGHTS[prop]
        self.src = []
        self.prop = prop
        self.torch = self.rng.random() < (0.4 if prop in ("C03", "C05", "C06") else 0.1)

    def vec(self, n=None):
        r = self.rng
        return [r.randint(-3, 3) for _ in range(n or r.choice([1, 2, 2]))]

    def new(self, w, leaf=False, same=None):
        r = self.rng
        k = len(w.nodes)
        ly = [] if leaf or not k else [r.randint(1, k) for _ in range(r.choice([0, 1, 2, 2, 3]))]
        d = {nm: r.choice([[], [r.randint(1, 3)]]) for nm in ("nO", "nI") if r.random() < 0.8}
        p = {nm: r.choice([[], [self.vec(2)]]) for nm in ("W", "b") if r.random() < 0.8}
        a = {}
        if r.random() < 0.6:
            a["dropout_rate"] = [r.randint(0, 3)]
        if r.random() < 0.5:
            a["at"] = self.vec()
        sub = set(ly)
        for i in ly:
            sub |= set(w.reach(i))
        rf = {nm: (r.choice(sorted(sub)) if sub and r.random() < 0.6 else 0) for nm in ("r", "q") if r.random() < 0.5}
        sh = []
        if self.torch and w.shims and r.random() < 0.5:
            sh = [r.randint(1, len(w.shims)) for _ in range(r.choice([1, 1, 2]))]
        return dict(op="new", nm=r.choice("xyz"), ly=ly, d=d, p=p, a=a, r=rf, sh=sh)

    def start(self, w):
        r = self.rng
        if self.torch:
            for _ in range(r.randint(1, 2)):
                yield dict(op="newshim", v=self.vec(2))
        for i in range(r.randint(1, 3)):
            yield self.new(w, leaf=True)
        for i in range(r.randint(1, 4)):
            yield self.new(w)

    def pick(self, w):
        # the later nodes are the bigger models
        k = len(w.nodes)
        return max(self.rng.randint(1, k), self.rng.randint(1, k))

    def next(self, w):
        r = self.rng
        op = r.choices(list(self.w), list(self.w.values()))[0]
        k = len(w.nodes)
        n = self.pick(w)
        node = w.node(n)
        if op == "new" and k < 14:
            return self.new(w, leaf=r.random() < 0.2)
        if op == "twin" and k < 14:
            # the same shape as an existing node, or with one aspect changed
            names = {"d": ("nO", "nI"), "p": ("W", "b"), "r": ("r", "q")}
            x = dict(op="new", nm=node.name, ly=[w.idx(y) for y in node.layers], sh=[])
            x["d"] = {q: ([node.get_dim(q)] if node.has_dim(q) and r.random() < 0.5 else []) for q in node.dim_names}
            x["p"] = {q: ([self.vec(len(node.get_param(q)))] if node.has_param(q) and r.random() < 0.5 else []) for q in node.param_names}
            x["a"] = {q: enc(node.attrs[q]) for q in node.attrs}
            x["r"] = {q: 0 for q in node.ref_names}
            what = r.random()
            if what < 0.12:
                x["nm"] = r.choice("xyz")
            elif what < 0.24:
                x["d"]["nO"] = [r.randint(1, 3)]
            elif what < 0.36:
                x["p"]["W"] = [self.vec(r.choice([1, 2, 3]))]
            elif what < 0.42:
                x["d"].pop("nI", None)
            elif what < 0.5:
                x["p"].pop("b", None)
            elif what < 0.6 and x["a"]:
                q = r.choice(sorted(x["a"]))
                x["a"][q] = [r.randint(0, 3)]
            elif what < 0.66 and len(x["ly"]) > 1:
                r.shuffle(x["ly"])
            elif what < 0.72:
                x["ly"] = x["ly"][:-1]
            return x
        if op == "layer":
            m = r.randint(1, k)
            if n not in w.reach(m) and len(node.layers) < 4:
                return dict(op="layer", n=n, m=m)
        if op == "dim":
            return dict(op="dim", n=n, k=r.choice(["nO", "nO", "nI", "nI", "zz"]), v=r.randint(1, 3), force=r.random() < 0.4)
        if op == "param":
            if r.random() < 0.3 and node.param_names:
                return dict(op="param", n=n, k=r.choice(list(node.param_names)), v=[])
            return dict(op="param", n=n, k=r.choice(["W", "b", "W", "b", "zz"]), v=[self.vec(2 if r.random() < 0.8 else None)])
        if op == "grad":
            return dict(op="grad", n=n, k=r.choice(["W", "b"]), v=self.vec(2))
        if op == "inc":
            q = r.choice(["W", "b"])
            ln = len(node.get_grad(q)) if node.has_grad(q) else 2
            return dict(op="inc", n=n, k=q, v=self.vec(ln))
        if op == "attr":
            q = r.choice(U["a"])
            return dict(op="attr", n=n, k=q, v=[r.randint(0, 3)] if q == "dropout_rate" else self.vec())
        if op == "attrapp":
            if isinstance(node.attrs.get("at"), list):
                return dict(op="attrapp", n=n, k="at", v=r.randint(0, 3))
        if op == "ref":
            c = r.random()
            m = 0 if c < 0.15 else r.choice(w.reach(n)) if c < 0.85 else r.randint(1, k)
            return dict(op="ref", n=n, k=r.choice(["r", "q", "r", "q", "zz"]), m=m)
        if op == "shimgrad" and w.shims:
            return dict(op="shimgrad", m=r.randint(1, len(w.shims)), v=self.vec(2))
        if op == "walk":
            return dict(op="walk", n=n, order=r.choice(["bfs", "dfs_pre", "dfs_post"]))
        if op in ("remove", "replace", "copy", "clone", "wrap", "save", "load", "can") and not w.rooted(n):
            return dict(op="walk", n=n, order="bfs")
        tree = w.reach(n)
        if op == "remove":
            m = r.choice(tree) if r.random() < 0.9 else r.randint(1, k)
            return dict(op="remove", n=n, m=m)
        if op == "replace":
            m = r.choice(tree) if r.random() < 0.9 else r.randint(1, k)
            q = r.randint(1, k)
            if r.random() < 0.3:
                # wrap: a new node that contains the old one
                q = k + 1
                return [
                    dict(op="new", nm="w", ly=[m], d={}, p={}, a={}, r={}, sh=[]),
                    dict(op="replace", n=n, m=m, q=q),
                ]
            if q != m and n not in w.reach(q) and not (set(w.reach(q)) & set(w.reach(m)) & {m}) and not (
                set(self.above(w, n, m)) & set(w.reach(q))
            ):
                return dict(op="replace", n=n, m=m, q=q)
        if op == "copy" and k + len(tree) <= 18:
            return dict(op="copy", n=n)
        if op == "clone":
            c = r.choice([1, 2, 3])
            if k + (c - 1) * len(tree) <= 20:
                return dict(op="clone", n=n, c=c)
        if op == "wrap" and k + len(tree) <= 20:
            return dict(op="wrap", n=n)
        if op == "save" and len(w.msgs) < 5:
            self.src.append(n)
            return dict(op="save", n=n, medium=r.choice(["bytes", "bytes", "dict", "disk"]))
        if op in ("load", "can"):
            live = [i for i in range(1, len(w.msgs) + 1) if i not in w.dead]
            if live:
                m = r.choice(live)
                if r.random() < 0.6:
                    # something of the same size as what was saved
                    size = len(w.reach(self.src[m - 1]))
                    n = r.choice([i for i in range(1, k + 1) if len(w.reach(i)) == size] or [n])
                    if not w.rooted(n):
                        return None
                if op == "can":
                    x = dict(op="can", n=n, m=m, strict=r.random() < 0.5)
                    # a positive answer is followed by the load it promises
                    if r.random() < 0.5:
                        return [x, dict(op="load", n=n, m=m)]
                    return x
                return dict(op="load", n=n, m=m)
        if op == "update" and w.can_update(n):
            return dict(op="update", n=n, lr=r.choice([1, 2]))
        if op == "grads" and all(not m.has_grad(q) or m.has_param(q) for m in node.walk() for q in m.param_names):
            return dict(op="grads", n=n, names=["W", "b", "zz"])
        if op == "rate":
            return dict(op="rate", n=n, v=[r.randint(4, 6)], ks=r.choice([["dropout_rate"], ["dropout_rate"], ["dropout_rate", "nope"]]))
        if op == "chattr":
            return dict(op="chattr", n=n, nm=r.choice("xyz"), k="dropout_rate", v=[r.randint(7, 9)])
        if op == "params" and len(w.scopes) < 4:
            ps, seen = [], set()
            pool_ = tree if r.random() < 0.8 else list(range(1, k + 1))
            for _ in range(r.randint(1, 3)):
                m = r.choice(pool_)
                for q in w.node(m).param_names:
                    # an entry for a parameter that is not set is left open
                    if w.node(m).has_param(q) and (m, q) not in seen and r.random() < 0.8:
                        seen.add((m, q))
                        ps.append(dict(n=m, k=q, t=0, v=self.vec(2)))
            if w.shims and r.random() < 0.7:
                ps.append(dict(n=0, k="", t=r.randint(1, len(w.shims)), v=self.vec(2)))
            if r.random() < 0.1:
                ps = []
            return dict(op="params", n=n, ps=ps)
        if op == "ops" and len(w.scopes) < 4:
            return dict(op="ops", ov={s: r.randint(1, 5) for s in r.sample(OPS, r.randint(0, 4))})
        if op == "val" and len(w.scopes) < 4:
            return dict(op="val", v=r.randint(0, 1))
        if op == "be" and len(w.scopes) < 4:
            return dict(op="be", v=r.randint(0, 5))
        if op == "leave" and w.scopes:
            return dict(op="leave", how=r.choice(["normal", "error", "interrupt"]))
        return None

    def above(self, w, n, m):
        """Nodes below n that (transitively) contain m: replacing m under them by something
        that contains them would make a cycle."""
        return [q for q in w.reach(n) if m in w.reach(q) and q != m]


def run_history(seed, prop, length, plan=None):
    tmp = tempfile.mkdtemp(prefix="vms-")
    w = World(seed, tmp)
    try:
        setup()
        import thinc.api as T
        T.set_current_ops(T.NumpyOps())
        steps = []

        def do(x):
            steps.append(w.step(x))
            # after a refused load (or an unexpected failure) the state is not specified
            return not (steps[-1]["exc"] and x["op"] != "dim" and x["op"] != "ref")

        if plan is not None:
            for x in plan:
                if not do(x):
                    break
        else:
            g = Gen(prop, seed)
            ok = True
            for x in g.start(w):
                ok = ok and do(x)
            tries = 0
            while ok and len(steps) < length and tries < 10 * length:
                tries += 1
                x = g.next(w)
                for y in x if isinstance(x, list) else [x] if x else []:
                    ok = ok and do(y)
        while w.scopes and not (steps and steps[-1]["exc"]):
            steps.append(w.step(dict(op="leave", how="normal")))
        return dict(U=U, steps=steps)
    finally:
        while w.scopes:
            try:
                w.scopes.pop().__exit__(None, None, None)
            except BaseException:
                pass
        shutil.rmtree(tmp, ignore_errors=True)


def one(job):
    # nothing set in a scope leaks into the next history of this worker
    return contextvars.copy_context().run(run_history, *job)


def broken(why):
    return dict(U=U, steps=[dict(op="leave", how="normal", exc=why, res=[], diff=[], ids=[], dirty=False, env=[], total=0)])


def collect(jobs):
    cases = []
    for job, res in zip(jobs, pool.pmap(one, jobs, timeout=60)):
        if isinstance(res, pool.Crash):
            res = dict(U=U, steps=[dict(op="walk", n=1, order="bfs", exc=res.reason, res=[], diff=[], ids=[], dirty=False, env=[], total=0)])
        cases.append(res)
    return cases


FOCUS = {"C03": "scope", "C04": "graph", "C05": "copy", "C06": "serial", "C07": "store"}


def plan_of(run):
    """A history printed by TLC; it writes an empty record as an empty list."""
    ops = []
    for x in run["g"] + run["h"]:
        x = {k: ({} if k in ("d", "p", "a", "r", "ov") and v == [] else v) for k, v in x.items()}
        if x["op"] == "new":
            x["d"] = {k: list(v) for k, v in x["d"].items()}
        ops.append(x)
    return ops


def check(ctx):
    n = ctx.n(700, 5000)
    length = ctx.n(22, 34)
    focus = FOCUS[ctx.prop]
    # every short history the specification allows, from the quick model; the thorough tier
    # also checks the design one operation deeper
    r = ctx.design("ModelStoreMC", f"ModelStoreMC_{focus}_quick.cfg")
    runs = sorted(json.dumps(x, sort_keys=True) for x in r.prints.get("RUN", []))
    if not runs:
        raise core.Machinery("ModelStoreMC printed no histories")
    ctx.notes["enumerated_histories"] = len(runs)
    if ctx.thorough:
        ctx.design("ModelStoreMC", f"ModelStoreMC_{focus}_thorough.cfg", timeout=900)
    k = ctx.n(700, 5000)
    if len(runs) > k:
        runs = ctx.rng.sample(runs, k)
    jobs = [(f"{ctx.seed}-{ctx.prop}-d{i}", ctx.prop, length, plan_of(json.loads(x))) for i, x in enumerate(runs)]
    jobs += [(f"{ctx.seed}-{ctx.prop}-{i}", ctx.prop, length) for i in range(n)]
    cases = collect(jobs)
    ops = {}
    for c in cases:
        for s in c["steps"]:
            q = s["op"] + ("!" if s["exc"] else "")
            ops[q] = ops.get(q, 0) + 1
    ctx.notes["operations"] = ops
    for c in cases[:1] + cases[-1:]:
        ctx.sample([{q: v for q, v in s.items() if q not in ("diff", "env")} for s in c["steps"]][:12])
    ctx.conform("ModelStoreTrace", "ModelStoreTrace.cfg", cases, plans=[list(j) for j in jobs], chunk=1000)
