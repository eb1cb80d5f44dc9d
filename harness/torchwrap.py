"""C21: wrapped PyTorch modules (spec/Torch.tla)."""
import contextlib
import copy
import random
import tempfile
from pathlib import Path

import numpy as np

import core
import pool
from dropout import Watch

OPS2 = ("mul", "add")


def rows(a):
    a = np.asarray(a)
    if a.ndim == 0:
        return [[core.enc_int(a)]]
    if a.ndim == 1:
        return [[core.enc_int(v) for v in a]]
    if not a.size:
        return [[] for _ in range(a.shape[0])]
    return [[core.enc_int(v) for v in r] for r in a.reshape((a.shape[0], -1))]


def form(x):
    """The containers around the arrays."""
    from thinc.types import ArgsKwargs

    if x is None or hasattr(x, "shape"):
        return "."
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(form(y) for y in x) + ")"
    if isinstance(x, ArgsKwargs):
        return "A" + form(tuple(x.args)) + form(dict(x.kwargs))
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{form(x[k])}" for k in sorted(x)) + "}"
    return repr(x)


def leaves(x):
    from thinc.types import ArgsKwargs

    if x is None or hasattr(x, "shape"):
        return [x]
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in leaves(y)]
    if isinstance(x, ArgsKwargs):
        return leaves(x.args) + leaves(x.kwargs)
    if isinstance(x, dict):
        return [z for k in sorted(x) for z in leaves(x[k])]
    return []


def names(e):
    own = [e["p"]] if e["k"] in ("rows", "scale", "shift") else [n for n in (e["W"], e["b"]) if n] if e["k"] == "lin" else []
    return own + [n for f in e.get("s", []) for n in names(f)]


def reads(e):
    return [e["i"]] if e["k"] == "in" else [i for f in e.get("s", []) for i in reads(f)]


_net = None


def net_class():
    global _net
    if _net is not None:
        return _net
    import torch

    class Net(torch.nn.Module):
        def __init__(self, M, P, vecs, frozen, layout, buffers):
            super().__init__()
            self.M, self.layout, self.log = M, layout, []
            for nm in P:
                v = torch.tensor(P[nm][0] if nm in vecs else P[nm], dtype=torch.float32)
                mod = self
                *path, last = nm.split(".")
                for q in path:
                    if not hasattr(mod, q):
                        mod.add_module(q, torch.nn.Module())
                    mod = getattr(mod, q)
                if nm in buffers:
                    mod.register_buffer(last, v)
                    continue
                mod.register_parameter(last, torch.nn.Parameter(v, requires_grad=nm not in frozen))

        def ev(self, e, X):
            par = self.par
            k = e["k"]
            if k == "in":
                return X[e["i"] - 1]
            if k == "rows":
                return torch.nn.functional.embedding(X[e["i"] - 1].reshape(-1).long(), par[e["p"]])
            A = [self.ev(f, X) for f in e["s"]]
            if k == "lin":
                return torch.nn.functional.linear(A[0], par[e["W"]], par[e["b"]] if e["b"] else None)
            if k == "scale":
                return A[0] * par[e["p"]]
            if k == "shift":
                return A[0] + par[e["p"]]
            if k == "mul":
                return A[0] * A[1]
            if k == "add":
                return A[0] + A[1]
            if k == "relu":
                return torch.relu(A[0])
            assert k == "mode"
            return A[0] * (e["a"] if self.training else e["b"])

        def forward(self, *args, **kwargs):
            self.log.append(bool(self.training))
            self.par = dict(self.named_parameters(), **dict(self.named_buffers()))
            X = []

            def walk(x):
                if isinstance(x, torch.Tensor):
                    X.append(x)
                elif isinstance(x, (tuple, list)):
                    for y in x:
                        walk(y)

            walk(args)
            walk([kwargs[k] for k in sorted(kwargs)])
            Y = [self.ev(e, X) for e in self.M]
            del self.par
            if self.layout == "one":
                return Y[0]
            if self.layout == "nested":
                return (Y[0], tuple(Y[1:]))
            return tuple(Y)

    _net = Net
    return Net


class Opt:
    """Steps against the sign of the gradient and records its calls."""

    def __init__(self, r):
        self.r = r
        self.calls = []
        self.find = None

    def __call__(self, key, weights, gradient, *, lr_scale=1.0):
        w, g = rows(weights), rows(gradient)
        nm = self.find(weights, w, [c["nm"] for c in self.calls])
        self.calls.append(dict(nm=nm, key=repr(key), g=g, w=w, raw=key))
        if self.r.random() < 0.5:
            weights -= np.sign(gradient)
        else:
            weights = weights - np.sign(gradient)
        gradient[...] = 0
        return weights, gradient


class Program:
    """A module as expressions, its wrapper, and a model around it."""

    def __init__(self, r):
        self.r = r
        self.P, self.vecs, self.frozen = {}, set(), set()
        self.n = 0
        self.script = r.random() < 0.12
        self.nin = 1 if self.script else r.choice([1, 1, 1, 2, 2, 3])
        self.w = r.choice([1, 2, 3])
        # inputs all have one width; the last may be integers
        self.ids = self.nin if (not self.script and r.random() < 0.25) else 0
        self.nids = 0
        if self.script:
            self.layout = "one"
            e = dict(k="in", i=1)
            inner = r.choice([1, 2, 3])
            self.P["0.weight"], self.P["0.bias"] = self.mat(inner, self.w), self.vec("0.bias", inner)
            self.P["2.weight"], self.P["2.bias"] = self.mat(self.w, inner), self.vec("2.bias", self.w)
            e = dict(k="lin", W="0.weight", b="0.bias", s=[e])
            e = dict(k="lin", W="2.weight", b="2.bias", s=[dict(k="relu", s=[e])])
            self.M = [e]
        else:
            self.layout = r.choice(["one"] * 5 + ["tuple", "tuple", "nested"])
            nout = {"one": 1, "tuple": r.choice([1, 2, 2, 3]), "nested": 3}[self.layout]
            self.M = [self.expr(r.choice([0, 1, 2, 3]), 2) for _ in range(nout)]
        if not self.script and r.random() < 0.3:
            self.P["unused"] = self.vec("unused", 2)
        if self.P and not self.script and r.random() < 0.25:
            self.frozen.add(r.choice(sorted(self.P)))
        # constants of the module that are saved with it
        self.buffers = {n for n in self.frozen if r.random() < 0.6}
        self.inner_names = sorted(self.P)
        self.simple = self.nin == 1 and not self.ids and self.layout == "one"
        self.around = r.choice(["", "", "", "before", "after", "twice", "nested"]) if self.simple else r.choice(["", "", "", "nested"])
        self.kind = "script" if self.script else r.choice(["v1", "v2", "v3", "v3", "v3 custom"])
        self.whole = list(self.M)
        if self.around == "twice":
            self.whole = [self.subst(self.M[0], self.M[0])]
        if self.around in ("before", "after"):
            self.P["native W"] = self.mat(self.w, self.w)
            self.P["native b"] = self.vec("native b", self.w)
            lin = dict(k="lin", W="native W", b="native b", s=[dict(k="in", i=1)])
            self.whole = [self.subst(self.M[0], lin) if self.around == "before" else self.subst(lin, self.M[0])]
        self.how = self.kind + (", " + self.around if self.around else "") + ("" if self.layout == "one" else ", " + self.layout)
        self.linear = any(self.has(e, "lin") for e in self.whole)
        self.model, self.wrapper, self.native = self.build(self.P)

    def has(self, e, k):
        return e["k"] == k or any(self.has(f, k) for f in e.get("s", []))

    def subst(self, e, f):
        if e["k"] == "in":
            return f
        return dict(e, s=[self.subst(x, f) for x in e["s"]]) if "s" in e else e

    def mat(self, n, m):
        return [[self.r.randint(-3, 3) for _ in range(m)] for _ in range(n)]

    def vec(self, nm, m):
        self.vecs.add(nm)
        return self.mat(1, m)

    def param(self, kind, n, m):
        """A new parameter or one that there is already."""
        r = self.r
        shape = (n, m)
        have = [q for q in self.P if (q in self.vecs) == (kind == "vec") and (len(self.P[q]), len(self.P[q][0])) == shape]
        if have and r.random() < 0.3:
            return r.choice(sorted(have))
        self.n += 1
        nm = r.choice(["W", "b", "E", "p", "sub.weight", "sub.bias", "a.b.c"])
        if nm in self.P:
            nm = f"{nm}{self.n}"
        self.P[nm] = self.vec(nm, m) if kind == "vec" else self.mat(n, m)
        return nm

    def expr(self, depth, muls):
        r, w = self.r, self.w
        if depth == 0:
            i = r.randint(1, self.nin)
            if i == self.ids:
                self.nids = 3
                return dict(k="rows", p=self.param("mat", 3, w), i=i)
            return dict(k="in", i=i)
        k = r.choice(["lin", "lin", "scale", "shift", "relu", "mode", "add"] + (["mul"] if muls else []))
        if k == "lin":
            e = self.expr(depth - 1, muls)
            W = self.param("mat", w, w)
            return dict(k="lin", W=W, b=self.param("vec", 1, w) if r.random() < 0.7 else "", s=[e])
        if k in ("scale", "shift"):
            e = self.expr(depth - 1, muls)
            return dict(k=k, p=self.param("vec", 1, w), s=[e])
        if k == "mode":
            return dict(k="mode", a=r.choice([1, 2, -1]), b=r.choice([3, 1, 0]), s=[self.expr(depth - 1, muls)])
        if k == "relu":
            return dict(k="relu", s=[self.expr(depth - 1, muls)])
        return dict(k=k, s=[self.expr(depth - 1, 0), self.expr(r.choice([0, depth - 1]), 0)])

    def build(self, P):
        import thinc.api as T
        import torch
        from thinc.shims import Shim

        r = self.r
        inner = {n: P[n] for n in self.inner_names}
        if self.script:
            net = torch.nn.Sequential(torch.nn.Linear(self.w, len(P["0.weight"])), torch.nn.ReLU(), torch.nn.Linear(len(P["0.weight"]), self.w))
            net.load_state_dict({n: torch.tensor(v[0] if n in self.vecs else v, dtype=torch.float32) for n, v in inner.items()})
            net = torch.jit.script(net)
        else:
            net = net_class()(self.M, inner, self.vecs, self.frozen, self.layout, self.buffers)
        if r.random() < 0.3:
            net.eval()
        native = None
        if self.around in ("before", "after"):
            native = T.Linear(self.w, self.w)
            native.set_param("W", np.array(P["native W"], dtype="float32"))
            native.set_param("b", np.array(P["native b"][0], dtype="float32"))
            if r.random() < 0.7:  # wrapped modules and models are numbered independently
                while Shim.global_id < native.id - 1:
                    Shim(None)
        if self.kind == "script":
            w = T.TorchScriptWrapper_v1(net)
        elif self.kind == "v1":
            w = T.PyTorchWrapper(net)
        elif self.kind == "v2":
            w = T.PyTorchWrapper_v2(net)
        elif self.kind == "v3":
            w = T.PyTorchWrapper_v3(net)
        else:
            w = T.PyTorchWrapper_v3(net, serialize_model=custom_save, deserialize_model=custom_load)
        if self.around == "twice":
            m = T.chain(w, w)
        elif self.around == "before":
            m = T.chain(native, w)
        elif self.around == "after":
            m = T.chain(w, native)
        elif self.around == "nested":
            m = T.chain(T.noop(), T.chain(w, T.noop()))
        else:
            m = w
        return m, w, native

    # -- observation
    def tensors(self, model):
        """All parameters of a model: name -> (array, gradient or None)."""
        out = {}
        for node in model.walk():
            for sh in node.shims:
                for n, q in [*sh._model.named_parameters(), *sh._model.named_buffers()]:
                    out[n] = (q.data.numpy(), None if q.grad is None else q.grad.numpy())
            if node.name == "linear":
                for n in ("W", "b"):
                    out["native " + n] = (node.get_param(n), node.get_grad(n) if node.has_grad(n) else None)
        return out

    def params(self, model):
        return {n: rows(a) for n, (a, _) in self.tensors(model).items()}

    def grads(self, model):
        return {n: dict(has=g is not None, v=[] if g is None else rows(g)) for n, (_, g) in self.tensors(model).items()}

    def finder(self, model, prefix=""):
        def find(weights, w, used):
            ts = self.tensors(model)
            at = weights.__array_interface__["data"][0]
            for n, (a, _) in ts.items():
                if a.__array_interface__["data"][0] == at and a.shape == weights.shape and a.size:
                    return prefix + n
            for n, (a, _) in ts.items():
                if prefix + n not in used and a.shape == weights.shape and rows(a) == w:
                    return prefix + n
            return "?"

        return find

    # -- data
    def lay(self, a):
        r = self.r
        k = r.random()
        if k < 0.6 or not a.size:
            return a
        if k < 0.7:
            b = np.zeros((a.shape[0], 2 * a.shape[1]), dtype=a.dtype)
            b[:, ::2] = a
            return b[:, ::2]
        if k < 0.8:
            return np.asfortranarray(a)
        if k < 0.9:
            return np.ascontiguousarray(a[::-1])[::-1]
        a = a.copy()
        a.flags.writeable = False
        return a

    def inputs(self):
        r = self.r
        n = r.choice([0, 1, 2, 2, 3, 4])
        dt = "float64" if not self.linear and r.random() < 0.2 else "float32"
        arrs = []
        for i in range(1, self.nin + 1):
            if i == self.ids:
                arrs.append(np.array([r.randrange(3) for _ in range(n)], dtype=r.choice(["int32", "int64", "uint8", "int16"])).reshape((n, 1)))
            else:
                arrs.append(self.lay(np.array([r.randint(-3, 3) for _ in range(n * self.w)], dtype=dt).reshape((n, self.w))))
        from thinc.types import ArgsKwargs

        if self.around:
            if not self.simple:
                return arrs, tuple(arrs)
            if self.around != "nested":
                # native layers take C-contiguous arrays
                arrs = [np.ascontiguousarray(a, dtype="float32") for a in arrs]
            return arrs, arrs[0]
        k = [f"x{j}" for j in range(len(arrs))]
        one = len(arrs) == 1
        how = r.choice(["array", "list"] if self.script else (["array"] * 3 if one else ["tuple"] * 3) + ["list", "args", "kw", "mixed", "dict", "nested"])
        if how == "array":
            return arrs, arrs[0]
        if how == "tuple":
            return arrs, tuple(arrs)
        if how == "list":
            return arrs, list(arrs)
        if how == "args":
            return arrs, ArgsKwargs(args=tuple(arrs), kwargs={"flag": 3} if r.random() < 0.3 else {})
        if how == "kw":
            return arrs, ArgsKwargs(args=(), kwargs=dict(zip(k, arrs)))
        if how == "mixed":
            return arrs, ArgsKwargs(args=tuple(arrs[:1]), kwargs=dict(zip(k[1:], arrs[1:])))
        if how == "dict":
            return arrs, dict(zip(k, arrs))
        return arrs, ([arrs[0], tuple(arrs[1:])],)

    def want(self, X):
        return form(tuple(X) if isinstance(X, list) else X)


def custom_save(module):
    import pickle

    return pickle.dumps({n: p.detach().numpy() for n, p in [*module.named_parameters(), *module.named_buffers()]})


def custom_load(module, data, device):
    import pickle

    import torch

    given = pickle.loads(data)
    with torch.no_grad():
        for n, p in [*module.named_parameters(), *module.named_buffers()]:
            p.copy_(torch.from_numpy(given[n]))
    return module


class Leave(Exception):
    pass


def blank(op):
    return dict(
        op=op, exc="", dirty=[], modes=[], P={}, G={}, X=[], Y=[], form="", want="", kinds=[], wantkinds=[], ds=[], dX=[], calls=[], Q={}, PO={},
    )


def history(r):
    from thinc.shims import Shim

    Shim.global_id = r.choice([0, 1, 5, 9, 11])
    p = Program(r)
    aliens = []  # optimizer keys of other modules
    case = dict(how=p.how, M=p.whole, P=dict(p.P), frozen=sorted(p.frozen), steps=[])
    model = p.model
    watch = Watch()
    pend = []
    scopes = contextlib.ExitStack()
    scope_list = []
    saved = None
    keys = {}
    single = p.layout == "one"
    can_back = [bool(reads(e)) or any(n not in p.frozen for n in names(e)) for e in p.whole]
    clean = True  # no gradients since the last update
    nmodes = lambda: p.wrapper.shims[0]._model.log if not p.script else []
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(r.choice([4, 8, 14])):
            ops = ["train"] * 4 + ["eval"] * 2 + ["save", "copy"]
            if not scope_list:
                ops += ["update"] * 2
            if pend:
                ops += ["back"] * 6
            if saved is not None:
                ops += ["other"] + (["load"] * 2 if clean and not scope_list else [])
            if keys or aliens or p.native is not None:
                ops += ["enter"]
            if scope_list:
                ops += ["exit"] * 2
            op = r.choice(ops)
            rec = blank(op)
            try:
                del nmodes()[:]
                if op in ("train", "eval"):
                    arrs, X = p.inputs()
                    for a in arrs:
                        if a.flags.writeable or a.size:
                            watch.add("the input", a)
                    if op == "train":
                        Y, back = model(X, is_train=True) if r.random() < 0.7 else model.begin_update(X)
                        pend.append((arrs, X, Y, back))
                    else:
                        Y = model.predict(X) if r.random() < 0.7 else model(X, is_train=False)[0]
                    ys = leaves(Y)
                    rec["X"] = [rows(a) for a in arrs]
                    rec["Y"] = [rows(y) for y in ys]
                    rec["form"] = form(Y)
                    rec["want"] = {"one": ".", "nested": "(.,(.,.))", "tuple": "(" + ",".join("." * len(p.M)) + ")"}[p.layout]
                    rec["modes"] = list(nmodes())
                    f = [a.dtype for a in arrs if a.dtype.kind == "f"]
                    rec["kinds"] = sorted({str(y.dtype) for y in ys}) if not (f and f[0] == "float64") else []
                    rec["wantkinds"] = ["float32"] if rec["kinds"] or not (f and f[0] == "float64") else []
                elif op == "back":
                    arrs, X, Y, back = pend.pop(r.randrange(len(pend)))
                    if single and not can_back[0]:
                        continue
                    if not any(can_back):
                        continue
                    ds = [p.lay(np.array([r.randint(-2, 2) for _ in range(y.size)], dtype=y.dtype).reshape(y.shape)) for y in leaves(Y)]
                    if p.native is not None or p.around == "twice":
                        ds = [np.ascontiguousarray(d) for d in ds]
                    for d in ds:
                        watch.add("the gradient", d)
                    dY = ds[0]
                    if p.layout == "tuple":
                        dY = tuple(ds) if r.random() < 0.7 else list(ds)
                    elif p.layout == "nested":
                        dY = (ds[0], tuple(ds[1:]))
                    clean = False
                    dX = back(dY)
                    got = leaves(dX)
                    rec["X"] = [rows(a) for a in arrs]
                    rec["ds"] = [rows(d) for d in ds]
                    rec["dX"] = [dict(none=g is None, v=[] if g is None else rows(g)) for g in got]
                    rec["form"], rec["want"] = form(dX), p.want(X)
                    if len(got) != len(arrs):
                        rec["form"] = "missing gradients: " + rec["form"]
                    rec["kinds"] = [str(g.dtype) for g, a in zip(got, arrs) if g is not None]
                    rec["wantkinds"] = [str(a.dtype) for g, a in zip(got, arrs) if g is not None]
                elif op == "update":
                    opt = Opt(r)
                    opt.find = p.finder(model)
                    model.finish_update(opt)
                    for q in opt.calls:
                        keys[q["nm"]] = q.pop("raw")
                    rec["calls"] = opt.calls
                    pend, clean = [], True
                elif op == "save":
                    how = r.choice(["bytes", "dict", "disk"])
                    if how == "bytes":
                        saved = ("bytes", model.to_bytes())
                    elif how == "dict":
                        saved = ("dict", copy.deepcopy(model.to_dict()))
                    else:
                        path = Path(tmp) / f"{len(case['steps'])}"
                        model.to_disk(path)
                        saved = ("disk", path)
                elif op == "load":
                    load(model, saved)
                    pend = []
                elif op == "other":
                    m2 = p.build({n: [[5] * len(v[0]) for _ in v] for n, v in p.P.items()})[0]
                    load(m2, saved)
                    rec["PO"] = p.params(m2)
                    arrs, X = p.inputs()
                    rec["X"] = [rows(a) for a in arrs]
                    rec["Y"] = [rows(y) for y in leaves(m2.predict(X))]
                elif op == "copy":
                    if p.script:
                        continue
                    sid = p.wrapper.shims[0].id
                    if r.random() < 0.5 and sid < 10**4:
                        Shim.global_id = max(Shim.global_id, sid * 10 + r.randrange(10) - 1)
                    m2 = model.copy()
                    rec["PO"] = p.params(m2)
                    arrs, X = p.inputs()
                    Y, back = m2(X, is_train=True)
                    if any(can_back):
                        d = [np.ones_like(y) for y in leaves(Y)]
                        back(d[0] if single else tuple(d) if p.layout == "tuple" else (d[0], tuple(d[1:])))
                    opt = Opt(r)
                    opt.find = p.finder(m2, "copy ")
                    m2.finish_update(opt)
                    tag = len(case["steps"])
                    aliens += [(q["nm"], q.pop("raw")) for q in opt.calls]
                    rec["calls"] = [dict(nm=f"{tag} {q['nm']}", key=q["key"], g=[], w=[]) for q in opt.calls]
                elif op == "enter":
                    have = dict(keys)
                    if p.native is not None:
                        have.update({"native " + n: (p.native.id, n) for n in ("W", "b")})
                    some = [n for n in have if r.random() < 0.6]
                    given = {}
                    for n in some:
                        Q = [[r.randint(-3, 3) for _ in row] for row in p.P[n]]
                        rec["Q"][n] = Q
                        given[have[n]] = np.array(Q[0] if n in p.vecs else Q, dtype="float32")
                    for n, key in aliens:
                        n = n[len("copy "):]
                        if r.random() < 0.7 and n in p.P and key not in given:
                            given[key] = np.array(p.P[n][0] if n in p.vecs else p.P[n], dtype="float32") + 1
                    given[(10**6, "W")] = np.zeros(3, dtype="float32")
                    cm = model.use_params(given)
                    cm.__enter__()
                    scope_list.append(cm)
                    pend = []
                elif op == "exit":
                    cm = scope_list.pop()
                    pend = []
                    if r.random() < 0.5:
                        cm.__exit__(None, None, None)
                    else:
                        e = Leave()
                        try:
                            if cm.__exit__(Leave, e, None):
                                rec["exc"] = "swallowed the exception"
                        except Leave:
                            pass
                rec["dirty"] = watch.dirty()
                rec["P"], rec["G"] = p.params(model), p.grads(model)
            except Exception as ex:
                rec["exc"] = type(ex).__name__ + " " + str(ex)[:60]
            case["steps"].append(rec)
            if rec["exc"]:
                break
            if any(abs(v) > 20 for m in rec["P"].values() for row in m for v in row):
                break
        for cm in reversed(scope_list):
            try:
                cm.__exit__(None, None, None)
            except Exception:
                pass
    return case


def load(model, saved):
    how, data = saved
    if how == "bytes":
        model.from_bytes(data)
    elif how == "dict":
        model.from_dict(data)
    else:
        model.from_disk(data)


def case(job):
    import torch

    torch.set_num_threads(1)
    r = random.Random(job[0])
    np.random.seed(r.randrange(2**31))
    return history(r)


def crash(reason):
    return dict(how="crash", M=[dict(k="in", i=1)], P={"x": [[0]]}, frozen=[], steps=[dict(blank("?"), exc=reason)])


def check(ctx):
    ctx.design("TorchMC", f"TorchMC_{ctx.tier}.cfg")
    jobs = [(f"{ctx.seed}-{i}",) for i in range(ctx.n(2500, 30000))]
    cases = [crash(c.reason) if isinstance(c, pool.Crash) else c for c in pool.pmap(case, jobs)]
    count = {}
    for c in cases:
        if not c["P"]:
            c["P"] = {"x": [[0]]}
            for s in c["steps"]:
                s["P"] = {"x": [[0]]}
                s["G"] = {"x": dict(has=False, v=[])}
                s["PO"] = s["PO"] if s["op"] not in ("other", "copy") else {"x": [[0]]}
        for s in c["steps"]:
            k = c["how"] + ": " + s["op"]
            count[k] = count.get(k, 0) + 1
    ctx.notes["steps"] = count
    for c in cases[:2]:
        ctx.sample(c)
    ctx.conform("TorchTrace", "TorchTrace.cfg", cases, plans=[list(j) for j in jobs])
