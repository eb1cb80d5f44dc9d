"""C22: threads that create models, enter scopes and run models (spec/Threads.tla).

The program of every thread is fixed beforehand.  Three kinds of schedules: control is
handed over between steps only; also between, and inside of, the statements of thinc's code
(see instrument.py; these run in a process of their own); or the threads run freely with a tiny switch interval.
"""
import json
import os
import random
import subprocess
import sys
import tempfile
import threading
import time

import numpy as np

import core
import instrument
import pool
import zoo

SYMBOLS = [">>", "+", "@"]
ZOO = None
HUNG = False


def row(a):
    return [core.enc_int(v) for v in np.asarray(a).ravel()]


def rws(a):
    return [row(r) for r in a]


def backends():
    from thinc.api import NumpyOps, registry

    for nm in ("c22_a", "c22_b"):
        if nm not in registry.ops.get_all():
            registry.ops(nm)(type("Ops_" + nm, (NumpyOps,), {"name": nm}))
    return ["numpy", "c22_a", "c22_b"]


def mat(r, n, w):
    return np.array([r.randint(-3, 3) for _ in range(n * w)], dtype="float32").reshape((n, w))


# -------------------------------------------------------------------- programs
def program(r, t, size, mode, alloc):
    """Steps of thread t, valid whatever the others do.  alloc() gives a new model number."""
    out, stack, mine = [], [], []
    for k in range(size):
        w = dict(look=3, burst=2, create=2 if len(mine) < 3 else 0, zoo=1.5 if mode != "between" else 0.4)
        w["enter"] = 3 if len(stack) < 4 else 0
        w["leave"] = 2 if stack else 0
        w["set"] = 0.7 if any(s == "ops" for s in stack) else 0
        if mine:
            w.update(predict=2, begin=3, copy=0.5 if len(mine) < 4 else 0)
        m = r.choice(mine) if mine else None
        if m:
            w["back"] = 4 if m["xs"] else 0
            w["lend"] = 1.5 if m["depth"] < 2 else 0
            w["restore"] = 2 if m["depth"] else 0
            w["finish"] = 2 if not m["depth"] else 0
        op = r.choices(list(w), list(w.values()))[0]
        s = dict(op=op)
        if op == "enter":
            s["k"] = r.choice(["ops", "on", "val"])
            stack.append(s["k"])
            s["v"] = {
                "ops": r.choice(["numpy", "c22_a", "c22_b"]),
                "on": [r.choice(["", f"t{t}k{k}{sym}"]) for sym in SYMBOLS],
                "val": r.random() < 0.75,
            }[s["k"]]
        elif op == "leave":
            stack.pop()
            s["error"] = r.random() < 0.3
        elif op == "set":
            s["v"] = r.choice(["numpy", "c22_a", "c22_b"])
        elif op == "burst":
            s["what"] = [r.choice(["model", "model", "sub", "linear", "chain", "shim", "subshim", "shimcopy", "copy"]) for _ in range(r.choice([1, 2, 4]))]
        elif op == "zoo":
            s.update(name=r.choice(ZOO), seed=r.randrange(50), train=r.random() < 0.7, again=r.choice([1, 1, 3]))
        elif op == "create":
            wi, wo = r.choice([1, 2]), r.choice([1, 2])
            m = dict(no=alloc(), wi=wi, wo=wo, xs=[], depth=0)
            mine.append(m)
            s.update(m=m["no"], W=mat(r, wo, wi), b=mat(r, 1, wo)[0])
        elif op == "copy":
            new = dict(no=alloc(), wi=m["wi"], wo=m["wo"], xs=[], depth=0)
            s.update(m=new["no"], src=m["no"])
            mine.append(new)
        elif op in ("predict", "begin"):
            X = mat(r, r.choice([1, 2, 3]), m["wi"])
            s.update(m=m["no"], X=X)
            if op == "begin":
                m["n"] = m.get("n", 0) + 1
                m["xs"].append((m["n"], len(X)))
        elif op == "back":
            j, n = m["xs"].pop(r.randrange(len(m["xs"])))
            s.update(m=m["no"], j=j, X=mat(r, n, m["wo"]))
        elif op == "lend":
            m["depth"] += 1
            m["xs"] = []
            s.update(m=m["no"], v=dict(W=mat(r, m["wo"], m["wi"]), b=mat(r, 1, m["wo"])[0]))
        elif op == "restore":
            m["depth"] -= 1
            m["xs"] = []
            s.update(m=m["no"], error=r.random() < 0.3)
        elif op == "finish":
            m["xs"] = []
            s.update(m=m["no"])
        out.append(s)
    out.append(dict(op="look"))
    return out


# ------------------------------------------------------------------- schedules
class Sched:
    def __init__(self, mode, r, p):
        self.mode, self.r, self.p = mode, r, p
        self.dice = random.Random(r.random())
        self.cv = threading.Condition()
        self.turn = 0
        self.alive = []
        self.wait = 15 if mode == "steps" else 0.004

    def give(self, me):
        """Hand over to some thread; come back when it is our turn (or nobody answers)."""
        if self.mode == "free":
            return
        with self.cv:
            if not self.alive:
                return
            nxt = self.r.choice(self.alive)
            if nxt == me:
                return
            self.turn = nxt
            self.cv.notify_all()
            if not self.cv.wait_for(lambda: self.turn == me, timeout=self.wait):
                self.turn = me

    def join(self, t):
        with self.cv:
            self.alive.append(t)

    def begin(self, me):
        if self.mode != "free":
            with self.cv:
                self.cv.wait_for(lambda: self.turn == me, timeout=self.wait)

    def end(self, me):
        with self.cv:
            self.alive.remove(me)
            if self.alive:
                self.turn = self.r.choice(self.alive)
            self.cv.notify_all()

    def between(self):
        """A pause inside of thinc's code."""
        me = WHO.__dict__.get("t")
        if me is not None and self.dice.random() < self.p:
            self.give(me)


WHO = threading.local()


class Oops(Exception):
    pass


def leave(cm, error):
    """True if the exception that leaves the scope was swallowed."""
    if error:
        ex = Oops("left")
        try:
            return bool(cm.__exit__(Oops, ex, None))
        except Oops as e:
            return e is not ex
    cm.__exit__(None, None, None)
    return False


def digest(x):
    from thinc.types import Padded, Ragged

    if isinstance(x, Ragged):
        return digest(x.dataXd) + digest(x.lengths)
    if isinstance(x, Padded):
        return digest(x.data) + digest(x.lengths) + digest(x.indices)
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in digest(y)]
    return [np.array(x)] if isinstance(x, np.ndarray) else []


def close(a, b):
    return len(a) == len(b) and all(
        x.shape == y.shape and x.dtype == y.dtype and (np.allclose(x, y, rtol=1e-4, atol=1e-5, equal_nan=True)) for x, y in zip(a, b)
    )


def grad_of(Y, v=1):
    from thinc.types import Padded, Ragged

    if isinstance(Y, Ragged):
        return Ragged(np.full_like(Y.dataXd, v), Y.lengths)
    if isinstance(Y, Padded):
        return Padded(np.full_like(Y.data, v), Y.size_at_t, Y.lengths, Y.indices)
    if isinstance(Y, (list, tuple)):
        return type(Y)(grad_of(y, v) for y in Y)
    return np.full_like(Y, v)


def run_zoo(name, seed, train, again):
    m, data = zoo.build(name, seed)
    X = data(np.random.default_rng(seed + 2))
    out = []
    for _ in range(again):
        if train:
            Y, back = m.begin_update(X)
            out += digest(Y)
            try:
                dX = back(grad_of(Y))
            except TypeError:
                dX = None
            out += digest(dX)
            for node in m.walk():
                for nm in node.param_names:
                    if node.has_grad(nm):
                        out.append(np.array(node.get_grad(nm)))
        else:
            out += digest(m.predict(X))
    return out, m


class World:
    def __init__(self, plan, sched, wants):
        self.programs, self.parents = plan
        self.sched = sched
        self.wants = wants
        self.models = {}
        self.steps = []
        self.lock = threading.Lock()
        self.left = set()
        self.failed = False

    def start(self, t):
        self.sched.join(t)
        with self.lock:
            self.left.add(t)
        th = threading.Thread(target=self.run, args=(t,), daemon=True)
        th.start()

    def record(self, t, s, rec):
        with self.lock:
            self.steps.append(rec)
            self.failed = self.failed or bool(rec["exc"])

    def run(self, t):
        sched = self.sched
        sched.begin(t)
        WHO.t = t
        try:
            w = Worker(self, t)
            for s in [dict(op="start")] + self.programs[t]:
                rec = w.step(s)
                self.record(t, s, rec)
                if rec["exc"]:
                    break
                sched.give(t)
            if not rec["exc"]:
                w.wind_up()
        finally:
            WHO.t = None
            sched.end(t)
            with self.lock:
                self.left.discard(t)

    def finish(self, timeout):
        end = time.time() + timeout
        while time.time() < end and self.left:
            time.sleep(0.002)
            if self.failed:
                end = min(end, time.time() + 1)
                self.failed = False


class Worker:
    def __init__(self, world, t):
        from thinc.api import Linear, Model, Shim, chain

        self.w, self.t = world, t
        self.stack, self.lent = [], {}
        self.passes = {}

        class Sub(Model):
            pass

        class SubShim(Shim):
            pass

        f = lambda model, X, is_train: (X, lambda dY: dY)  # noqa: E731
        self.makers = dict(
            model=lambda: Model("m", f), sub=lambda: Sub("m", f), linear=lambda: Linear(1, 1),
            chain=lambda: chain(Linear(1, 1), Linear(1, 1)), copy=lambda: Linear(1, 1).copy(),
            shim=lambda: Shim(None), subshim=lambda: SubShim(None), shimcopy=lambda: Shim(None).copy(),
        )

    def step(self, s):
        rec = dict(t=self.t + 1, op=s["op"], exc="", ids=[], sids=[], mops=[])
        try:
            getattr(self, s["op"])(s, rec)
        except Exception as ex:
            rec["exc"] = type(ex).__name__ + " " + str(ex)[:60]
        return rec

    def start(self, s, rec):
        pass

    def wind_up(self):
        while self.stack:
            self.stack.pop().__exit__(None, None, None)
        for cms in self.lent.values():
            while cms:
                cms.pop().__exit__(None, None, None)

    def spawn(self, s, rec):
        rec["op"] = "start"
        self.w.start(s["u"])

    def made(self, m, rec, mops=True):
        for node in m.walk():
            rec["ids"].append(node.id)
            if mops:
                rec["mops"].append(node.ops.name)
            rec["sids"] += [sh.id for sh in node.shims]

    def enter(self, s, rec):
        from thinc.api import Model, data_validation, use_ops

        rec.update(k=s["k"], v=s["v"])
        if s["k"] == "ops":
            cm = use_ops(s["v"])
        elif s["k"] == "val":
            cm = data_validation(s["v"])
        else:
            cm = Model.define_operators({sym: (lambda a, b, v=v: v) for sym, v in zip(SYMBOLS, s["v"]) if v})
        cm.__enter__()
        self.stack.append(cm)

    def leave(self, s, rec):
        rec["swallowed"] = leave(self.stack.pop(), s["error"])

    def set(self, s, rec):
        from thinc.api import get_ops, set_current_ops

        rec["v"] = s["v"]
        set_current_ops(get_ops(s["v"]))

    def look(self, s, rec):
        from typing import Callable, Tuple

        from thinc.api import DataValidationError, Model, get_current_ops
        from thinc.types import Floats2d

        rec["ops"] = get_current_ops().name
        a, b = self.makers["model"](), self.makers["linear"]()
        self.made(a, rec)
        self.made(b, rec)
        rec["on"] = []
        for f in (lambda: a >> b, lambda: a + b, lambda: a @ b):
            try:
                rec["on"].append(f())
            except TypeError:
                rec["on"].append("")

        def forward(model: Model, X: Floats2d, is_train: bool) -> Tuple[Floats2d, Callable]:
            return X, lambda dY: dY

        m = Model("checked", forward)
        self.made(m, rec)
        m.initialize(X=np.zeros((2, 2), dtype="float32"))
        try:
            m.initialize(X=np.zeros((2,), dtype="int32"))
            rec["val"] = False
        except DataValidationError:
            rec["val"] = True

    def burst(self, s, rec):
        for k in s["what"]:
            x = self.makers[k]()
            if "shim" in k:
                rec["sids"].append(x.id)
            else:
                self.made(x, rec, mops=k != "copy")

    def zoo(self, s, rec):
        out, m = run_zoo(s["name"], s["seed"], s["train"], s["again"])
        self.made(m, rec, mops=False)  # with_cpu has a backend of its own
        rec["same"] = close(out, self.w.wants[s["name"], s["seed"], s["train"], s["again"]])
        rec["v"] = s["name"]

    # ------------------------------------------------------ models of our own
    def shows(self, s, rec):
        m = self.w.models[s["m"]]
        rec["m"] = s["m"]
        W, b = m.get_param("W"), m.get_param("b")
        rec["W"], rec["b"] = rws(W), row(b)
        rec["gW"] = rws(m.get_grad("W") if m.has_grad("W") else np.zeros_like(W))
        rec["gb"] = row(m.get_grad("b") if m.has_grad("b") else np.zeros_like(b))

    def create(self, s, rec):
        from thinc.api import Linear

        m = Linear(*s["W"].shape)
        m.set_param("W", s["W"].copy())
        m.set_param("b", s["b"].copy())
        self.w.models[s["m"]] = m
        self.made(m, rec)
        self.shows(s, rec)

    def copy(self, s, rec):
        m = self.w.models[s["m"]] = self.w.models[s["src"]].copy()
        rec["src"] = s["src"]
        self.made(m, rec, mops=False)
        self.shows(s, rec)

    def predict(self, s, rec):
        rec["X"] = rws(s["X"])
        rec["Y"] = rws(self.w.models[s["m"]].predict(s["X"]))
        self.shows(s, rec)

    def begin(self, s, rec):
        rec["X"] = rws(s["X"])
        Y, back = self.w.models[s["m"]].begin_update(s["X"])
        self.passes.setdefault(s["m"], []).append(back)
        rec["Y"] = rws(Y)
        self.shows(s, rec)

    def back(self, s, rec):
        rec["X"], rec["j"] = rws(s["X"]), s["j"]
        rec["Y"] = rws(self.passes[s["m"]][s["j"] - 1](s["X"]))
        self.shows(s, rec)

    def finish(self, s, rec):
        from thinc.api import SGD

        self.w.models[s["m"]].finish_update(SGD(1.0, L2=0.0, grad_clip=0.0, use_averages=False))
        self.shows(s, rec)

    def lend(self, s, rec):
        m = self.w.models[s["m"]]
        cm = m.use_params({(m.id, "W"): s["v"]["W"].copy(), (m.id, "b"): s["v"]["b"].copy()})
        cm.__enter__()
        self.lent.setdefault(s["m"], []).append(cm)
        rec["v"] = dict(W=rws(s["v"]["W"]), b=row(s["v"]["b"]))
        self.shows(s, rec)

    def restore(self, s, rec):
        rec["swallowed"] = leave(self.lent[s["m"]].pop(), s["error"])
        self.shows(s, rec)


def case(job):
    global ZOO, HUNG
    seed, mode = job
    if HUNG:  # this process still has threads that wait for something
        return dict(how=mode, nt=1, nm=1, steps=[])
    r = random.Random(seed)
    backends()
    if ZOO is None:
        ZOO = [nm for nm in zoo.catalogue() if "dropout" not in nm]
    nt = r.choice([2, 2, 3, 4])
    size = {"steps": 14, "between": r.choice([4, 8]), "free": 25}[mode]
    n = [0]

    def alloc():
        n[0] += 1
        return n[0]

    if r.random() < 0.3:  # nothing but models
        progs = [[dict(op="burst", what=[r.choice(["model", "sub", "shim", "chain", "shimcopy", "copy"]) for _ in range(4)]) for _ in range(size // 2)] for _ in range(nt)]
    else:
        progs = [program(r, t, size, mode, alloc) for t in range(nt)]
    parents = [None] + [r.randrange(t) for t in range(1, nt)]
    for t in range(1, nt):
        at = r.randint(0, 3) if r.random() < 0.7 else r.randint(0, len(progs[parents[t]]))
        progs[parents[t]].insert(at, dict(op="spawn", u=t))
    wants = {}
    for p in progs:
        for s in p:
            if s["op"] == "zoo":
                k = (s["name"], s["seed"], s["train"], s["again"])
                if k not in wants:
                    try:
                        wants[k] = run_zoo(*k)[0]
                    except Exception as ex:
                        return crash(f"{type(ex).__name__} {str(ex)[:60]} in {k[0]}, alone")
    sched = Sched(mode, random.Random(seed + "s"), r.choice([0.01, 0.05, 0.2, 0.5]))
    w = World((progs, parents), sched, wants)
    old = sys.getswitchinterval()
    if mode == "between":
        instrument.pause_with(sched.between)
    if mode == "free":
        sys.setswitchinterval(1e-6)
    try:
        w.start(0)
        w.finish(25)
    finally:
        sys.setswitchinterval(old)
        if mode == "between":
            instrument.pause_with(lambda: None)
    with w.lock:
        steps = list(w.steps)
    HUNG = bool(w.left)
    if w.left and not any(s["exc"] for s in steps):
        steps.append(dict(t=1, op="waiting", exc="does not come to an end", ids=[], sids=[], mops=[]))
    return dict(how=mode, nt=nt, nm=max(1, n[0]), steps=steps)


def crash(reason):
    return dict(how="crash", nt=1, nm=1, steps=[dict(t=1, op="crash", exc=reason, ids=[], sids=[], mops=[])])


def run(jobs):
    return [crash(c.reason) if isinstance(c, pool.Crash) else c for c in pool.pmap(case, jobs)]


def instrumented(jobs):
    with tempfile.TemporaryDirectory() as d:
        src, dst = os.path.join(d, "jobs.json"), os.path.join(d, "cases.json")
        with open(src, "w") as f:
            json.dump(jobs, f)
        subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), src, dst], check=True)
        with open(dst) as f:
            return json.load(f)


def check(ctx):
    ctx.design("ThreadsMC", f"ThreadsMC_{ctx.tier}.cfg")
    jobs = []
    for mode, q, th in (("steps", 1500, 20000), ("between", 1200, 20000), ("free", 600, 8000)):
        jobs += [(f"{ctx.seed}-{mode}-{i}", mode) for i in range(ctx.n(q, th))]
    plain = [j for j in jobs if j[1] != "between"]
    apart = [j for j in jobs if j[1] == "between"]
    jobs = plain + apart
    cases = run(plain) + instrumented(apart)
    count = {}
    for c in cases:
        for s in c["steps"]:
            k = f"{c['how']} {s['op']}"
            count[k] = count.get(k, 0) + 1
    ctx.notes["steps"] = dict(sorted(count.items()))
    ctx.notes["models created"] = sum(len(s["ids"]) for c in cases for s in c["steps"])
    for c in cases[:1]:
        ctx.sample(c)
    ctx.conform("ThreadsTrace", "ThreadsTrace.cfg", cases, plans=[list(j) for j in jobs])


if __name__ == "__main__":
    instrument.install("thinc")
    with open(sys.argv[1]) as f:
        todo = [tuple(j) for j in json.load(f)]
    done = run(todo)
    with open(sys.argv[2], "w") as f:
        json.dump(done, f)
