"""Shared machinery of the checks: building /repo, running TLC, judging traces, evidence.

Every check follows the same scheme (see DESIGN.md):

  1. TLC explores the specification itself (the *design* run: invariants, action
     properties) and, where the check is driven by the specification, prints behaviours.
  2. The behaviours - TLC's and seeded random ones - are executed on the real code
     through its public API; what is observed is recorded as cases.
  3. TLC validates the recorded cases against the specification (the *conformance* run);
     the verdict names the case, the step and the failing clause.
"""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path("/repo")
OUT = VERIF / "out"
JARS = (
    "/opt/veriftools/tla/tla2tools.jar:"
    "/opt/veriftools/tla/CommunityModules-deps.jar"
)
INT_MAX = 2147483647
BADNUM = 2147483646  # what the encoder writes for a number it cannot represent


class Machinery(Exception):
    """The check itself failed: neither a pass nor a violation."""


# --------------------------------------------------------------------------- build
def _digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(f"{p}\0".encode())
        h.update(p.read_bytes() + b"\0")
    return h.hexdigest()


def ensure_build():
    """(Re)build the extensions when their sources differ from the last build."""
    shared = [REPO / "setup.py", REPO / "thinc" / "about.py"]
    for pat in ("*.pxd", "*.pxi", "*.hh", "*.h", "*.hpp"):
        shared += sorted((REPO / "thinc").rglob(pat))
    shared = [p for p in shared if p.is_file()]
    want = {}
    stale = False
    for pyx in sorted((REPO / "thinc").rglob("*.pyx")):
        mod = str(pyx.relative_to(REPO).with_suffix(""))
        want[mod] = _digest([pyx] + shared)
        if not list(pyx.parent.glob(pyx.stem + ".*.so")):
            stale = True
    try:
        have = json.loads((REPO / "build" / "vp-stamp.json").read_text())
    except (OSError, ValueError):
        have = {}
    if stale or have != want:
        r = subprocess.run(
            ["bash", "/opt/vp/build.sh"],
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            cwd="/repo",
        )
        if r.returncode != 0:
            sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
            raise Machinery("build of /repo failed")


# --------------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.prints = {}
        self.bad = []
        self.ok = False
        self.error = ""
        self.out = ""
        self.wall = 0.0


_PRINT = re.compile(r'^"?@@([A-Z]+) (.*?)"?$')


def _unq(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def tlc(
    module,
    cfg,
    *,
    env=None,
    workers=8,
    timeout=600,
    simulate=None,
    depth=None,
    seed=None,
    heap="6g",
    extra=(),
    allow_violation=False,
):
    """Run TLC on spec/<module>.tla with spec/<cfg> in a scratch directory."""
    scratch = tempfile.mkdtemp(prefix="vtlc-")
    try:
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = [
            "java",
            f"-Xmx{heap}",
            "-Xss64m",
            "-XX:+UseParallelGC",
            "-XX:TieredStopAtLevel=4",
            f"-DTLA-Library={SPEC}",
            "-cp",
            JARS,
            "tlc2.TLC",
            "-workers",
            str(workers),
            "-metadir",
            scratch,
            "-noGenerateSpecTE",
            "-deadlock",
            "-fp",
            "1",
            "-config",
            str(SPEC / cfg),
        ]
        if simulate:
            cmd += ["-simulate", f"num={simulate}"]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += list(extra)
        cmd += [str(SPEC / (module + ".tla"))]
        t0 = time.time()
        try:
            r = subprocess.run(
                cmd,
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                env=e,
                cwd=scratch,
                timeout=timeout,
            )
        except subprocess.TimeoutExpired:
            raise Machinery(f"TLC timed out on {module} {cfg}")
        res = TLCResult()
        res.wall = time.time() - t0
        res.out = out = r.stdout.decode(errors="replace")
        for line in out.splitlines():
            m = _PRINT.match(line)
            if m:
                kind, payload = m.group(1), m.group(2)
                if payload.startswith("{") or payload.startswith("["):
                    try:
                        payload = json.loads(_unq(payload))
                    except ValueError:
                        raise Machinery("unreadable TLC output: " + line[:300])
                res.prints.setdefault(kind, []).append(payload)
        res.bad = res.prints.get("BAD", [])
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        if m:
            res.generated = int(m[-1][0].replace(",", ""))
            res.distinct = int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            res.generated = int(m[-1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m:
            res.depth = int(m[-1])
        if r.returncode == 0:
            res.ok = True
        else:
            res.error = _first_error(out)
            if not allow_violation:
                raise Machinery(
                    f"TLC failed on {module} {cfg} (exit {r.returncode}): {res.error}"
                )
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _first_error(out):
    lines = out.splitlines()
    for i, line in enumerate(lines):
        if line.startswith("Error:"):
            return "\n".join(lines[i : i + 40])[:6000]
    return out[-2000:]


# --------------------------------------------------------------------------- context
class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(f"{prop}-{seed}")
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.replay_steps = None
        self.only = None  # replay mode: a recorded plan
        self.known_list = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- design run
    def design(self, module, cfg, **kw):
        r = tlc(module, cfg, **kw)
        self.states += r.distinct or r.generated
        self.transitions += r.generated
        self.notes.setdefault("design_runs", []).append(
            dict(
                module=module,
                cfg=cfg,
                distinct=r.distinct,
                generated=r.generated,
                depth=r.depth,
                wall_s=round(r.wall, 1),
            )
        )
        return r

    # -- conformance run
    def conform(self, module, cfg, cases, label=None, describe=None, plans=None, **kw):
        """Validate recorded cases. `cases` is a list of JSON-able records; the trace
        module prints @@BAD {"case":i,"step":j,"clause":"..."} for each failing case."""
        if not cases:
            return []
        bad_all = []
        total_states = 0
        chunk = kw.pop("chunk", 4000)
        for lo in range(0, len(cases), chunk):
            part = cases[lo : lo + chunk]
            f = tempfile.NamedTemporaryFile(
                "w", prefix="vcase-", suffix=".json", delete=False
            )
            try:
                json.dump(part, f)
                f.close()
                r = tlc(module, cfg, env={"CASES": f.name}, **kw)
            finally:
                os.unlink(f.name)
            total_states += r.distinct
            self.transitions += r.generated
            done = [p for p in r.prints.get("DONE", [])]
            if len(done) != 1 or int(done[0]) != len(part):
                raise Machinery(
                    f"conformance run of {module} judged {done} of {len(part)} cases"
                )
            for b in r.bad:
                b = dict(b)
                b["case"] = b["case"] - 1 + lo
                bad_all.append(b)
        self.states += total_states
        self.traces += len(cases)
        d = self.notes.setdefault("conformance", {})
        key = label or module
        d[key] = d.get(key, 0) + len(cases)
        for b in bad_all:
            case = cases[b["case"]]
            plan = plans[b["case"]] if plans else None
            self.report(
                b.get("clause", "?"),
                dict(label=key, step=b.get("step"), case=case, plan=plan, detail=b),
                describe(case, b) if describe else None,
            )
        return bad_all

    # -- verdicts
    def report(self, clause, payload, sig=None):
        """Record a failing clause; known findings are matched by signature."""
        sig = sig or clause
        for k in self.known_list:
            if k["signature"] == sig:
                if sig not in self.known:
                    self.known.append(sig)
                return
        self.violations.append((clause, payload))

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)


def load_known(prop):
    """known_findings.jsonl: {"property","signature","what"} or {"fixed":...}."""
    res = []
    p = VERIF / "known_findings.jsonl"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("property") == prop:
                res.append(d)
    return res


def shorten(x, n=2500):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."


def finish(ctx, level="model_checking"):
    wall = time.time() - ctx.t0
    (VERIF / "evidence").mkdir(exist_ok=True)
    ev = dict(
        property=ctx.prop,
        tier=ctx.tier,
        seed=ctx.seed,
        level=level,
        coverage=dict(
            states=ctx.states,
            transitions=ctx.transitions,
            traces_validated_against_impl=ctx.traces,
            samples=[shorten(s) for s in ctx.samples] or ["none"],
            detail=ctx.notes,
        ),
        assumptions=ctx.assumptions,
        wall_s=round(wall, 2),
        violations=len(ctx.violations),
    )
    (VERIF / "evidence" / f"{ctx.prop}.json").write_text(json.dumps(ev, indent=1))
    for sig in ctx.known:
        what = next(k["what"] for k in ctx.known_list if k["signature"] == sig)
        print(f"KNOWN-FINDING: property={ctx.prop} {what}")
    if ctx.violations:
        OUT.mkdir(exist_ok=True)
        path = OUT / f"{ctx.prop}-replay.json"
        clause, payload = ctx.violations[0]
        path.write_text(
            json.dumps(
                dict(
                    property=ctx.prop,
                    seed=ctx.seed,
                    tier=ctx.tier,
                    clause=clause,
                    first=payload,
                    all_clauses=sorted({c for c, _ in ctx.violations})[:50],
                    count=len(ctx.violations),
                ),
                indent=1,
                default=str,
            )
        )
        for c in sorted({c for c, _ in ctx.violations})[:20]:
            n = sum(1 for d, _ in ctx.violations if d == c)
            print(f"  failing clause: {c} ({n} cases)")
        print(f"VIOLATION property={ctx.prop} replay={path}")
        return 1
    print(
        f"OK property={ctx.prop} states={ctx.states} traces={ctx.traces} "
        f"wall={wall:.1f}s"
    )
    return 0


# --------------------------------------------------------------------------- encoding
def enc_int(v, scale=1):
    """A number as a TLC integer v*scale, BADNUM when it is not one."""
    try:
        f = float(v)
    except Exception:
        return BADNUM
    if f != f or f in (float("inf"), float("-inf")):
        return BADNUM
    x = f * scale
    r = round(x)
    if abs(r) >= 2**30:
        return BADNUM
    return int(r)
