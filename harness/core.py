"""Infrastructure shared by every check.

A check has two parts, both decided by TLC on specifications in /verif/spec:

* model checking: a small constant instance of the specification, explored
  exhaustively (``Check.model``);
* trace validation: a driver calls the real code in /repo, records what it
  observed as JSON, and a TLA+ trace specification steps through the recorded
  events, judging each with the operators of the specification
  (``Check.validate``).  The verdict is total: every trace ends with one
  ``VERDICT`` line that names the clauses which failed, if any.

Nothing in Python decides a property; Python only drives, records and reports.
"""

import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, ".work")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
REPO = "/repo"
TLA_CP = ":".join(
    [
        "/opt/veriftools/tla/tla2tools.jar",
        "/opt/veriftools/tla/CommunityModules-deps.jar",
    ]
)
NPROC = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    """The check itself failed: no verdict."""


class CaseTimeout(Exception):
    """The code under test did not return in time."""


# --------------------------------------------------------------------------
# running the code under test
# --------------------------------------------------------------------------


def _alarm(_sig, _frm):
    raise CaseTimeout("did not terminate")


_hangs = [0]


def guarded(fn, case, seconds, patient=False):
    """Run fn(case) with a time limit; return its value or {"error": ...}.

    Exceptions raised by the code under test are observations, not harness
    failures: they end up in the trace, and the specification judges them.
    After a call that did not end, later ones in this process get less time,
    so that a check of code that hangs still ends soon.
    """
    if _hangs[0] and not patient:
        seconds = min(seconds, 4 / _hangs[0])
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(case)
    except MachineryError:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as exc:  # pylint: disable=broad-except
        if isinstance(exc, CaseTimeout):
            _hangs[0] += 1
        tb = traceback.extract_tb(exc.__traceback__)
        where = ""
        for fr in reversed(tb):
            if "/flamingpy/" in fr.filename:
                where = f" at {os.path.basename(fr.filename)}:{fr.name}"
                break
        return {
            "error": f"{type(exc).__name__}: {str(exc)[:160]}{where}",
            "tb": traceback.format_exc()[-1500:],
        }
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _job(args):
    fn, chunk, seconds = args
    sys.stdout = open(os.devnull, "w")  # the code under test may print
    return [guarded(fn, c, seconds, patient=True) for c in chunk]


def pmap(fn, cases, seconds=30, chunk=None, procs=None):
    """Run fn over cases in worker processes (order kept, crashes reported)."""
    cases = list(cases)
    procs = procs or NPROC
    if chunk is None:
        chunk = max(1, min(50, len(cases) // (procs * 4) or 1))
    groups = [list(range(i, min(i + chunk, len(cases)))) for i in range(0, len(cases), chunk)]
    out = [None] * len(cases)
    todo = groups
    ctx = mp.get_context("fork")
    try:
        with ProcessPoolExecutor(procs, mp_context=ctx) as ex:
            futs = {ex.submit(_job, (fn, [cases[i] for i in g], seconds)): g for g in todo}
            for f in as_completed(futs):
                for i, r in zip(futs[f], f.result()):
                    out[i] = r
    except BrokenProcessPool:
        # A worker died (e.g. a crash in native code): isolate the culprits.
        for i, c in enumerate(cases):
            if out[i] is None:
                try:
                    with ProcessPoolExecutor(1, mp_context=ctx) as ex:
                        out[i] = ex.submit(_job, (fn, [c], seconds)).result()[0]
                except BrokenProcessPool:
                    out[i] = {"error": "process died"}
    return out


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found" in out
        # an expression of the specification has no value (overflow, an operator
        # applied outside its domain)
        self.undefined = rc not in (0, 124) and bool(re.search(
            r"Overflow when computing|Attempted to |The error occurred when TLC was evaluating", out))
        self.violated = bool(
            re.search(r"(Invariant|Temporal properties|Action property|Deadlock|PROPERTY).*(violated|reached)", out)
        )

    def verdicts(self):
        res = []
        for line in self.out.splitlines():
            if line.startswith('"VERDICT '):
                res.append(json.loads(json.loads(line)[len("VERDICT "):]))
        return res

    def tail(self, n=25):
        return "\n".join(self.out.splitlines()[-n:])


_counter = [0]


def tlc(module, cfg_text, env=None, workers=1, timeout=600, heap="3g", extra=(), simulate=None):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    _counter[0] += 1
    tag = f"{module}-{os.getpid()}-{_counter[0]}"
    wdir = os.path.join(WORK, tag)
    os.makedirs(wdir, exist_ok=True)
    cfg = os.path.join(wdir, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    cmd = [
        "java",
        "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
        f"-Xmx{heap}",
        "-Xss64m",
        "-Dtlc2.tool.impl.Tool.cdot=false",
        "-cp",
        TLA_CP,
        "tlc2.TLC",
        "-config",
        cfg,
        "-metadir",
        os.path.join(wdir, "states"),
        "-workers",
        str(workers),
        "-noGenerateSpecTE",
        "-nowarning",
    ]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(
            cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout
        )
        out, rc = p.stdout.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired as exc:
        out, rc = (exc.stdout or b"").decode(errors="replace") + "\nTIMEOUT", 124
    shutil.rmtree(wdir, ignore_errors=True)
    return TLCResult(rc, out, time.time() - t0)


# --------------------------------------------------------------------------
# a check run
# --------------------------------------------------------------------------


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.assumptions = [], [], []
        self.known_hits = []
        self.extra = {}
        self.known = load_findings(pid)
        self.dir = os.path.join(WORK, f"{pid}-{tier}-{os.getpid()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)

    # -- design level ------------------------------------------------------
    def model(self, module, cfg, workers=4, timeout=600, expect_violation=False, label=None, any_end=False,
              **kw):
        r = tlc(module, cfg, workers=workers, timeout=timeout, **kw)
        if any_end:  # simulation: no completion message
            if r.rc != 0 or "Error:" in r.out:
                raise MachineryError(f"simulation of {module} failed:\n{r.tail()}")
        elif not expect_violation and not r.ok:
            raise MachineryError(f"design model {module} not verified:\n{r.tail()}")
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("models", []).append(
            {"module": module, "label": label or module, "distinct": r.distinct,
             "generated": r.generated, "wall_s": round(r.wall, 1)}
        )
        return r

    # -- conformance -------------------------------------------------------
    def validate(self, module, traces, consts=None, key=None, shards=None, timeout=600, cfg=None,
                 heap="3g", cost=None):
        """Judge traces with spec/<module>.tla.

        traces: list of dicts; each must have an "id" (string) naming the case.
        A trace with an "error" key came from code that raised or hung.
        consts: shared data every shard needs (available as Data.consts).
        cost: function trace -> number, to balance the shards.
        """
        traces = list(traces)
        if not traces:
            raise MachineryError("no traces")
        for t in traces:
            t.pop("tb", None)
            t.setdefault("error", "")
        shards = shards or max(1, min(NPROC, len(traces)))
        cost = cost or (lambda t: 1)
        groups, loads = [[] for _ in range(shards)], [0.0] * shards
        for k in sorted(range(len(traces)), key=lambda k: -cost(traces[k])):
            g = min(range(shards), key=lambda s: loads[s])
            groups[g].append(k)
            loads[g] += cost(traces[k])
        groups = [sorted(g) for g in groups if g]
        cfg = cfg or "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        jobs = []
        for s, idx in enumerate(groups):
            _counter[0] += 1
            path = os.path.join(self.dir, f"{module}-{_counter[0]}.json")
            with open(path, "w") as f:
                json.dump(clean({"consts": consts or {}, "traces": [traces[k] for k in idx]}), f)
            jobs.append((idx, path))
        ctx = mp.get_context("fork")
        results = []
        with ProcessPoolExecutor(len(jobs), mp_context=ctx) as ex:
            futs = [
                ex.submit(tlc, module, cfg, {"TRACE_FILE": path}, 1, timeout, heap) for _, path in jobs
            ]
            results = [f.result() for f in futs]
        for (idx, path), r in zip(jobs, results):
            got = {}
            for v in r.verdicts():
                got[int(v["tid"])] = v["bad"]
            if r.undefined and not r.ok:
                self.undefined(module, cfg, [traces[i] for i in idx], consts, timeout, heap, path)
                continue
            if not r.ok or set(got) != set(range(1, len(idx) + 1)):
                raise MachineryError(
                    f"trace spec {module} gave no verdict for some traces of {path}:\n{r.tail(40)}"
                )
            self.states += r.distinct
            self.transitions += r.generated
            for t, bad in got.items():
                tr = traces[idx[t - 1]]
                self.traces += 1
                if bad:
                    self.report(tr, bad, module)
            try:
                os.remove(path)
            except OSError:
                pass
        if not self.samples or len(self.samples) < 6:
            self.samples += [clip(t) for t in traces[:: max(1, len(traces) // 3)][:3]]
        return results

    def undefined(self, module, cfg, traces, consts, timeout, heap, path):
        """The traces of a shard on which the specification is undefined, one by one.

        Such a trace holds values no behaviour of the specification has.
        """
        ctx, found = mp.get_context("fork"), 0
        for k in range(0, len(traces), NPROC):
            part = traces[k:k + NPROC]
            with ProcessPoolExecutor(NPROC, mp_context=ctx) as ex:
                futs = []
                for n, t in enumerate(part):
                    one = f"{path}.{k + n}"
                    with open(one, "w") as f:
                        json.dump(clean({"consts": consts or {}, "traces": [t]}), f)
                    futs.append((one, ex.submit(tlc, module, cfg, {"TRACE_FILE": one}, 1, timeout, heap)))
                for t, (one, fut) in zip(part, futs):
                    r = fut.result()
                    os.remove(one)
                    self.traces += 1
                    bad = [b for v in r.verdicts() for b in v["bad"]]
                    if r.undefined and not r.ok:
                        bad = ["outside-the-specification"]
                    elif not r.ok or not r.verdicts():
                        raise MachineryError(f"trace spec {module} gave no verdict for {t['id']}:\n{r.tail(40)}")
                    if bad:
                        found += 1
                        self.report(t, bad, module)
            if found >= NPROC:  # enough to tell
                return

    def report(self, trace, bad, module):
        clauses = sorted({b[-1] if isinstance(b, list) else str(b) for b in bad})
        for f in self.known:
            if f.matches(trace, clauses):
                self.known_hits.append((f, trace["id"]))
                return
        self.violations.append((trace, bad, clauses, module))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        rc = 0
        for f in {id(h[0]): h[0] for h in self.known_hits}.values():
            print(f"KNOWN-FINDING: property={self.pid} {f.text}")
        if self.violations:
            rc = 1
            rdir = os.path.join(EVID, "replay")
            os.makedirs(rdir, exist_ok=True)
            for n, (tr, bad, clauses, module) in enumerate(self.violations[:5]):
                path = os.path.join(rdir, f"{self.pid}-{self.tier}-{n}.json")
                with open(path, "w") as f:
                    json.dump(clean({"property": self.pid, "spec": module, "failed": bad,
                                     "clauses": clauses, "trace": tr}), f, indent=1)
                print(f"  {tr['id']}: {', '.join(clauses)[:300]} {tr.get('error', '')}".rstrip())
                print(f"VIOLATION property={self.pid} replay={path}")
            if len(self.violations) > 5:
                print(f"  ... {len(self.violations)} violating traces in all")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples[:6],
        }
        cov.update(self.extra)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(clean(ev), f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        print(
            f"{self.pid} {self.tier}: {self.traces} traces validated, {self.states} states, "
            f"{len(self.violations)} violations, {time.time() - self.t0:.1f}s"
        )
        return rc


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------


class Finding:
    """One line of known_findings.jsonl with status "known"."""

    def __init__(self, d):
        self.text, self.ids, self.clauses = d["text"], d["ids"], set(d["clauses"])

    def matches(self, trace, clauses):
        """The very input listed fails, and only in the clauses listed."""
        return trace["id"] in self.ids and set(clauses) <= self.clauses


def load_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip():
                    d = json.loads(line)
                    if d["property"] == pid and d["status"] == "known":
                        res.append(Finding(d))
    return res


# --------------------------------------------------------------------------
# helpers
# --------------------------------------------------------------------------


def clip(x, n=6, depth=0):
    """A readable, bounded copy of a trace for the evidence file."""
    if isinstance(x, dict):
        return {k: clip(v, n, depth + 1) for k, v in list(x.items())[:24] if k != "tb"}
    if isinstance(x, (list, tuple)):
        y = [clip(v, n, depth + 1) for v in list(x)[:n]]
        return y + [f"... {len(x)} in all"] if len(x) > n else y
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + "..."
    return x


def clean(x):
    """Plain JSON: numpy scalars to Python, no None, no floats that are not integers."""
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items() if v is not None}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [clean(v) for v in x]
    if isinstance(x, (bool, str)):
        return x
    if hasattr(x, "dtype"):
        if getattr(x, "ndim", 0):
            return [clean(v) for v in x.tolist()]
        x = x.item()
    return x


def as_int(x, what="value", lim=2**31 - 1):
    """x as an exact integer, or an error that names what was not one."""
    if isinstance(x, bool):
        return int(x)
    y = int(x)
    if y != x:
        raise ValueError(f"{what} is not an integer: {x!r}")
    if abs(y) > lim:
        raise ValueError(f"{what} out of range: {x!r}")
    return y


def pt(p):
    """A lattice coordinate as a list of integers."""
    return [as_int(c, "coordinate") for c in p]


def pts(ps):
    return [pt(p) for p in ps]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
    return h.hexdigest()[:16]
