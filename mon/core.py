"""The runner: executes monitored workloads in parallel worker processes, collects what the
monitors observed, and gives a three-valued verdict.

exit 0  nothing violated and the monitors observed at least the required events
exit 1  a violation (line `VIOLATION property=<id> replay=<path>`)
exit 2  inconclusive: the monitors were not reached, or the harness itself failed
"""

import collections
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
import warnings

from . import env

NWORKERS = int(os.environ.get("MON_WORKERS", "8"))
OUT = os.environ.get("MON_OUT", env.VERIF)
SKIP = object()


class CaseTimeout(BaseException):
    pass


class Ctx:
    """Per-process context: the library under test, counters, and recorded violations."""

    def __init__(self, check, seed, tier, jax=False):
        self.B, self.m = env.load(jax=jax)
        import numpy as np

        self.np = np
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        self.check = check
        self.prop = check.ID
        self.seed = seed
        self.tier = tier
        self.events = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.unsupported = collections.Counter()
        self.rejected = collections.Counter()
        self.case = None
        self.extra = {}

    # -- recording -------------------------------------------------------------------
    def event(self, kind, sig=None):
        self.events[kind] += 1
        if sig is not None:
            self.sigs.add(sig)

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text[:400])

    def fail(self, key, msg):
        self.events["violation"] += 1
        if len(self.violations) < 25:
            self.violations.append({"key": str(key), "case": self.case, "detail": str(msg)[:3000]})

    # -- executing library code --------------------------------------------------------
    def call(self, key, f, desc, kinds=(), nkron=None, may_reject=None):
        """Run `f`; classify exceptions. `kinds` are the operand kinds (for the table of
        unsupported operations), `nkron` the number of Kronecker products among all the
        operands (for the documented rejection of incompatible Kronecker products)."""
        try:
            return f()
        except CaseTimeout:
            raise
        except RecursionError as e:
            self.fail(f"{key}:RecursionError", f"{desc}: {e}")
        except BaseException as e:  # noqa
            name = type(e).__name__
            msg = str(e)
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if name == "NotFoundLookupError" and unsupported(key, kinds, msg, desc):
                self.unsupported[f"{key}({','.join(kinds)})"] += 1
                return SKIP
            if isinstance(e, AssertionError) and documented_kron_rejection(msg, nkron, desc):
                self.rejected[key] += 1
                return SKIP
            if may_reject is not None and may_reject(e):
                self.rejected[key] += 1
                return SKIP
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(f"{os.path.basename(t.filename)}:{t.lineno}" for t in tb[-4:][::-1])
            self.fail(f"{key}:{name}", f"{desc}: {name}: {msg[:300]} at {where}")
        return SKIP

    def numeric(self, key, res, desc):
        """Dense NumPy version of a result."""
        B, np = self.B, self.np
        if res is SKIP:
            return SKIP
        if isinstance(res, self.m.AbstractMatrix):
            d = self.call(f"dense[{key}]", lambda: B.dense(res), desc, ("result",), nkron=99)
            if d is SKIP:
                return SKIP
            if isinstance(d, self.m.AbstractMatrix):
                self.fail(f"{key}:DENSE", f"{desc}: dense() returned a {type(d).__name__}")
                return SKIP
            return np.asarray(d)
        a = np.asarray(res)
        if a.dtype == object:
            self.fail(f"{key}:OBJECT", f"{desc}: returned an object array")
            return SKIP
        return a

    def close(self, key, res, ref, tol, desc, shape=True):
        """The oracle: `res` denotes `ref` up to the entrywise tolerance `tol`."""
        np = self.np
        if res is SKIP:
            return False
        d = self.numeric(key, res, desc)
        if d is SKIP:
            return False
        ref = np.asarray(ref)
        if shape and d.shape != ref.shape:
            self.fail(
                f"{key}:SHAPE",
                f"{desc}: shape {d.shape}, expected {ref.shape} ({type(res).__name__})",
            )
            return False
        self.events["oracle_evaluations"] += 1
        err = np.abs(d - ref)
        ok = err <= tol
        if not np.all(ok):
            same = (d == ref) | (np.isnan(d) & np.isnan(ref))
            if np.all(ok | same):
                return True
            i = np.unravel_index(int(np.argmax(~(ok | same))), err.shape) if err.ndim else ()
            self.fail(
                f"{key}:VALUE",
                f"{desc}: {type(res).__name__} has {d[i]!r} at {tuple(int(k) for k in i)}, expected {ref[i]!r}"
                f" (max error {np.nanmax(err) if err.size else 0:.3g})",
            )
            return False
        return True


# Operations that no method exists for on the unchanged tree. Raising a lookup error is how
# the library says so; nothing is claimed about them. Tiled blocks are a container that
# only supports a few operations.
_TB_OPS = re.compile(
    r"broadcast_batch_to|`diag|`sum|`negative|`matmul|`isabstract|`inv|`cholesky|`solve|`diag_extract|`structured"
)
_UNSUP = {
    ("inv", "const"), ("inv", "lr"), ("inv", "lt"), ("inv", "ut"), ("inv", "zero"), ("inv", "tb"),
    ("pd_inv", "const"), ("pd_inv", "lr"), ("pd_inv", "zero"), ("pd_inv", "tb"),
    ("cholesky", "lt"), ("cholesky", "ut"), ("cholesky", "tb"),
    ("root", "lt"), ("root", "ut"), ("root", "tb"),
}


def unsupported(key, kinds, msg, desc=""):
    if ("tb" in kinds or "TiledBlocks" in desc) and _TB_OPS.search(msg[:60]):
        return True
    return any((key, k) in _UNSUP for k in kinds)


def documented_kron_rejection(msg, nkron, desc):
    """Kronecker products whose factors do not fit together are rejected by design."""
    if nkron is None:
        nkron = desc.count("Kronecker")
    return nkron >= 2 and ("asserted to be composable" in msg or "must be compatible" in msg)


# -- running ---------------------------------------------------------------------------
def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(ctx, check, name, rep):
    """Run one case deterministically."""
    np = ctx.np
    h = 0
    for ch in f"{check.ID}/{name}":
        h = (h * 131 + ord(ch)) % (2**31 - 1)
    rng = np.random.default_rng([ctx.seed & 0x7FFFFFFF, h, rep])
    np.random.seed(int(rng.integers(2**31)))
    ctx.case = {"stratum": name, "rep": rep}
    limit = getattr(check, "CASE_TIMEOUT", 60)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        check.run(ctx, rng, name, rep)
        ctx.events["cases"] += 1
    except CaseTimeout:
        ctx.fail("no answer", f"the case did not finish within {limit} s")
    except Exception as e:
        # An exception out of the library where the workload expects none (for example
        # when constructing an operand) is a violation; anything else is ours.
        frames = traceback.extract_tb(e.__traceback__)
        lib = os.path.join(os.path.realpath(env.REPO), "matrix") + os.sep
        if not any(os.path.realpath(t.filename).startswith(lib) for t in frames):
            raise
        if isinstance(e, AssertionError) and documented_kron_rejection(str(e), 99, ""):
            ctx.rejected["operand construction"] += 1
            return
        where = " <- ".join(f"{os.path.basename(t.filename)}:{t.lineno}" for t in frames[-5:][::-1])
        ctx.fail(f"exception:{type(e).__name__}", f"{type(e).__name__}: {str(e)[:300]} at {where}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(args):
    check_id, seed, tier, wid, nw, t_end = args
    check = importlib.import_module(f"mon.checks.{check_id.lower()}")
    cov = None
    try:
        signal.signal(signal.SIGALRM, _alarm)
        ctx = Ctx(check, seed, tier, jax=getattr(check, "JAX", False))
        from .coverage import LineCoverage

        if getattr(check, "LINE_COVERAGE", True):
            cov = LineCoverage(os.path.join(env.REPO, "matrix"))
            cov.start()
        if hasattr(check, "setup"):
            check.setup(ctx)
        strata = check.strata(tier)
        n = check.REPS[tier]
        k = 0
        stop = False
        for rep in range(n):
            for name in strata:
                k += 1
                if (k * 7919 + k // nw) % nw != wid:
                    continue
                if time.time() > t_end or len(ctx.violations) >= 12:
                    stop = True
                    break
                run_case(ctx, check, name, rep)
            if stop:
                break
        if hasattr(check, "finish"):
            check.finish(ctx, wid)
        if cov:
            cov.stop()
        return dict(
            events=dict(ctx.events),
            sigs=list(ctx.sigs),
            samples=ctx.samples,
            violations=ctx.violations,
            unsupported=dict(ctx.unsupported),
            rejected=dict(ctx.rejected),
            lines=cov.lines() if cov else [],
            extra=ctx.extra,
            stopped=stop,
        )
    except BaseException:  # noqa
        return dict(error=traceback.format_exc())


def load_known():
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


def write_replay(check, seed, tier, v):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    stem = re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{check.ID}_{v['key']}")[:80]
    path = os.path.join(d, f"{stem}_{seed}_{(v['case'] or {}).get('rep', 0)}.json")
    json.dump(
        {
            "property": check.ID,
            "seed": seed,
            "tier": tier,
            **v,
            "replay": f"cd /verif && ./check.sh {check.ID} --replay {path}",
        },
        open(path, "w"),
        indent=1,
    )
    return path


def main(argv):
    check_id = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    rest = argv[1:]
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check = importlib.import_module(f"mon.checks.{check_id.lower()}")
    if rest and rest[0] == "--replay":
        r = json.load(open(rest[1]))
        signal.signal(signal.SIGALRM, _alarm)
        ctx = Ctx(check, r["seed"], r["tier"], jax=getattr(check, "JAX", False))
        if hasattr(check, "setup"):
            check.setup(ctx)
        if r["case"]:
            run_case(ctx, check, r["case"]["stratum"], r["case"]["rep"])
        elif r.get("probe"):
            print("probe", r["probe"], "broken:", check.PROBES[r["probe"]](ctx))
        for v in ctx.violations:
            print(f"VIOLATION property={check.ID} replay={rest[1]}\n  {v['key']}: {v['detail']}")
        return 1 if ctx.violations else 0

    t0 = time.time()
    budget = float(os.environ.get("MON_BUDGET") or check.BUDGET[tier])
    mpctx = mp.get_context("fork" if not getattr(check, "JAX", False) else "spawn")
    nw = min(getattr(check, "NWORKERS", NWORKERS), NWORKERS)
    args = [(check_id, seed, tier, w, nw, t0 + budget) for w in range(nw)]
    results = []
    with mpctx.Pool(nw, maxtasksperchild=1) as pool:
        handles = [pool.apply_async(_worker, (a,)) for a in args]
        for h in handles:
            try:
                results.append(h.get(timeout=max(1, t0 + budget + 150 - time.time())))
            except mp.TimeoutError:
                results.append(dict(error="worker gave no answer"))
        pool.terminate()
    errors = [r["error"] for r in results if "error" in r]
    results = [r for r in results if "error" not in r]
    events = collections.Counter()
    uns, rej = collections.Counter(), collections.Counter()
    sigs, lines, violations, samples = set(), set(), [], []
    extra = {}
    for r in results:
        events.update(r["events"])
        uns.update(r["unsupported"])
        rej.update(r["rejected"])
        sigs.update(map(str, r["sigs"]))
        lines.update(map(tuple, r["lines"]))
        violations += r["violations"]
        samples += r["samples"]
        for k, v in r["extra"].items():
            if isinstance(v, (int, float)):
                extra[k] = extra.get(k, 0) + v
            elif isinstance(v, dict):
                extra.setdefault(k, {}).update(v)
            elif isinstance(v, (list, set)):
                extra[k] = sorted(set(extra.get(k, [])) | set(map(str, v)))

    # Known findings: each is decided by its own deterministic probe on the real code.
    known_lines = []
    probes = getattr(check, "PROBES", {})
    if not violations and not errors:
        ctx = None
        for f in load_known():
            if f["property"] != check.ID or f.get("status") == "fixed":
                continue
            if ctx is None:
                ctx = Ctx(check, seed, tier, jax=getattr(check, "JAX", False))
            try:
                broken = probes[f["probe"]](ctx)
            except Exception:
                broken = True
            if broken:
                known_lines.append(f"KNOWN-FINDING: property={check.ID} {f['what']}")

    wall = time.time() - t0
    minimum = check.MIN_EVENTS[tier] if hasattr(check, "MIN_EVENTS") else {"cases": 1}
    cov = {
        "evaluations": int(events.get("cases", 0)),
        "distinct_nontrivial": len(sigs),
        "rule": check.RULE,
        "samples": samples[:6],
        "events": dict(events),
        "matrix_lines_reached": len(lines),
        "unsupported_operations_skipped": dict(uns.most_common(40)),
        "documented_rejections": dict(rej),
        "stopped_at_budget": sum(bool(r["stopped"]) for r in results),
        "known_findings": known_lines,
        **extra,
    }
    ev = {
        "property": check.ID,
        "tier": tier,
        "seed": seed,
        "level": getattr(check, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, "evidence", f"{check.ID}.json"), "w"), indent=1)

    for line in known_lines:
        print(line)
    if violations:
        seen = set()
        for v in violations:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            if len(seen) > 8:
                break
            path = write_replay(check, seed, tier, v)
            print(f"VIOLATION property={check.ID} replay={path}")
            print(f"  {v['key']}: {v['detail'][:700]}")
        return 1
    if errors:
        print("INCONCLUSIVE: harness error\n" + errors[0])
        return 2
    for k, n in minimum.items():
        if events.get(k, 0) < n:
            print(f"INCONCLUSIVE: observed {events.get(k, 0)} of at least {n} '{k}' events")
            return 2
    print(
        f"OK property={check.ID} tier={tier} seed={seed} cases={events.get('cases', 0)}"
        f" distinct={len(sigs)} lines={len(lines)} wall={wall:.1f}s"
    )
    return 0
