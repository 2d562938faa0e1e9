"""M22: matrices can be shared between threads."""

import os
import zlib

import numpy as np

from .. import env
from ..common import skeleton
from ..denote import audit
from ..gen import MATRIX_KINDS
from ..sched import Scheduler
from ..walk import objects
from .m12 import attempt, compare, filled, make_pool, next_step, warm

ID = "M22"
REPS = {"quick": 26, "thorough": 600}
BUDGET = {"quick": 110, "thorough": 780}
MIN_EVENTS = {t: {"schedules": 1500, "thread_switches": 10000, "results_compared": 5000} for t in REPS}
RULE = (
    "one case = two or three threads that run operations from a common list on the same matrices (caches cold or partly filled),"
    " under several schedules: a scheduler hands control from thread to thread before executed source lines of matrix and LAB,"
    " at one to four random lines or at every line with some probability. Every result must be what the operation"
    " gives alone on fresh operands (type, shape, data type, value as in M12), and all objects must pass the audit of M10"
    " afterwards. Distinct: distinct sequences of switches (threads and source lines)"
)
ASSUMPTIONS = ["threads are switched between source lines", "the random state, lazy shapes and the control-flow cache of LAB are not shared"]


def setup(ctx):
    import lab

    ctx.B.epsilon = 0
    ctx.sched = Scheduler([os.path.join(env.REPO, "matrix"), os.path.dirname(lab.__file__)])


def strata(tier):
    return MATRIX_KINDS[:-1] + ["mixed"] * 2 + ["pd"] * 14 + ["inv"] * 8


def run(ctx, rng, name, rep):
    B, m = ctx.B, ctx.m
    seed, warm_seed = int(rng.integers(2**40)), int(rng.integers(2**40))
    warmth = int(rng.integers(0, 3)) * int(rng.random() < 0.4)

    def fresh():
        g, items, cut = make_pool(ctx, name, seed)
        g.rng = np.random.default_rng(warm_seed)
        objs = [x.obj for x in items]
        for _ in range(warmth):
            warm(ctx, g, objs[:cut] if name == "pd" else objs, name == "pd")
        return g, items, cut, objs

    g, items, cut, objs = fresh()
    where = {}
    for i, x in enumerate(items):
        where.setdefault(id(x), i)
    main, aux = items[:cut], items[cut:]
    if rng.random() < 0.5:
        main = main[:1]  # they all work on the same one
    steps = []
    for _ in range(20):
        st = next_step(ctx, g, name, main, aux, where)
        if st is not None and len(steps) < 3:
            steps.append(st)
    if not steps:
        return
    refs = []
    for st in steps:
        _, _, _, objs = fresh()
        refs.append(attempt(lambda: st.run(*[objs[i] for i in st.args])))
    cond = max(getattr(x, "cond", 1.0) for x in items) ** 2 * 100
    num = int(rng.choice([2, 2, 2, 3]))
    for _ in range(6 if ctx.tier == "quick" else 12):
        _, _, _, objs = fresh()
        plans = [[int(k) for k in rng.integers(len(steps), size=rng.integers(1, 4))] for _ in range(num)]
        if rng.random() < 0.4:
            plans = [plans[0]] * num  # all do the same thing
        got = [[] for _ in plans]

        def job(i):
            for k in plans[i]:
                st = steps[k]
                got[i].append(attempt(lambda: st.run(*[objs[j] for j in st.args])))

        if rng.random() < 0.6:
            p = float(rng.choice([0.02, 0.1, 0.3]))
            coin = np.random.default_rng(int(rng.integers(2**40)))
            pick = lambda k: coin.random() < p  # noqa
        else:
            at = set(int(k) for k in (rng.random(int(rng.integers(1, 5))) ** 2 * 400))
            pick = lambda k: k in at  # noqa
        trace = ctx.sched.run([lambda i=i: job(i) for i in range(num)], np.random.default_rng(int(rng.integers(2**40))), pick)
        if ctx.sched.stalled:
            ctx.event("stalled_schedules")
            continue
        ctx.event("schedules", f"{zlib.crc32(repr(trace).encode())}" if trace else None)
        ctx.events["thread_switches"] += len(trace)
        desc = f"{num} threads on {', '.join(skeleton(x.desc) for x in main[:3])}; {len(trace)} switches"
        for i, plan in enumerate(plans):
            for k, r in zip(plan, got[i]):
                ctx.event("results_compared")
                compare(ctx, steps[k], f"{steps[k].desc[:300]} in thread {i} of {desc} {trace[:6]}", r, refs[k])
        for _, o in objects(objs, m):
            audit(ctx, o, desc, cond)
        if ctx.violations:
            return
    ctx.sample(desc + ": " + "; ".join(s.name for s in steps))
