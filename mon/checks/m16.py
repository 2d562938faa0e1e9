"""M16: operations do only the work that the structure allows, and factorise once.

A meter around NumPy's and SciPy's products and factorisations counts multiply-adds and
the size of the largest factorisation. Both are deterministic, so no timing is involved.
Memory is the subject of M15.
"""

import numpy as np

from ..work import Meter

ID = "M16"
REPS = {"quick": 90, "thorough": 600}
BUDGET = {"quick": 90, "thorough": 600}
MIN_EVENTS = {t: {"bounded": 4000, "orders": 1500, "repeats": 4000} for t in REPS}
CASE_TIMEOUT = 120
SLACK = 4
FACTORISATIONS = ("cholesky", "cho_factor", "svd", "eigh", "inv", "solve", "lu_factor", "qr", "eig", "pinv", "det", "slogdet")
RULE = (
    "one case = one operation on structured operands of a size at which dense work stands out: the multiply-adds and the largest"
    f" factorisation must stay within {SLACK} times the cost of the structured formula;"
    " products of three matrices and with a Kronecker product must cost"
    " no more than the cheaper order; and an operation repeated on the same positive-definite matrix must not factorise it again."
    " Distinct: distinct (operation, operand types, batch pattern, flags)"
)
ASSUMPTIONS = [
    "work is counted at NumPy's and SciPy's products, contractions and factorisations",
    "operations that convert to dense with a warning on the unchanged tree are outside the claim",
]


class Draw:
    def __init__(self, ctx, rng):
        self.B, self.m, self.rng = ctx.B, ctx.m, rng
        self.n1, self.n2 = int(rng.integers(14, 18)), int(rng.integers(15, 21))
        self.n = self.n1 * self.n2
        self.r, self.k = int(rng.integers(1, 4)), int(rng.integers(1, 6))
        self.batch = [(), (), (2,), (3,), (1,), (2, 2)][rng.integers(6)]
        self.b = int(np.prod(self.batch, dtype=int))

    def arr(self, *s):
        return self.rng.normal(size=self.batch + s)

    def pos(self, *s):
        return self.rng.uniform(0.5, 2, size=self.batch + s)

    def pd(self, n):
        a = self.rng.normal(size=self.batch + (n, n))
        return a @ np.swapaxes(a, -1, -2) / n + np.eye(n)

    def make(self, kind):
        m, n, r = self.m, self.n, self.r
        if kind == "D":
            return m.Diagonal(self.pos(n))
        if kind == "L":
            left = self.arr(n, r)
            form = self.rng.integers(3)
            if form == 0:
                return m.LowRank(left)
            mid = m.Dense(self.pd(r)) if form == 1 else m.Diagonal(self.pos(r))
            return m.LowRank(left, left, mid)
        if kind == "W":
            return m.Woodbury(self.make("D"), self.make("L"))
        if kind == "K":
            return m.Kronecker(m.Dense(self.pd(self.n1)), m.Dense(self.pd(self.n2)))
        if kind == "C":
            return m.Constant(self.pos(), n, n) if self.batch else m.Constant(float(self.pos()), n, n)
        if kind == "Z":
            return m.Zero(float, *self.batch, n, n)
        if kind == "X":
            x = self.arr(n, self.k)
            return x if self.rng.integers(2) else m.Dense(x)
        if kind == "F":
            return m.Dense(self.pd(n))
        if kind == "T":
            return m.LowerTriangular(np.tril(0.05 * self.arr(n, n)) + np.eye(n))
        if kind == "U":
            return m.UpperTriangular(np.triu(0.05 * self.arr(n, n)) + np.eye(n))
        raise ValueError(kind)


# Theoretical costs. `w` is what working with a rank r and k columns takes.
def w(d):
    return d.n * (d.r * d.r + d.r * d.k + d.k * d.k) + d.r**3


def kron_fact(d):
    return 3 * (d.n1**3 + d.n2**3)


def kron_apply(k):
    return lambda d: d.n * (d.n1 + d.n2) * k(d)


def const(c):
    return lambda d: c


def rank(d):
    return 2 * d.r + 2


def factor(d):
    return max(d.n1, d.n2)


Z0 = const(0)
# name: (operand kinds, function of B and the operands, cost, largest factorisation)
E = {}


def entry(name, kinds, f, cost, largest=Z0):
    assert name not in E
    E[name] = (kinds, f, cost, largest)


for op in ("inv", "pd_inv", "logdet", "cholesky", "root"):
    entry(f"{op}(D)", "D", lambda B, d, a, op=op: getattr(B, op)(a), Z0)
    entry(f"{op}(K)", "K", lambda B, d, a, op=op: getattr(B, op)(a), kron_fact, factor)
for op in ("inv", "pd_inv", "logdet", "schur", "pd_schur"):
    entry(f"{op}(W)", "W", lambda B, d, a, op=op: getattr(B, op)(a), w, rank)
for k in "DLWCZ":
    for op in ("trace", "sum", "transpose", "diag"):
        if op == "diag" and k in "CZ":
            continue
        entry(f"{op}({k})", k, lambda B, d, a, op=op: getattr(B, op)(a), w if k in "LW" else Z0)
    entry(f"mean({k})", k, lambda B, d, a: B.mean(a), w if k in "LW" else Z0)
    entry(f"neg({k})", k, lambda B, d, a: -a, Z0)
    entry(f"scale({k})", k, lambda B, d, a: a * 2.0, Z0)
    entry(f"sum axis({k})", k, lambda B, d, a: B.sum(a, axis=-1), w if k in "LW" else Z0)
    entry(f"shift({k})", k, lambda B, d, a: a + 2.0, Z0)
    entry(f"submatrix({k})", k, lambda B, d, a: B.submatrix(a, [1, 5, 7]), w)
    entry(f"take({k})", k, lambda B, d, a: B.take(a, [1, 5, 7]), w)
for op in ("trace", "sum", "transpose"):
    entry(f"{op}(K)", "K", lambda B, d, a, op=op: getattr(B, op)(a), Z0)
entry("neg(K)", "K", lambda B, d, a: -a, Z0)
entry("scale(K)", "K", lambda B, d, a: a * 2.0, Z0)
for k in "DLWK":
    cost = {"D": Z0, "L": w, "W": w, "K": kron_apply(lambda d: d.k)}[k]
    entry(f"{k}@X", k + "X", lambda B, d, a, x: B.matmul(a, x), cost)
    entry(f"{k}T@X", k + "X", lambda B, d, a, x: B.matmul(a, x, tr_a=True), cost)
    entry(f"XT@{k}", "X" + k, lambda B, d, x, a: B.matmul(x, a, tr_a=True), cost)
    entry(f"XT@{k}T", "X" + k, lambda B, d, x, a: B.matmul(x, a, tr_a=True, tr_b=True), cost)
    entry(f"{k}@C", k + "C", lambda B, d, a, x: B.matmul(a, x), w if k != "K" else Z0)
    entry(f"C@{k}", "C" + k, lambda B, d, a, x: B.matmul(a, x), w if k != "K" else Z0)
    entry(f"{k}@Z", k + "Z", lambda B, d, a, x: B.matmul(a, x), Z0)
    entry(f"Z@{k}", "Z" + k, lambda B, d, a, x: B.matmul(a, x), Z0)
    entry(f"{k}*C", k + "C", lambda B, d, a, x: a * x, Z0)
    entry(f"{k}*Z", k + "Z", lambda B, d, a, x: a * x, Z0)
    entry(f"{k}+Z", k + "Z", lambda B, d, a, x: a + x, Z0)
    entry(
        f"sample({k})", k, lambda B, d, a: B.sample(np.random.RandomState(0), a, num=d.k),
        {"D": Z0, "L": w, "W": w, "K": lambda d: kron_fact(d) + d.n * (d.n1 + d.n2) * d.k}[k],
        factor if k == "K" else rank,
    )
entry("C@X", "CX", lambda B, d, a, x: B.matmul(a, x), Z0)
entry("Z@X", "ZX", lambda B, d, a, x: B.matmul(a, x), Z0)
for a in "DLW":
    for b in "DLW":
        cost = Z0 if "D" in (a, b) else w
        entry(f"{a}@{b}", a + b, lambda B, d, x, y: B.matmul(x, y), cost)
        entry(f"{a}T@{b}", a + b, lambda B, d, x, y: B.matmul(x, y, tr_a=True), cost)
        entry(f"{a}@{b}T", a + b, lambda B, d, x, y: B.matmul(x, y, tr_b=True), cost)
        entry(f"{a}+{b}", a + b, lambda B, d, x, y: x + y, Z0)
        entry(f"{a}-{b}", a + b, lambda B, d, x, y: x - y, Z0)
        entry(f"{a}*{b}", a + b, lambda B, d, x, y: x * y, Z0 if a == b == "D" else w)
        # The union of two low-rank parts and a diagonal: rank r and r in every factor.
        entry(
            f"matmul_diag({a},{b})", a + b, lambda B, d, x, y: B.matmul_diag(x, y),
            lambda d: d.n * (2 * d.r + 1) ** 2,
        )
entry("K@K", "KK", lambda B, d, a, b: B.matmul(a, b), lambda d: d.n1**3 + d.n2**3)
entry("K*K", "KK", lambda B, d, a, b: a * b, Z0)
entry("D*K", "DK", lambda B, d, a, b: a * b, Z0)
entry("matmul_diag(D,K)", "DK", lambda B, d, a, b: B.matmul_diag(a, b), Z0)
entry("matmul_diag(K,K)", "KK", lambda B, d, a, b: B.matmul_diag(a, b), Z0)
entry("solve(D,X)", "DX", lambda B, d, a, x: B.solve(a, x), Z0)
entry("iqf(D,X)", "DX", lambda B, d, a, x: B.iqf(a, x), w)
entry("iqf_diag(D,X)", "DX", lambda B, d, a, x: B.iqf_diag(a, x), w)
entry("iqf(D,X,X)", "DXX", lambda B, d, a, x, y: B.iqf(a, x, y), w)
entry("iqf_diag(D,X,X)", "DXX", lambda B, d, a, x, y: B.iqf_diag(a, x, y), w)
entry("solve(W,X)", "WX", lambda B, d, a, x: B.solve(a, x), w, rank)
entry("iqf(W,X)", "WX", lambda B, d, a, x: B.iqf(a, x), w, rank)
entry("iqf_diag(W,X)", "WX", lambda B, d, a, x: B.iqf_diag(a, x), w, rank)
entry("iqf(W,X,X)", "WXX", lambda B, d, a, x, y: B.iqf(a, x, y), w, rank)
entry("iqf_diag(W,X,X)", "WXX", lambda B, d, a, x, y: B.iqf_diag(a, x, y), w, rank)
for a in "DLWCZ":
    entry(f"ratio({a},W)", a + "W", lambda B, d, x, y: B.ratio(x, y), w, rank)
for a in "DLCZ":
    entry(f"ratio({a},D)", a + "D", lambda B, d, x, y: B.ratio(x, y), w, rank)
entry("D@F", "DF", lambda B, d, a, x: B.matmul(a, x), Z0)
entry("F@D", "FD", lambda B, d, a, x: B.matmul(a, x), Z0)
entry("L@F", "LF", lambda B, d, a, x: B.matmul(a, x), lambda d: d.n**2 * d.r / 2)
entry("F@L", "FL", lambda B, d, a, x: B.matmul(a, x), lambda d: d.n**2 * d.r / 2)
entry("W@F", "WF", lambda B, d, a, x: B.matmul(a, x), lambda d: d.n**2 * d.r)
entry("F@W", "FW", lambda B, d, a, x: B.matmul(a, x), lambda d: d.n**2 * d.r)
entry("matmul_diag(F,F)", "FF", lambda B, d, a, x: B.matmul_diag(a, x), lambda d: d.n**2)

for k in "TU":
    solves = lambda d: d.n**2 * d.k
    entry(f"solve({k},X)", k + "X", lambda B, d, a, x: B.solve(a, x), solves)
    entry(f"cholsolve({k},X)", k + "X", lambda B, d, a, x: B.cholsolve(a, x), lambda d: 2 * d.n**2 * d.k)
    entry(f"{k}@X", k + "X", lambda B, d, a, x: B.matmul(a, x), solves)
    entry(f"{k}T@X", k + "X", lambda B, d, a, x: B.matmul(a, x, tr_a=True), solves)
    for op in ("logdet", "trace", "sum", "diag", "transpose"):
        entry(f"{op}({k})", k, lambda B, d, a, op=op: getattr(B, op)(a), Z0)
    entry(f"{k}+{k}", k + k, lambda B, d, a, b: a + b, Z0)
    entry(f"{k}*{k}", k + k, lambda B, d, a, b: a * b, Z0)
for k in "TUF":
    entry(f"{k}*D", k + "D", lambda B, d, a, b: a * b, Z0)
    entry(f"{k}+D", k + "D", lambda B, d, a, b: a + b, Z0)
    entry(f"{k}*C", k + "C", lambda B, d, a, b: a * b, Z0)
    entry(f"{k}@C", k + "C", lambda B, d, a, b: a @ b, Z0)
    entry(f"C@{k}", "C" + k, lambda B, d, a, b: a @ b, Z0)
    entry(f"matmul_diag({k},D)", k + "D", lambda B, d, a, b: B.matmul_diag(a, b), Z0)
    if k != "F":
        entry(f"{k}@D", k + "D", lambda B, d, a, b: a @ b, Z0)
        entry(f"D@{k}", "D" + k, lambda B, d, a, b: a @ b, Z0)
# A positive-definite matrix without structure is factorised once, and the factor is triangular.
one = lambda d: d.n**3 + d.n**2 * d.k
for op in ("cholesky", "logdet", "pd_inv"):
    entry(f"{op}(F)", "F", lambda B, d, a, op=op: getattr(B, op)(a), one, lambda d: d.n)
entry("sample(F)", "F", lambda B, d, a: B.sample(np.random.RandomState(0), a, num=d.k), one, lambda d: d.n)
for op in ("iqf", "iqf_diag"):
    entry(f"{op}(F,X)", "FX", lambda B, d, a, x, op=op: getattr(B, op)(a, x), one, lambda d: d.n)
    entry(f"{op}(F,X,X)", "FXX", lambda B, d, a, x, y, op=op: getattr(B, op)(a, x, y), one, lambda d: d.n)
entry("ratio(D,F)", "DF", lambda B, d, a, b: B.ratio(a, b), one, lambda d: d.n)
entry("ratio(F,F)", "FF", lambda B, d, a, b: B.ratio(a, b), one, lambda d: d.n)
# The quadratic form of one set of columns solves for those columns once.
SOLVES = ("solve_triangular", "cho_solve")
SOLVED = {"iqf(F,X)": 1, "iqf_diag(F,X)": 1, "iqf(F,X,X)": 2, "iqf_diag(F,X,X)": 2}
ONCE = {name: 1 for name in E if name.endswith(("(F)", "(F,X)", "(F,X,X)", "(D,F)"))} | {"ratio(F,F)": 2}

# Pairs of operations on one matrix: nothing that the first has factorised is factorised again.
PD_OPS = {
    "cholesky": lambda B, a, x: B.cholesky(a),
    "logdet": lambda B, a, x: B.logdet(a),
    "iqf": lambda B, a, x: B.iqf(a, x),
    "iqf2": lambda B, a, x: B.iqf(a, x, x),
    "iqf_diag": lambda B, a, x: B.iqf_diag(a, x),
    "pd_inv": lambda B, a, x: B.pd_inv(a),
    "ratio": lambda B, a, x: B.ratio(a, a),
    "sample": lambda B, a, x: B.sample(np.random.RandomState(1), a),
}
FIRSTS = {
    "F": ["cholesky", "logdet", "iqf", "iqf2", "iqf_diag", "pd_inv", "sample"],
    "W": ["logdet", "iqf", "iqf2", "iqf_diag", "pd_inv"],
    "K": ["cholesky", "logdet", "pd_inv", "sample"],
}


def strata(tier):
    out = [f"work {name}" for name in E]
    for kind, ops in FIRSTS.items():
        out += [f"again {kind} {a} {b}" for a in ops for b in ops]
    out += ["order three"] * 4 + ["order kron left"] * 3 + ["order kron right"] * 3
    return [s if out.count(s) == 1 else f"{s} {i}" for i, s in enumerate(out)]


def run(ctx, rng, name, rep):
    ctx.B.epsilon = 0
    {"work": run_work, "order": run_order, "again": run_again}[name.split(" ")[0]](ctx, rng, name)


def run_work(ctx, rng, name):
    name = name[5:]
    B = ctx.B
    kinds, f, cost, largest = E[name]
    d = Draw(ctx, rng)
    args = [d.make(k) for k in kinds]
    with Meter() as meter:
        f(B, d, *args)
    desc = f"{name} with n={d.n} ({d.n1}x{d.n2}), r={d.r}, k={d.k}, batch={d.batch}"
    bound = SLACK * d.b * cost(d)
    ctx.event("bounded", f"{name}|{d.batch}")
    ctx.sample(f"{desc}: {meter.flops} multiply-adds of {bound} allowed")
    if meter.flops > bound:
        ctx.fail(f"{name}:WORK", f"{desc}: {meter.flops} multiply-adds ({dict(meter.count)}); the structure allows {bound}")
    times = sum(meter.count[k] for k in FACTORISATIONS)
    if times > ONCE.get(name, 1000):
        ctx.fail(f"{name}:TWICE", f"{desc}: {times} factorisations: {dict(meter.count)}")
    times = sum(meter.count[k] for k in SOLVES)
    if times > SOLVED.get(name, 1000) * d.b:
        ctx.fail(f"{name}:SOLVES", f"{desc}: {times} solves: {dict(meter.count)}")
    if meter.largest > largest(d):
        ctx.fail(f"{name}:FACTORISATION", f"{desc}: factorised a matrix of size {meter.largest}; the structure needs {largest(d)}")


def run_order(ctx, rng, name):
    B, m = ctx.B, ctx.m
    what = name.split(" ")[1]
    batch = [(), (2,), (3,), (2, 1)][rng.integers(4)]
    nb = int(np.prod(batch, dtype=int))
    size = lambda: int(rng.integers(1, 13))

    def mat(r, c, tr=False):
        a = rng.normal(size=batch + ((c, r) if tr else (r, c)))
        return m.Dense(a) if rng.integers(2) else a

    for _ in range(8):
        flags = [bool(rng.integers(2)) for _ in range(3)]
        if what == "three":
            p, q, s, t = size(), size(), size(), size()
            a, b, c = mat(p, q, flags[0]), mat(q, s, flags[1]), mat(s, t, flags[2])
            orders = (p * q * s + p * s * t, q * s * t + p * q * t)
            f = lambda: B.matmul(a, b, c, tr_a=flags[0], tr_b=flags[1], tr_c=flags[2])
            desc = f"({p}x{q}) @ ({q}x{s}) @ ({s}x{t}), flags {flags}"
        else:
            lr, lc, rr, rc, k = size(), size(), size(), size(), int(rng.integers(1, 4))
            fa, fb = m.Dense(rng.normal(size=batch + (lr, lc))), m.Dense(rng.normal(size=batch + (rr, rc)))
            kron = m.Kronecker(fa, fb)
            side = name.split(" ")[2]
            tr = flags[0]
            if side == "left":
                inner = lr * rr if tr else lc * rc
                x = mat(inner, k, flags[1])
                f = lambda: B.matmul(kron, x, tr_a=tr, tr_b=flags[1])
            else:
                inner = lc * rc if tr else lr * rr
                x = mat(k, inner, flags[1])
                f = lambda: B.matmul(x, kron, tr_a=flags[1], tr_b=tr)
            # Applying the left factor first and the right factor first.
            if (side == "left") == tr:
                o = (lc, lr, rc, rr)
            else:
                o = (lr, lc, rr, rc)
            orders = (k * (o[0] * o[1] * o[3] + o[2] * o[3] * o[0]), k * (o[2] * o[3] * o[1] + o[0] * o[1] * o[2]))
            desc = f"Kronecker of {lr}x{lc} and {rr}x{rc} on the {side} with {k} columns, flags {flags[:2]}"
        with Meter() as meter:
            f()
        ctx.event("orders", f"{what}|{flags}|{np.sign(orders[0] - orders[1])}|{batch}")
        if meter.flops > nb * min(orders):
            ctx.fail(
                f"{what}:ORDER",
                f"{desc}, batch {batch}: {meter.flops} multiply-adds; the orders cost {[nb * o for o in orders]}",
            )


def run_again(ctx, rng, name):
    B, m = ctx.B, ctx.m
    _, kind, first, second = name.split(" ")[:4]
    d = Draw(ctx, rng)
    if kind == "F":
        d.n = d.n1
    a = d.make(kind)
    x = d.make("X") if kind != "K" else None
    PD_OPS[first](B, a, x)
    warm = {}
    PD_OPS[second](B, a, x)
    with Meter() as meter:
        PD_OPS[second](B, a, x)
    again = {k: v for k, v in meter.count.items() if k in ("cholesky", "cho_factor", "svd", "eigh")}
    desc = f"{second} twice after {first} of the same {type(a).__name__}, batch {d.batch}"
    ctx.event("repeats", f"{kind}|{first}|{second}|{d.batch}")
    if again:
        ctx.fail(f"{kind}:{second}:AGAIN", f"{desc}: factorised again: {again}")
    # And a first use after the other operation, which has the factor already.
    a = d.make(kind)
    PD_OPS[first](B, a, x)
    with Meter() as meter:
        PD_OPS[second](B, a, x)
    again = {k: v for k, v in meter.count.items() if k in ("cholesky", "cho_factor", "svd", "eigh")}
    ctx.event("repeats", f"{kind}|{first}|{second}|{d.batch}|first")
    if again:
        ctx.fail(f"{kind}:{first}:{second}:AGAIN", f"{desc} (first use): factorised again: {again}")
