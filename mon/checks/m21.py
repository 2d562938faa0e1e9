"""M21: samples have the right distribution, use fresh noise, and depend on the random state only."""

import numpy as np

from ..common import EPS, skeleton
from ..core import SKIP
from ..genpd import GenPD
from ..gen import mT

ID = "M21"
JAX = True
NWORKERS = 8
CASE_TIMEOUT = 120
REPS = {"quick": 24, "thorough": 420}
BUDGET = {"quick": 130, "thorough": 760}
MIN_EVENTS = {t: {"noise_elements": 3000 if t == "quick" else 20000, "covariances_compared": 500, "jax_samples": 60} for t in REPS}
RULE = (
    "one case = one covariance matrix; the random state is replaced by a recorder that hands out chosen noise, so that the linear"
    " map from noise to sample is observed column by column: its outer product must be the matrix, every element of noise must"
    " reach one matrix of the batch and one sample only, and no noise must give a zero sample. With real random states (NumPy and"
    " JAX): estimated covariances, also between batch entries, columns and successive calls, within 7 standard errors; equal"
    " states give equal samples, also on used operands; only the state that is given (or the global one if none is) advances."
    " Distinct: distinct (operand types incl. nested, batch pattern, number of samples)"
)
ASSUMPTIONS = ["the recorder serves randn, standard_normal and normal", "the Cholesky jitter of LAB is zero"]


class Recorder(np.random.RandomState):
    """Hands out zero noise, but for one element; counts the elements."""

    hot = None
    total = 0
    shapes = ()

    def __new__(cls):
        return super().__new__(cls)

    def __init__(self):
        super().__init__(0)
        self.total = 0
        self.shapes = []

    def _serve(self, shape):
        n = int(np.prod(shape)) if shape else 1
        out = np.zeros(n)
        if self.hot is not None and self.total <= self.hot < self.total + n:
            out[self.hot - self.total] = 1
        self.total += n
        self.shapes.append(tuple(shape))
        return out.reshape(shape) if shape else out[0]

    def randn(self, *shape):
        return self._serve(shape)

    def standard_normal(self, size=None):
        return self._serve(() if size is None else np.atleast_1d(size))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._serve(() if size is None else np.atleast_1d(size))


def setup(ctx):
    ctx.B.epsilon = 0
    import jax

    ctx.jax = jax


KINDS = ["dense", "np", "diag", "wb", "wb", "kron", "zero", "const", "lr", "lr"]


def strata(tier):
    return ["map " + k for k in KINDS for _ in range(3)] + ["real " + k for k in KINDS] + ["jax " + k for k in KINDS if k != "np"]


def covariance(ctx, g, k, n, batch):
    if k in ("zero", "const", "lr") and not (k == "lr" and g.chance(0.3)):
        return g.psd_matrix(k, n, batch)
    return g.pd_matrix(k, n, batch, 0, 1.0)


def run(ctx, rng, name, rep):
    how, k = name.split(" ")
    B, m = ctx.B, ctx.m
    g = GenPD(rng, m, "f8" if how == "jax" else str(rng.choice(["f8", "f8", "f4"])))
    n = int(rng.integers(8, 14)) if rng.random() < 0.03 else int(rng.integers(1, 6))
    batch = g.batch(2)
    if how != "map":
        batch = batch[:1]
    x = covariance(ctx, g, k, n, batch)
    if how == "jax":
        return jax_sample(ctx, rng, g, x)
    if how == "real":
        return real_sample(ctx, rng, g, x)
    num = int(g.pick([1, 1, 2, 3]))
    full = x.val.shape[:-2]
    desc = f"sample({x.desc}, num={num})"

    def draw(hot):
        st = Recorder()
        st.hot = hot
        r = ctx.call("sample", lambda: B.sample(st, x.obj, num=num) if num > 1 or hot is None or hot % 2 else B.sample(st, x.obj), desc, (x.kind,), nkron=99)
        return SKIP if r is SKIP else (st, r)

    r = draw(None)
    if r is SKIP:
        return
    st, out = r
    if not (isinstance(out, tuple) and len(out) == 2 and out[0] is st):
        return ctx.fail("sample:STATE", f"{desc}: does not return the random state and a sample")
    if not ctx.close("sample", out[1], np.zeros(full + (n, num)), 0.0, desc + " without noise"):
        return
    if np.asarray(B.dense(out[1])).dtype != g.np_dtype:
        ctx.fail("sample:DTYPE", f"{desc}: data type {np.asarray(B.dense(out[1])).dtype}")
    total = st.total
    if total > 900:
        return
    cov = np.zeros(x.val.shape + (num,))
    for e in range(total):
        r = draw(e)
        if r is SKIP:
            return
        s = ctx.numeric("sample", r[1][1], desc).astype(float)
        ctx.events["noise_elements"] += 1
        hit = np.any(s != 0, axis=-2)  # batch, columns
        if np.sum(hit) > 1:
            ctx.fail("sample:SHARED", f"{desc}: one element of noise reaches {int(np.sum(hit))} samples (batch entries or columns): {np.argwhere(hit).tolist()[:6]}")
            return
        cov += np.einsum("...ic,...jc->...ijc", s, s)
    eps = EPS["f4"] if g.dtype == "f4" else EPS["f8"]
    cond = getattr(x, "cond", 1.0)
    tol = 2e4 * eps * cond * np.max(np.abs(x.mag), axis=(-1, -2), keepdims=True) + 1e-290
    for c in range(num):
        if not ctx.close("sample", cov[..., c], x.val, tol, f"covariance of column {c} of {desc}"):
            return
        ctx.event("covariances_compared", f"{skeleton(x.desc)}|{num}|{total}")
    ctx.sample(f"{desc}: {total} elements of noise in {st.shapes}")


def stat(ctx, key, s, x, desc):
    """`s` is batch, n, num: real samples."""
    num = s.shape[-1]
    v = np.broadcast_to(x.val, s.shape[:-2] + x.val.shape[-2:]).reshape(-1, *x.val.shape[-2:])
    s = s.reshape(-1, s.shape[-2], num)
    nb, n = s.shape[:2]
    big = s.reshape(nb * n, num)
    d = np.einsum("bii->bi", v).reshape(-1)
    ref = np.zeros((nb, n, nb, n))
    for i in range(nb):
        ref[i, :, i, :] = v[i]
    ref = ref.reshape(nb * n, nb * n)
    est = big @ big.T / num
    se = np.sqrt(np.maximum(np.outer(d, d) + ref**2, 0) / num) * 7 + 1e-9 * np.max(d, initial=0) + 1e-290
    ctx.close(key, est, ref, se, "estimated covariance (all batch entries) of " + desc)
    lag = big[:, 1:] @ big[:, :-1].T / (num - 1)
    se = np.sqrt(np.outer(d, d) / (num - 1)) * 7 + 1e-9 * np.max(d, initial=0) + 1e-290
    ctx.close(key, lag, np.zeros_like(lag), se, "estimated covariance of successive samples of " + desc)
    mean = np.mean(big, axis=1)
    ctx.close(key, mean, 0 * mean, 7 * np.sqrt(d / num) + 1e-9 * np.max(d, initial=0) + 1e-290, "estimated mean of " + desc)
    four = np.mean(big**4, axis=1)
    ctx.close(key, four, 3 * d**2, 8 * np.sqrt(96 / num) * d**2 * 1.3 + 1e-9 * np.max(d, initial=0) ** 2 + 1e-290, "estimated fourth moment of " + desc)
    ctx.event("covariances_compared", f"{key}|{skeleton(x.desc)}")


def same_state(a, b):
    return repr(a) == repr(b)


def real_sample(ctx, rng, g, x):
    B = ctx.B
    seed = int(rng.integers(2**31))
    num = 20000
    desc = f"sample({x.desc})"
    dt = g.np_dtype

    def st():
        return B.create_random_state(dt, seed=seed)

    def snap(s):
        t = s.get_state()
        return (t[1].tobytes(), t[2:])

    glob = B.global_random_state(dt)
    before = snap(glob)
    first = ctx.call("sample", lambda: B.sample(st(), x.obj, num=num), desc, (x.kind,), nkron=99)
    if first is SKIP:
        return
    if snap(glob) != before:
        ctx.fail("sample:GLOBAL", f"{desc} with a random state of its own advances the global one")
    s1 = np.asarray(B.dense(first[1]))
    stat(ctx, "numpy", s1.astype(float), x, desc)
    again = B.sample(st(), x.obj, num=num)
    if np.asarray(B.dense(again[1])).tobytes() != s1.tobytes():
        ctx.fail("sample:REPEAT", f"{desc}: another sample from an equal random state on a used operand")
    zero = not np.any(x.val)
    nxt = np.asarray(B.dense(B.sample(again[0], x.obj, num=num)[1]))
    if not zero and np.array_equal(nxt, s1):
        ctx.fail("sample:STATE", f"{desc}: the returned random state gives the same sample again")
    # The global state.
    B.set_random_seed(seed % 1000)
    a = np.asarray(B.dense(B.sample(x.obj, num=num)))
    after = snap(glob)
    b = np.asarray(B.dense(B.sample(x.obj, num=num)))
    B.set_random_seed(seed % 1000)
    c = np.asarray(B.dense(B.sample(x.obj, num=num)))
    d = np.asarray(B.dense(B.sample(B.create_random_state(dt, seed=seed % 1000), x.obj, num=num)[1]))
    if a.tobytes() != c.tobytes() or snap(glob) != after:
        ctx.fail("sample:SEED", f"{desc}: the global seed does not determine the sample")
    if a.tobytes() != d.tobytes():
        ctx.fail("sample:SEED", f"{desc}: the global state and an equal state of one's own give different samples")
    if not zero:
        if np.array_equal(a, b):
            ctx.fail("sample:ADVANCE", f"{desc}: two successive samples are the same")
        both = np.einsum("...ik,...jk->...ij", a.astype(float), b.astype(float)) / num
        dd = np.einsum("...ii->...i", x.val)
        ctx.close("numpy", both, 0 * both, 7 * np.sqrt(dd[..., :, None] * dd[..., None, :] / num) + 1e-9 * np.max(dd) + 1e-290,
                  "covariance of two successive calls of " + desc)
    one = B.sample(st(), x.obj)[1]
    ctx.close("numpy", 0 * np.asarray(B.dense(one)), np.zeros(x.val.shape[:-1] + (1,)), 0, desc + " without a number of samples")


def to_jax(ctx, obj):
    """The same matrix with JAX arrays inside."""
    import jax.numpy as jnp

    m = ctx.m
    t = type(obj).__name__
    f = lambda o: to_jax(ctx, o)  # noqa
    if isinstance(obj, np.ndarray):
        return jnp.asarray(obj)
    if t == "Zero":
        return m.Zero(jnp.float64, *obj.batch, obj.rows, obj.cols)
    if t in ("Dense", "LowerTriangular", "UpperTriangular"):
        return getattr(m, t)(jnp.asarray(obj.mat))
    if t == "Diagonal":
        return m.Diagonal(jnp.asarray(obj.diag))
    if t == "Constant":
        return m.Constant(jnp.asarray(obj.const), obj.rows, obj.cols)
    if t == "LowRank":
        mid = obj.__dict__.get("_middle")
        left = f(obj.left)
        return m.LowRank(left, left if obj.right is obj.left else f(obj.right), *([f(mid)] if mid is not None else []))
    if t == "Woodbury":
        return m.Woodbury(f(obj.diag), f(obj.lr))
    if t == "Kronecker":
        return m.Kronecker(f(obj.left), f(obj.right))
    raise NotImplementedError(t)


def jax_sample(ctx, rng, g, x):
    import jax.numpy as jnp

    B = ctx.B
    obj = to_jax(ctx, x.obj)
    num = 4000
    key = ctx.jax.random.PRNGKey(int(rng.integers(2**31)))
    desc = f"sample of JAX({x.desc})"
    before = np.asarray(key).copy()
    gl = np.asarray(B.jax_global_random_state).copy()
    r = ctx.call("sample", lambda: B.sample(key, obj, num=num), desc, (x.kind,), nkron=99)
    if r is SKIP:
        return
    new, s = r
    s = np.asarray(B.dense(s)).astype(float)
    ctx.events["jax_samples"] += 1
    if s.shape != x.val.shape[:-1] + (num,):
        return ctx.fail("jax:SHAPE", f"{desc}: shape {s.shape}")
    stat(ctx, "jax", s, x, desc)
    if not np.array_equal(np.asarray(key), before):
        ctx.fail("jax:STATE", f"{desc}: the given key changed")
    if not np.array_equal(np.asarray(B.jax_global_random_state), gl):
        ctx.fail("jax:GLOBAL", f"{desc}: the global key changed")
    if np.array_equal(np.asarray(new), before):
        ctx.fail("jax:STATE", f"{desc}: returns the key it was given")
    s2 = np.asarray(B.dense(B.sample(key, obj, num=num)[1]))
    if not np.array_equal(s, s2):
        ctx.fail("jax:REPEAT", f"{desc}: another sample from an equal key")
    nxt = np.asarray(B.dense(B.sample(new, obj, num=num)[1]))
    dd = np.einsum("...ii->...i", x.val)
    both = np.einsum("...ik,...jk->...ij", s, nxt) / num
    ctx.close("jax", both, 0 * both, 7 * np.sqrt(dd[..., :, None] * dd[..., None, :] / num) + 1e-9 * np.max(dd) + 1e-290,
              "covariance of samples from a key and the returned key, " + desc)
    if x.kind == "zero":
        # A zero matrix of a JAX data type is indistinguishable from one of NumPy's.
        return
    a = np.asarray(B.dense(B.sample(obj, num)))
    mid = np.asarray(B.jax_global_random_state).copy()
    if np.array_equal(mid, gl):
        ctx.fail("jax:ADVANCE", f"{desc}: the global key does not advance")
    b = np.asarray(B.dense(B.sample(jnp.asarray(gl), obj, num)[1]))
    if not np.array_equal(a, b):
        ctx.fail("jax:GLOBAL", f"{desc}: the global key and an equal key give different samples")
