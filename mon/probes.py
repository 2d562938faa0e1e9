"""One deterministic probe on the real code for every known finding: True while it is broken."""

import numpy as np


def _raises(f, *errors):
    try:
        f()
        return False
    except errors:
        return True


def zero_exponent(ctx):
    B, m = ctx.B, ctx.m
    return not np.array_equal(np.asarray(B.dense(m.Diagonal(np.array([2.0, 3.0])) ** 0)), np.ones((2, 2)))


def broadcast_1x1(ctx):
    """A 1x1 matrix that is square by type, added to an n x n matrix."""
    B, m = ctx.B, ctx.m
    try:
        r = np.asarray(B.dense(m.Diagonal(np.array([2.0])) + m.Diagonal(np.array([1.0, 1.0]))))
        return not np.array_equal(r, 2 + np.eye(2))
    except Exception:
        return True


def solve_zero_batch(ctx):
    B, m = ctx.B, ctx.m
    x = B.solve(m.Diagonal(np.ones((3, 2))), m.Zero(np.float64, 2, 2))
    return tuple(B.shape(x)) != (3, 2, 2)


def _inverse_of_woodbury(ctx):
    B, m = ctx.B, ctx.m
    return B.pd_inv(m.Woodbury(m.Diagonal(np.ones(2)), m.LowRank(np.ones((2, 1)))))


def pd_inv_of_inverse(ctx):
    """pd_inv of a positive-definite Woodbury matrix of which the low-rank part is negative."""
    B = ctx.B
    a = _inverse_of_woodbury(ctx)
    return _raises(lambda: B.pd_inv(a), np.linalg.LinAlgError)


def logdet_of_inverse(ctx):
    B = ctx.B
    a = _inverse_of_woodbury(ctx)
    try:
        return not np.isclose(B.logdet(a), -np.log(3.0))
    except np.linalg.LinAlgError:
        return True


def submatrix_repeated(ctx):
    B, m = ctx.B, ctx.m
    r = B.dense(B.submatrix(m.Diagonal(np.array([2.0, 3.0])), [0, 0]))
    return not np.array_equal(r, np.full((2, 2), 2.0))


def submatrix_unsorted(ctx):
    B, m = ctx.B, ctx.m
    r = B.submatrix(m.LowerTriangular(np.array([[1.0, 0.0], [2.0, 3.0]])), [1, 0])
    return isinstance(r, m.LowerTriangular) and np.any(np.triu(r.mat, 1))


def _negative_factors(ctx):
    """A positive-definite Kronecker product of two negative-definite matrices."""
    m = ctx.m
    return m.Kronecker(m.Dense(-np.array([[2.0, 1.0], [1.0, 2.0]])), m.Dense(-np.array([[3.0, 1.0], [1.0, 3.0]])))


def _broken(f, ref):
    try:
        with np.errstate(all="ignore"):
            return not np.allclose(f(), ref)
    except np.linalg.LinAlgError:
        return True


def sqrt_kron_negative(ctx):
    B, k = ctx.B, _negative_factors(ctx)
    return _broken(lambda: B.dense(B.sqrt(k)), np.sqrt(B.dense(k)))


def pd_inv_kron_negative(ctx):
    B, k = ctx.B, _negative_factors(ctx)
    return _broken(lambda: B.dense(B.pd_inv(k)), np.linalg.inv(B.dense(k)))


def cholesky_kron_negative(ctx):
    B, k = ctx.B, _negative_factors(ctx)
    return _broken(lambda: B.dense(B.cholesky(k)), np.linalg.cholesky(B.dense(k)))


def logdet_kron_negative(ctx):
    B, k = ctx.B, _negative_factors(ctx)
    return _broken(lambda: B.logdet(k), np.linalg.slogdet(B.dense(k))[1])
