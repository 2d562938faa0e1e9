"""What a matrix object means, recomputed from its documented attributes with NumPy only, and
the audit of an object against its documentation. `denote` returns the matrix and an
entrywise magnitude of the terms added up."""

import numpy as np

from .common import EPS
from .walk import arrays
from .gen import diag_embed, kron2, mm, mT

_REG = None


def registry(m):
    """Record every matrix object from now on (the returned list keeps them alive)."""
    global _REG
    if _REG is None:
        _REG = []

        def new(cls, *a, **k):
            obj = object.__new__(cls)
            _REG.append(obj)
            return obj

        m.AbstractMatrix.__new__ = staticmethod(new)
    return _REG


def tname(x):
    return type(x).__name__


def denote(x):
    t = tname(x)
    if t == "Zero":
        z = np.zeros(tuple(int(d) for d in x.batch) + (int(x.rows), int(x.cols)))
        return z, z
    if t == "Dense" or t in ("LowerTriangular", "UpperTriangular"):
        v = np.asarray(x.mat, float)
        return v, np.abs(v)
    if t == "Diagonal":
        v = diag_embed(np.asarray(x.diag, float))
        return v, np.abs(v)
    if t == "Constant":
        c = np.asarray(x.const, float)
        v = np.broadcast_to(c[..., None, None], c.shape + (int(x.rows), int(x.cols)))
        return v, np.abs(v)
    if t == "LowRank":
        (l, lg), (r, rg) = denote(x.left), denote(x.right)
        if x.__dict__.get("_middle") is None:
            return mm(l, mT(r)), mm(lg, mT(rg))
        k, kg = denote(x.middle)
        return mm(l, k, mT(r)), mm(lg, kg, mT(rg))
    if t == "Woodbury":
        (d, dg), (l, lg) = denote(x.diag), denote(x.lr)
        return d + l, dg + lg
    if t == "Kronecker":
        (l, lg), (r, rg) = denote(x.left), denote(x.right)
        return kron2(l, r), kron2(lg, rg)
    if t == "TiledBlocks":
        parts = [denote(b) for b in x.blocks]
        rank = max(p[0].ndim for p in parts)
        ax = x.axis - rank if x.axis >= 0 else x.axis

        def cat(i):
            xs = []
            for p, rep in zip(parts, x.reps):
                a = p[i].reshape((1,) * (rank - p[i].ndim) + p[i].shape)
                reps = [1] * rank
                reps[ax] = int(rep)
                xs.append(np.tile(a, reps))
            shp = [max(a.shape[k] for a in xs) for k in range(rank)]
            out = []
            for a in xs:
                s = list(shp)
                s[ax] = a.shape[ax]
                out.append(np.broadcast_to(a, s))
            return np.concatenate(out, axis=ax)

        return cat(0), cat(1)
    v = np.asarray(x, float)
    while v.ndim < 2:
        v = v[None]
    return v, np.abs(v)


def numeric(x):
    return isinstance(x, (np.ndarray, np.generic)) and x.dtype != object


def audit(ctx, x, desc, cond=1.0):
    m, B = ctx.m, ctx.B
    t = tname(x)
    at = x.__dict__

    def bad(what, msg):
        ctx.fail(f"{t}:{what}", f"{t} built in {desc}: {msg}")

    need = {
        "Zero": ("batch", "rows", "cols", "dense"), "Dense": ("mat", "cholesky"), "Diagonal": ("diag", "cholesky", "dense"),
        "Constant": ("const", "rows", "cols", "cholesky", "dense"), "LowerTriangular": ("mat",), "UpperTriangular": ("mat",),
        "LowRank": ("left", "rank", "cholesky", "dense"), "Woodbury": ("diag", "lr", "cholesky", "schur", "dense"),
        "Kronecker": ("left", "right", "cholesky", "dense"), "TiledBlocks": ("blocks", "reps", "axis", "dense"),
    }[t]
    if any(k not in at for k in need):
        # Construction was refused or interrupted: the object never became available.
        ctx.event("incomplete_objects")
        return
    ctx.event("objects_audited")
    # Parts.
    if t in ("Dense", "LowerTriangular", "UpperTriangular") and (not numeric(x.mat) or np.ndim(x.mat) < 2):
        return bad("MAT", f"mat is {type(x.mat).__name__} of rank {np.ndim(x.mat)}")
    if t == "LowerTriangular" and np.any(np.triu(x.mat, 1) != 0):
        return bad("TRIANGLE", f"entries above the diagonal: {x.mat}")
    if t == "UpperTriangular" and np.any(np.tril(x.mat, -1) != 0):
        return bad("TRIANGLE", f"entries below the diagonal: {x.mat}")
    if t == "Diagonal" and (not numeric(x.diag) or np.ndim(x.diag) < 1):
        return bad("DIAG", f"diag is {type(x.diag).__name__} of rank {np.ndim(x.diag)}")
    if t == "Constant" and not (isinstance(x.const, (int, float)) or numeric(x.const)):
        return bad("CONST", f"const is {type(x.const).__name__}")
    if t == "Woodbury" and (tname(x.diag) != "Diagonal" or tname(x.lr) != "LowRank"):
        return bad("PARTS", f"parts are {tname(x.diag)} and {tname(x.lr)}")
    if t == "TiledBlocks" and len(x.blocks) != len(x.reps):
        return bad("PARTS", "as many repetitions as blocks")
    try:
        val, mag = denote(x)
    except Exception as e:
        return bad("PARTS", f"the parts do not fit together: {type(e).__name__}: {str(e)[:200]}")
    if t == "LowRank":
        shp = (x.middle.shape if x.__dict__.get("_middle") is not None else (None, None, np.shape(x.left)[-1]))
        want = int(min(tuple(shp)[-2:])) if x.__dict__.get("_middle") is not None else int(tuple(B.shape(x.left))[-1])
        if int(x.rank) != want:
            bad("RANK", f"rank is {x.rank}, but the factors have inner size {want}")
        elif val.size and val.size < 400 and np.all(np.isfinite(val)):
            sv = np.linalg.svd(val, compute_uv=False)
            r = np.sum(sv > 1e-9 * np.max(mag), axis=-1)
            if np.any(r > int(x.rank)):
                bad("RANK", f"numerical rank {np.max(r)} exceeds rank {x.rank}")
    if t == "Constant" and tuple(int(d) for d in at.get("batch", np.shape(x.const))) != np.shape(x.const):
        bad("BATCH", f"batch is {at['batch']}, const has shape {np.shape(x.const)}")
    # Shape.
    shape = tuple(int(d) for d in B.shape(x))
    if shape != val.shape:
        return bad("SHAPE", f"shape is {shape}, the attributes make {val.shape}")
    # Caches.
    eps = EPS["f4"] if any(a.dtype == np.float32 for _, a in arrays(x, m)) else EPS["f8"]
    caches = []
    d = at.get("dense")
    if d is not None:
        caches.append("dense")
        if isinstance(d, m.AbstractMatrix) or not numeric(d):
            return bad("DENSE", f"the dense cache is a {tname(d)}")
        if d.shape != val.shape:
            return bad("DENSE", f"the dense cache has shape {d.shape}, not {val.shape}")
        ok = (np.abs(d - val) <= 1e5 * eps * mag + 1e-290) | (np.isnan(d) & np.isnan(val)) | (d == val)
        if not np.all(ok):
            return bad("DENSE", f"the dense cache differs by {np.nanmax(np.abs(d - val))}")
    c = at.get("cholesky")
    if c is not None:
        caches.append("cholesky")
        cv, cg = denote(c)
        if cv.shape[:-1] != val.shape[:-1]:
            return bad("CHOLESKY", f"the Cholesky cache has shape {cv.shape} for {val.shape}")
        if np.all(np.isfinite(cv)):
            p = mm(cv, mT(cv))
            tol = 1e4 * eps * cond * np.max(mag, axis=(-1, -2), keepdims=True)
            if np.any(np.abs(p - val) > tol):
                return bad("CHOLESKY", f"the Cholesky cache does not reproduce the matrix: error {np.max(np.abs(p - val))}")
            if t in ("Dense", "Woodbury") and not (tname(c) == "LowerTriangular" and np.all(np.triu(cv, 1) == 0)):
                return bad("CHOLESKY", f"the Cholesky cache is {tname(c)}")
    s = at.get("schur")
    if s is not None:
        caches.append("schur")
        sv, _ = denote(s)
        dv, (lv, _), (rv, _), (mv, _) = np.asarray(x.diag.diag, float), denote(x.lr.left), denote(x.lr.right), denote(x.lr.middle)
        ref = np.linalg.inv(mv) + mm(mT(rv), lv / dv[..., :, None])
        if np.broadcast_shapes(sv.shape, ref.shape) != sv.shape:
            return bad("SCHUR", f"the Schur cache has shape {sv.shape}, expected {ref.shape}")
        scale = np.max(np.abs(np.linalg.inv(mv))) + np.max(mm(mT(np.abs(rv)), np.abs(lv / dv[..., :, None])))
        if np.any(np.abs(sv - ref) > 1e5 * eps * cond * scale):
            return bad("SCHUR", f"the Schur cache differs by {np.max(np.abs(sv - ref))}")
    for k in caches:
        ctx.event("caches_audited")
    parts = []
    for k in ("left", "right", "middle", "lr"):
        if k in at or (k in ("right", "middle") and t == "LowRank"):
            try:
                parts.append(tname(getattr(x, k)))
            except Exception:
                parts.append("?")
    ctx.event("audits", f"{t}[{','.join(parts)}]{'+'.join(caches)}|{val.ndim - 2}")
