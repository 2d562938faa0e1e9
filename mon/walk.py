"""Looking at everything a matrix object holds, without calling the library."""

import hashlib

import numpy as np


def arrays(x, matrix, path="", out=None, seen=None, kind=np.ndarray):
    """All (path, array) reachable from an object through attributes of matrices."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, kind):
        if id(x) not in seen:
            seen.add(id(x))
            out.append((path, x))
    elif isinstance(x, matrix.AbstractMatrix):
        if id(x) not in seen:
            seen.add(id(x))
            for k, v in vars(x).items():
                arrays(v, matrix, f"{path}.{k}", out, seen, kind)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            arrays(v, matrix, f"{path}[{i}]", out, seen, kind)
    return out


def objects(x, matrix, path="", out=None, seen=None):
    """All (path, matrix object) reachable from an object."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, matrix.AbstractMatrix) and id(x) not in seen:
        seen.add(id(x))
        out.append((path, x))
        for k, v in vars(x).items():
            objects(v, matrix, f"{path}.{k}", out, seen)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            objects(v, matrix, f"{path}[{i}]", out, seen)
    return out


def digest(a):
    return (a.shape, a.dtype.str, hashlib.blake2b(np.ascontiguousarray(a).tobytes(), digest_size=12).digest())


def plain(v):
    """A comparable rendering of an attribute that is no array or matrix."""
    return repr(v)


class Snapshot:
    """What a set of objects holds now: array contents, attribute identities."""

    def __init__(self, xs, matrix):
        self.matrix = matrix
        self.arrays = [(p, a, digest(a)) for p, a in arrays(list(xs), matrix)]
        self.attrs = []
        for p, o in objects(list(xs), matrix):
            self.attrs.append((p, o, type(o), dict(vars(o)), {k: plain(v) for k, v in vars(o).items() if not self._held(v)}))

    def _held(self, v):
        return isinstance(v, (np.ndarray, self.matrix.AbstractMatrix)) or v is None

    def changes(self):
        """Every difference with what is held now, except for caches that got filled."""
        out = []
        for p, a, d in self.arrays:
            if digest(a) != d:
                out.append(f"the contents of the array {p} {a.shape} changed")
        for p, o, t, old, reprs in self.attrs:
            if type(o) is not t:
                out.append(f"{p} became a {type(o).__name__}")
            now = vars(o)
            for k, v in old.items():
                if k not in now:
                    out.append(f"{p}.{k} disappeared")
                elif now[k] is v:
                    if k in reprs and plain(now[k]) != reprs[k]:
                        out.append(f"{p}.{k} changed from {reprs[k]} to {plain(now[k])}")
                elif v is None:
                    pass  # a cache that got filled: what it holds is judged by M10
                elif isinstance(v, (tuple, int, float, str, np.generic)) and plain(now[k]) == plain(v):
                    pass
                else:
                    out.append(f"{p}.{k} was replaced ({type(v).__name__} by {type(now[k]).__name__})")
        return out
