"""Process set-up shared by every check: import the code under test from /repo.

Nothing is written to /repo: byte code is disabled, and when the git-ignored
`matrix/_version.py` is absent a stand-in module is injected instead of generated.
"""

import os
import sys
import types

sys.dont_write_bytecode = True
REPO = os.environ.get("MON_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k, _v in {
    "JAX_ENABLE_X64": "1",
    "JAX_PLATFORMS": "cpu",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
}.items():
    os.environ.setdefault(_k, _v)


def load(jax=False):
    """Import `lab` and `matrix` (the latter from REPO) and return them."""
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "matrix", "_version.py")):
        m = types.ModuleType("matrix._version")
        m.version = m.__version__ = "0+monitor"
        sys.modules["matrix._version"] = m
    if jax:
        import lab.jax  # noqa
    import lab as B
    import matrix

    real = os.path.realpath(matrix.__file__)
    assert real.startswith(os.path.realpath(REPO) + os.sep), real
    _fast_stack()
    return B, matrix


class _Frame:
    __slots__ = ("frame",)

    def __init__(self, frame):
        self.frame = frame


class _FastInspect:
    """`wbml.warning` (a dependency) calls `inspect.stack()`, which reads source files
    for every frame; it only uses `.frame.f_globals`. Give it just that."""

    @staticmethod
    def stack(*_):
        f = sys._getframe(1)
        out = []
        while f is not None:
            out.append(_Frame(f))
            f = f.f_back
        return out


def _fast_stack():
    import wbml.warning as w

    if hasattr(w, "inspect"):
        w.inspect = _FastInspect()
