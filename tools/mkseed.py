"""Author a planted bug: mkseed.py SPEC.py... ; each SPEC defines ID, PROPERTY, EDITS
[(file, old, new)], DEMO (Python source), NEEDS, BREAKS. The change is made in a scratch
copy, confirmed (demo passes without it and fails with it, stable tests pass with it) and only
then written to /verif/seeded/<ID>/. Development helper: no check uses it."""

import json
import os
import runpy
import shutil
import subprocess
import sys

OUT = "/verif/seeded"
ENV = {**os.environ, "JAX_ENABLE_X64": "1", "JAX_PLATFORMS": "cpu", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
       "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0"}
DEMO_SH = """#!/bin/bash
# cwd: the repository
export JAX_ENABLE_X64=1 JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"
"""


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=ENV, **k)


def tests(d, n=8, only=None):
    base = (f"/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p vp_seed -n {n} --timeout=300 -Werror "
            "-W ignore::DeprecationWarning -W ignore::pytest.PytestRemovedIn10Warning")
    e = dict(ENV, PYTHONPATH="/opt/vp/plugins")
    jax = sh("grep -rlE 'jax|stheno' --include='test_*.py' tests | sort", d).stdout.split()
    for args in (only,) if only else (" ".join(f"--ignore={j}" for j in jax) + " tests", " ".join(jax)):
        r = subprocess.run(f"{base} {args}", cwd=d, shell=True, capture_output=True, text=True, env=e)
        if r.returncode != 0:
            return r.stdout[-1500:]
    return None


def one(spec, n):
    s = runpy.run_path(spec)
    d = f"/tmp/mkseed_{s['ID']}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    try:
        dst = f"{d}.out"
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(f"{dst}/demo.py", "w").write(s["DEMO"].lstrip("\n"))
        open(f"{dst}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{dst}/demo.sh", 0o755)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(f"{dst}/meta.json", "w"), indent=1)
        r = sh(f"bash {dst}/demo.sh", d)
        if r.returncode != 0:
            return f"demo fails on the unchanged tree:\n{r.stdout[-600:]}{r.stderr[-1500:]}"
        for f, old, new in s["EDITS"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return f"{f}: {t.count(old)} matches of {old!r}"
            base = sh(f"git show 5eb0e18:{f}", d).stdout
            strip = lambda s: {x.strip() for x in s.splitlines()}  # noqa
            gone = strip(old) - strip(new)
            if gone and not gone & strip(base):
                return f"{f}: the changed lines are not in the original repository: {gone}"
            open(p, "w").write(t.replace(old, new))
        open(f"{dst}/patch.diff", "w").write(sh("git diff", d).stdout)
        r = sh(f"bash {dst}/demo.sh", d)
        if r.returncode == 0:
            return "demo passes with the change"
        quick = " ".join(f"tests/ops/test_{os.path.basename(e[0])}" for e in s["EDITS"]
                         if os.path.exists(f"{d}/tests/ops/test_{os.path.basename(e[0])}"))
        bad = tests(d, n, quick) if quick else None
        bad = bad or tests(d, n)
        if bad:
            return "tests fail with the change: " + bad[-700:]
        e = dict(os.environ, MON_REPO=d, VERIF_SEED="1", MON_WORKERS=str(n))
        r = subprocess.run(["./check.sh", s["PROPERTY"], "quick"], cwd="/verif", capture_output=True, text=True, env=e)
        print(f"  {s['PROPERTY']} exit {r.returncode}: {r.stdout[:300]!r}", flush=True)
        final = f"{OUT}/{s['ID']}"
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(dst, final)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(f"{d}.out", ignore_errors=True)


if __name__ == "__main__":
    n = int(os.environ.get("N", "4"))
    for spec in sys.argv[1:]:
        print(os.path.basename(spec), "->", one(spec, n) or "kept", flush=True)
