"""create and confirm planted bugs (development only; no check uses this)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

os.environ["GIT_LFS_SKIP_SMUDGE"] = "1"
SEEDED = "/verif/seeded"
P = "scikit-topt/sktopt/"


def seed(sid, prop, needs, breaks, edits, demo):
    d = f"{SEEDED}/{sid}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mk_")
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    for f, old, new in edits:
        p = f"{w}/r/{P}{f}"
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w + "/r", check=True,
                          capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(
        '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\n'
        'w=$(mktemp -d) || exit 3\ntrap \'rm -rf "$w"\' EXIT\n'
        'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 HOME="$w" '
        'NUMBA_CACHE_DIR="$w/nb" OMP_NUM_THREADS=1 '
        'PYTHONPATH="$PWD/scikit-topt"\n'
        'cd "$w" && /opt/venv/bin/python -B "$d/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    shutil.rmtree(w)


def confirm(sid, tests=True):
    d = f"{SEEDED}/{sid}"
    w = tempfile.mkdtemp(prefix="cf_")
    r = w + "/r"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        a = subprocess.run(["bash", d + "/demo.sh"], cwd=r,
                           capture_output=True, text=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, check=True)
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=r,
                           capture_output=True, text=True)
        t = None
        if tests:
            env = dict(os.environ, PYTHONPATH=r + "/scikit-topt",
                       MPLBACKEND="Agg", NUMBA_NUM_THREADS="1",
                       OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                       PYTHONHASHSEED="0")
            t = subprocess.run(
                ["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p",
                 "no:cacheprovider", "-x", r + "/scikit-topt/tests",
                 "--basetemp=" + w + "/tmp"], cwd=w, env=env,
                capture_output=True, text=True)
        ok = a.returncode == 0 and b.returncode != 0 and (
            t is None or t.returncode == 0)
        print(sid, "OK" if ok else "BAD", a.returncode, b.returncode,
              None if t is None else t.returncode)
        if not ok:
            print(a.stdout[-500:], a.stderr[-800:], b.stdout[-500:],
                  (t.stdout[-800:] if t else ""))
        else:
            print("   ", (b.stdout + b.stderr).strip().splitlines()[-1:])
        return ok
    finally:
        shutil.rmtree(w)


def against(sid, checks):
    """run checks with the planted bug in a scratch copy (VPY_REPO)"""
    d = f"{SEEDED}/{sid}"
    w = tempfile.mkdtemp(prefix="ag_")
    r, v = w + "/r", w + "/v"
    try:
        shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(
            ".git", "seeded", "evidence"))
        os.makedirs(v + "/evidence")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, check=True)
        for c in checks:
            p = subprocess.run([v + "/check", c], cwd=v,
                               env=dict(os.environ, VPY_REPO=r),
                               capture_output=True, text=True)
            print(f"== {sid} {c}: exit {p.returncode}")
            print(p.stdout[-900:], flush=True)
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[2:]
    if sys.argv[1] == "confirm":
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(confirm, ids))
    elif sys.argv[1] == "demo":
        for i in ids:
            confirm(i, False)
    else:
        def one(i):
            pr = json.load(open(f"{SEEDED}/{i}/meta.json"))["property"]
            against(i, [pr])
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(one, ids))
