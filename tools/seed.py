"""Planted bugs: build them from a definition, and try them out on a scratch copy.

  seed.py make DEF.py...      write seeded/<id>/ from definitions (EDITS, META, DEMO)
  seed.py try ID... [--checks C01,C02] [--jobs N]
                              tests, demo and checks on a patched copy of /repo

Development only: no registered command uses this file or the seeded directory.
"""
import argparse
import concurrent.futures as cf
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
export JAX_PLATFORMS=cpu JAX_ENABLE_X64={x64} PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def copy_repo(dest):
    subprocess.run(f"mkdir -p {dest} && git -C /repo archive HEAD | tar -x -C {dest}", shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", shell=True, cwd=dest, check=True)


def make(path):
    d = runpy.run_path(path)
    sid = d.get("ID", pathlib.Path(path).stem)
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="seed-make-"))
    try:
        copy_repo(tmp)
        for f, old, new in d["EDITS"]:
            p = tmp / f
            s = p.read_text()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tmp, check=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(tmp)
    out = SEEDED / sid
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(diff)
    (out / "demo.py").write_text(d["DEMO"].lstrip())
    (out / "demo.sh").write_text(DEMO_SH.format(x64=d.get("X64", 1)))
    (out / "demo.sh").chmod(0o755)
    prop, needs, breaks = d["META"]
    (out / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
    return sid


def sh(cmd, cwd, repo, timeout, **env):
    e = dict(os.environ, PYTHONPATH=str(repo), JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", **env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def attempt(sid, checks, procs, skip_tests):
    d = SEEDED / sid
    prop = json.loads((d / "meta.json").read_text())["property"]
    tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"seed-{sid}-"))
    res = dict(id=sid, property=prop)
    try:
        repo = tmp / "repo"
        copy_repo(repo)
        if not skip_tests:
            res["demo_clean"] = sh(["bash", str(d / "demo.sh")], repo, repo, 300)[0]
        rc, out = sh(["git", "apply", str(d / "patch.diff")], repo, repo, 60)
        assert rc == 0, out
        if not skip_tests:
            rc, out = sh(["bash", str(d / "demo.sh")], repo, repo, 300)
            res["demo_bug"] = rc
            res["demo_out"] = out.strip().splitlines()[-1][:160] if out.strip() else ""
            rc, out = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "randomly", "--randomly-seed=0",
                          "--randomly-dont-reorganize", "tests"], repo, repo, 600)
            res["tests"] = out.strip().splitlines()[-1][:100]
        res["checks"] = {}
        for c in checks or [prop]:
            t0 = time.time()
            rc, out = sh([str(VERIF / "check"), c, "--procs", str(procs)], VERIF, "", 900, VF_DEV_REPO=str(repo),
                         VF_DEV_EVIDENCE=str(tmp / "ev"))
            lines = [l for l in out.splitlines() if l.startswith(c + ":") or "INCONCL" in l]
            res["checks"][c] = (rc, round(time.time() - t0, 1), lines[0][:220] if lines else out[-200:])
    finally:
        shutil.rmtree(tmp)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["make", "try"])
    ap.add_argument("args", nargs="*")
    ap.add_argument("--checks")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--skip-tests", action="store_true")
    a = ap.parse_args()
    if a.cmd == "make":
        for p in a.args:
            print(make(p))
        return
    ids = a.args or sorted(p.name for p in SEEDED.iterdir())
    checks = a.checks.split(",") if a.checks else None
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        futs = [ex.submit(attempt, i, checks, max(2, 8 // a.jobs), a.skip_tests) for i in ids]
        for f in cf.as_completed(futs):
            r = f.result()
            ok = a.skip_tests or (r["demo_clean"] == 0 and r["demo_bug"] != 0 and " failed" not in r["tests"])
            caught = [c for c, v in r["checks"].items() if v[0] == 1]
            print(("OK  " if ok else "BAD ") + ("CAUGHT " if caught else "MISSED ") + r["id"], flush=True)
            print("    ", {k: v for k, v in r.items() if k not in ("id", "checks")})
            for c, v in r["checks"].items():
                print("    ", c, v, flush=True)


if __name__ == "__main__":
    main()
