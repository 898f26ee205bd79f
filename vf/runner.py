"""Runs one property check: spawns worker processes, merges what they observed, writes
the evidence file and decides the verdict.

Exit codes: 0 held, 1 violated, 2 error of the check (inconclusive).
"""
import argparse
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
# Registered commands always check /repo; tools/seed.py points development runs elsewhere.
REPO = pathlib.Path(os.environ.get("VF_DEV_REPO", "/repo"))
EVIDENCE = pathlib.Path(os.environ.get("VF_DEV_EVIDENCE", VERIF / "evidence"))
PYTHON = "/opt/venv/bin/python"
HANG_CPU_S = 300  # cases take seconds
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL}


def load_plan(prop):
    """Case counts and notes of each property; importable without JAX."""
    from vf.plan import PLAN

    return PLAN[prop]


def worker_env(mode, scratch, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("JAX_", "XLA_", "PYTHON"))}
    env.update(
        JAX_PLATFORMS="cpu",
        JAX_ENABLE_X64="1" if mode == "x64" else "0",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPATH=f"{VERIF}:{REPO}",
        VF_REPO=str(REPO),
        PYTHONWARNINGS="ignore",
        MPLBACKEND="Agg",
        TMPDIR=str(scratch),
    )
    env.update(extra or {})
    return env


def clear_bytecode():
    """Stale bytecode must not stand in for the current sources."""
    for d in sorted(REPO.glob("jaxfg/**/__pycache__")) + sorted(REPO.glob("scripts/**/__pycache__")):
        shutil.rmtree(d, ignore_errors=True)


def spawn(prop, mode, tier, seed, work, soft_s, scratch, tag, extra_env=None):
    out = scratch / f"w{tag}.jsonl"
    out.touch()
    log = open(scratch / f"w{tag}.log", "w")
    cfg = dict(prop=prop, mode=mode, tier=tier, seed=seed, soft_s=soft_s, out=str(out), repo=str(REPO), **work)
    p = subprocess.Popen(
        [PYTHON, "-W", "ignore", "-m", "vf.core", json.dumps(cfg)],
        cwd=str(VERIF), env=worker_env(mode, scratch, extra_env), stdout=log, stderr=subprocess.STDOUT,
        start_new_session=True,
    )
    return dict(p=p, out=out, log=scratch / f"w{tag}.log", mode=mode, pos=0, recs=[], start=None, finished=False)


def cpu_seconds(w):
    """CPU time the worker has used so far."""
    try:
        fields = pathlib.Path(f"/proc/{w['p'].pid}/stat").read_text().rsplit(")", 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def poll_records(w):
    with open(w["out"]) as f:
        f.seek(w["pos"])
        chunk = f.read()
    if "\n" not in chunk:
        return
    chunk = chunk[: chunk.rindex("\n") + 1]
    w["pos"] += len(chunk.encode())
    for line in chunk.splitlines():
        r = json.loads(line)
        if "start" in r:
            w["start"] = r["start"]
            w["cpu0"] = cpu_seconds(w)
        elif "finished" in r:
            w["finished"] = True
        elif "stopped_before" in r:
            pass
        else:
            w["start"] = None
            w["recs"].append(r)


def kill(w):
    if w["p"].poll() is None:
        try:
            os.killpg(w["p"].pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    w["p"].wait()


def load_known():
    """Known findings, keyed by property and finding key."""
    known = {}
    path = VERIF / "KNOWN_FINDINGS.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known: "):
                fields = dict(p.split("=", 1) for p in line.split()[1:3])
                known[(fields["property"], fields["key"])] = line
    return known


def self_test():
    """Everything the checks need is there: plan, monitors and the code under test."""
    from vf.plan import PLAN

    scratch = pathlib.Path(tempfile.mkdtemp(prefix="vf-self-test-"))
    try:
        code = "import importlib, jaxfg\n" + "\n".join(f"importlib.import_module('vf.mon.{p.lower()}')" for p in PLAN)
        return subprocess.run([PYTHON, "-W", "ignore", "-c", code], cwd=str(VERIF), env=worker_env("f32", scratch)).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int, default=int(os.environ.get("VERIF_PROCS", "8")))
    ap.add_argument("--max-cases", type=int, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.self_test:
        sys.exit(self_test())
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    plan = load_plan(a.prop)
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"vf-{a.prop}-"))
    try:
        sys.exit(run(a, plan, tier, seed, t0, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, plan, tier, seed, t0, scratch):
    prop = a.prop
    clear_bytecode()
    soft_s = plan.get("soft_s", {}).get(tier, 240 if tier == "quick" else 540)
    hard_s = 700 if tier == "quick" else 850
    workers = []
    if a.replay:
        rep = json.loads(pathlib.Path(a.replay).read_text())
        tier, seed = rep["tier"], rep["seed"]
        workers.append(spawn(prop, rep["mode"], tier, seed, dict(list=[rep["case"]]), 600, scratch, 0, plan.get("env")))
    else:
        counts = plan["cases"][tier]  # per mode, in total
        if a.max_cases:
            counts = {m: min(n, a.max_cases) for m, n in counts.items()}
        total = sum(counts.values())
        # Split processes between modes in proportion to their share of the work.
        procs = {}
        left = a.procs
        modes = [m for m in counts if counts[m] > 0]
        for k, m in enumerate(modes):
            share = max(1, round(a.procs * counts[m] / total))
            procs[m] = min(share, max(1, left - (len(modes) - 1 - k)))
            left -= procs[m]
        tag = 0
        for m in modes:
            counter = scratch / f"next-{m}"
            counter.write_text("0")
            for _ in range(min(procs[m], counts[m])):
                work = dict(counter=str(counter), total=counts[m])
                workers.append(spawn(prop, m, tier, seed, work, soft_s, scratch, tag, plan.get("env")))
                tag += 1

    violation = None
    errors = []
    while True:
        alive = False
        for w in workers:
            poll_records(w)
            if w["p"].poll() is None:
                alive = True
            for r in w["recs"]:
                if r["status"] == "violation" and violation is None:
                    violation = r
            if violation is None and w["start"] is not None and cpu_seconds(w) - w["cpu0"] > HANG_CPU_S:
                violation = dict(case=w["start"], mode=w["mode"], status="violation",
                                 message=f"no end of a computation after {HANG_CPU_S} s of CPU time",
                                 witness={}, counters={}, sigs=[], samples=[], known=[])
        if violation or not alive:
            break
        if time.time() - t0 > hard_s:
            errors.append(f"watchdog: no verdict after {hard_s} s; unfinished cases "
                          + str([(w["mode"], w["start"]) for w in workers if w["start"] is not None]))
            break
        time.sleep(0.1)
    for w in workers:
        if violation or errors:
            kill(w)
        else:
            w["p"].wait()
        poll_records(w)
        rc = w["p"].returncode
        if violation is None and not errors and not w["finished"]:
            tail = w["log"].read_text()[-1500:]
            if rc < 0 and -rc in CRASH_SIGNALS and w["start"] is not None:
                violation = dict(case=w["start"], mode=w["mode"], status="violation",
                                 message=f"process crashed with signal {-rc} on a valid input",
                                 witness={"log": tail}, counters={}, sigs=[], samples=[], known=[])
            else:
                errors.append(f"worker ended with status {rc} in case {w['start']}: {tail}")
    recs = [r for w in workers for r in w["recs"]]
    for r in recs:
        if r["status"] == "error":
            errors.append(f"case {r['case']} ({r['mode']}): {r.get('message')}")

    counters, sigs, samples, known_seen = {}, set(), [], {}
    skipped = 0
    for r in recs:
        for k, v in r.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
        sigs.update(r.get("sigs", []))
        samples += r.get("samples", [])
        skipped += r["status"] == "skip"
        for key, what in r.get("known", []):
            known_seen.setdefault(key, (what, r))
    known_list = load_known()
    if violation is None:
        for key, (what, r) in known_seen.items():
            if (prop, key) not in known_list:
                violation = dict(r, status="violation", message=what, witness={})
    evaluations = sum(r["status"] in ("ok", "violation") for r in recs)
    wall = time.time() - t0

    if a.replay:
        for r in recs:
            print(json.dumps({k: r.get(k) for k in ("status", "message", "witness", "context", "counters")}, indent=1)[:20000])
        if violation:
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print("\n".join(errors))
        return 2 if errors else 0

    # Did the monitors observe what the verdict rests on?
    missing = []
    if violation is None and not errors:
        for name, least in plan.get("require", {}).items():
            if counters.get(name, 0) < least:
                missing.append(f"{name}={counters.get(name, 0)} (at least {least} needed)")
        if evaluations == 0 or len(sigs) < 2:
            missing.append(f"evaluations={evaluations} distinct={len(sigs)}")
        if missing:
            errors.append("monitors observed too little: " + ", ".join(missing))

    ev_dir = EVIDENCE
    ev_dir.mkdir(parents=True, exist_ok=True)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(sigs), rule=plan["rule"],
            samples=samples[:4], events=counters, skipped_preconditions=skipped,
        ),
        assumptions=plan.get("assumptions", []),
        wall_s=round(wall, 2), violations=1 if violation else 0,
    )
    if errors:
        evidence["coverage"]["errors"] = [e[:500] for e in errors[:5]]
    (ev_dir / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")

    for key, (what, r) in known_seen.items():
        if (prop, key) in known_list:
            print(f"KNOWN-FINDING: property={prop} {what}")
    if violation:
        rdir = ev_dir / "replays"
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{prop}-{tier}-{seed}-{violation['mode']}-{violation['case']}.json"
        path.write_text(json.dumps(dict(
            property=prop, tier=tier, seed=seed, mode=violation["mode"], case=violation["case"],
            message=violation.get("message"), witness=violation.get("witness"), context=violation.get("context"),
            rerun=f"cd {VERIF} && ./check {prop} --replay {path}",
        ), indent=1) + "\n")
        print(f"{prop}: {violation.get('message')}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: {evaluations} cases, {len(sigs)} distinct, {skipped} skipped, {wall:.1f} s, {counters}")
    if a.v:
        slow = sorted(recs, key=lambda r: -r["t"])[:5]
        print("slowest:", [(r["mode"], r["case"], r["t"]) for r in slow], "total", round(sum(r["t"] for r in recs), 1))
    if errors:
        for e in errors[:5]:
            print("INCONCLUSIVE:", e)
        return 2
    return 0


if __name__ == "__main__":
    main()
