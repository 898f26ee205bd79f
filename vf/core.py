"""Case context and worker loop shared by all monitors."""
import fcntl
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

import numpy as np


class Violation(Exception):
    def __init__(self, message, witness=None):
        super().__init__(message)
        self.message = message
        self.witness = witness or {}


class Skip(Exception):
    """The generated case does not satisfy the property's precondition."""


def jsonable(x, depth=0):
    if depth > 8:
        return str(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x if not (isinstance(x, float) and not np.isfinite(x)) else str(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth)
    if hasattr(x, "shape"):
        a = np.asarray(x)
        return jsonable(a.tolist(), depth) if a.size <= 400 else f"array{a.shape}"
    return str(x)[:300]


class Ctx:
    def __init__(self, prop, mode, tier, seed, case):
        self.prop, self.mode, self.tier, self.seed, self.case = prop, mode, tier, seed, case
        key = f"{prop}/{mode}/{seed}/{case}".encode()
        self.rng = np.random.default_rng(int.from_bytes(hashlib.sha256(key).digest()[:8], "big"))
        self.x64 = mode == "x64"
        self.counters = {}
        self.sigs = []
        self.samples = []
        self.known = []
        self.trace = []

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def tol(self, f64, f32):
        return f64 if self.x64 else f32

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def note(self, **kw):
        """Context printed with a violation."""
        self.trace.append(kw)
        del self.trace[:-20]

    def fail(self, message, **witness):
        raise Violation(message, witness)

    def check(self, cond, message, **witness):
        self.count("checks")
        if not bool(cond):
            raise Violation(message, witness)

    def close(self, got, want, message, rtol, atol, **witness):
        """Elementwise comparison with an absolute and a relative allowance, relative to
        the largest reference magnitude."""
        self.count("checks")
        got, want = np.asarray(got, float), np.asarray(want, float)
        if got.shape != want.shape:
            raise Violation(f"{message}: shape {got.shape} instead of {want.shape}", witness)
        if got.size == 0:
            return
        bound = atol + rtol * (np.abs(want).max() if want.size else 0.0)
        err = np.abs(got - want)
        if not np.all(np.isfinite(got)) or err.max() > bound:
            raise Violation(
                f"{message}: deviation {np.nanmax(err) if np.isfinite(err).any() else 'nan'} exceeds {bound}",
                dict(got=got, want=want, **witness),
            )

    def must_raise(self, fn, message, **witness):
        """The call has to fail. Any ordinary exception is a rejection."""
        self.count("rejections")
        try:
            out = fn()
        except Exception:
            return
        raise Violation(f"{message}: accepted and returned a result", dict(result=str(out)[:300], **witness))

    def nontrivial(self, signature):
        self.sigs.append(hashlib.sha256(repr(signature).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def known_finding(self, key, what):
        self.known.append([key, what])


INCONCLUSIVE_ERRORS = (MemoryError, KeyboardInterrupt)


def run_case(module, ctx):
    rec = {"case": ctx.case, "mode": ctx.mode}
    t0 = time.time()
    try:
        module.run_case(ctx)
        rec["status"] = "ok"
    except Skip as e:
        rec["status"] = "skip"
        rec["why"] = str(e)
    except Violation as e:
        rec["status"] = "violation"
        rec["message"] = e.message
        rec["witness"] = jsonable(e.witness)
        rec["context"] = jsonable(ctx.trace)
    except INCONCLUSIVE_ERRORS as e:
        rec["status"] = "error"
        rec["message"] = repr(e)
    except OSError as e:
        rec["status"] = "error"
        rec["message"] = repr(e) + traceback.format_exc()[-1500:]
    except Exception as e:
        tb = traceback.format_exc()
        if "RESOURCE_EXHAUSTED" in str(e) or "Cannot allocate memory" in str(e):
            rec["status"] = "error"
        else:
            # The inputs are valid, so the code under test has to handle them.
            rec["status"] = "violation"
        rec["message"] = f"unexpected {type(e).__name__} on a valid input: {str(e)[:300]}"
        rec["witness"] = {"traceback": tb[-4000:]}
        rec["context"] = jsonable(ctx.trace)
    rec["counters"] = ctx.counters
    rec["sigs"] = ctx.sigs
    rec["samples"] = jsonable(ctx.samples)
    rec["known"] = ctx.known
    rec["t"] = round(time.time() - t0, 3)
    return rec


def claim(cfg):
    """Cases to run: an explicit list, or the next unclaimed ones of a shared counter."""
    if cfg.get("list") is not None:
        yield from cfg["list"]
        return
    while True:
        with open(cfg["counter"], "r+") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            case = int(f.read() or 0)
            f.seek(0)
            f.write(str(case + 1))
            f.flush()
        if case >= cfg["total"]:
            return
        yield case


def worker_main(argv):
    cfg = json.loads(argv[0])
    module = importlib.import_module(f"vf.mon.{cfg['prop'].lower()}")
    import jaxfg

    repo = os.path.realpath(cfg["repo"])
    if not os.path.realpath(jaxfg.__file__).startswith(repo + os.sep):
        raise SystemExit(f"jaxfg was imported from {jaxfg.__file__}, not from {repo}")
    deadline = time.time() + cfg["soft_s"]
    with open(cfg["out"], "a") as out:

        def emit(obj):
            out.write(json.dumps(obj) + "\n")
            out.flush()

        for case in claim(cfg):
            if time.time() > deadline:
                emit({"stopped_before": case})
                break
            emit({"start": case, "mode": cfg["mode"]})
            ctx = Ctx(cfg["prop"], cfg["mode"], cfg["tier"], cfg["seed"], case)
            rec = run_case(module, ctx)
            emit(rec)
            if rec["status"] == "violation":
                break
        emit({"finished": True})
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    # Through the module's own name, so that monitors share its exception classes.
    importlib.import_module("vf.core").worker_main(sys.argv[1:])
