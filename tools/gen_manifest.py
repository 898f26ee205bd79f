"""Writes MANIFEST.json from the properties and the table below."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
BASE = "Held on every execution explored with this seed; an exploration, not a proof. Trusts numpy/scipy, JAX itself and the harness's own reference code. "
T = {
    "C01": ("differential runtime monitor: graph evaluation against per-factor reference evaluation", "Graphs of up to about a dozen factors over 20 variable types."),
    "C02": ("differential runtime monitor: Jacobian against numeric differentiation", "Tolerances follow finite-difference error; points with ill-conditioned Lie logarithms are left out."),
    "C03": ("online model-based monitor of operation histories", "Histories of up to some dozens of operations."),
    "C04": ("differential runtime monitor: retraction against reference manifolds", "Reference exponentials are independent of jaxlie."),
    "C05": ("runtime monitor of solver results against reference optima", "Determined, reasonably conditioned problems."),
    "C06": ("metamorphic runtime monitor: permuted executions compared", "Determined, reasonably conditioned problems."),
    "C07": ("trace checker over recorded iteration histories with injected bad steps", "Iterates are observed by limiting the iteration count, subproblems through a recording linear solver."),
    "C08": ("trace checker over recorded iteration histories with injected bad steps", "Iterates are observed by limiting the iteration count, subproblems through a recording linear solver."),
    "C09": ("trace checker over recorded iteration histories", "Steps whose criterion is within rounding of its threshold are not judged."),
    "C10": ("trace checker over recorded linear subproblems", "Up to five iterations."),
    "C11": ("differential runtime monitor: linear solves against dense normal equations", "One known finding (repeated coordinates with damping in the CG solvers)."),
    "C12": ("sequence and thread-stress monitor against isolated runs", "Thread schedules are sampled with forced switching, not enumerated."),
    "C13": ("differential runtime monitor: sparse against dense algebra", "Dense comparison up to a dozen rows and columns, sparse comparison up to a million."),
    "C14": ("differential runtime monitor: noise models and NLL against dense formulas", "Gaussian models of up to 6 dimensions."),
    "C15": ("differential runtime monitor: Huber weighting, derivatives and minimizers", "One known finding (cost used by LM and dogleg)."),
    "C16": ("query-sequence monitor against the dense inverse", "Up to 400 variables."),
    "C17": ("metamorphic runtime monitor: eager, jit, vmap and grad executions compared", "Small graphs and batches."),
    "C18": ("differential runtime monitor: pose factors against reference group code", "Rotation angles up to 3 rad."),
    "C19": ("parser monitor on generated, mutated and shipped files", "Files of up to some dozens of lines, and truncated data sets."),
    "C20": ("recording factors echoing what they receive", "16 factor classes."),
    "C21": ("purity sanitizer (inputs compared around every call) and output trace checker", "Sequences of about thirty kinds of public calls."),
    "C22": ("rejection monitor: single inconsistencies injected at public entry points", "One inconsistency at a time."),
    "C24": ("trace checker over recorded linear subproblems and iterates", "Up to 14 iterations per run."),
    "C25": ("end-to-end monitor of the script: drawn curves against a reference optimum and a direct solve", "Files of up to seven poses."),
    "C26": ("differential runtime monitor of helpers against numpy, clocks and read values", "Six tree forms with up to five trees."),
    "C23": ("invariant monitor on generated layouts", "Up to 8 variable types."),
}
EXTRA = {}

checks, na = [], []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    technique, note = T[p]
    checks.append(dict(
        property=p, quick_cmd=f"./check {p}", thorough_cmd=f"./check {p}", evidence_file=f"evidence/{p}.json",
        technique=technique, level="exploration", level_note=BASE + note))
manifest = dict(
    version=1,
    setup_cmd="./check --self-test",
    checks=checks,
    not_applicable=na,
    notes="jaxfg is pure Python and is imported from /repo's working tree, so nothing needs building; no hooks were added to /repo. The tier comes from VERIF_TIER. `./check <id> --replay <file>` reruns a reported case.",
)
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
