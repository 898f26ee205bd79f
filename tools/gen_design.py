"""Bring the bounds quoted in DESIGN.md in step with vf/plan.py. Development only."""
import json
import pathlib
import re
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from vf.plan import PLAN  # noqa: E402

titles = {p["id"]: p["title"] for p in map(json.loads, (ROOT / "properties.jsonl").read_text().splitlines())}
text = (ROOT / "DESIGN.md").read_text()
for pid, plan in PLAN.items():
    q, t = plan["cases"]["quick"], plan["cases"]["thorough"]
    bounds = f"Bounds: {plan['rule']} Cases: {q['x64']}+{q['f32']} (64/32 bit) quick, up to {t['x64']}+{t['f32']} thorough."
    head = f"### {pid} {titles[pid]}"
    assert head in text, head
    at = text.index(head)
    new, n = re.subn(r"Bounds: .*? thorough\.", lambda _: bounds, text[at:], count=1, flags=re.S)
    assert n == 1, pid
    text = text[:at] + new
(ROOT / "DESIGN.md").write_text(text)
