"""Cases per check and wall caps (seconds) per tier."""
import os

DEFAULT = {"quick": {"cases": 900, "wall": 80, "shrink": 20}, "thorough": {"cases": 20000, "wall": 700, "shrink": 60}}
CASES = {"C04": 2200, "C06": 1000, "C07": 1200, "C08": 1200, "C09": 1200, "C10": 2200, "C11": 1800, "C12": 1400,
         "C13": 1200, "C15": 1800, "C21": 1500}
PER = {p: {"quick": {"cases": n * 3 // 2, "wall": 80, "shrink": 20}} for p, n in CASES.items()}


def get(pid, tier):
    d = dict(DEFAULT.get(tier, DEFAULT["quick"]))
    d.update(PER.get(pid, {}).get(tier, {}))
    if os.environ.get("DST_WALL"):       # authoring aid
        d["wall"] = int(os.environ["DST_WALL"])
    return d
