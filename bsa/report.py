"""Running one property's rules, reporting, and evidence."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
from pathlib import Path

from .common import make
from .interp import LATE, Budget
from .loader import AnalysisError, Program

ROOT = Path(__file__).resolve().parent.parent
KNOWN = ROOT / "known_findings.txt"


class Ctx:
    def __init__(self, prog, pid, tier):
        self.p, self.pid, self.tier = prog, pid, tier
        self.findings = {}
        self.rules = []
        self.sites = {}
        self.entries = []
        self.funcs = set()
        self.steps = 0
        self.events = 0
        self.paths = 0
        self.assumptions = []
        self.notes = []

    # -- findings -------------------------------------------------------
    def finding(self, rule, construct, msg, loc="", path=()):
        """rule + construct identify the finding; position is for the reader."""
        key = f"{rule}@{construct}"
        if key not in self.findings:
            self.findings[key] = {"key": key, "rule": rule, "construct": construct,
                                  "message": msg, "location": loc, "path": list(path)}

    def at(self, rule, ev, st, msg, construct=None):
        self.finding(rule, construct or ev.where(), msg, ev.loc(), st.path())

    # -- obligations ----------------------------------------------------
    def rule(self, name, text):
        self.rules.append((name, text))

    def saw(self, what, inst):
        self.sites.setdefault(what, set()).add(str(inst))

    def need(self, what, n=1):
        have = len(self.sites.get(what, ()))
        if have < n:
            raise AnalysisError(f"rule matched too little: {what}: {have} of at least {n}")

    # -- analyses -------------------------------------------------------
    def run(self, func, mon, args=None, kw=None, st=None, self_val=None, **opts):
        if isinstance(func, str):
            func = self.p.method(*func.split(".")) if func.count(".") == 1 \
                and func.split(".")[0][:1].isupper() else self.p.func(func)
        if getattr(mon, "exact", False) and time.process_time() > LATE:
            # the cases left are not decided
            raise Budget("no time left")
        I = make(self.p, mon, **opts)
        out, exc = I.run(func, args, kw, st, self_val)
        self.entries.append(func.qual)
        self.funcs |= I.funcs_seen
        self.steps += I.steps
        self.events += I.calls_seen
        self.paths += len(out) + len(exc)
        return I, out, exc


def known():
    res = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                d = dict(x.split("=", 1) for x in parts[1:3])
                res.append((d["property"], d["key"], parts[3] if len(parts) > 3 else ""))
    return res


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    repo = Path(os.environ.get("BACKY_REPO", "/repo"))
    ev = ROOT / "evidence"
    ev.mkdir(exist_ok=True)
    sys.setrecursionlimit(20000)
    ctx = None
    listed = {k: t for p, k, t in known() if p == pid}
    try:
        mod = importlib.import_module(f"bsa.rules.{pid.lower()}")
        prog = Program(repo / "src")
        ctx = Ctx(prog, pid, tier)
        mod.check(ctx)
    except AnalysisError as e:
        if ctx is None or all(f["key"] in listed for f in ctx.findings.values()):
            print(f"ANALYSIS-ERROR property={pid} {e}")
            return 2
        # what was found stands, whatever else could not be decided
        ctx.notes.append(f"analysis incomplete: {e}")
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-ERROR property={pid} internal error")
        return 2
    new = []
    for f in ctx.findings.values():
        if f["key"] in listed:
            print(f"KNOWN-FINDING: property={pid} {f['key']} {listed[f['key']]}")
        else:
            new.append(f)
    stats = prog.stats()
    obligations = sum(len(v) for v in ctx.sites.values())
    cov = {
        "explanation": "Static analysis of the current source of /repo/src/backy: no code of "
                       "the repository is executed. Each entry point is analysed with symbolic "
                       "arguments over every branch, loop fixpoint and exceptional exit; the "
                       "rules are automata / term queries over the effects found.",
        "rules": [{"rule": a, "text": b} for a, b in ctx.rules],
        "parsed": stats,
        "source_digest": prog.digest.hexdigest(),
        "entry_points": sorted(set(ctx.entries)),
        "functions_analysed": len(ctx.funcs),
        "abstract_steps": ctx.steps,
        "call_events": ctx.events,
        "exits_reached": ctx.paths,
        "obligations": obligations,
        "obligation_sites": {k: sorted(v)[:40] for k, v in sorted(ctx.sites.items())},
        "findings": list(ctx.findings.values()),
        "notes": ctx.notes,
    }
    data = {"property": pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": cov, "assumptions": ctx.assumptions or [
                "library calls behave as modelled in bsa/models.py",
                "no monkey patching, reflection beyond constant getattr, or threads",
            ], "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    out = ev / f"{pid}.json"
    out.write_text(json.dumps(data, indent=1, default=str) + "\n")
    print(f"{pid}: {len(ctx.rules)} rules, {len(set(ctx.entries))} entry points, "
          f"{len(ctx.funcs)} functions, {obligations} obligation sites, "
          f"{len(ctx.findings)} findings ({len(new)} not listed), "
          f"{time.time() - t0:.1f}s")
    if new:
        rep = ev / f"{pid}.report.txt"
        lines = []
        for f in new:
            lines += [f"[{f['rule']}] {f['construct']}: {f['message']}",
                      f"    at {f['location']}"]
            lines += [f"    via {x}" for x in f["path"]]
        rep.write_text("\n".join(lines) + "\n")
        print("\n".join(lines))
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    return 0
