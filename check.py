#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [--tier quick|thorough] : decide one property from /repo's current source."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.program import AnalysisBroken, Program  # noqa: E402


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obs = []  # (rule, construct, ok, detail, where)
        self.rules = {}
        self.undecided = []
        self.assumptions = []
        self.broken = []
        self.units = set()
        self.analysed = {"functions": 0, "events": 0}

    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, construct, ok, detail="", where=""):
        """ok: True (holds), False (violated), None (the construct is there but in a shape the rule cannot judge)."""
        assert rule in self.rules, rule
        if ok is None:
            self.undecided.append((rule, construct, detail, where))
            return None
        self.obs.append((rule, construct, bool(ok), detail, where))
        return bool(ok)

    def must(self, rule, construct, xs, detail="", where=""):
        """The construct has to contain at least one of these effects; their absence is the violation."""
        xs = list(xs)
        if not xs:
            self.ob(rule, construct, False, detail or "no such effect in this construct", where)
        return xs

    def part(self, P, *fns):
        """Independent parts of a check: one that cannot be analysed does not hide what the others find."""
        for fn in fns:
            try:
                fn(P, self)
            except AnalysisBroken as e:
                self.broken.append(f"{fn.__name__}: {e}")
            except Exception as e:
                self.broken.append(f"{fn.__name__}: {type(e).__name__}: {e} at {traceback.format_exc().splitlines()[-3].strip()}")

    def unit(self, q):
        self.units.add(q)

    def floor(self, rule, n):
        c = sum(1 for o in self.obs + self.undecided if o[0] == rule)
        if c < n:
            raise AnalysisBroken(f"rule {rule}: only {c} instance(s) found, {n} confirmed by hand")


def load_known():
    out = {}
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p))["findings"]:
            out[(e["property"], e["rule"], e["construct"])] = e["what"]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    R = Report(prop)
    mod = importlib.import_module(f"rules.{prop.lower()}")
    try:
        P = Program()
        mod.check(P, R)
        if a.tier == "thorough" and hasattr(mod, "thorough"):
            mod.thorough(P, R)
        if not R.obs:
            raise AnalysisBroken("no obligation was generated")
        if R.broken:
            raise AnalysisBroken("; ".join(R.broken))
        if len(R.obs) + len(R.undecided) < 0.4 * json.load(open(os.path.join(HERE, "sa", "counts.json"))).get(prop, 1):
            raise AnalysisBroken("most of the obligations confirmed by hand are gone")
    except AnalysisBroken as e:
        # A part whose constructs are gone is reported as not decided, and never as held. Where more than a part is gone
        # (fewer than 60 % of the obligations confirmed by hand, see sa/counts.json), the run gives no answer at all.
        bad = [o for o in R.obs if not o[2]]
        ref = json.load(open(os.path.join(HERE, "sa", "counts.json"))).get(prop, 1)
        if not bad and (not R.obs or len(R.obs) < 0.6 * ref):
            print(f"ANALYSIS-BROKEN property={prop}: {e} ({len(R.obs)} obligations, {ref} expected)", file=sys.stderr)
            return 3
        R.rules.setdefault("incomplete", "the constructs this part of the check is about are there to be judged")
        R.ob("incomplete", str(e)[:200], None, "not decided: the constructs were not found in a shape that can be judged")
    known = load_known()
    bad, kn = [], []
    for o in R.obs:
        if o[2]:
            continue
        k = (prop, o[0], o[1])
        (kn if k in known else bad).append(o)
    os.makedirs(os.path.join(EVID), exist_ok=True)
    rep = os.path.join(EVID, f"{prop}.report.txt")
    with open(rep, "w") as f:
        for o in bad:
            f.write(f"{o[4]}: rule {o[0]} [{o[1]}]: {R.rules[o[0]]}\n    {o[3]}\n")
        if not bad:
            f.write("no violation\n")
    if a.v:
        for o in R.obs:
            print(("ok  " if o[2] else "FAIL"), o[0], "|", o[1], "|", o[4], "|", o[3][:600])
    per = {}
    for o in R.obs:
        per.setdefault(o[0], [0, 0])
        per[o[0]][0] += 1
        per[o[0]][1] += o[2]
    ev = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static decision from the syntax tree of /repo/src/litdata (gated value numbering + typestate "
            "over region trees, see DESIGN.md). Every obligation is one instance of a rule at one construct.",
            "obligations": len(R.obs),
            "discharged": sum(1 for o in R.obs if o[2]),
            "rules": {r: {"text": R.rules[r], "instances": per.get(r, [0, 0])[0], "discharged": per.get(r, [0, 0])[1]}
                      for r in R.rules},
            "functions_analysed": sorted(R.units),
            "modules_parsed": len(P.modules) if "P" in dir() else 0,
            "functions_parsed": len(P.funcs) if "P" in dir() else 0,
            "source_digest": P.digest() if "P" in dir() else "",
            "samples": [f"{o[4]} {o[0]} [{o[1]}] {'holds' if o[2] else 'VIOLATED'} {o[3][:200]}" for o in R.obs[:400]],
            "undecided": [f"{u[3]} {u[0]} [{u[1]}] {u[2][:300]}" for u in R.undecided],
            "known_findings": [f"{o[0]} {o[1]}" for o in kn],
            **getattr(R, "extra", {}),
        },
        "assumptions": R.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in R.undecided:
        print(f"UNDECIDED property={prop} {u[3]}: {u[0]} [{u[1]}] {u[2][:300]}")
    for o in {(o[0], o[1]): o for o in kn}.values():
        print(f"KNOWN-FINDING: property={prop} {known[(prop, o[0], o[1])]}")
    print(f"{prop}: {len(R.obs)} obligations over {len(R.units)} functions, {len(bad)} violated, {len(kn)} known, {time.time()-t0:.1f}s")
    if bad:
        for o in bad:
            print(f"  {o[4]}: {o[0]} [{o[1]}] {o[3][:700]}")
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 4
    sys.exit(rc)
