"""bin/check <property> [quick|thorough]: decides one property against /repo's current working tree."""
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))

ANSWERS = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C16", "C19"}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.quick = tier == "quick"
        self.deadline = self.t0 + (150 if self.quick else 3000)
        self.violations = []
        self.known = []
        self.notes = []

    def known_keys(self):
        keys = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                if l.startswith("finding:") and f"property={self.prop} " in l:
                    keys.append(l.split("key=", 1)[1].split()[0])
        return keys

    def violate(self, what, data, key=None):
        """a confirmed violation: data is written as the replay file"""
        if key and key in self.known_keys():
            if key not in [k for k, _ in self.known]:
                self.known.append((key, what))
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{len(self.violations) + 1}.json")
        with open(p, "w") as f:
            json.dump(dict(data, property=self.prop, what=what), f, indent=1, default=str)
        self.violations.append((what, p))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    mod = importlib.import_module("c_answers" if prop in ANSWERS else "c_relate" if prop in ("C11", "C12") else "c_" + prop.lower())
    try:
        level, cov, assumptions = mod.run(ctx)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop}: the check could not run")
        sys.exit(2)
    cov["notes"] = ctx.notes
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, what in ctx.known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    for what, p in ctx.violations[:10]:
        print(f"VIOLATION property={prop} replay={p}")
        print("   " + what)
    n = {k: v for k, v in cov.items() if isinstance(v, int)}
    print(f"{prop} {tier}: {'VIOLATED' if ctx.violations else 'held'} {n} in {ev['wall_s']} s")
    sys.exit(1 if ctx.violations else 0)


if __name__ == "__main__":
    main()
