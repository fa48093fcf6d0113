#!/usr/bin/env python3
"""check.py <property> : decides one property of /repo's current source by static analysis."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import common, props
from vp.load import Run, Undetermined
from vp.pieces import Bad

KNOWN = os.path.join(common.VERIF, "KNOWN_FINDINGS.txt")


def known(pid):
    out = {}
    for line in open(KNOWN):
        line = line.rstrip("\n")
        if line.startswith(f"finding: property={pid} key="):
            rest = line.split("key=", 1)[1]
            key, _, desc = rest.partition(" ")
            out[key] = desc
    return out


class Ctx:
    def __init__(self, pid, tier, outdir):
        self.pid, self.tier, self.outdir = pid, tier, outdir
        self.obligations = 0
        self.violations = []
        self.coverage = {}
        self.functions = set()
        self.callsites = 0
        self.steps = 0
        self.runs = {}
        self.unclear = []
        self.env = None
        self.hook = True

    def analyse(self, entries, features, **kw):
        self.log = common.analyse(entries, features, self.outdir, quick=self.tier != "thorough", **kw)
        self.hook = common.NO_HOOK not in self.log
        if not self.hook:
            print(f"NOTE property={self.pid}: {common.NO_HOOK.strip()}, so that what needs it is not analysed")
            self.coverage["not analysed"] = common.NO_HOOK.strip() + ": the building of tables"
        import glob
        for f in sorted(glob.glob(self.outdir + "/*.json")):
            r = Run(f)
            self.runs[r.entry] = r
        if not self.runs:
            raise common.Inconclusive(f"nothing was analysed:\n{self.log[-2000:]}")
        for r in self.runs.values():
            self.functions |= {f[0] for f in r.d["functions"]}
            self.callsites += r.d["callsites"]
            self.steps += r.d["steps"]

    def run(self, entry, panics_ok=False):
        """a finished analysis; panics and undefined behaviour met on the way are violations"""
        r = self.runs.get(entry)
        if r is None:
            raise common.Inconclusive(f"entry {entry} was not analysed")
        if r.error:
            raise common.Inconclusive(f"{entry}: {r.error}")
        for e in r.events:
            if e["kind"] == "check":
                continue
            if e["kind"] == "unknown":
                raise common.Inconclusive(f"{entry}: {e['msg']} at {e['loc']} in {e['func']}")
            if e["kind"] == "panic" and panics_ok:
                continue
            path = " > ".join(e["path"][-6:])
            self.violation(f"{entry}:{e['kind']}:{e['func']}", f"{e['kind']} `{e['msg']}` at {e['loc']} in {e['func']} when {e['witness'] or 'always'} (path {path})")
        if not r.alive and not self.violations:
            self.violation(f"{entry}:never-returns", f"{entry} never returns")
        self.obligations += 1
        return r

    def violation(self, key, msg):
        if key not in [k for k, _ in self.violations]:
            self.violations.append((key, msg))

    def guard(self, fn):
        try:
            return fn()
        except Bad as b:
            self.violation(b.key, str(b))
        except (common.Inconclusive, Undetermined) as e:
            # the rest is judged all the same
            self.unclear.append(str(e))

    def ok(self, n=1):
        self.obligations += n

    def require(self, cond, key, msg):
        self.obligations += 1
        if not cond:
            self.violation(key, msg() if callable(msg) else msg)
        return cond


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = props.PROPS[pid]
    outdir = os.path.join(common.BUILD, "out", pid)
    replay = os.path.join(common.BUILD, "replay", pid + ".json")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
    ctx = Ctx(pid, tier, outdir)
    code = 0
    try:
        P["check"](ctx)
        floor = P.get("floor", 1)
        if ctx.hook and not ctx.violations and not ctx.unclear and ctx.obligations < floor:
            raise common.Inconclusive(f"only {ctx.obligations} obligations were found, at least {floor} are there on the reference tree")
    except common.MissingAnchor as e:
        ctx.violation("anchor", str(e))
    except (common.Inconclusive, Undetermined) as e:
        print(f"INCONCLUSIVE property={pid}: {e}")
        code = 2
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={pid}: internal error of the check")
        code = 2
    if ctx.unclear:
        code = 2
        for m in ctx.unclear[:8]:
            print(f"INCONCLUSIVE property={pid}: {m}")
    if code == 2:
        # what was decided stands, whatever could not be
        for r in ctx.runs.values():
            if not any(e["kind"] == "unknown" for e in r.events):
                for e in r.events:
                    if e["kind"] == "check":
                        ctx.violation(f"{r.entry}:{e['msg']}", f"{r.entry}: `{e['msg']}` fails when {e['witness'] or 'always'}")
    kn = known(pid)
    new = [(k, m) for k, m in ctx.violations if k not in kn]
    for k, d in kn.items():
        if any(k == x for x, _ in ctx.violations) or P.get("always_report"):
            print(f"KNOWN-FINDING: property={pid} {k} {d}")
    fns = sorted(ctx.functions)
    if new:
        code = 1
        with open(replay, "w") as f:
            json.dump({"property": pid, "violations": [{"key": k, "what": m} for k, m in new], "functions_analysed": fns}, f, indent=1)
        for k, m in new[:12]:
            print(f"  [{k}] {m}")
        print(f"VIOLATION property={pid} replay={replay}")
    cov = {
        "explanation": P["explanation"],
        "rule": P["rule"],
        "obligations": ctx.obligations,
        "discharged": ctx.obligations - len(ctx.violations),
        "checker_cmd": f"python3 check.py {pid}" + (" --thorough" if tier == "thorough" else ""),
        "trusted_base": ["rustc front end and MIR construction (nightly)", "transfer functions of /verif/driver", "geometric reference model /verif/vp"],
        "functions_analysed": len(fns),
        "functions": fns[:400],
        "entries": {e: {"mir_steps": r.d["steps"], "call_sites": r.d["callsites"], "functions": len(r.d["functions"]), "events": len(r.events)} for e, r in ctx.runs.items()},
        "call_sites": ctx.callsites,
        "known_findings": sorted(k for k in kn if any(k == x for x, _ in ctx.violations)),
        "repo": common.git_head(),
        **ctx.coverage,
    }
    ev = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": P["level"],
        "coverage": cov,
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(common.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if code == 0:
        print(f"OK property={pid} obligations={ctx.obligations} functions={len(fns)} call_sites={ctx.callsites} wall={ev['wall_s']}s")
    sys.exit(code)


if __name__ == "__main__":
    main()
