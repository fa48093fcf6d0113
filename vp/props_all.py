"""No panic and no undefined behaviour, whatever is called with whatever."""
import json
import os

from .common import Inconclusive
from .registry import ABS, prop

FEATURES = ["search", "wide", "oriented", "unfold", "text", "cache", "play", "laws"]


def everything():
    with open(os.path.join(os.path.dirname(__file__), "everything.txt")) as f:
        return f.read().split()


@prop(
    "C19",
    explanation=ABS + "every entry of the harness that is decided in seconds, that is, what every other check analyses, in one run; and an inventory, over all bodies of the crate, of every place that can panic (assertions of the compiler, calls that never return, unwrap, expect, indexing) or leaves safe Rust.",
    rule="no reached place can panic, overflow, index out of bounds, build an invalid value or read out of bounds",
    floor=400,
    level="other",
    note="Each analysed function is covered for the values it is given by the harness, which are all values of its domain where the domain is finite; the evidence lists the functions that no analysed path reaches and the sites in them.",
)
def c19(ctx):
    inventory = os.path.join(ctx.outdir, "inventory")
    os.makedirs(ctx.outdir, exist_ok=True)
    ctx.analyse(everything(), FEATURES, extra={"STA_CFG": "1", "STA_INVENTORY": inventory})
    undecided = []
    reached = {}
    for name, r in sorted(ctx.runs.items()):
        for h in r.d["functions"]:
            reached[h[2]] = reached.get(h[2], 0) + h[1]
        for e in r.events:
            # no table has an entry for an impossible assembly
            refused = name.startswith("wild_lookup") and e["kind"] == "panic"
            if e["kind"] in ("panic", "ub") and not refused:
                ctx.violation(f"{e['kind']}:{e['func']}", f"{e['kind']} `{e['msg']}` at {e['loc']} in {e['func']} when {e['witness'] or 'always'} (in {name}, path {' > '.join(e['path'][-6:])})")
        if r.error or any(e["kind"] == "unknown" for e in r.events):
            undecided.append(name)
        else:
            ctx.ok()
    audit(ctx, inventory, reached, undecided)
    # an analysis that can not decide says nothing about panics; it must not be most of them
    if len(undecided) > 40:
        raise Inconclusive(f"{len(undecided)} analyses are not decided: {' '.join(undecided[:10])}")


def audit(ctx, inventory, reached, undecided):
    with open(inventory) as f:
        rows = json.load(f)
    seen = [(f, s) for f, h, ss in rows if h in reached for s in ss]
    unseen = [(f, s) for f, h, ss in rows if h not in reached for s in ss]
    kinds = {}
    for _, s in seen:
        k = f"{s[0]}: {s[1]}"
        kinds[k] = kinds.get(k, 0) + 1
    ctx.ok(len(seen))
    ctx.coverage.update({
        "bodies in the crate": len(rows),
        "bodies reached": sum(1 for _, h, _ in rows if h in reached),
        "sites that can panic or are unsafe, in reached bodies": kinds,
        "sites in bodies that are not reached": [f"{f}: {s[0]} {s[1]} at {os.path.relpath(s[2].split(' ')[0], '/repo') if s[2].startswith('/repo') else s[2]}" for f, s in unseen],
        "analyses that decided nothing": undecided,
    })
