"""What the checks share: the registry and small judges of analysis results."""
from . import geom as G
from .common import Inconclusive
from .load import Undetermined
from .pieces import Bad, CubeModel, move_name, simplify
from .solved import check_solved

PROPS = {}


def prop(pid, **kw):
    def deco(fn):
        kw["check"] = fn
        kw.setdefault("level", "proof")
        PROPS[pid] = kw
        return fn

    return deco


ABS = "Abstract interpretation of the compiler's MIR of /repo (decision-diagram valued dataflow, joins at post-dominators, nothing is executed): "


def checked(ctx, *args, **kw):
    """the entry's own assertions: every one reached and none that can fail"""
    return ctx.guard(lambda: assertions(ctx, *args, **kw))


def assertions(ctx, entry, ids, what="", panics_ok=False):
    r = ctx.run(entry, panics_ok)
    for e in r.events:
        if e["kind"] == "check":
            ctx.violation(f"{entry}:{e['msg']}", f"{what or entry}: `{e['msg']}` fails when {e['witness'] or 'always'}")
    for i in ids:
        ctx.ok()
        if not r.d["checks"].get(i) and not ctx.violations:
            raise Inconclusive(f"{entry}: the assertion {i} is never reached")
    return r


def same_pieces(ctx, r, a, b, what):
    A, B = r.out(a)["f"], r.out(b)["f"]
    for p in A:
        ctx.ok()
        if A[p]["n"] != B[p]["n"]:
            w = difference(r, A[p]["n"], B[p]["n"])
            ctx.violation(f"{r.entry}:{a}:{p.split('[')[0]}", f"{what}: piece {p} ends up different when {w}")
            return


def difference(r, a, b):
    """an assignment on which two diagrams differ"""
    seen = set()

    def go(x, y, env):
        if x == y or (x, y) in seen:
            return None
        seen.add((x, y))
        rx, ry = r.nodes[x], r.nodes[y]
        if rx[0] != "b" and ry[0] != "b":
            return dict(env)
        v = min(t[1] for t in (rx, ry) if t[0] == "b")
        for i in range(r.dom(v)):
            env[v] = i
            cx = rx[2][i] if rx[0] == "b" and rx[1] == v else x
            cy = ry[2][i] if ry[0] == "b" and ry[1] == v else y
            w = go(cx, cy, env)
            if w:
                return w
            del env[v]
        return None

    w = go(a, b, {})
    return r.describe(w) if w else "?"
