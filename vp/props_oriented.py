"""Oriented cubes: rotations, slices and wide turns of any depth against the physical cube."""
from . import geom as G
from .common import Inconclusive
from .load import Undetermined
from .pieces import Bad, CubeModel
from .props_random import table
from .registry import ABS, checked, prop, same_pieces


def fc(f):
    return (G.AX[f["axis"]], G.DIRECTION[f["direction"]])


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def rigid(r, u):
    """the rotation that takes R to r and U to u"""
    x, y = G.unit(r), G.unit(u)
    z = cross(x, y)
    return lambda v: tuple(v[0] * x[i] + v[1] * y[i] + v[2] * z[i] for i in range(3))


def all_stickers(n):
    c = range(-(n - 1), n, 2)
    for f in G.FACES:
        for p in ((x, y, z) for x in c for y in c for z in c):
            if p[f[0]] * f[1] == n - 1:
                yield (f, p)


def on_stickers(n, q):
    return {(f, p): (G.face_of(q(G.unit(f))), q(p)) for f, p in all_stickers(n)}


def layer(n, a, c):
    """layers counted from the positive face of the axis"""
    return (n - 1 - c) // 2


def physical(n, m):
    """what an extended move does to the stickers of a cube as it is seen"""
    kind, v = m
    if kind == "Rotation":
        a, k, layers = G.AX[v["0"]["axis"]], G.AMOUNT[v["0"]["amount"]], range(n)
    elif kind == "Slice":
        a, k = G.AX[v["rot"]["axis"]], G.AMOUNT[v["rot"]["amount"]]
        if v["wide"]:
            layers = [n // 2] if n % 2 else []
        else:
            layers = range(1, n - 1)
    else:
        t = v["0"]
        d = 0
        if kind == "Wide":
            d, t = t["depth"], t["axis_move"]
        a, s = fc(t["face"])
        k = G.AMOUNT[t["amount"]] * s
        d = min(d, n - 1)
        layers = range(d + 1) if s > 0 else range(n - 1 - d, n)
    layers = set(layers)

    def go(f, p):
        if layer(n, a, p[a]) in layers:
            return (G.rot_face(a, k, f), G.rot(a, k, p))
        return (f, p)

    return {st: go(*st) for st in all_stickers(n)}


def describe(m):
    kind, v = m
    if kind in ("Rotation", "Slice"):
        t = v["0"] if kind == "Rotation" else v["rot"]
        return f"{kind.lower()} of {t['axis']} {t['amount']}" + (" (wide)" if kind == "Slice" and v["wide"] else "")
    t = v["0"]
    d = 0
    if kind == "Wide":
        d, t = t["depth"], t["axis_move"]
    return f"{kind.lower()} turn {G.FACE_NAME[fc(t['face'])]} {t['amount']} of depth {d}"


def oriented(ctx, n, depths):
    r = ctx.run(f"ori{n}")
    model = CubeModel(r, n)
    try:
        model.solve()
    except Bad as b:
        raise Bad(b.key, "pieces can not be matched with a physical cube: " + str(b))
    ej, rj, uj, r2, u2 = (r.out(t) for t in ("em", "r", "u", "r'", "u'"))
    bef, aft = r.out("obefore")["f"], r.out("oafter")["f"]
    ovar, dec = {}, {}
    for p in model.paths:
        sup = r.support(bef[p]["n"])
        if len(sup) != 1:
            raise Undetermined(f"ori{n}: state of {p} is not one choice")
        (v,) = sup
        ovar[p] = v
        dec[p] = [r.num(bef[p]["n"], {v: x}) for x in range(r.dom(v))]
    piece_vars = set(ovar.values())
    ori_vars = r.jsupport(rj) | r.jsupport(uj)
    mvars = r.jsupport(ej)
    for t in ("r'", "u'"):
        extra = r.jsupport(r.out(t)) - ori_vars - mvars
        if extra:
            raise Bad(f"ori{n}:orientation", f"the orientation after a move depends on {[r.vars[x][0] for x in extra]}")
    for p in model.paths:
        extra = r.support(aft[p]["n"]) - ori_vars - mvars - {ovar[p]}
        if extra:
            raise Bad(f"ori{n}:{p}:dependence", f"the new state of piece {p} depends on {[r.vars[x][0] for x in extra]}")
    pc = r.pc("r'")
    phys, seen_moves = {}, set()
    rig = {}
    gid = {}
    inv = {p: {g: s for s, g in model.phi[p].items()} for p in model.paths}
    done = set()
    combos = 0
    centers = [(f, tuple((n - 1) * x for x in G.unit(f))) for f in G.FACES] if n % 2 else []

    def rmap(q):
        if q not in rig:
            fwd = on_stickers(n, rigid(*q))
            rig[q] = (fwd, {b: a for a, b in fwd.items()})
        return rig[q]

    def frame(env):
        if not r.holds(pc, env):
            return None
        return tuple(fc(r.val(j, env)) for j in (rj, uj, r2, u2))

    for em, m in r.cases(lambda e: r.val(ej, e)):
        key = str(m)
        if key not in phys:
            phys[key] = physical(n, m)
        seen_moves.add(key)
        for env, fr in r.cases(frame, em):
            if fr is None:
                continue
            combos += 1
            q, q2 = fr[:2], fr[2:]
            if q2[0][0] == q2[1][0]:
                raise Bad(f"ori{n}:orientation", f"after a {describe(m)} R and U are on the same axis")
            M = phys[key]
            fwd, back = rmap(q)[0], rmap(q2)[1]
            g = {st: back[M[x]] for st, x in fwd.items()}
            where = f"{describe(m)} with R at {G.FACE_NAME[q[0]]} and U at {G.FACE_NAME[q[1]]}"
            for c in centers:
                if g[c] != c:
                    raise Bad(f"ori{n}:orientation:{m[0]}", f"{n}x{n}: after a {where} the cube counts as oriented with R at {G.FACE_NAME[q2[0]]} and U at {G.FACE_NAME[q2[1]]}, but its centers are elsewhere")
            gk = tuple(g.values())
            i = gid.setdefault(gk, len(gid))
            for p in model.paths:
                node = walk(r, aft[p]["n"], env)
                k = (p, node, i)
                if k in done:
                    continue
                v, d, ph, iv = ovar[p], dec[p], model.phi[p], inv[p]
                for x in range(len(d)):
                    s = d[x]
                    if s not in ph:
                        continue
                    ctx.ok()
                    want = iv.get(tuple(g[st] for st in ph[s]))
                    env[v] = x
                    got = r.num(node, env)
                    del env[v]
                    if want != got:
                        raise Bad(f"ori{n}:{model.field_of(p)}:{m[0]}", f"{n}x{n}: {where} takes {p} from {model.show(p, s)} to {model.show(p, got)}, on a physical cube it would be {model.show(p, want) if want is not None else 'elsewhere'} (in the frame of the base cube)")
                if r.support(node) <= {v}:
                    done.add(k)
    need = 18 + 9 + 18 * depths + 18
    if len(seen_moves) < need:
        raise Inconclusive(f"ori{n}: only {len(seen_moves)} moves of {need}")
    ctx.coverage.setdefault("oriented", {})[f"{n}x{n}"] = {"moves": len(seen_moves), "moves x orientations": combos, "distinct effects on the base cube": len(gid)}


def walk(r, n, env):
    row = r.nodes[n]
    while row[0] == "b" and row[1] in env:
        n = row[2][env[row[1]]]
        row = r.nodes[n]
    return n


@prop(
    "C15",
    explanation=ABS + "one arbitrary move of the extended notation is applied to an oriented cube in an arbitrary orientation with pieces in arbitrary reachable states; the result, seen through the new orientation, is compared with the same move on the physical cube seen through the old one.",
    rule="Q'(phys(cube')) = M(Q(phys(cube))) on every sticker of every piece and on the fixed centers, where Q is the rotation R -> r_face, U -> u_face and M turns: the outer layer (regular), the whole cube (rotation), layers 0..=min(depth, N-1) (wide), all inner layers (slice) or only the middle one (slice with `wide`)",
    floor=100000,
    note="Complete for all moves with wide depth 0 to N and the largest depth there is, all 24 orientations, all piece states, all six cube sizes.",
)
def c15(ctx):
    ctx.analyse([f"ori{n}" for n in range(7, 1, -1)] + ["plain", "orientation", "default_orientation"], ["oriented"])
    for n in range(2, 8):
        ctx.guard(lambda: oriented(ctx, n, n + 2))
    r = ctx.run("plain")
    checked(ctx, "plain", ["axis-orientation", "quarter-orientation"], "plain turns of an oriented cube")
    same_pieces(ctx, r, "axis", "axis'", "a face turn of an oriented cube against the extended move")
    same_pieces(ctx, r, "quarter", "quarter'", "a quarter turn of an oriented cube against the extended move")
    checked(ctx, "default_orientation", ["default-r", "default-u", "default-rotations", "new-orientation", "solved", "is-solved", "from"], "a new oriented cube")
    r = checked(ctx, "orientation", ["r-face", "u-face", "rotations-lead-to-it", "rotations-few"], "orientations")
    # which pairs of faces are orientations
    vs = r.jsupport(r.out("r")) | r.jsupport(r.out("u"))
    oks = {}
    for o in r.outs["ok"]:
        v = r.num(o["val"]["n"], {})
        for env in r.assignments(vs | r.support(o["pc"])):
            if r.holds(o["pc"], env):
                oks.setdefault((fc(r.val(r.out("r"), env)), fc(r.val(r.out("u"), env))), set()).add(v)
    ctx.require(len(oks) == 36, "pairs", lambda: f"{len(oks)} pairs of faces instead of 36")
    for (a, b), v in oks.items():
        ctx.require(v == {int(a[0] != b[0])}, "perpendicular", lambda: f"R at {G.FACE_NAME[a]} and U at {G.FACE_NAME[b]} is " + ("accepted" if 1 in v else "refused"))
    rv = r.jsupport(r.out("rot"))
    for env in r.assignments(vs | rv | r.support(r.pc("r'"))):
        if not r.holds(r.pc("r'"), env):
            continue
        rot = r.val(r.out("rot"), env)
        a, k = G.AX[rot["axis"]], G.AMOUNT[rot["amount"]]
        for t in "ru":
            f, g = fc(r.val(r.out(t), env)), fc(r.val(r.out(t + "'"), env))
            ctx.require(g == G.rot_face(a, k, f), f"rotated:{t}", lambda: f"rotating an orientation around {rot['axis']} {rot['amount']} takes its {t.upper()} face from {G.FACE_NAME[f]} to {G.FACE_NAME[g]}")
