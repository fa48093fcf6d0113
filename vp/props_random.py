"""Random cubes: solvability invariants."""
from .common import Inconclusive
from .pieces import Bad
from .registry import ABS, checked, prop

W3 = [f"rand3{b}_{k}" for b in "ab" for k in (0, 1, 2, 4, 6, 8, 10, 12, 14, 16, 18)] + ["rand3c"]
SW = [f"fix_swap_{b}{k}" for b in "ab" for k in (0, 4, 7, 9, 11, 13)]
INV3 = ["corners-in-distinct-places", "edges-in-distinct-places", "twist", "flip", "swap-parity"]


def table(r, tags):
    vs = set()
    for t in tags:
        vs |= r.jsupport(r.out(t))
    rows = []
    for env in r.assignments(vs):
        rows.append(tuple(freeze(r.val(r.out(t), env)) for t in tags))
    return rows


def freeze(x):
    if isinstance(x, dict):
        return tuple(sorted((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    return x


def invariant(ctx, entry, places, mod):
    """each turn adds a fixed amount to the orientation of whatever is at a place, in total a multiple of `mod`, and cycles four places"""
    r = ctx.run(entry)
    per = {}
    for m, p0, o0, p1, o1 in table(r, ["m", "p0", "o0", "p1", "o1"]):
        d = per.setdefault(m, {}).setdefault(p0, set())
        d.add((p1, (o1 - o0) % mod))
    ctx.require(len(per) == 18, f"{entry}:turns", lambda: f"{len(per)} turns instead of 18")
    for m, row in per.items():
        ctx.ok()
        if sorted(row) != list(range(places)) or any(len(s) != 1 for s in row.values()):
            raise Bad(f"{entry}:place", f"the effect of {m} on the orientation at a place depends on more than the place")
        to = {p: next(iter(s)) for p, s in row.items()}
        if sorted(p for p, _ in to.values()) != list(range(places)):
            raise Bad(f"{entry}:permutation", f"{m} does not permute the places")
        if sum(o for _, o in to.values()) % mod:
            raise Bad(f"{entry}:sum", f"{m} changes the sum of orientations by {sum(o for _, o in to.values())}")
        # sign of the permutation
        sign, seen = 0, set()
        for p in to:
            k = 0
            while p not in seen:
                seen.add(p)
                p = to[p][0]
                k += 1
            sign += max(k - 1, 0)
        yield m, sign % 2


@prop(
    "C06",
    explanation=ABS + "the sampling of Cube2 and Cube3 with every random draw arbitrary (on the 3x3, overlapping windows of the draws are arbitrary at a time and the others fixed), and the three fixing functions on arbitrary assemblies.",
    rule="places are distinct, the sum of twists is divisible by 3, the number of flips is even, corner and edge permutations have equal parity; the same quantities are shown to be invariant under all turns; fixing changes only what is needed; every piece can be drawn in every place and orientation",
    floor=150,
    level="other",
    note="Cube2: all draws. Cube3: all draws of corners and orientations at once, and all overlapping windows of 5 to 7 (thorough: 8 and 9) consecutive draws of the edge shuffle with the others fixed in two ways.",
)
def c06(ctx):
    extra = ["zrand_8e", "zrand_9e"] if ctx.tier == "thorough" else []
    ctx.analyse(extra + W3 + SW + ["rand2", "twist", "flip", "fix_flips", "fix_twists"], ["random"])

    def inv():
        a = dict(invariant(ctx, "twist", 8, 3))
        b = dict(invariant(ctx, "flip", 12, 2))
        for m in a:
            ctx.require(a[m] == b.get(m), "parity", lambda: f"{m} changes the parity of corners and edges differently")

    ctx.guard(inv)
    for e in W3 + extra:
        checked(ctx, e, INV3, "a random 3x3 cube")
    checked(ctx, "rand2", ["corners-in-distinct-places", "twist"], "a random 2x2 cube")
    for e in SW:
        checked(ctx, e, INV3[:2] + ["swap-parity", "swap-unneeded", "swap-of-two"], "fix_swap_parity")
    checked(ctx, "fix_flips", ["flip", "flip-unneeded", "flip-moves-pieces"], "fix_edge_flip_parity")
    checked(ctx, "fix_twists", ["twist", "twist-unneeded", "twist-moves-pieces"], "fix_corner_multiplicity")
    # what can be drawn
    for what, entries, tag, n, dom in (
        ("2x2 corner", ["rand2"], "corner-places", 8, 8),
        ("2x2 corner orientation", ["rand2"], "corner-twists", 8, 3),
        ("corner", W3, "corner-places", 8, 8),
        ("corner orientation", W3, "corner-twists", 8, 3),
        ("edge", W3, "edge-places", 12, 12),
        ("edge orientation", W3, "edge-flips", 12, 2),
    ):
        got = [set() for _ in range(n)]
        for e in entries:
            r = ctx.runs[e]
            if tag not in r.outs:
                continue
            for i, x in enumerate(r.out(tag)["el"]):
                got[i] |= leaves(r, x["n"])
        for i in range(n):
            ctx.require(got[i] >= set(range(dom)), f"coverage:{what}", lambda: f"{what} {i} of a random cube can never be {sorted(set(range(dom)) - got[i])}")


def leaves(r, n, memo=None):
    seen, out, stack = set(), set(), [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        row = r.nodes[x]
        if row[0] == "b":
            stack.extend(row[2])
        elif row[0] == "i":
            out.add(row[1])
        else:
            raise Inconclusive("value not determined")
    return out
