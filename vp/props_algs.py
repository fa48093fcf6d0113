"""Algs: meaning, normal form, enumerations, connecting states, random algs."""
from .common import Inconclusive
from .props_random import freeze, leaves, table
from .registry import ABS, checked, prop, same_pieces

FOLDS = (0, 1, 2, 3, 4, 7, 12, 33, 200)


@prop(
    "C12",
    explanation=ABS + "algs of up to 200 arbitrary moves are applied to a recorder of moves; quarter turns, parallel turns and their conversions are applied to a 3x3 cube whose pieces are in arbitrary reachable states and compared, as canonical diagrams, with the face turns they stand for.",
    rule="applying an alg, a slice of moves or `moved` performs the moves in order; a quarter turn is a face turn by +-90 degrees, a parallel turn is its two face turns, conversions keep the effect and convert lists element by element in order; widen keeps the moves and sets the depth, or fails exactly for depths above the maximum (an empty alg has no move to refuse)",
    floor=60,
    note="Single moves: complete. Applying algs: arbitrary moves for lengths 0-4, 7, 12, 33 and 200; conversions of lists: arbitrary moves for lengths 0, 2-4 and 9, three arbitrary ones among 140; widening: lists of 0, 1, 3, 25 and 150 arbitrary moves.",
    level="other",
)
def c12(ctx):
    LQ = ["listq0", "listq2", "listq3", "listq4", "listq9"]
    LN = ["listnr0", "listnr2", "listnr3", "listnr4", "listnr9", "listnr20"]
    ctx.analyse(["meaning", "widen", "widen0", "widen1", "widen25", "widen150"] + [f"fold{k}" for k in FOLDS] + LQ + LN + ["list_long"], ["alg"])
    for k in FOLDS:
        checked(ctx, f"fold{k}", ["apply-alg", "alg-kept", "apply-slice", "moved", "collect", "empty"], f"an alg of {k} moves")
    for e in LQ:
        checked(ctx, e, ["quarters-of-list"], "an alg as quarter turns")
    for e in LN:
        checked(ctx, e, ["moves-of-list"], "parallel turns as an alg of face turns")
    checked(ctx, "list_long", ["quarters-of-list", "moves-of-list"], "converting a long list")
    for e in ("widen0", "widen1", "widen25", "widen150"):
        checked(ctx, e, ["widen-length", "widen-too-deep"] + (["widen-depth", "widen-move", "widen-refused"] if e != "widen0" else []), "widening an alg")
    checked(ctx, "widen", ["widen-too-deep", "widen-length", "widen-depth", "widen-move", "widen-refused", "widen-one", "widen-one-refused"], "widening an alg")
    r = checked(ctx, "meaning", ["axis-of-double", "axis-of-single"], "composite moves")
    for t, what in (
        ("quarter", "a quarter turn against the face turn"),
        ("quarter-as-axis", "a quarter turn converted to a face turn"),
        ("as-quarters", "a face turn as quarter turns"),
        ("single", "a single move as a non redundant move"),
        ("double", "two parallel turns against one after the other"),
        ("double-as-alg", "two parallel turns converted to an alg"),
        ("single-as-alg", "a single non redundant move converted to an alg"),
    ):
        same_pieces(ctx, r, t, t + "'", what)


NORMS = ["norm5", "norm_g"] + [f"norm{k}" for k in range(5)] + [f"norm_{x}" for x in "abcdef"]
LONG = ["norm_begin", "norm_amid", "norm_end", "norm_back5", "norm_back11", "norm_back24", "norm_same21", "norm_same70"]


@prop(
    "C13",
    explanation=ABS + "Alg::normalized on algs of arbitrary face turns; result and input are reduced, in the analysis, to the reduced sequence of parallel blocks (a normal form of the group generated by the turns under the relations that turns of parallel faces commute and turns of a face add up).",
    rule="the blocks of the normalized alg equal the blocks of the alg (so it has the same effect on every cube) and its length is the number of non-trivial face turns in the blocks (so no turn can be merged or cancelled)",
    floor=18,
    level="other",
    note="Algs of arbitrary turns of length 0-5, lengths 6-9 over seven smaller sets of turns that cancel and commute, three arbitrary turns at the beginning, in the middle and at the end of algs of 43 to 64 turns that cannot be merged, and between 5, 11 and 24 turns and their inverses, and any one turn 21 and 70 times.",
)
def c13(ctx):
    more = ["norm6", "norm_h"] if ctx.tier == "thorough" else []
    ctx.analyse(more + NORMS + LONG, ["alg"])
    for e in NORMS + LONG + more:
        checked(ctx, e, ["normalized-same-effect", "normalized-shortest"], "normalizing an alg")


DIRS = ("Positive", "Negative")
AMOUNTS = ("Single", "Double", "Inverse")


def face(a, d):
    return {"axis": a, "direction": d}


FACES = [face(a, d) for a in "XYZ" for d in DIRS]
TURNS = [{"face": f, "amount": k} for f in FACES for k in AMOUNTS]


def parallel(axes):
    one = [("Single", {"0": t}) for t in TURNS if t["face"]["axis"] in axes]
    two = [("Double", {"axis": a, "amount_positive": p, "amount_negative": n}) for a in axes for p in AMOUNTS for n in AMOUNTS]
    return one + two


def same_set(ctx, what, got, want):
    ctx.ok()
    g, w = [freeze(x) for x in got], [freeze(x) for x in want]
    if len(set(g)) != len(g):
        ctx.violation(f"{what}:twice", f"{what}: {next(x for x in g if g.count(x) > 1)} is listed twice")
    elif set(g) != set(w):
        miss, extra = set(w) - set(g), set(g) - set(w)
        ctx.violation(f"{what}:set", f"{what}: missing {sorted(map(str, miss))[:3]}, unexpected {sorted(map(str, extra))[:3]}")


@prop(
    "C14",
    explanation=ABS + "the enumerations are evaluated to the list of values they produce; successors of a 3x3 cube with pieces in arbitrary states.",
    rule="each enumeration holds exactly the values of its kind, none twice; the successors of a cube are the 18 turns, each with the cube it leads to; face.index numbers the faces 0 to 5 without repetition",
    floor=12,
)
def c14(ctx):
    ctx.analyse(["successors", "enums", "face_index"], ["alg"])
    r = ctx.run("enums")
    same_set(ctx, "AxisMove::all", r.val(r.out("axis-moves"), {}), TURNS)
    same_set(ctx, "Face::iter", r.val(r.out("faces"), {}), FACES)
    same_set(ctx, "NonRedundantAxisMove::all", r.val(r.out("non-redundant"), {}), parallel("XYZ"))
    for a in "XYZ":
        same_set(ctx, f"NonRedundantAxisMove::of_axis({a})", r.val(r.out(a.lower()), {}), parallel(a))
        same_set(ctx, f"NonRedundantAxisMove::given_last_axis({a})", r.val(r.out("not-" + a.lower()), {}), parallel("XYZ".replace(a, "")))
    r = checked(ctx, "successors", ["number-of-successors", "successor-is-moved"], "the successors of a cube")
    same_set(ctx, "successors", r.val(r.out("moves"), {}), TURNS)
    r = ctx.run("face_index")
    t = table(r, ["f", "i"])
    ctx.require(sorted(i for _, i in t) == list(range(6)), "index", lambda: f"indices of the faces are {sorted(i for _, i in t)}")


@prop(
    "C22",
    explanation=ABS + "connect and Alg::try_from_states on a cube-like structure of three states whose four moves lead anywhere (all 3^12 graphs at once), and connect on 3x3 cubes.",
    rule="connect finds a move exactly when one exists and the move it returns leads from one state to the other; try_from_states yields one such move per step, or fails exactly when some step has none",
    floor=25,
    note="Generic code: complete for structures with three states and four moves, lists of up to four and of six states, and two arbitrary states among 90. On the 3x3: cubes from windows of the random draws.",
    level="other",
)
def c22(ctx):
    ST = [f"states{k}" for k in (*range(5), 6)]
    C3 = ["connect3a", "connect3b", "connect3c"]
    ctx.analyse(["states6", "connect", "states_long"] + C3 + ST[:5], ["alg"])
    checked(ctx, "connect", ["connect-right", "connect-none"], "connect")
    for k, e in enumerate(ST):
        checked(ctx, e, ["states-connected", "states-length"] + (["states-move", "states-refused"] if k > 1 else []), f"an alg from {k} states")
    checked(ctx, "states_long", ["states-connected", "states-length", "states-move", "states-refused"], "an alg from 90 states")
    for e in C3:
        checked(ctx, e, ["connect-finds-turn", "connect-same"], "connecting two 3x3 cubes")


def coverage(ctx, r, tag, want):
    ctx.ok()
    got = {row[0] for row in table(r, [tag])}
    w = {freeze(x) for x in want}
    if got != w:
        ctx.violation(f"{r.entry}:{tag}", f"a random move ({tag}) is never {sorted(map(str, w - got))[:3]} / is {sorted(map(str, got - w))[:3]}")


@prop(
    "C24",
    explanation=ABS + "random moves and algs with every draw of the generator arbitrary; redundancy is judged by the block normal form of C13.",
    rule="a random alg has the requested length and, where promised, cannot be shortened by merging turns of the same face across parallel turns; a random move is a valid move of its type and any of them can come up",
    floor=30,
    note="Random moves: complete. Non redundant algs: all outcomes of the draws for lengths 0-7, 10, 12 and 16 (thorough: 24), some sequences of draws for lengths 137 and 150; unnormalized ones for lengths 0, 1, 5, 20 and 100.",
    level="other",
)
def c24(ctx):
    RA = [f"randalg{k}" for k in (*range(8), 10, 12, 16)]
    RU = ["randun0", "randun1", "randun5", "randun20", "randun100"]
    more = ["randalg24"] if ctx.tier == "thorough" else []
    HERE = ["randhere0", "randhere2", "randhere4"]
    LONG = ["randalg_long", "randalg_longer"]
    ctx.analyse(LONG + more + RA[::-1] + RU + HERE + ["randmove"], ["alg"])
    for e in HERE:
        checked(ctx, e, ["random-length", "random-not-redundant"], "a random alg from the generator of the thread")
    for e in RA + more + LONG:
        r = checked(ctx, e, ["random-length", "random-not-redundant"], "a random alg")
        if e in ("randalg1", "randalg2"):
            for t in ("first", "last"):
                got = len(leaves(r, r.out(t)["n"]))
                ctx.require(got == 18, f"{e}:{t}", lambda: f"the {t} move of a random alg is one of {got} turns, not 18")
    for e in RU:
        checked(ctx, e, ["random-length"], "a random unnormalized alg")
    r = ctx.run("randmove")
    coverage(ctx, r, "axis", TURNS)
    coverage(ctx, r, "quarter", [{"face": f, "direction": d} for f in FACES for d in DIRS])
    for n in (0, 1, 2, 5):
        coverage(ctx, r, f"wide{n}", [{"depth": d, "axis_move": t} for d in range(n + 1) for t in TURNS])
