"""What pieces say about themselves, sets of pieces, distances of edges, the cross and searching."""
from . import geom as G
from .common import Inconclusive
from .pieces import Bad, CubeModel
from .props_space import NAME, DIR, ax, dv, face, fc, judge, rot_axis, signed, sv
from .registry import ABS, checked, prop

D = G.DIRECTION


def edge_vec(n, s):
    v = [0, 0, 0]
    v[(ax(n) + 1) % 3], v[(ax(n) + 2) % 3] = dv(s)
    return tuple(v)


def faces_of(v):
    return [face((a, v[a])) for a in range(3) if v[a]]


def as_set(l):
    return sorted((f["axis"], f["direction"]) for f in l)


def clockwise(v):
    """axes of the three stickers of the corner at v, clockwise as seen from outside, starting with Y"""
    return (1, 2, 0) if v[0] * v[1] * v[2] > 0 else (1, 0, 2)


@prop(
    "C26",
    explanation=ABS + "constructors and accessors of every type of piece on arbitrary arguments; tables are compared with vector arithmetic, and what a piece says after a rotation with the rotation of what it said before.",
    rule="faces, coordinates, normals and sides are those of the place the piece was constructed for and rotate rigidly with the piece; the orientation index of a corner is the number of clockwise thirds by which its Y sticker is turned, a twist adds one, a flip is its own inverse; faces on one axis make no edge, wing or center piece",
    floor=200,
)
def c26(ctx):
    ctx.analyse(["corner", "edge", "edge_faces", "edge_rotated", "corner_rotated", "wing", "wing_faces", "center_edge", "center_wing"], ["pieces"])
    checked(ctx, "corner", ["oriented-corner", "oriented-index", "corner-is-solved", "twist-in-place"], "a corner")
    judge(ctx, "corner", ["v"], {
        "faces": lambda v: faces_of(dv(v)),
        "coordinates": (lambda x: sv(x, 32), lambda v: dv(v)),
        "position": lambda v: v,
    }, 8, "a corner")
    cw = lambda v, a, k: NAME[clockwise(dv(v))[(clockwise(dv(v)).index(ax(a)) + k) % 3]]
    judge(ctx, "corner", ["axis"], {"oriented": lambda a: int(a == "Y")}, 3, "a corner")
    judge(ctx, "corner", ["v", "axis"], {
        "index": lambda v, a: clockwise(dv(v)).index(ax(a)),
        "next_axis": lambda v, a: cw(v, a, 1),
        "twisted": lambda v, a: cw(v, a, 1),
    }, 24, "a corner")
    checked(ctx, "corner_rotated", ["corner-rotated", "corner-orientation-rotated"], "a rotated corner")
    checked(ctx, "edge", ["edge-position", "flipped-in-place", "edge-is-solved", "edge-is-solved-there", "flip", "oriented-edge"], "an edge")

    # the orientation of an edge is judged on its Y side, or on its Z side where it has none
    def main_face(n, s):
        f = faces_of(edge_vec(n, s))
        return [x for x in f if x["axis"] == ("Y" if ax(n) != 1 else "Z")][0]

    judge(ctx, "edge", ["normal", "s"], {
        "faces": (as_set, lambda n, s: as_set(faces_of(edge_vec(n, s)))),
        "coordinates": (lambda x: sv(x, 32), edge_vec),
        "orientation_face": main_face,
        "other_face": lambda n, s: [x for x in faces_of(edge_vec(n, s)) if x != main_face(n, s)][0],
    }, 12, "an edge")
    judge(ctx, "edge", ["normal", "s", "a"], {
        "direction": lambda n, s, a: "None" if n == a else ("Some", {"0": DIR[edge_vec(n, s)[ax(a)]]}),
    }, 36, "an edge")
    checked(ctx, "edge_faces", ["faces-ok", "edge-ok", "edge-from-faces", "faces-of-edge"], "an edge from two faces")
    checked(ctx, "edge_rotated", ["edge-rotated"], "a rotated edge")
    checked(ctx, "wing", ["wing-axis", "wing-slice", "wing-direction", "wing-faces", "wing-position", "wing-rotated", "wing-normal-rotated", "wing-again", "wing-is-solved"], "a wing")
    checked(ctx, "wing_faces", ["wing-refused", "wing-accepted", "wing-from-faces"], "a wing from two faces")
    checked(ctx, "center_edge", ["center-edge-refused", "center-edge-accepted", "center-edge-faces", "center-edge-normal", "center-edge-rotated", "center-edge-is-solved", "center-edge-again"], "a center edge")
    checked(ctx, "center_wing", ["center-wing-main", "center-wing-side", "center-wing-axis", "center-wing-direction", "center-wing-rotated", "center-wing-normal-rotated", "center-wing-is-solved"], "a center wing")


@prop(
    "C18",
    explanation=ABS + "the operations of PieceSet on a set of five pieces of the check's own, each at an arbitrary place in an arbitrary orientation, on a set of 48 of which any two are looked at, and the tables of places and solved pieces of every type of piece.",
    rule="new accepts exactly the assemblies with pieces in distinct places and keeps them; swap exchanges exactly the two pieces with the given original places; looking up by original and by current place are inverse to each other; iteration is in the order of the places; is_solved means every piece is solved; every reference place is distinct and the solved piece for it is solved there",
    floor=25,
    level="other",
    note="Complete for sets of five pieces with two orientations (the code is generic in the number and type of pieces) and for the tables of all six types of pieces. Sets of 48 pieces: any two pieces (or the same one) of one assembly; shuffling with 3 arbitrary draws at the beginning, in the middle and at the end.",
)
def c18(ctx):
    large = [f"set_large_shuffle_{k}" for k in (0, 22, 44)]
    ctx.analyse(["set_large", "descriptors", "set", "set_new", "set_swap", "set_move", "set_shuffle"] + large, ["pieces"])
    checked(ctx, "set_large", ["accepted", "refused", "set-is-solved", "at-index", "piece-originally-at", "original-position", "swapped"], "a set of 48 pieces")
    for e in large:
        checked(ctx, e, ["shuffle-keeps-pieces", "shuffle-keeps-orientation"], "shuffling 48 pieces")
    checked(ctx, "descriptors", ["distinct-places", "solved-place", "solved-is-solved", "solved-set", "solved-pieces", "set-places", "solved-valid"], "tables of pieces")
    checked(ctx, "set", ["at-index", "piece-originally-at", "original-position", "at-index-outside", "set-is-solved", "iter", "iter-all", "iter-with-pos", "iter-with-pos-all", "zip-positions", "zip-positions-all", "into-iter", "into-iter-all", "iter-mut"], "a set of pieces")
    checked(ctx, "set_new", ["accepted", "pieces", "valid", "refused"], "constructing a set")
    checked(ctx, "set_swap", ["swapped"], "swapping two pieces")
    checked(ctx, "set_move", ["moved"], "moving a set")
    r = checked(ctx, "set_shuffle", ["shuffle-keeps-pieces", "shuffle-keeps-orientation"], "shuffling a set")
    seen = set()
    for env, code in r.cases(lambda e: r.num(r.out("code")["n"], e)):
        seen.add(code)
    ctx.require(len(seen) == 120, "shuffle:coverage", lambda: f"shuffling five pieces can lead to {len(seen)} orders instead of 120")


def bfs(model, p):
    d, todo = {model.home[p]: 0}, [model.home[p]]
    # turns can be undone by turns: distances from home are distances to home
    for s in todo:
        for t in model.T[p]:
            if t[s] not in d:
                d[t[s]] = d[s] + 1
                todo.append(t[s])
    return d


@prop(
    "C16",
    explanation=ABS + "min_moves_to_solve for every edge in every reachable state compared with breadth first distances over the transitions of that edge; the cross heuristics and Manhattan distances on whole cubes with pieces in arbitrary states.",
    rule="min_moves_to_solve is the least number of face turns that solves the edge; the admissible cross heuristic is the largest of the four values (so it never exceeds the length of a solution), the other one half their sum; a Manhattan distance is the sum of coordinate differences, of a cube a sixteenth of the sum over its pieces",
    floor=250,
)
def c16(ctx):
    ctx.analyse(["edge_moves"], ["pieces"])
    ctx.analyse(["cross_heuristics", "cross_edges", "manhattan_pieces", "manhattan"], ["cross"])
    r = ctx.run("edge_moves")

    def distances():
        m = CubeModel(r, 3)
        try:
            m.solve()
        except Bad as b:
            raise Bad(b.key, "pieces can not be matched with a physical cube: " + str(b))
        least = r.out("least")["el"]
        edges = [f for f in m.fields if m.cls[f] == "edge"]
        (f,) = edges
        slots = m.fields[f]
        if len(least) != 12 or len(slots) != 12:
            raise Inconclusive("edge_moves: twelve edges expected")
        for p, j in zip(slots, least):
            d = bfs(m, p)
            extra = r.support(j["n"]) - {m.var[p]}
            if extra:
                raise Bad(f"edge_moves:dependence", f"min_moves_to_solve of {p} depends on {[r.vars[x][0] for x in extra]}")
            for x, s in enumerate(m.dec[p]):
                ctx.ok()
                got = signed(r.num(j["n"], {m.var[p]: x}), 32)
                if got != d.get(s):
                    raise Bad(f"edge_moves:{f}", f"min_moves_to_solve of {p} in state {m.show(p, s)} is {got}, {d.get(s)} turns solve it")

    ctx.guard(distances)
    checked(ctx, "cross_heuristics", ["admissible", "good", "zero"], "heuristics for the cross")
    cross_pieces(ctx)
    checked(ctx, "manhattan_pieces", ["edge-distance", "vec-distance", "corner-distance"], "Manhattan distance of a piece")
    checked(ctx, "manhattan", ["manhattan", "filtered-all", "filtered-none", "filtered"], "Manhattan distance of a cube")


def cross_pieces(ctx):
    r = ctx.run("cross_edges")
    faces = set()

    def case(env):
        return fc(r.val(r.out("f"), env)), r.val(r.out("is"), env), r.val(r.out("places"), env), r.val(r.out("pieces"), env)

    for env, (f, marks, places, pieces) in r.cases(case):
        faces.add(f)
        vec = lambda p: edge_vec(p["0"], p["1"])
        want = [int(vec(p)[f[0]] == f[1]) for p in places]
        ctx.require(list(marks) == want, "is_cross_edge", lambda: f"is_cross_edge of face {G.FACE_NAME[f]} is {marks} for the edges {[vec(p) for p in places]}")
        ctx.require(sorted(vec(p) for p in pieces) == sorted(vec(p) for p, w in zip(places, want) if w), "get_cross_pieces", lambda: f"get_cross_pieces of face {G.FACE_NAME[f]} gives the edges at {[vec(p) for p in pieces]}")
    if len(faces) != 6:
        raise Inconclusive(f"cross_edges: only {len(faces)} faces")


@prop(
    "C25",
    explanation=ABS + "the marks and counts of cross edges for every face on cubes with edges in arbitrary states, both cross solvers on cubes a turn or less (thorough: two turns) away from solved, and with estimates that leave one way of eight turns open.",
    rule="the cross edges of a face are the four edges on it; count_cross_pieces is the number of those that are solved; solve_cross and solve_cross_fast return an alg together with the cube it leads to, on which all four cross edges are solved, and the alg of solve_cross is a shortest one",
    floor=15,
    level="other",
    note="Complete for marking and counting. The solvers are decided for all faces and all cubes up to one turn from solved (thorough: two turns, one face); that they search soundly and optimally in general is C11, that the heuristic is admissible is C16.",
)
def c25(ctx):
    late = ["solve_cross2"] if ctx.tier == "thorough" else []
    ctx.analyse(["solve_cross_far"] + late + ["solve_cross1", "solve_cross0", "cross_count", "cross_edges"], ["cross"])
    cross_pieces(ctx)
    checked(ctx, "cross_count", ["count"], "counting cross pieces")
    for e in ["solve_cross0", "solve_cross1"] + late:
        checked(ctx, e, ["shortest", "leads-there", "four", "fast-leads-there", "fast-four"], "solving the cross of a cube {} turns from solved".format(e[-1]))
    # if the solvers ask other estimates there is nothing to say
    checked(ctx, "solve_cross_far", [], "solving a cross eight turns from solved")


@prop(
    "C11",
    explanation=ABS + "IDASearcher on graphs of the check's own: arbitrary arcs (also missing ones), start, set of targets and estimates, all of them at once; and Cube3::solve_with_heuristic on cubes up to a turn from solved and on one 20 turns from solved.",
    rule="a returned alg leads from the start along the successors to the returned state, which is a target; if no estimate exceeds the distance the alg is a shortest one, and nothing is returned only if no target is within max_depth moves (whole estimates; half of it for estimates in halves)",
    floor=35,
    level="other",
    note="Complete for all graphs of 2 to 4 nodes with up to two successors each, 5 nodes with one (thorough: 5 nodes with two), estimates 0 to 4 in whole or half steps; lines of 8, 40 and 150 nodes. The search itself does not depend on what the nodes are.",
)
def c11(ctx):
    graphs = ["graph4", "graph5", "graph2", "graph3", "graph3b", "graph3_short", "graph3_here", "graph3_half"]
    late = ["graph5b", "graph4_half"] if ctx.tier == "thorough" else []
    ctx.analyse(["solve_far"] + late + graphs + ["graph_solve", "graph_solve_short", "line150", "line40", "line8", "solve1", "solve0"], ["search"])
    for e in ["line150", "line40", "line8"]:
        checked(ctx, e, ["alg-leads-there", "target", "shortest"], "searching along a line")
    for e in graphs + late:
        checked(ctx, e, ["alg-leads-there", "target", "shortest", "found-if-near"], f"searching any {e[5]} node graph")
    for e in ["graph_solve", "graph_solve_short"]:
        checked(ctx, e, ["solves", "shortest-solution", "solved-if-near"], "solving")
    for e in ["solve0", "solve1"]:
        checked(ctx, e, ["solution-shortest", "solution-solves"], f"solving a cube {e[5]} turns from solved")
    checked(ctx, "solve_far", ["solution-solves"], "solving a cube 20 turns from solved")
