"""What holds for everything that can be turned, held, compared or hashed."""
from .registry import ABS, checked, prop

LAYERS = ["held_wing", "held_center_edge", "held_center_corner", "held_center_wing"]
ROTATES = ["rotates_small", "rotates_pieces", "rotates_centers"]


@prop(
    "C28",
    explanation=ABS + "every piece of every kind, turned and held in every way, in both orders.",
    rule="rotating after a turn is turning, as seen from there, after the rotation; a piece is in a wide turn exactly if it is so from any side; rotations compose; an alg is rotated move by move",
    floor=12,
    level="other",
    note="Complete for pieces, moves, faces, axes and vectors, with depths 0 to the largest of the cubes there are; rotating algs of up to three and of 30 moves, turns after holding algs of two.",
)
def c28(ctx):
    es = ["held_corner", "held_edge", *LAYERS, *ROTATES, "rotates_alg", "rotates_long", "held_alg"]
    ctx.analyse(es, ["laws"])
    for e in ("held_corner", "held_edge"):
        checked(ctx, e, ["turn-seen-from-elsewhere"], "turning a piece held differently")
    for e in LAYERS:
        checked(ctx, e, ["layer-seen-from-elsewhere"], "the pieces of a wide turn")
    for e in ROTATES:
        checked(ctx, e, ["rotations-compose", "half-is-two-quarters", "inverse-is-three-quarters", "four-quarters-are-nothing"], "rotating")
    for e in ("rotates_alg", "rotates_long"):
        checked(ctx, e, ["alg-keeps-length", "alg-rotated-move-by-move"], "rotating an alg")
    checked(ctx, "held_alg", ["alg-seen-from-elsewhere"], "an alg seen from elsewhere")


HASHED = ["4", "space", "corner", "edge", "wing", "center_edge", "center_corner", "center_wing", "sets"]
SAME = ["moves", "alg", "long", "5", "6", "7", "oriented"]


@prop(
    "C29",
    explanation=ABS + "all pairs of faces, pieces of each kind, moves of each kind and short algs, cubes a turn or two from solved, and sets with one different piece.",
    rule="two values compare equal exactly if they are the same; equal values feed the same to a hasher; a clone is equal to what it was cloned from",
    floor=30,
    level="other",
    note="Complete for faces, pieces and moves; algs of up to two moves, and of 30 with one different; cubes up to two turns from solved; sets of corners that differ in one piece.",
)
def c29(ctx):
    ctx.analyse([f"eq_{x}" for x in [*HASHED, *SAME, "2", "3"]] + ["made_again", "center_again"], ["laws"])
    for x in HASHED:
        checked(ctx, f"eq_{x}", ["equal-exactly-if-the-same", "clone-is-the-same", "equal-hash-alike", "clone-hashes-alike"], f"comparing ({x})")
    for x in SAME:
        checked(ctx, f"eq_{x}", ["equal-exactly-if-the-same", "clone-is-the-same"], f"comparing ({x})")
    for x in "23":
        checked(ctx, f"eq_{x}", ["equal-exactly-if-the-same", "clone-is-the-same", "equal-hash-alike", "clone-hashes-alike"], f"comparing cubes of size {x}")
    checked(ctx, "made_again", ["made-again"], "a move made differently")
    checked(ctx, "center_again", ["made-again", "solved-either-way"], "a center made differently")
