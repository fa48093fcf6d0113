"""Moves and algs: inverses, conversions, normal forms, enumerations."""
from .common import Inconclusive
from .registry import ABS, checked, prop, same_pieces

UNDO = (
    ["undo_ext7", "undo_ext6", "undo_ext5", "undo_ext4", "undo_wide7", "undo_axis7"]
    + [f"undo_axis{n}" for n in range(2, 7)]
    + [f"undo_wide{n}" for n in range(2, 7)]
    + ["undo_ext2", "undo_ext3", "undo_quarter2", "undo_quarter3", "undo_quarter5", "undo_nr2", "undo_nr3", "undo_nr4"]
)
LENGTHS = (0, 1, 2, 3, 4, 5, 6, 9, 17, 40, 150)


@prop(
    "C05",
    explanation=ABS + "a move and its inverse are applied in both orders to a cube whose pieces are in arbitrary reachable states and the resulting piece states compared with the initial ones as canonical diagrams; Alg::reversed is interpreted on algs of arbitrary moves with an uninterpreted inverse.",
    rule="m then m.inverse() and m.inverse() then m leave every piece of every cube (and the orientation of an oriented cube) as it was, inverse().inverse() is the same move; reversed() holds the inverses in opposite order",
    floor=1500,
    note="Complete for single moves of every type on every cube size. Alg::reversed is decided for lengths 0-6, 9, 17, 40 and 150 with arbitrary moves.",
    level="other",
)
def c05(ctx):
    ctx.analyse(UNDO + ["undo_rotation", "reversed_cube"] + [f"reversed{k}" for k in LENGTHS], ["inverse"])
    for e in UNDO:
        ids = ["inverse-of-inverse"] + (["orientation"] if "ext" in e else [])
        r = checked(ctx, e, ids, f"a move and its inverse ({e[5:]})")
        if "back" in r.outs:
            same_pieces(ctx, r, "before", "back", "a move followed by its inverse")
        if "forth" in r.outs:
            same_pieces(ctx, r, "before", "forth", "the inverse of a move followed by the move")
        elif "ext" not in e and not ctx.violations:
            raise Inconclusive(f"{e}: no result")
    checked(ctx, "undo_rotation", ["rotation-inverse-of-inverse", "rotation-of-face", "rotation-of-orientation", "rotation-of-move"], "a rotation and its inverse")
    for k in LENGTHS:
        checked(ctx, f"reversed{k}", ["reversed-leaves-alg", "reversed-length"] + (["reversed-element"] if k else []), f"reversing an alg of {k} moves")
    r = ctx.run("reversed_cube")
    same_pieces(ctx, r, "before", "back", "an alg followed by its reverse")
