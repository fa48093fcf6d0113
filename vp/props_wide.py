"""Wide moves: depths."""
from .registry import ABS, checked, prop

SIZES = ("0", "1", "2", "5", "huge", "max")


@prop(
    "C21",
    explanation=ABS + "all ways of making and changing wide moves with arbitrary turns, every depth from 0 to 9, several huge ones, and for acceptance the whole ranges of allowed and of forbidden depths as intervals.",
    rule="WideAxisMove<N> accepts a depth exactly if it is at most N, a refused change leaves the move as it was, everything else keeps face, amount and depth; random ones have an allowed depth",
    floor=100,
    note="Decided for N = 0, 1, 2, 5, u32::MAX - 1 and u32::MAX; acceptance for all depths, exact depths for 0 to 9 and around powers of two and the largest one.",
    level="other",
)
def c21(ctx):
    ctx.analyse([f"wide_{k}_{n}" for k in ("change", "new", "range") for n in SIZES] + ["wide_random"], ["wide"])
    for n in SIZES:
        no = [] if n == "max" else ["new-refused", "widen-refused", "alg-widen-refused"]
        checked(ctx, f"wide_new_{n}", ["new", "widen", "alg-widen"] + no, f"making a wide move of depth at most {n}")
        checked(ctx, f"wide_range_{n}", ["range-accepted"] + ([] if n == "max" else ["range-refused", "range-set-refused"]), f"depths of a wide move of depth at most {n}")
        no = [] if n == "max" else ["set-depth-refused"]
        checked(ctx, f"wide_change_{n}", ["equal", "inverse", "set-depth", "extended", "set-max-depth"] + no + ([] if n == "0" else ["set-max-depth-refused"]), f"changing a wide move of depth at most {n}")
    checked(ctx, "wide_random", ["random"], "a random wide move")
