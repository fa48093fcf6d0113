"""The lookup tables of moves until solved."""
from .registry import ABS, checked, prop

SECOND = [0, 3, 6, 9, 11, 14, 18, 21]
HOOK = {"STA_CFG": "1"}


@prop(
    "C08",
    explanation=ABS + "the generator of the tables for all things of 2 to 4 states whose 2, 3 or 6 turnable faces do anything that is back after four turns, for a chain along any two faces and for a thing of 257 states one of which is far from all others, against the shortest distances; the facts that make the tables estimates for a cube: pieces move on their own, turning commutes with holding the cube upside down, each number is that of the corners, of the first edges and of the second edges held upside down, the solved cube has number 0; and the lookup on tables with arbitrary entries.",
    rule="an entry of a built table is the fewest moves from the solved state; the value of a cube is the largest of the entries of its corners, its first edges and its second edges held upside down; before the tables are loaded there is no value and the fallback is used",
    floor=30,
    level="other",
    note="The generator is decided on all instances of the stated sizes (it is generic in the kind of state and treats states uniformly); lookups on the 18 cubes one turn away with arbitrary entries; numbers of whole cubes on windows of 4 to 6 random draws (C07 has the rest).",
    assumptions=["files, clock and terminal behave as the stand-ins in harness/src/model.rs", "corners and half edges can all be reached from the solved state (group theory)"],
)
def c08(ctx):
    builds = {"build_two": 2, "build_three": 3, "build_four": 4, "build_chain": 6, "build_eleven": 12, "build_many": 257}
    more = {"build_three_more": 3, "build_four_more": 4} if ctx.tier == "thorough" else {}
    ctx.analyse(["build_two", *more] + [f"second_{k}" for k in SECOND] + ["array_corners", "array_edges", "upside_down", "solved_indices", *builds, "load", "shared"], ["cache"], extra=HOOK)
    for e in {**builds, **more} if ctx.hook else {}:
        checked(ctx, e, ["one-entry-each", "fewest-moves", "written"], "building a table")
    for e in ("array_corners", "array_edges"):
        checked(ctx, e, ["array-is-its-pieces"], "turning some pieces")
    checked(ctx, "upside_down", ["turn-upside-down"], "an edge held upside down")
    checked(ctx, "solved_indices", ["solved-is-number-zero"], "the solved cube")
    for k in SECOND:
        checked(ctx, f"second_{k}", ["second-edges-index", "first-edges-index", "corners-index"], "the numbers of a cube")
    checked(ctx, "load", ["largest-entry"], "looking up a cube")
    checked(ctx, "shared", ["not-loaded", "fallback", "get-or-init", "get", "mus", "table-not-fallback"], "the shared tables")


@prop(
    "C20",
    explanation=ABS + "loading and building tables on a disk in any state (file and folder there or not, any length, any content) on which any operation may fail with any kind of error.",
    rule="a table is read from its own file and only if that has exactly the right length, otherwise an error is returned; a table is built exactly if the file does not exist, then written to its file, in a folder made if need be, and returned; an existing file is never written; every error is returned; nothing panics",
    floor=20,
    level="other",
    note="Complete for the disk states and failures of the stand-ins, with tables of 3 entries for building; loading of the real tables with files of eight lengths each.",
    assumptions=["files, clock and terminal behave as the stand-ins in harness/src/model.rs; a failed write may have left part of the file, which its length tells"],
)
def c20(ctx):
    ctx.analyse(["load_or_build", "load", "shared", "build_two"], ["cache"], extra=HOOK)
    if ctx.hook:
        checked(
            ctx,
            "load_or_build",
            ["right-file", "read-error-returned", "read-error-writes-nothing", "file-returned", "wrong-length-refused", "file-not-overwritten", "file-kept", "create-error-returned", "write-error-returned", "built", "written"],
            "a table of three entries",
        )
        checked(ctx, "build_two", ["one-entry-each", "written"], "building a table")
    checked(ctx, "load", ["loading-writes-nothing", "only-files-of-the-right-length", "files-of-the-right-length", "absence-reported", "largest-entry"], "loading both tables")
    checked(ctx, "shared", ["each-file-read-once", "get-or-init"], "the shared tables")


@prop(
    "C27",
    explanation=ABS + "the playground of the program on a terminal that gives any sequence of up to nine of several lines, unreadable input and the end of input at any point.",
    rule="the solved cube is shown first; each line that is an alg is answered by the cube after all moves so far, any other line and unreadable input by one error message, after which the cube is as before; at the end of input the program ends; nothing panics",
    floor=20,
    level="other",
    note="All sequences of up to 4 out of 4 to 5 different lines and of up to 9 out of 4 (algs, empty lines, lines that are no algs, unreadable input) and the end of input.",
    assumptions=["the terminal behaves as the stand-ins in harness/src/model.rs; how a cube is printed is C17"],
)
def c27(ctx):
    es = ["play_long", "play_4", "play_3", "play_3b", "play_2", "play_1", "play_0"]
    ctx.analyse(es, ["play"])
    for e in es:
        checked(ctx, e, ["solved-cube-first", "one-answer-each", "stops-at-the-end"] + (["cube-after-line"] if e != "play_0" else []), "the playground")


CALLS = ["call", "call_build", "call_play", "call_p", "call_build_play", "call_play_build", "call_p_build"]


@prop(
    "C30",
    explanation=ABS + "the whole program, from reading its arguments with the parser derived for them (interpreted as well) to its end, for each set of flags in each order and spelling, on a terminal without input.",
    rule="the tables are made available exactly if --build-mus-cache is given, the playground is opened exactly if --playground-3x3 or -p is given; an unknown argument ends the program with an error code before anything is done",
    floor=8,
    level="other",
    note="All combinations of the flags, both spellings of the playground and both orders; one unknown argument.",
    assumptions=["the arguments and the end of the process are stand-ins in harness/src/model.rs; making tables available is C20, what the playground does is C27"],
)
def c30(ctx):
    ctx.analyse([*CALLS, "call_unknown"], ["play"])
    for e in CALLS:
        checked(ctx, e, ["tables-built-if-asked", "playground-if-asked"], "the program called with flags")
    checked(ctx, "call_unknown", ["not-called", "refused-with-a-code", "nothing-done"], "the program called with an unknown argument")
