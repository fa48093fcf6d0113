"""Numbering of assemblies (index / from_index) and the lookup tables."""
from .common import Inconclusive
from .registry import ABS, checked, prop

CO = ["corners_all", "corners_ori"] + [f"corners_mix{k}" for k in range(6)]
ED = ["edges_all", "edges_ori"] + [f"edges_mix{k}" for k in range(5)]
CD = [f"cdigits_{k}" for k in range(8)]
DD = ["edigits_all"] + [f"edigits_{k}" for k in range(6)]
CU = [f"cube_{k}" for k in (0, 3, 6, 9, 11, 14, 18, 21)]


@prop(
    "C07",
    explanation=ABS + "index and from_index on symbolic assemblies (all 8! corner arrangements, all 12!/6! half edge arrangements, all orientations, and mixtures of both) and on symbolic indices written digit by digit, and indices/from_indices of whole cubes.",
    rule="index(x) lies in 0..TOTAL, from_index(index(x)) == x, index(from_index(i)) == i and from_index(i) is a possible assembly; from_indices(indices(cube)) == cube",
    floor=100,
    level="other",
    note="Complete for arrangements with fixed orientations and for orientations with fixed arrangements; arrangement times orientation is decided on overlapping windows (2-3 places x 3-7 pieces), whole cubes on windows of 4 to 6 random draws.",
)
def c07(ctx):
    ctx.analyse(["edigits_all", "edges_all", "corners_all"] + CU + CO[1:] + ED[1:] + CD + DD[1:] + ["solved"], ["index"])
    for e in CO + ED:
        checked(ctx, e, ["index-in-range", "from-index-of-index"], "an assembly of " + ("corners" if e in CO else "six edges"))
    for e in CD + DD:
        checked(ctx, e, ["number-of-assemblies", "assembly-possible", "index-of-from-index"], "the assembly with a given index of " + ("corners" if e in CD else "six edges"))
    for e in CU:
        checked(ctx, e, ["from-indices-of-indices", "first-edges-index", "corner-index"], "the indices of a whole cube")
    r = ctx.run("corners_all")
    for e, want in (("corners_all", (88179840, 2187, 40320)), ("edges_all", (42577920, 64, 665280))):
        r = ctx.run(e)
        for tag, w in zip(("total", "orientations", "positions"), want):
            if tag in r.outs:
                v = r.num(r.out(tag)["n"], {})
                ctx.require(v == w, f"{e}:{tag}", lambda: f"{tag} of {e} is {v}, there are {w}")
