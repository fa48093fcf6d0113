"""The properties and how each is decided."""
from .common import Inconclusive
from .pieces import Bad, CubeModel
from .registry import ABS, PROPS, checked, prop, same_pieces
from .solved import check_solved


def geometry(ctx, sizes, floor_moves):
    for n in sizes:
        r = ctx.run(f"geo{n}")

        def one():
            m = CubeModel(r, n)
            if len(m.moves_seen) < floor_moves[n]:
                raise Bad(f"geo{n}:moves", f"only {len(m.moves_seen)} distinct turns of the {n}x{n} cube can be written, {floor_moves[n]} exist")
            m.solve()
            ctx.ok(m.obligations)
            ctx.coverage.setdefault("matched", {})[f"{n}x{n}"] = {f: m.cls[f] for f in m.fields}

        ctx.guard(one)


@prop(
    "C01",
    explanation=ABS + "the state of every piece of Cube2/Cube3 after one arbitrary turn from every reachable state, matched one to one with sticker positions of a physical cube.",
    rule="an equivariant bijection between the reachable states of each piece array and the physical pieces of that kind must exist, for all 18 face turns; each piece's new state depends on its own state and the turn only",
    floor=10000,
)
def c01(ctx):
    ctx.analyse(["geo2", "geo3"], ["geo"])
    geometry(ctx, (2, 3), {2: 18, 3: 18})


@prop(
    "C02",
    explanation=ABS + "the state of every piece of Cube4..Cube7 after one arbitrary wide turn of every depth from every reachable state, matched one to one with sticker positions of a physical layered cube.",
    rule="an equivariant bijection between the reachable states of each piece array and one kind of physical piece must exist, for all 18 x (depth+1) turns, and every kind of physical piece of the cube must be matched by exactly one array",
    floor=100000,
)
def c02(ctx):
    ctx.analyse(["geo4", "geo5", "geo6", "geo7"], ["geo"])
    geometry(ctx, (4, 5, 6, 7), {4: 36, 5: 36, 6: 54, 7: 54})


@prop(
    "C03",
    explanation=ABS + "both spellings of a turn are applied to the same arbitrary cube and the resulting piece states are compared as canonical diagrams.",
    rule="AxisMove, WideAxisMove<0> and every narrower wide type have the same effect on Cube2..Cube7 as the cube's own widest move type at the same depth",
    floor=300,
)
def c03(ctx):
    ctx.analyse([f"outer{n}" for n in range(2, 8)], ["geo"])
    for n in range(2, 8):
        r = ctx.run(f"outer{n}")
        pairs = {"axis": "the plain face turn and the depth 0 wide turn", "wide0": "the depth 0 wide turn of another width", "wide1": "the wide turn of width 1 and of width 2"}
        seen = 0
        for t, what in pairs.items():
            if t in r.outs:
                seen += 1
                same_pieces(ctx, r, t, t + "'", what)
        if seen < (1 if n < 4 else 2 if n < 6 else 3):
            raise Inconclusive(f"outer{n}: comparisons missing")


@prop(
    "C04",
    explanation=ABS + "the diagram of is_solved over arbitrary piece states, compared with the colours shown by the physical cube the states were matched with.",
    rule="for every assignment of reachable piece states, is_solved is true exactly if every sticker is on the face of its colour (same-coloured center pieces are interchangeable)",
    floor=1000,
)
def c04(ctx):
    ctx.analyse([f"geo{n}" for n in range(2, 8)], ["geo"])
    for n in range(2, 8):
        r = ctx.run(f"geo{n}")

        def one():
            m = CubeModel(r, n)
            try:
                m.solve()
            except Bad as b:
                raise Bad(b.key, "pieces can not be matched with a physical cube: " + str(b))
            k = check_solved(m, r.out("solved")["n"], m.solved_sets())
            ctx.ok(k + len(m.paths))

        ctx.guard(one)


from . import props_moves  # noqa
from . import props_random  # noqa
from . import props_index  # noqa
from . import props_algs  # noqa
from . import props_oriented  # noqa
from . import props_space  # noqa
from . import props_pieces  # noqa
from . import props_wide  # noqa
from . import props_unfold  # noqa
from . import props_text  # noqa
from . import props_cache, props_laws, props_all  # noqa
