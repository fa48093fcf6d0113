"""The unfolded picture of a cube against the stickers of the physical cube."""
from . import geom as G
from .common import Inconclusive
from .load import Undetermined
from .pieces import Bad, CubeModel
from .props_pieces import clockwise, edge_vec, faces_of
from .props_space import ax, dv, fc, judge
from .registry import ABS, checked, prop

F = {v: k for k, v in G.FACE_NAME.items()}
ORDER = "RUFLDB"
# the faces beside a face towards which rows and columns are counted, all on one sheet of paper
SHEET = {"U": "FR", "F": "DR", "D": "BR", "B": "UR", "L": "DF", "R": "DB"}


def cell_at(n, f, i, j):
    """sticker in row i, column j of the square of a face"""
    p = [0, 0, 0]
    p[F[f][0]] = F[f][1] * (n - 1)
    for k, g in zip((i, j), SHEET[f]):
        p[F[g][0]] = F[g][1] * (2 * k - (n - 1))
    return (F[f], tuple(p))


def picture(ctx, r, n):
    m = CubeModel(r, n)
    try:
        m.solve()
    except Bad as b:
        raise Bad(b.key, "pieces can not be matched with a physical cube: " + str(b))
    owner = {v: p for p, v in m.var.items()}
    order = sorted(owner)
    # colour shown at a place of a sticker by each piece in each state
    shows = {}
    for p in m.paths:
        h = m.phi[p][m.home[p]]
        for x, s in enumerate(m.dec[p]):
            for was, now in zip(h, m.phi[p][s]):
                shows.setdefault(now, {}).setdefault(m.var[p], {})[x] = ORDER.index(G.FACE_NAME[was[0]])
    cells = r.out("cells")["el"]
    for k, f in enumerate(ORDER):
        rows = cells[k]["el"]
        for i in range(n):
            for j in range(n):
                node = rows[i]["el"][j]["n"]
                extra = r.support(node) - set(order)
                if extra:
                    raise Bad(f"{r.entry}:dependence", f"the picture depends on {[r.vars[x][0] for x in extra]}")
                here = shows.get(cell_at(n, f, i, j), {})
                one_cell(ctx, r, node, order, here, k, f"row {i}, column {j} of the square of {f}", owner)


def one_cell(ctx, r, node, order, here, center, where, owner):
    seen = set()

    def go(node, at, color, env):
        if (node, at, color) in seen:
            return
        seen.add((node, at, color))
        row = r.nodes[node]
        if at == len(order):
            if here and color is None:
                return  # no piece there: not a cube
            want = color if here else center
            ctx.ok()
            if row[0] != "i":
                raise Undetermined(f"{r.entry}: {where} is not determined ({row})")
            if row[1] != want:
                w = r.describe({v: x for v, x in env if v in here and here[v].get(x) is not None})
                got = ORDER[row[1]] if row[1] < 6 else "?"
                raise Bad(f"{r.entry}:cell", f"{where} has the colour of {got} while the sticker of {ORDER[want]} is there ({w})")
            return
        v = order[at]
        branch = row[0] == "b" and row[1] == v
        h = here.get(v, {})
        done = set()
        for x in range(r.dom(v)):
            nxt = row[2][x] if branch else node
            c = h.get(x)
            if c is not None and color is not None:
                continue  # two pieces in one place
            c = color if c is None else c
            if (nxt, c) in done:
                continue
            done.add((nxt, c))
            go(nxt, at + 1, c, env + [(v, x)])

    go(node, 0, None, [])


def layout(n):
    """the printed picture: cells (face, row, column) and the text between them"""
    out = []

    def row(f, i):
        for j in range(n):
            out.append((f, i, j))

    def square(f):
        for i in range(n):
            out.append("  " * (n + 1))
            row(f, i)
            out.append("\n")
        out.append("\n")

    square("U")
    for i in range(n):
        for k, f in enumerate("LFR"):
            if k:
                out.append("  ")
            row(f, i)
        out.append("\n")
    out.append("\n")
    square("D")
    square("B")
    return out


def printed(ctx, entry, n, scheme):
    """every character of the text follows from the layout and the colour of the cell"""
    r = ctx.run(entry)
    cells, t = r.out("cells")["el"], r.out("text")
    want = []
    for x in layout(n):
        if isinstance(x, str):
            want += list(x.encode())
        else:
            node = cells[ORDER.index(x[0])]["el"][x[1]]["el"][x[2]]["n"]
            want += [ord("<"), (node, 0, x), (node, 1, x), (node, 2, x), 32, 32, ord(">")]
    try:
        length = r.num(t["len"], {})
    except Undetermined:
        raise Undetermined(f"{entry}: the length of the text depends on the colours")
    if not ctx.require(length == len(want), f"{entry}:length", lambda: f"a {n}x{n} picture is printed as {length} characters instead of {len(want)}"):
        return
    for pos, (b, w) in enumerate(zip(t["str"], want)):
        ctx.ok()
        if isinstance(w, int):
            row = r.nodes[b]
            if row[0] != "i":
                raise Undetermined(f"{entry}: character {pos} of the text is not determined")
            if row[1] != w:
                ctx.violation(f"{entry}:text", f"character {pos} of a printed {n}x{n} picture is {chr(row[1])!r} instead of {chr(w)!r}")
                return
            continue
        node, chan, x = w
        bad = mapped(r, node, b, {k: scheme[k][chan] for k in range(6)})
        if bad:
            ctx.violation(f"{entry}:color", f"the cell in row {x[1]}, column {x[2]} of the square of {x[0]} is printed in a colour that is not its own: {'red green blue'.split()[chan]} is {bad[1]}, it should be {bad[2]} ({bad[0]})")
            return


def mapped(r, a, b, table):
    """None if the diagram b is the diagram a with every value mapped, else a counterexample"""
    seen = set()

    def go(x, y, env):
        if (x, y) in seen:
            return None
        seen.add((x, y))
        rx, ry = r.nodes[x], r.nodes[y]
        if rx[0] != "b" and ry[0] != "b":
            if rx[0] != "i" or ry[0] != "i":
                raise Undetermined(f"{r.entry}: a colour is not determined")
            if rx[1] not in table:
                return (r.describe(env), "?", "a colour")
            return None if table[rx[1]] == ry[1] else (r.describe(env), ry[1], table[rx[1]])
        v = min(t[1] for t in (rx, ry) if t[0] == "b")
        for i in range(r.dom(v)):
            e = dict(env)
            e[v] = i
            w = go(rx[2][i] if rx[0] == "b" and rx[1] == v else x, ry[2][i] if ry[0] == "b" and ry[1] == v else y, e)
            if w:
                return w
        return None

    return go(a, b, {})


def closest(n):
    """cells of the cubies of each square; the harness counts along the two axes after that of the face"""
    out = []
    for f in ORDER:
        a = F[f][0]
        g = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                p = cell_at(n, f, i, j)[1]
                g[(p[(a + 1) % 3] + n - 1) // 2][(p[(a + 2) % 3] + n - 1) // 2] = [i, j]
        out.append(g)
    return out


def corner_colors(home, at, axis):
    h, v = dv(home), dv(at)
    ch, cv = clockwise(h), clockwise(v)
    k = cv.index(ax(axis))
    return {((cv[(k + i) % 3], v[cv[(k + i) % 3]])): (ch[i], h[ch[i]]) for i in range(3)}


def main_side(v):
    """the side of an edge its orientation is judged on, and the other one"""
    a = 1 if v[1] else 2
    (b,) = [c for c in range(3) if v[c] and c != a]
    return [(a, v[a]), (b, v[b])]


def edge_colors(home, at, oriented):
    h, v = (edge_vec(p["0"], p["1"]) for p in (home, at))
    s = main_side(v)
    return dict(zip(s if oriented else s[::-1], main_side(h)))


def by_codes(l):
    return {F[ORDER[a]]: F[ORDER[b]] for a, b in l}


@prop(
    "C17",
    explanation=ABS + "the unfolded picture of Cube2 and Cube3 with every piece in every reachable state, each cell compared with the sticker of the matched physical cube; the printed text as a function of the cells; the colours of single pieces; the cells of all coordinates for N up to 7.",
    rule="every cell of the picture has the colour of the sticker that is there on the physical cube, on one sheet U over L F R over D over B; at() gives the cell of every cubie for N = 2..7; printing writes every cell in the colour of the scheme for its face in that arrangement; the colours of a corner or edge are those of its home place, turned with it",
    floor=4000,
    assumptions=["SetBackgroundColor and ResetColor of crossterm are replaced by a model which writes their arguments"],
)
def c17(ctx):
    entries = ["unfold2", "unfold3", "unfold3_text", "unfold_default", "colors_corner", "colors_edge", "scheme"]
    entries += [f"unfold_text{n}" for n in (2, 3, 4, 7)] + [f"square{n}" for n in range(2, 8)]
    ctx.analyse(entries, ["unfold"])
    for n in (2, 3):
        ctx.guard(lambda: picture(ctx, ctx.run(f"unfold{n}"), n))
    r = checked(ctx, "scheme", ["scheme-get", "named-colors"], "a colour scheme")
    own = [[k * 255 // 8, (8 - k) * 255 // 8, 63] for k in range(6)]
    default = [[r.num(c["n"], {}) for c in row["el"]] for row in r.out("default")["el"]]
    ctx.require(len({tuple(c) for c in default}) == 6, "scheme:default", "two faces have the same colour in the default scheme")
    printed(ctx, "scheme", 2, own)
    for n in (2, 3, 4, 7):
        checked(ctx, f"unfold_text{n}", ["iter-face", "iter-square", "iter-all"], "iterating over the squares")
        printed(ctx, f"unfold_text{n}", n, default)
    printed(ctx, "unfold3_text", 3, default)
    judge(ctx, "unfold_default", [], {"cells": lambda: [[[k] * 3] * 3 for k in range(6)]}, 1, "an empty picture")
    for n in range(2, 8):
        checked(ctx, f"square{n}", ["at-mut"], "the mutable cell")
        judge(ctx, f"square{n}", [], {"at": lambda: closest(n)}, 1, f"cells of the cubies of a {n}x{n} cube")
    checked(ctx, "colors_corner", ["three-colors"], "colours of a corner")
    judge(ctx, "colors_corner", ["home", "at", "axis"], {"colors": (by_codes, corner_colors)}, 192, "a corner")
    checked(ctx, "colors_edge", ["two-colors"], "colours of an edge")
    judge(ctx, "colors_edge", ["home", "at", "oriented"], {"colors": (by_codes, edge_colors)}, 288, "an edge")
