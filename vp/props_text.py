"""Reading and writing moves against the notation."""
from . import geom as G
from .common import Inconclusive
from .load import Undetermined
from .pieces import Bad
from .props_random import freeze
from .props_space import NAME, DIR, fc
from .registry import ABS, checked, prop

FACE = {"R": ("X", 1), "U": ("Y", 1), "F": ("Z", 1), "L": ("X", -1), "D": ("Y", -1), "B": ("Z", -1)}
LETTER = {v: k for k, v in FACE.items()}
AMOUNT = {"": "Single", "2": "Double", "'": "Inverse"}
MARK = {v: k for k, v in AMOUNT.items()}
MINUS = {"Single": "Inverse", "Double": "Double", "Inverse": "Single"}
SYMBOLS = ["R", "b", "w", "x", "M", "s", "2", "'", "0", "9", " ", "\t", "/*", "//", "\u00b2", "\u00bd", "\u00e9", "\u0663", "\u2019", "\u2003", "\u00a0", "\uff32", "\U0001d7d0", "\U0001f3b2"]
PARTS = "RUFwbxM'2 \n\x0b"
SPACE = " \n\x0b"
WIDEST = (1 << 32) - 1


def face(c):
    a, d = FACE[c]
    return {"axis": a, "direction": DIR[d]}


def turn(c, a):
    return {"face": face(c), "amount": AMOUNT[a]}


def wide(depth, c, a):
    return {"depth": depth, "axis_move": turn(c, a)}


def wides(n):
    out = {c + a: wide(0, c, a) for c in FACE for a in AMOUNT}
    for num in [""] + [str(k) for k in range(10)]:
        depth = max(1, int(num or 0))
        if depth <= n:
            for c in FACE:
                for a in AMOUNT:
                    out[num + c + "w" + a] = wide(depth, c, a)
                    out[num + c.lower() + a] = wide(depth, c, a)
    return out


def rotation(axis, amount):
    return {"axis": axis, "amount": amount}


def extended():
    out = {}
    for t, w in wides(WIDEST).items():
        out[t] = ("Wide", {"0": w}) if w["depth"] else ("Regular", {"0": w["axis_move"]})
    for x in "xyz":
        for a in AMOUNT:
            out[x + a] = ("Rotation", {"0": rotation(x.upper(), AMOUNT[a])})
    # M turns like L, E like D, S like F
    for s, axis in zip("MES", "XYZ"):
        for a in AMOUNT:
            amount = AMOUNT[a] if s == "S" else MINUS[AMOUNT[a]]
            out[s + a] = ("Slice", {"rot": rotation(axis, amount), "wide": 0})
            out[s.lower() + a] = ("Slice", {"rot": rotation(axis, amount), "wide": 1})
    return out


READS = {
    "face": {c: face(c) for c in FACE},
    "amount": AMOUNT,
    "axis": {c + a: turn(c, a) for c in FACE for a in AMOUNT},
    "line": {"x": "X", "y": "Y", "z": "Z"},
    "rotation": {x + a: rotation(x.upper(), AMOUNT[a]) for x in "xyz" for a in AMOUNT},
    "extended": extended(),
    "depth": {"": 0, **{str(k): k for k in range(10)}},
    "wide0": wides(0),
    "wide1": wides(1),
    "wide3": wides(3),
    "wide7": wides(7),
    "widest": wides(WIDEST),
}
PREFIXES = {t: {x[:i] for x in d for i in range(len(x) + 1)} for t, d in READS.items()}


class Single:
    """a text is one move"""

    def __init__(self, t):
        self.t = t

    def viable(self, text):
        return text in PREFIXES[self.t]

    def value(self, text):
        return READS[self.t].get(text)


class List:
    """a text is moves separated by space"""

    def __init__(self, t):
        self.t = t

    def split(self, text):
        for c in SPACE[1:]:
            text = text.replace(c, SPACE[0])
        return text.split(SPACE[0])

    def viable(self, text):
        *done, last = self.split(text)
        return last in PREFIXES[self.t] and all(not x or x in READS[self.t] for x in done)

    def value(self, text):
        words = [x for x in self.split(text) if x]
        if all(x in READS[self.t] for x in words):
            return [READS[self.t][x] for x in words]
        return None


MANY = "R U' F2 D L2 B' U R2 F L' D2 B R' U2 F' L D' R F2 U L2 B2 D R' "


class Amid(List):
    """a list of which only some characters in the middle are arbitrary"""

    def __init__(self, t, before, after):
        self.t, self.before, self.after = t, before, after

    def viable(self, text):
        return List.viable(self, self.before + text)

    def value(self, text):
        return List.value(self, self.before + text + self.after)


AMID = {"axis_2": (5 * MANY, " L U2"), "axis_3": ("", MANY), "wide3_3": (MANY, ""), "extended_3": (MANY, "")}


def reading(ctx, entry, symbols, lang, what):
    """what every text is read as"""
    r = ctx.run(entry)
    text, out = r.out("text"), r.out("read")
    if not r.holds(r.pc("read"), {}):
        raise Inconclusive(f"{entry}: reading does not always return")
    k = len(text["el"])
    chars = []
    for j in text["el"]:
        sup = r.support(j["n"])
        if len(sup) != 1:
            raise Undetermined(f"{entry}: the text is not made of single choices")
        chars.append(next(iter(sup)))
    if chars != sorted(chars):
        raise Undetermined(f"{entry}: the text is not in order")
    none = [i for i, (name, _) in enumerate(out["vs"]) if name == "None"]
    refused = {}

    def always_none(n):
        """a text on which the result is something, or None"""
        if n in refused:
            return refused[n]
        row = r.nodes[n]
        if row[0] != "b":
            if row[0] != "i":
                raise Undetermined(f"{entry}: result not determined ({row})")
            refused[n] = None if row[1] in none else []
        else:
            refused[n] = None
            for x, c in enumerate(row[2]):
                w = always_none(c)
                if w is not None:
                    refused[n] = [(row[1], x)] + w
                    break
        return refused[n]

    def bad(env, tail, t=None):
        full = dict(env)
        full.update(tail)
        for v in chars:
            full.setdefault(v, 0)
        s = "".join(symbols[full[v]] for v in chars) if t is None else t
        got = r.val(out, full)
        want = lang.value(s)
        show = lambda x: "refused" if x is None else f"read as {freeze(x)}"
        raise Bad(f"{entry[:entry.rindex('_')]}:read", f"{s!r} as {what} is {show(None if got == 'None' else got[1]['0'])}, it should be {show(want)}")

    def go(i, t, env, node):
        row = r.nodes[node]
        while row[0] == "b" and row[1] in env:
            node = row[2][env[row[1]]]
            row = r.nodes[node]
        if not lang.viable(t):
            ctx.ok()
            w = always_none(node)
            if w is not None:
                bad(env, w)
            return
        if i == k:
            ctx.ok()
            want = lang.value(t)
            got = r.val(out, env)
            if freeze(got) != freeze("None" if want is None else ("Some", {"0": want})):
                bad(env, {}, t)
            return
        v = chars[i]
        for x in range(r.dom(v)):
            env[v] = x
            go(i + 1, t + symbols[x], env, node)
        del env[v]

    go(0, "", {}, out["v"]["n"] if isinstance(out["v"], dict) else out["v"])


WHAT = {
    "face": "a face",
    "amount": "an amount",
    "axis": "a face turn",
    "line": "an axis",
    "rotation": "a rotation",
    "extended": "an extended move",
    "depth": "a depth",
    "wide0": "a wide move of width 0",
    "wide1": "a wide move of width 1",
    "wide3": "a wide move of width 3",
    "wide7": "a wide move of width 7",
    "widest": "a wide move of any width",
}


@prop(
    "C09",
    explanation=ABS + "the parser generated from the grammar and the conversions of its pairs, on texts of arbitrary characters; what comes out, as a function of the characters, is compared with the notation.",
    rule="every text is either read as exactly the move the notation gives it or refused with an error; nothing panics; leading and trailing characters are refused; an alg is its words, each read as a move, or refused",
    floor=100000,
    level="other",
    note="All texts of up to 6 and of 12 characters of ASCII, all texts of up to 3 and of 5 symbols among 24 of other scripts and lengths; algs of up to 6 (thorough: 8) characters out of 12, and any 2 or 3 of these at the end, the beginning or in the middle of an alg of 24 words. Longer texts are read by the same code, which refuses what is longer than the longest move.",
    assumptions=["notes of the parser library on what could have been read, and line and column of errors, are replaced by constants: only error messages show them"],
)
def c09(ctx):
    algs = [0, 1, 2, 3, 4, 5, 6] + ([7, 8] if ctx.tier == "thorough" else [])
    entries = [f"read_{t}_{k}" for t in READS for k in (12, 0, 1, 2, 3, 4, 5, 6)]
    entries += [f"any_{t}_{k}" for t in READS for k in (1, 2, 3, 5)]
    entries += [f"alg_{t}_{k}" for t in ("axis", "wide3", "extended") for k in algs]
    ctx.analyse([f"amid_{k}" for k in AMID] + entries, ["text"])
    for k, (before, after) in AMID.items():
        t = k.split("_")[0]
        ctx.guard(lambda: reading(ctx, f"amid_{k}", PARTS, Amid(t, before, after), f"what is amid an alg ({WHAT[t]} each)"))
    ascii = [chr(k) for k in range(128)]
    for e in entries:
        kind, t, k = e.split("_")
        if kind == "alg":
            r = checked(ctx, e, ["try-from-same"], f"an alg of {k} characters")
            ctx.guard(lambda: reading(ctx, e, PARTS, List(t), f"an alg ({WHAT[t]} each)"))
        else:
            ctx.guard(lambda: reading(ctx, e, ascii if kind == "read" else SYMBOLS, Single(t), WHAT[t]))


def show_turn(m):
    a = m["face"]["axis"]
    return LETTER[(a, G.DIRECTION[m["face"]["direction"]])] + MARK[m["amount"]]


def printing(ctx, entry, what, fn, cases, ins=("v",), known=None):
    """what every value is printed as, and whether it is read back"""
    r = ctx.run(entry)
    js = [r.out(t) for t in ins]
    jt, jb = r.out("text"), r.out("read-back")
    seen = set()

    def case(env):
        return [r.val(j, env) for j in js], r.val(jt, env), r.val(jb, env)

    for env, (v, text, back) in r.cases(case):
        seen.add(freeze(v))
        ctx.ok(2)
        want = fn(*v)
        if text != want:
            raise Bad(f"{entry}:text", f"{what} {want} is printed as {text!r}")
        if freeze(back) != freeze(("Some", {"0": 1})):
            key = known(v, back) if known else None
            said = "refused" if back == "None" else "read as another move"
            ctx.violation(key or f"{entry}:read-back", f"{what} is printed as {text!r}, which is {said}")
    if len(seen) < cases:
        raise Inconclusive(f"{entry}: only {len(seen)} of {cases} values")


def show_wide(m, depth):
    t = show_turn(m)
    return t if depth == 0 else ("" if depth == 1 else str(depth + 1)) + t[0] + "w" + t[1:]


def deep(width):
    """the number printed in front of a wide move is one more than the number it is read with"""

    def key(v, back):
        depth = v[1]
        if depth < 2:
            return None
        if depth + 1 <= min(9, width):
            return "print_wide:deeper" if freeze(back) == freeze(("Some", {"0": 0})) else None
        return "print_wide:refused" if back == "None" else None

    return key


@prop(
    "C10",
    explanation=ABS + "arbitrary values are printed and the text, as a function of the value, compared with the notation; the text is then read again by the parser and compared with the value.",
    rule="a printed face, amount, face turn, wide move, non redundant move or alg is the standard text for it, and reading that text gives the value back",
    floor=1000,
    level="other",
    note="Complete for faces, amounts, face turns and non redundant moves; wide moves up to depth 119; algs of up to 4 arbitrary face turns, or of 120 and two arbitrary ones, or 3 arbitrary wide moves.",
    assumptions=["notes of the parser library on what could have been read, and line and column of errors, are replaced by constants: only error messages show them"],
)
def c10(ctx):
    algs = [0, 1, 2, 3, 4]
    wides_ = {"wide0": (1, 0), "wide1": (2, 1), "wide3": (4, 3), "widest": (120, WIDEST)}
    ctx.analyse([f"print_{t}" for t in ["face", "amount", "axis", "nr", *wides_]] + [f"print_alg{k}" for k in algs] + [f"print_alg_wide{k}" for k in (1, 2, 3)] + ["print_long"], ["text"])
    ctx.guard(lambda: printing(ctx, "print_long", "the alg", lambda l: 5 * MANY + " ".join(map(show_turn, l)), 18**2))
    ctx.guard(lambda: printing(ctx, "print_face", "the face", lambda f: show_turn({"face": f, "amount": "Single"}), 6))
    ctx.guard(lambda: printing(ctx, "print_amount", "the amount", lambda a: MARK[a], 3))
    ctx.guard(lambda: printing(ctx, "print_axis", "the turn", show_turn, 18))
    ctx.guard(lambda: printing(ctx, "print_nr", "the move", lambda l: " ".join(map(show_turn, l)), 45))
    for t, (n, width) in wides_.items():
        ctx.guard(lambda: printing(ctx, f"print_{t}", "the wide move", show_wide, 18 * n, ("v", "depth"), deep(width)))
    for k in algs[:4]:
        ctx.guard(lambda: printing(ctx, f"print_alg{k}", "the alg", lambda l: " ".join(map(show_turn, l)), 18**k))
    ctx.guard(lambda: back(ctx, f"print_alg{algs[4]}"))
    for k in (1, 2, 3):
        checked(ctx, f"print_alg_wide{k}", ["wide-alg-read", "wide-alg-same"], f"an alg of {k} wide moves")


def back(ctx, entry):
    """reading back gives the same, for all values at once"""
    r = ctx.run(entry)
    j = r.out("read-back")
    ctx.ok()
    n = j["v"]["n"] if isinstance(j["v"], dict) else j["v"]
    row = r.nodes[n]
    if row[0] == "i" and j["vs"][row[1]][0] == "Some":
        m = r.nodes[j["vs"][row[1]][1]["0"]["n"]]
        if m[0] == "i" and m[1] == 1:
            return
    raise Bad(f"{entry}:read-back", "an alg of four turns is not read back as it was printed")
