"""Axes, directions, faces, amounts and vectors against plain vector arithmetic."""
from . import geom as G
from .common import Inconclusive
from .props_random import freeze
from .registry import ABS, checked, prop

NAME = "XYZ"
DIR = {1: "Positive", -1: "Negative"}
TURN = {1: "Single", 2: "Double", 3: "Inverse"}
IDX = {"R": 0, "U": 1, "F": 2, "L": 3, "D": 4, "B": 5}


def ax(x):
    return G.AX[x]


def fc(f):
    return (G.AX[f["axis"]], G.DIRECTION[f["direction"]])


def face(f):
    return {"axis": NAME[f[0]], "direction": DIR[f[1]]}


def signed(x, bits=8):
    return x - (1 << bits) if x >= 1 << (bits - 1) else x


def sv(l, bits=8):
    return tuple(signed(x, bits) for x in l)


def dv(l):
    return tuple(G.DIRECTION[d] for d in l)


def opt(x):
    return "None" if x is None else ("Some", {"0": x})


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def judge(ctx, *args, **kw):
    """every emitted value against its expected one, for all inputs.  outs: tag -> function of the inputs, or (decode, function)"""
    ctx.guard(lambda: values(ctx, *args, **kw))


def values(ctx, entry, ins, outs, cases, what):
    r = ctx.run(entry)
    js = [r.out(i) for i in ins]
    for tag, spec in outs.items():
        dec, fn = spec if isinstance(spec, tuple) else (lambda x: x, spec)
        seen = set()
        if tag not in r.outs:
            raise Inconclusive(f"{entry}: {tag} is never reached")
        jo, pc = r.out(tag), r.pc(tag)
        if len(r.outs[tag]) > 1:
            raise Inconclusive(f"{entry}: {tag} is reached in several ways")

        def case(env):
            i = [r.val(j, env) for j in js]
            return i, (r.val(jo, env) if r.holds(pc, env) else "no result")

        for env, (i, got) in r.cases(case):
            seen.add(freeze(i))
            ctx.ok()
            want = fn(*i)
            have = got if got == "no result" else dec(got)
            if freeze(have) != freeze(want):
                ctx.violation(f"{entry}:{tag}", f"{what}: `{tag}` of {', '.join(f'{n}={short(x)}' for n, x in zip(ins, i))} is {short(have)}, it should be {short(want)}")
                break
        else:
            if len(seen) < cases:
                raise Inconclusive(f"{entry}: {tag}: only {len(seen)} of {cases} inputs")
    return r


def short(x):
    if isinstance(x, dict) and set(x) == {"axis", "direction"}:
        return G.FACE_NAME[fc(x)]
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k}: {short(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "(" + ", ".join(short(v) for v in x) + ")"
    return str(x)


def with_(l, i, x):
    l = list(l)
    l[i] = x
    return tuple(l)


W = (10, 20, 30)


def rot_axis(a, k, b):
    v = [0, 0, 0]
    v[b] = 1
    return G.face_of(G.rot(a, k, tuple(v)))[0]


@prop(
    "C23",
    explanation=ABS + "every primitive of axes, directions, faces, amounts and vectors on arbitrary arguments; the resulting tables are compared with integer vector arithmetic.",
    rule="R, U, F are +x, +y, +z; a rotation by one quarter is clockwise seen from the positive end of its axis; (axis, next, next) is right handed; faces are signed unit vectors, the cross of two faces is their vector product; amounts add modulo 4 and multiply with directions as 1 and -1",
    floor=500,
)
def c23(ctx):
    ctx.analyse(["axis", "axis2", "direction", "amount", "face", "face_text", "face2", "contains", "rotated", "rotate_vec2"], ["space"])
    nxt = lambda a, k=1: NAME[(ax(a) + k) % 3]
    unit_ax = lambda a: tuple(int(i == ax(a)) for i in range(3))

    def mapped(a, *_):
        n = ax(a)
        w = list(W)
        w[(n + 1) % 3] += 1
        w[(n + 2) % 3] += 2
        return tuple(w)

    def swapped(a, *_):
        n = ax(a)
        w = [11, 12, 13]
        i, j = (n + 1) % 3, (n + 2) % 3
        w[i], w[j] = w[j], w[i]
        return tuple(w)

    judge(ctx, "axis", ["a", "h"], {
        "to_hand": lambda a, h: nxt(a, G.DIRECTION[h]),
    }, 6, "an axis")
    judge(ctx, "axis", ["a"], {
        "next": lambda a: nxt(a),
        "prev": lambda a: nxt(a, 2),
        "basis": lambda a: [nxt(a), nxt(a, 2)],
        "vector": (sv, unit_ax),
        "component": (signed, lambda a: W[ax(a)]),
        "changed": (sv, lambda a: with_(W, ax(a), 40)),
        "slice": (sv, lambda a: tuple(W[i] for i in range(3) if i != ax(a))),
        "mapped": (sv, mapped),
        "swapped": (tuple, swapped),
    }, 3, "an axis")
    judge(ctx, "axis2", ["a", "b"], {
        "offset": lambda a, b: (ax(b) - ax(a)) % 3,
        "other": lambda a, b: "None" if a == b else ("Some", {"0": NAME[3 - ax(a) - ax(b)]}),
        "hand": lambda a, b: "None" if a == b else ("Some", {"0": DIR[1 if (ax(b) - ax(a)) % 3 == 1 else -1]}),
    }, 9, "two axes")
    D = G.DIRECTION
    judge(ctx, "direction", ["d", "e"], {
        "same": lambda d, e: int(d == e),
    }, 4, "directions")
    judge(ctx, "direction", ["d"], {
        "scalar": (signed, lambda d: D[d]),
        "i8": (signed, lambda d: D[d]),
        "neg": lambda d: DIR[-D[d]],
        "amount": lambda d: TURN[D[d] % 4],
    }, 2, "a direction")
    A = G.AMOUNT
    judge(ctx, "amount", ["a", "d"], {"mul": lambda a, d: TURN[A[a] * D[d] % 4]}, 6, "amounts")
    judge(ctx, "amount", ["a", "b"], {"add": lambda a, b: "None" if (A[a] + A[b]) % 4 == 0 else ("Some", {"0": TURN[(A[a] + A[b]) % 4]})}, 9, "amounts")
    judge(ctx, "face", ["f"], {
        "opposite": lambda f: face((fc(f)[0], -fc(f)[1])),
        "coords": (sv, lambda f: G.unit(fc(f))),
        "vector": (sv, lambda f: G.unit(fc(f))),
        "index": lambda f: IDX[G.FACE_NAME[fc(f)]],
        "new": lambda f: f,
        "named": lambda f: [face(x) for x in ((0, 1), (0, -1), (1, 1), (1, -1), (2, 1), (2, -1))],
    }, 6, "a face")
    judge(ctx, "face", ["f", "a"], {
        "next": lambda f, a: face(G.rot_face(ax(a), 1, fc(f))),
        "prev": lambda f, a: face(G.rot_face(ax(a), 3, fc(f))),
    }, 18, "a face")
    judge(ctx, "face_text", ["f"], {"text": lambda f: G.FACE_NAME[fc(f)]}, 6, "the name of a face")

    def crossed(f, g):
        c = cross(G.unit(fc(f)), G.unit(fc(g)))
        return "None" if not any(c) else ("Some", {"0": face(G.face_of(c))})

    judge(ctx, "face2", ["f", "g"], {"cross": crossed, "same": lambda f, g: int(fc(f) == fc(g))}, 36, "two faces")
    on = lambda f, v: int(v[fc(f)[0]] == fc(f)[1])

    def edge_on(f, n, s):
        v = [0, 0, 0]
        v[(ax(n) + 1) % 3], v[(ax(n) + 2) % 3] = dv(s)
        return on(f, v)

    judge(ctx, "contains", ["f", "v"], {"vector": lambda f, v: on(f, dv(v))}, 48, "a face and a corner")
    judge(ctx, "contains", ["f", "normal", "s"], {"edge": edge_on}, 72, "a face and an edge")
    rot = lambda a, k, v: G.rot(ax(a), A[k], v)
    checked(ctx, "rotated", ["rotate-in-place"], "rotation")
    judge(ctx, "rotated", ["axis", "amount", "f"], {
        "face": lambda a, k, f: face(G.rot_face(ax(a), A[k], fc(f))),
        "of_axis": lambda a, k, f: NAME[rot_axis(ax(a), A[k], fc(f)[0])],
    }, 54, "rotation of a face")
    judge(ctx, "rotated", ["axis", "amount", "v"], {"vector": (dv, lambda a, k, v: rot(a, k, dv(v)))}, 72, "rotation of a vector")
    judge(ctx, "rotated", ["axis", "amount", "m"], {
        "move": lambda a, k, m: {"face": face(G.rot_face(ax(a), A[k], fc(m["face"]))), "amount": m["amount"]},
    }, 162, "rotation of a turn")
    judge(ctx, "rotated", ["m"], {
        "of_move": lambda m: {"axis": m["face"]["axis"], "amount": TURN[A[m["amount"]] * fc(m["face"])[1] % 4]},
    }, 18, "rotation a turn does")
    judge(ctx, "rotated", ["axis", "amount"], {
        "inverse": lambda a, k: {"axis": a, "amount": TURN[-A[k] % 4]},
    }, 9, "inverse of a rotation")
    # the slice of an axis is spanned by its next axis and the one after, clockwise as seen from its end
    def turned(a, v):
        w = G.rot(0, A[a], (0,) + dv(v))
        return w[1:]

    judge(ctx, "rotate_vec2", ["a", "v"], {"w": (dv, turned)}, 12, "rotation of a slice")
