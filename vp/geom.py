"""Independent model of the physical NxNxN cube: sticker coordinates and rigid rotations of layers.

x points to R, y to U, z to F.  Coordinates of cubies are -(N-1), -(N-3), ..., N-1."""
from itertools import product

AX = {"X": 0, "Y": 1, "Z": 2}
FACES = [(0, 1), (0, -1), (1, 1), (1, -1), (2, 1), (2, -1)]
FACE_NAME = {(0, 1): "R", (0, -1): "L", (1, 1): "U", (1, -1): "D", (2, 1): "F", (2, -1): "B"}
AMOUNT = {"Single": 1, "Double": 2, "Inverse": 3}
DIRECTION = {"Positive": 1, "Negative": -1}


def quarter(axis, v):
    """clockwise quarter turn seen from the positive end of the axis"""
    x, y, z = v
    if axis == 0:
        return (x, z, -y)
    if axis == 1:
        return (-z, y, x)
    return (y, -x, z)


def rot(axis, k, v):
    for _ in range(k % 4):
        v = quarter(axis, v)
    return v


def unit(face):
    v = [0, 0, 0]
    v[face[0]] = face[1]
    return tuple(v)


def face_of(v):
    for a in range(3):
        if v[a]:
            return (a, v[a])


def rot_face(axis, k, f):
    return face_of(rot(axis, k, unit(f)))


def turns(n, face, amount, depth, st):
    """sticker st=(face,pos) after turning layers 0..=depth of `face` clockwise by `amount` quarters"""
    f, p = st
    a, d = face
    if p[a] * d >= n - 1 - 2 * depth:
        k = amount * d
        return (rot_face(a, k, f), rot(a, k, p))
    return st


def cubie_classes(n):
    """surface positions grouped by the kind of piece there: {name: [positions]}"""
    c = range(-(n - 1), n, 2)
    out = {}
    for p in product(c, repeat=3):
        ext = [abs(x) == n - 1 for x in p]
        k = sum(ext)
        if k == 0:
            continue
        inner = sorted((n - 1 - abs(x)) // 2 for x, e in zip(p, ext) if not e)
        mid = (n - 1) // 2 if n % 2 else None
        if k == 3:
            name = "corner"
        elif k == 2:
            name = "edge" if inner[0] == mid else f"wing{inner[0]}"
        else:
            a, b = inner
            if a == mid and b == mid:
                continue  # fixed center
            if a == b:
                name = f"xcenter{a}"
            elif b == mid:
                name = f"tcenter{a}"
            else:
                name = f"oblique{a},{b}"
        out.setdefault(name, []).append(p)
    return out


def stickers(n, p):
    return tuple(((a, 1 if p[a] > 0 else -1), p) for a in range(3) if abs(p[a]) == n - 1)


def is_center(name):
    return "center" in name or "oblique" in name
