"""is_solved against the physical cube."""
from itertools import product
from . import geom as G
from .load import Undetermined
from .pieces import Bad


def perm_parity(pairs):
    """parity of the permutation given as list of (from, to)"""
    nxt = dict(pairs)
    seen, par = set(), 0
    for a in nxt:
        if a in seen:
            continue
        k, x = 0, a
        while x not in seen and x in nxt:
            seen.add(x)
            x = nxt[x]
            k += 1
        par ^= (k - 1) & 1
    return par


def chirality(p):
    s = 1
    for x in p:
        s *= 1 if x > 0 else -1
    return s


def twist(home, now):
    """twist of a corner: stickers (ordered by home axis) now at `now`"""
    # cyclic index of the slot in which the home-Y sticker is
    pos = now[1][1]
    a = now[1][0][0]
    order = [1, 2, 0]
    i = order.index(a)
    return i if chirality(pos) > 0 else (3 - i) % 3


def reachable_invariants(model, asg):
    """necessary conditions of reachability of a full assignment path->state"""
    n = model.n
    parity = {}
    for f, slots in model.fields.items():
        c = model.cls[f]
        pos = [model.phi[p][asg[p]] for p in slots]
        if len({g for g in pos}) != len(pos):
            return False
        ps = [g[0][1] if G.is_center(c) else tuple(sorted({s[1] for s in g})) for g in pos]
        if not G.is_center(c) and len(set(ps)) != len(ps):
            return False
        if c == "corner":
            if sum(twist(model.phi[p][model.home[p]], model.phi[p][asg[p]]) for p in slots) % 3:
                return False
        if c == "edge":
            sts = []
            for p in slots:
                sts += list(zip(model.phi[p][model.home[p]], model.phi[p][asg[p]]))
            if perm_parity(sts):
                return False
        if c in ("corner", "edge"):
            parity[c] = perm_parity([(model.phi[p][model.home[p]][0][1], model.phi[p][asg[p]][0][1]) for p in slots])
    if len(parity) == 2 and parity["corner"] != parity["edge"]:
        return False
    return True


def check_solved(model, node, good):
    """compare the diagram of is_solved with `every piece in its good set`; returns obligations"""
    r = model.run
    order = sorted(model.paths, key=lambda p: model.var[p])
    vs = [model.var[p] for p in order]
    vidx = {v: i for i, v in enumerate(vs)}
    extra = r.support(node) - set(vs)
    if extra:
        raise Undetermined(f"is_solved depends on {[r.vars[v][0] for v in extra]}")
    reach = {p: sorted(model.phi[p]) for p in order}
    val_of = {p: {s: x for x, s in enumerate(model.dec[p])} for p in order}
    memo = {}
    count = [0]

    def mism(n, i, ok):
        """is there an assignment of slots i.. where the code differs from the product"""
        key = (n, i, ok)
        if key in memo:
            return memo[key]
        count[0] += 1
        if i == len(order):
            row = r.nodes[n]
            if row[0] != "i":
                raise Undetermined("is_solved is not determined")
            res = bool(row[1]) != ok
        else:
            p = order[i]
            res = False
            row = r.nodes[n]
            done = set()
            for s in reach[p]:
                c = row[2][val_of[p][s]] if row[0] == "b" and row[1] == vs[i] else n
                k = (c, ok and s in good[p])
                if k in done:
                    continue
                done.add(k)
                if mism(c, i + 1, k[1]):
                    res = True
                    break
        memo[key] = res
        return res

    if not mism(node, 0, True):
        return count[0]
    # a difference exists: look for one on a state that the cube can reach
    budget = [400000]

    def search(n, i, ok, asg, used):
        if budget[0] <= 0:
            return None
        if not mism(n, i, ok):
            return None
        if i == len(order):
            return dict(asg) if reachable_invariants(model, asg) else None
        p = order[i]
        f = model.field_of(p)
        row = r.nodes[n]
        cand = sorted(reach[p], key=lambda s: (s != model.home[p]))
        for s in cand:
            q = model.phi[p][s]
            k = (f, q[0][1] if not G.is_center(model.cls[f]) else q)
            if k in used:
                continue
            budget[0] -= 1
            c = row[2][val_of[p][s]] if row[0] == "b" and row[1] == vs[i] else n
            asg[p] = s
            used.add(k)
            w = search(c, i + 1, ok and s in good[p], asg, used)
            used.discard(k)
            if w:
                return w
            del asg[p]
        return None

    w = search(node, 0, True, {}, set())
    if w is None and budget[0] > 0:
        return count[0]
    if w is None:
        raise Undetermined("is_solved differs from the colours, no reachable witness found within the budget")
    env = {model.var[p]: val_of[p][s] for p, s in w.items()}
    says = bool(r.num(node, env))
    away = [f"{p} is {model.show(p, s)}" for p, s in w.items() if s not in good[p]][:6]
    moved = [f"{p}: {model.show(p, s)}" for p, s in w.items() if s != model.home[p]][:6]
    raise Bad(f"{r.entry}:is_solved",
              f"is_solved says {says} for a reachable {model.n}x{model.n} cube " +
              (f"whose stickers show a wrong colour: {'; '.join(away)}" if away else f"where every face has one colour (pieces away from their first place: {'; '.join(moved)})"))
