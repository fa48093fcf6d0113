"""Matches the piece states found by the analysis with the physical pieces of an NxNxN cube."""
import re
from . import geom as G
from .load import Undetermined


class Bad(Exception):
    """a property violation, with everything needed to diagnose it"""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def move_struct(v):
    depth = v.get("depth", 0)
    m = v.get("axis_move", v)
    f = m["face"]
    return ((G.AX[f["axis"]], G.DIRECTION[f["direction"]]), G.AMOUNT[m["amount"]], depth)


def move_name(mv):
    f, k, d = mv
    return ("" if d < 2 else str(d + 1)) + G.FACE_NAME[f] + ("w" if d else "") + {1: "", 2: "2", 3: "'"}[k]


class Field:
    pass


class CubeModel:
    def __init__(self, run, n, m_tag="m", before="before", after="after", home="home"):
        self.run, self.n = run, n
        r = run
        mj = r.out(m_tag)
        mv = sorted(r.jsupport(mj))
        self.moves = []
        for env in r.assignments(mv):
            self.moves.append((dict(env), move_struct(r.val(mj, env))))
        names = {m for _, m in self.moves}
        hj, bj, aj = r.out(home)["f"], r.out(before)["f"], r.out(after)["f"]
        self.paths = list(bj)
        self.home = {p: r.num(hj[p]["n"], {}) for p in self.paths}
        self.var = {}
        self.states = {}
        self.dec = {}
        self.fields = {}
        self.obligations = 0
        for p in self.paths:
            bn = bj[p]["n"]
            sup = r.support(bn)
            if len(sup) != 1:
                raise Undetermined(f"{r.entry}: state of {p} is not one choice")
            (v,) = sup
            self.var[p] = v
            # decoded state index of every value of the variable
            self.dec[p] = [r.num(bn, {v: x}) for x in range(r.dom(v))]
            self.fields.setdefault(re.sub(r"\[\d+\]$", "", p), []).append(p)
        self.moves_seen = names
        self.T = {}
        mvs = set(mv)
        for p in self.paths:
            an = aj[p]["n"]
            extra = r.support(an) - mvs - {self.var[p]}
            if extra:
                raise Bad(f"{r.entry}:{self.field_of(p)}:dependence",
                          f"the new state of piece {p} depends on {[r.vars[x][0] for x in extra]}")
            t = []
            for env, m in self.moves:
                row = {}
                for x in range(r.dom(self.var[p])):
                    env[self.var[p]] = x
                    row[self.dec[p][x]] = r.num(an, env)
                del env[self.var[p]]
                t.append(row)
                self.obligations += len(row)
            self.T[p] = t

    def field_of(self, p):
        return re.sub(r"\[\d+\]$", "", p)

    def show(self, p, s):
        r = self.run
        t = r.out("home")["f"][p]["k"]
        for (c, ty), rows in r.tables.items():
            if ty == t and len(rows) > s:
                return str(simplify(r.val(rows[s], {})))
        return str(s)

    def explore(self, p, start, T):
        """states reachable by piece p"""
        seen = {start}
        todo = [start]
        while todo:
            s = todo.pop()
            for t in T:
                x = t[s]
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen

    def propagate(self, T, s0, g0, step):
        """the equivariant map with s0 -> g0, or the step where it fails"""
        phi = {s0: g0}
        todo = [s0]
        while todo:
            s = todo.pop()
            for (env, m), t in zip(self.moves, T):
                x, y = t[s], step(m, phi[s])
                if x in phi:
                    if phi[x] != y:
                        return None, (m, s, x, y)
                else:
                    phi[x] = y
                    todo.append(x)
        return phi, None

    def solve(self):
        """for every field its class of physical pieces and for every slot the map state -> stickers"""
        n = self.n
        classes = G.cubie_classes(n)
        step_pos = {m: {} for _, m in self.moves}
        allpos = {q for c in classes.values() for q in c}
        for _, m in self.moves:
            f, k, d = m
            for q in allpos:
                step_pos[m][q] = G.rot(f[0], k * f[1], q) if q[f[0]] * f[1] >= n - 1 - 2 * d else q
        self.cls, self.psi, self.phi, self.home_pos = {}, {}, {}, {}
        taken = {}
        for f, slots in self.fields.items():
            opts = []
            for name, Q in classes.items():
                if len(Q) != len(slots):
                    continue
                m = self.match(f, slots, Q, step_pos)
                if m:
                    opts.append((name, m))
            if not opts:
                raise Bad(f"{self.run.entry}:{f}:geometry", self.explain(f, slots, classes, step_pos))
            self.fields_opts = opts
            free = [o for o in opts if o[0] not in taken]
            if not free:
                raise Bad(f"{self.run.entry}:{f}:duplicate",
                          f"the {len(slots)} pieces of {f} turn like the {opts[0][0]} pieces, which {taken[opts[0][0]]} already are")
            name, (psi, homes) = free[0]
            taken[name] = f
            self.cls[f] = name
            self.psi[f] = psi
            for p in slots:
                self.home_pos[p] = homes[p]
        missing = [c for c in classes if c not in taken]
        if missing:
            raise Bad(f"{self.run.entry}:missing", f"no pieces of the {n}x{n} cube turn like its {', '.join(missing)} pieces")
        # stickers
        for f, slots in self.fields.items():
            for p in slots:
                g0 = G.stickers(n, self.home_pos[p])

                def step(m, g):
                    fc, k, d = m
                    return tuple(G.turns(n, fc, k, d, st) for st in g)

                phi, bad = self.propagate(self.T[p], self.home[p], g0, step)
                if phi is None:
                    m, s, x, y = bad
                    raise Bad(f"{self.run.entry}:{f}:stickers",
                              f"turning {move_name(m)} takes {p} from {self.show(p, s)} to {self.show(p, x)}, which stands for two different ways the stickers of that piece can be")
                if len(set(phi.values())) != len(phi):
                    raise Bad(f"{self.run.entry}:{f}:stickers", f"two states of {p} are the same physical state")
                self.phi[p] = phi
                self.obligations += len(phi) * len(self.moves)
        return self

    def match(self, f, slots, Q, step_pos):
        """equivariant map states -> positions of the class, the same for every slot of the field"""
        step = lambda m, q: step_pos[m][q]
        psi = {}
        homes = {}
        for p in slots:
            s0 = self.home[p]
            if s0 in psi:
                ph, bad = self.propagate(self.T[p], s0, psi[s0], step)
                if ph is None or any(psi.get(s, q) != q for s, q in ph.items()):
                    return None
                psi.update(ph)
            else:
                cands = []
                for q in Q:
                    ph, bad = self.propagate(self.T[p], s0, q, step)
                    if ph is not None:
                        cands.append(ph)
                cands = [c for c in cands if all(psi.get(s, q) == q for s, q in c.items())]
                if not cands:
                    return None
                psi.update(cands[0])
            homes[p] = psi[s0]
        if sorted(homes.values()) != sorted(Q):
            return None
        return psi, homes

    def explain(self, f, slots, classes, step_pos):
        """closest physical class and the turn where the code departs from it"""
        best = None
        p = slots[0]
        for p in slots:
            for name, Q in classes.items():
                if len(Q) != len(slots):
                    continue
                for q in Q:
                    phi = {self.home[p]: q}
                    todo = [self.home[p]]
                    okc = 0
                    bad = None
                    while todo:
                        s = todo.pop(0)
                        for (env, m), t in zip(self.moves, self.T[p]):
                            x, y = t[s], step_pos[m][phi[s]]
                            if x in phi:
                                if phi[x] != y:
                                    bad = bad or (m, s, x)
                                else:
                                    okc += 1
                            else:
                                phi[x] = y
                                todo.append(x)
                                okc += 1
                    if best is None or okc > best[0]:
                        best = (okc, name, p, bad)
            if best and best[3]:
                break
        if not best:
            return f"{f} has {len(slots)} pieces, no class of pieces of a {self.n}x{self.n} cube has that many"
        okc, name, p, bad = best
        if not bad:
            return f"the solved pieces of {f} do not sit on the {name} positions one each"
        m, s, x = bad
        return f"{f} does not turn like {name} pieces: turning {move_name(m)} takes {p} from {self.show(p, s)} to {self.show(p, x)}"

    def solved_sets(self):
        """for every slot the states in which each sticker shows its face's colour"""
        out = {}
        for f, slots in self.fields.items():
            cen = G.is_center(self.cls[f])
            for p in slots:
                h = self.phi[p][self.home[p]]
                if cen:
                    good = {s for s, g in self.full_phi(p).items() if g[0][0] == h[0][0]}
                else:
                    good = {self.home[p]}
                out[p] = good
        return out

    def full_phi(self, p):
        return self.phi[p]


def simplify(v):
    if isinstance(v, dict):
        v = {k: x for k, x in v.items() if not k.startswith("_")}
        if len(v) == 1:
            return simplify(next(iter(v.values())))
        return {k: simplify(x) for k, x in v.items()}
    if isinstance(v, list) and len(v) == 1:
        return simplify(v[0])
    if isinstance(v, list):
        return [simplify(x) for x in v]
    return v
