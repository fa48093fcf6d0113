"""Reads what the abstract interpreter emitted: decision diagrams over named choices."""
import json
import sys

sys.setrecursionlimit(1000000)


class Undetermined(Exception):
    pass


class Needs(Undetermined):
    """the value depends on a choice which is not made yet"""

    def __init__(self, var, msg):
        super().__init__(msg)
        self.var = var


class Run:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.entry = d["entry"]
        self.nodes = d["nodes"]
        self.vars = d["vars"]
        self.tables = {}
        for c, t, rows in d["tables"]:
            self.tables[(c, t)] = rows
        self.outs = {}
        for o in d["outs"]:
            self.outs.setdefault(o["tag"], []).append(o)
        self.events = d["events"]
        self.alive = d["alive"]
        self.error = d["error"]
        self.checks = d["checks"]
        self._supp = {}

    def out(self, tag):
        o = self.outs.get(tag)
        if not o:
            raise Undetermined(f"analysis of {self.entry} emitted no value `{tag}`")
        return o[-1]["val"]

    def pc(self, tag):
        return self.outs[tag][-1]["pc"]

    def support(self, n):
        """variables a diagram depends on"""
        if n in self._supp:
            return self._supp[n]
        stack = [n]
        while stack:
            x = stack[-1]
            if x in self._supp:
                stack.pop()
                continue
            row = self.nodes[x]
            if row[0] != "b":
                self._supp[x] = frozenset()
                stack.pop()
                continue
            todo = [c for c in row[2] if c not in self._supp]
            if todo:
                stack.extend(todo)
                continue
            s = {row[1]}
            for c in row[2]:
                s |= self._supp[c]
            self._supp[x] = frozenset(s)
            stack.pop()
        return self._supp[n]

    def leaf(self, n, env):
        """descend with an assignment; a leaf row or the first node with an unassigned variable"""
        row = self.nodes[n]
        while row[0] == "b":
            v = env.get(row[1])
            if v is None:
                raise Needs(row[1], f"diagram depends on the extra choice `{self.vars[row[1]][0]}`")
            n = row[2][v]
            row = self.nodes[n]
        return row

    def num(self, n, env):
        row = self.leaf(n, env)
        if row[0] != "i":
            raise Undetermined(f"value not determined by the analysis ({row})")
        return row[1]

    def val(self, j, env):
        """decode an emitted value under a complete assignment"""
        if j is None:
            return None
        if "n" in j:
            return self.num(j["n"], env)
        if "e" in j:
            v = self.num(j["v"], env)
            name, fs = j["vs"][v]
            if not fs:
                return name
            return (name, {k: self.val(x, env) for k, x in fs.items()})
        if "s" in j:
            return {k: self.val(x, env) for k, x in j["f"].items()}
        if "str" in j:
            n = self.num(j["len"], env)
            return bytes(self.num(x, env) for x in j["str"][:n]).decode("utf8", "replace")
        if "el" in j:
            n = self.num(j["len"], env)
            return [self.val(x, env) for x in j["el"][:n]]
        return j.get("t")

    def jsupport(self, j):
        s = set()
        if j is None:
            return s
        if "n" in j:
            s |= self.support(j["n"])
        elif "e" in j:
            s |= self.support(j["v"])
            for _, fs in j["vs"]:
                for x in fs.values():
                    s |= self.jsupport(x)
        elif "s" in j:
            for x in j["f"].values():
                s |= self.jsupport(x)
        elif "str" in j:
            s |= self.support(j["len"])
            for x in j["str"]:
                s |= self.support(x)
        elif "el" in j:
            s |= self.support(j["len"])
            for x in j["el"]:
                s |= self.jsupport(x)
        return s

    def dom(self, v):
        return self.vars[v][1]

    def assignments(self, vs):
        vs = sorted(vs)
        env = {}

        def go(i):
            if i == len(vs):
                yield env
                return
            for x in range(self.dom(vs[i])):
                env[vs[i]] = x
                yield from go(i + 1)
            if i < len(vs):
                env.pop(vs[i], None)

        yield from go(0)

    def cases(self, fn, env=None):
        """(env, fn(env)) for every combination of the choices fn turns out to depend on"""
        env = dict(env or {})
        try:
            x = fn(env)
        except Needs as e:
            v = e.var
        else:
            yield env, x
            return
        for k in range(self.dom(v)):
            env[v] = k
            yield from self.cases(fn, env)

    def holds(self, pc, env):
        row = self.leaf(pc, env)
        return row[0] == "i" and row[1] == 1

    def describe(self, env):
        o = []
        for v, x in sorted(env.items()):
            nm, _, names = self.vars[v]
            o.append(f"{nm}={names[x] if names else x}")
        return " ".join(o)
