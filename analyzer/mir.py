"""Loader for the MIR dump written by the driver"""

import json


class Type:
    __slots__ = ("id", "name", "k", "d", "prog")

    def __init__(self, prog, i, d):
        self.prog, self.id, self.d = prog, i, d
        self.name, self.k = d["name"], d["k"]

    def __repr__(self):
        return self.name

    def range(self):
        if self.k == "bool":
            return 0, 1
        if self.k == "char":
            return 0, 0x10FFFF
        b = self.d["bits"]
        if self.d["signed"]:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    @property
    def bits(self):
        return self.d["bits"]

    @property
    def signed(self):
        return self.d["signed"]

    @property
    def path(self):
        return self.d.get("path", "")

    def isint(self):
        return self.k in ("int", "char")

    def elems(self):
        """Field types of a product type (or None)"""
        t = self.prog.types
        if self.k == "tuple":
            return [t[i] for i in self.d["elems"]]
        if self.k == "closure":
            return [t[i] for i in self.d["upvars"]]
        if self.k == "adt" and self.d["akind"] == "struct" and "variants" in self.d:
            return [t[f["ty"]] for f in self.d["variants"][0]["fields"]]
        return None

    def isenum(self):
        return self.k == "adt" and self.d["akind"] == "enum" and "variants" in self.d

    def vfields(self, v):
        return [self.prog.types[f["ty"]] for f in self.d["variants"][v]["fields"]]

    def vname(self, v):
        return self.d["variants"][v]["name"]

    def vindex(self, name):
        for i, v in enumerate(self.d["variants"]):
            if v["name"] == name:
                return i
        raise KeyError(name)

    def discr(self, v):
        return int(self.d["variants"][v]["discr"])

    def to(self):
        return self.prog.types[self.d["to"]]

    def elem(self):
        return self.prog.types[self.d["elem"]]

    def targs(self):
        return [self.prog.types[a["ty"]] for a in self.d.get("args", []) if "ty" in a]

    def cargs(self):
        return [a["c"] for a in self.d.get("args", []) if "c" in a]


class Body:
    def __init__(self, prog, key, d):
        self.prog, self.key, self.d = prog, key, d
        self.error = d.get("error")
        if self.error:
            return
        self.path, self.name, self.krate, self.span = d["path"], d["name"], d["krate"], d["span"]
        self.nargs = d["args"]
        self.blocks = d["blocks"]
        self.locals = [prog.types[i] for i in d["locals"]]
        self.names = {int(k): v for k, v in d["names"].items()}
        self.required = d["required"]
        self.spread = d.get("spread")
        self.closure = d.get("closure", False)
        self._loops = None

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [t["t"]]
        if k == "call":
            return [] if t["t"] is None else [t["t"]]
        if k == "switch":
            return [x[1] for x in t["v"]] + [t["else"]]
        return []

    def loops(self):
        """{header: set of blocks} of the natural loops"""
        if self._loops is not None:
            return self._loops
        # depth-first search for back edges
        color, back, preds, order = {}, [], {}, []
        stack = [(0, iter(self.succ(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                preds.setdefault(s, set()).add(b)
                if s not in color:
                    color[s] = 1
                    stack.append((s, iter(self.succ(s))))
                    break
                if color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                order.append(b)
                stack.pop()
        loops = {}
        for b, h in back:
            nodes = loops.setdefault(h, {h})
            todo = [b]
            while todo:
                n = todo.pop()
                if n in nodes:
                    continue
                nodes.add(n)
                todo.extend(preds.get(n, ()))
        self._loops = loops
        return loops


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = []
        for i, t in enumerate(d["types"]):
            self.types.append(Type(self, i, t))
        self.bodies = {k: Body(self, k, b) for k, b in d["bodies"].items()}
        self.roots = {r["name"]: r for r in d["roots"]}
        self.root_list = d["roots"]
        self._byname = {}
        for t in self.types:
            self._byname.setdefault(t.name, t)

    def type(self, name):
        return self._byname[name]
