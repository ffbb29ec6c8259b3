"""Permutations of the cells of a grid by loops: the orbit rule, and exact small instances.

The orbit rule decides, for every size at once, that a nest of loops moves the content of every cell p to the cell sigma(p):
(1) one iteration moves the content of each cell it touches from s to sigma(s), and touches a cell only to do that;
(2) two different iterations touch different cells, so that each iteration sees the initial content of its cells;
(3) every cell that sigma moves is touched by some iteration, and no iteration before it ends the loop.
A grid whose loops do not fit the rule is open; small grids are then compared cell by cell, with the content of every cell an
unknown of its own."""

from .common import *
from ..expr import ONE, app
from ..facts import Facts, quotient
from ..interp import Outcome, Split, term
from .. import bits


class BitTy:
    """Type of the array of cells that stands for the words of a boolean grid"""
    k = "array"
    path = "cells"
    ghost = True

    def __init__(self, boolty):
        self.b, self.d = boolty, {"elem": None, "len": None}

    def elem(self):
        return self.b

    def targs(self):
        return [self.b]


def boolty(prog):
    for t in prog.types:
        if t.k == "bool":
            return t
    raise Undetermined("no bool type")


def isgridbool(ty):
    return ty is not None and ty.k == "adt" and ty.path.startswith("sqrid::") and ty.path.endswith("::Gridbool")


def ghostgrid(ty, name, I, st, n):
    """A boolean grid with one cell per position in place of its words"""
    fs = []
    for i, x in enumerate(ty.elems()):
        if x.k == "array":
            fs.append(ArrV(BitTy(boolty(I.prog)), ("sym", name, sym("elemb", 0, 1)), n))
        else:
            fs.append(I.fresh(x, (".", name, i), st))
    return Agg(ty, 0, fs)


def ghostref(name, n=None):
    """Argument: a reference to a boolean grid of cells"""
    def mk(I, st, ty):
        gt = ty.to() if ty.k == "ref" else ty
        k = n(I) if callable(n) else n
        v = ghostgrid(gt, ("*", name), I, st, k)
        I.invariant(v, st)
        if ty.k != "ref":
            return v
        st.mem[("A", name)] = v
        return Ref(("A", name), ())
    return mk


BOOLOP = __import__("re").compile(r"Gridbool.*::(get|set|set_t|set_f)$")


def posindex(p):
    """Row-major number of a position, from its type"""
    t = p.ty
    if not t.path.endswith("::Pos") or len(t.cargs()) != 2:
        raise Undetermined("not a position: %s" % t)
    return t.cargs()


def ghostops(I, st, call):
    """Override: the accessors of a boolean grid as reads and writes of cells (what they do to the words is decided by C14)"""
    m = BOOLOP.search(call.path)
    if not m or not call.path.startswith("sqrid::") and "sqrid::" not in call.path or not call.args or not isinstance(call.args[0], Ref):
        return None
    st = st.copy()
    g = call.args[0]
    v = I.read(st, g.root, g.path)
    if not isinstance(v, Agg) or not isgridbool(v.ty):
        return None
    at = [i for i, x in enumerate(v.f) if isinstance(x, ArrV)]
    if len(at) != 1 or not isinstance(v.f[at[0]].ty, BitTy):
        return None
    p = call.args[1]
    if isinstance(p, Ref):
        p = I.read(st, p.root, p.path)
    X, Y = (I.konst(c, st) for c in posindex(p))
    x, y = leaves(p)
    i = y * (X + 1) + x
    path = tuple(g.path) + (("f", at[0]), ("i", i))
    I.ghostok = True
    try:
        if m.group(1) == "get":
            return [Outcome("ret", st, I.read(st, g.root, path))]
        val = call.args[2] if m.group(1) == "set" else boolv(m.group(1) == "set_t")
        I.write(st, g.root, path, val, call.at, call.fr.body.path)
        return [Outcome("ret", st, I.unit(call.dty))]
    finally:
        I.ghostok = False


def source(v):
    """(array term, index) of the cell a value was read from"""
    if isinstance(v, Opq):
        t = v.term
    elif isinstance(v, BoolV) and v.k == "t" and v.b:
        t = v.a
    elif isinstance(v, Poly):
        a = bits.single(v)
        if a is not None and a.kind == "app" and a.op == "select":
            return a.args[0].base[1], a.args[1]
        return None
    else:
        return None
    if isinstance(t, tuple) and len(t) == 3 and t[0] == "elem":
        return t[1], t[2]
    return None


class Fails(Exception):
    """The rule does not apply; env: sizes where that may be visible"""

    def __init__(self, why, st=None):
        super().__init__(why)
        self.st = st


def constraints(f):
    """Facts as [(kind, poly)]"""
    if f.bools or f.variants:
        raise Fails("the loop depends on the content: %r" % (list(f.bools) + list(f.variants),))
    return [("le", p) for p in f.les] + [("eq", P(a) - v) for a, v in f.sub.items()] + [("ne", p) for p in f.nes]


def subst(p, mp):
    ns = Facts()
    ns.sub = mp
    return ns.norm(p)


def assume(f, cs):
    for k, p in cs:
        if not (f.add_le(p) if k == "le" else f.add_eq(p) if k == "eq" else f.add_ne(p)):
            return False
    return True


def negate(c):
    k, p = c
    if k == "le":
        return [("le", ONE - p)]
    if k == "eq":
        return [("le", p + 1), ("le", ONE - p)]
    return [("eq", p)]


def uncovered(f, doms):
    """A Facts outside of all the domains (lists of constraints), or None"""
    if not doms:
        return f
    for c in doms[0]:
        for n in negate(c):
            g = f.copy()
            if assume(g, [n]):
                r = uncovered(g, doms[1:])
                if r is not None:
                    return r
    return None


class Iter:
    """One path through the body of an innermost loop"""

    def __init__(self, ks, cs, moves, first):
        self.ks, self.cs, self.moves, self.first = ks, cs, moves, first


class Orbit:
    def __init__(self, I, root, gpath, w, h, sigma):
        self.I, self.root, self.gpath, self.w, self.h, self.sigma = I, root, gpath, w, h, sigma
        self.iters = []
        self.count = {"iterations": 0, "moves": 0, "pairs": 0, "cells": 0}

    def arr(self, st):
        return self.I.node(st, self.root, self.gpath)

    def coords(self, st, i):
        f = st.facts
        i = f.norm(i)
        y = quotient(f, i, self.w)
        x = f.norm(i - y * self.w)
        if any(a.kind == "app" and a.op == "div" and a.args[0] == i for a in y.atoms()):
            raise Fails("cell number %r is not y * width + x" % (i,), st)
        return x, y

    def moves(self, st, before):
        """What the iteration does to the cells: [(from, to)]"""
        after = self.arr(st)
        if not isinstance(after, ArrV) or after.base != before.base or before.w:
            raise Fails("the cells are replaced by %r" % (after,), st)
        last = []
        for j, (i, v) in enumerate(after.w):
            dead = False
            for i2, _ in after.w[j + 1:]:
                d = st.facts.norm(i - i2)
                if st.facts.entails_eq(d):
                    dead = True
                    break
                if not st.facts.entails_ne(d):
                    raise Fails("two writes may touch one cell: %r, %r" % (i, i2), st)
            if not dead:
                last.append((i, v))
        out = []
        for i, v in last:
            s = source(self.I.resolve(st, v))
            if s is None or s[0] != before.base[1]:
                raise Fails("a cell is set to %r" % (v,), st)
            d, o = self.coords(st, i), self.coords(st, s[1])
            e = self.sigma(*o)
            for p, q in zip(d, e):
                if not st.facts.entails_eq(p - q):
                    raise Fails("the content of cell (%r, %r) moves to (%r, %r)" % (o + d), st)
            out.append((o, d))
        self.count["moves"] += len(out)
        return out

    def walk(self, L, outer, entry):
        """The innermost iterations of a loop; outer: (counters, constraints of the loops around it)"""
        from .common import loops
        k = L.k
        heads = dict(L.parts)
        if self.arr(L.entry) != entry:
            raise Fails("cells are written outside of the innermost loop", L.entry)
        doms = []      # (key, tokey, constraints) of the ways to go round
        found = []
        for p in L.paths:
            inner = [x for x in loops(p.st.events) if self.touches(x)]
            head = self.arr(heads[p.key])
            if p.kind == "exit":
                if inner or self.arr(p.st) != head:
                    raise Fails("the loop is left early", p.st)
                continue
            if p.kind == "out":
                raise Fails("the loop is left: %s %s" % (p.out.kind, p.out.msg), p.st)
            if len(inner) > 1:
                raise Fails("several loops in a row", p.st)
            if inner:
                a = self.arr(p.st)
                if not isinstance(a, ArrV) or a.w:
                    raise Fails("cells are written outside of the innermost loop", p.st)
                cs = constraints(inner[0].entry.facts)
                doms.append((p.key, p.tokey, cs))
                if all(inner[0] is not x for x, _, _ in found):
                    found.append((inner[0], p.key, head))
            else:
                cs = constraints(p.st.facts)
                doms.append((p.key, p.tokey, cs))
                mv = self.moves(p.st, head)
                if mv:
                    first = [] if p.key == L.parts[0][0] else [("le", ONE - P(k))]
                    self.iters.append(Iter(outer[0] + [k], cs + outer[1] + first, mv, p.st))
        # no iteration is skipped: the one before an iteration goes round too
        for key, _, cs in doms:
            f = Facts()
            if not assume(f, cs + [("le", ONE - P(k))]):
                continue
            prev = [[(t, subst(p, {k: P(k) - 1})) for t, p in c2] for key2, to, c2 in doms if to == key]
            u = uncovered(f, self.trim(f, prev))
            if u is not None:
                raise Fails("an iteration may be preceded by the end of the loop: %s" % u.describe()[:8])
        for L2, key, head in found:
            first = [] if key == L.parts[0][0] else [("le", ONE - P(k))]
            self.walk(L2, (outer[0] + [k], outer[1] + first), head)

    def trim(self, f, doms):
        """Domains without the constraints that hold anyway"""
        out = []
        for d in doms:
            e = []
            for k, p in d:
                known = f.entails_le(p) if k == "le" else f.entails_eq(p) if k == "eq" else f.entails_ne(p)
                if not known:
                    e.append((k, p))
            out.append(e)
        return out

    def touches(self, L):
        heads = dict(L.parts)
        return any(self.arr(p.st) != self.arr(heads[p.key]) for p in L.paths) or any(self.touches(x) for p in L.paths for x in loops(p.st.events))

    def disjoint(self):
        """Different iterations touch different cells"""
        for n, A in enumerate(self.iters):
            for B in self.iters[n:]:
                mp = {}
                for k in B.ks:
                    mp[k] = P(sym(str(k) + "'", 0, None))
                if A.ks[0] is not B.ks[0]:
                    raise Fails("several loops in a row")
                cs2 = [(t, subst(p, mp)) for t, p in B.cs]
                base = Facts()
                if not assume(base, A.cs + cs2):
                    continue
                ca = {q for m in A.moves for q in m}
                cb = {tuple(subst(x, mp) for x in q) for m in B.moves for q in m}
                pre = []
                for ka, kb in zip(A.ks, B.ks):
                    d = P(ka) - mp[kb]
                    for s in (1, -1):
                        f = base.copy()
                        if not assume(f, pre + [("le", d * s + 1)]):
                            continue
                        for (x, y) in ca:
                            for (u, v) in cb:
                                g = f.copy()
                                self.count["pairs"] += 1
                                if assume(g, [("eq", y - v), ("eq", x - u)]):
                                    raise Fails("two iterations may touch one cell: (%r, %r) under %s" % (x, y, g.describe()[:10]))
                    pre.append(("eq", d))
                if A.ks != B.ks:
                    f = base.copy()
                    if assume(f, pre):
                        raise Fails("several loops in a row")

    def covered(self, X, Y, given):
        u, v = P(sym("u", 0, None)), P(sym("v", 0, None))
        doms = []
        for A in self.iters:
            for d in {d for _, d in A.moves}:
                sol = solve([d[0] - u, d[1] - v] + [p for t, p in A.cs if t == "eq"], A.ks)
                if sol is None:
                    raise Fails("cannot solve for the iteration that touches a cell")
                mp, rest = sol
                doms.append([(t, subst(p, mp)) for t, p in A.cs] + [("le", -mp[k]) for k in A.ks] + [("eq", r) for r in rest])
        box = given + [("le", u - X), ("le", v - Y), ("le", -u), ("le", -v)]
        su, sv = self.sigma(u, v)
        for d in (su - u, sv - v):
            for n in negate(("eq", d)):
                f = Facts()
                if not assume(f, box + [n]):
                    continue
                self.count["cells"] += 1
                r = uncovered(f, self.trim(f, doms))
                if r is not None:
                    raise Fails("a cell may be left alone: %s" % r.describe()[:10], r)


def solve(eqs, ks):
    """Values of the counters ks (and the equations left) for the equations to hold; None if not found"""
    mp, left = {}, list(eqs)
    for _ in ks:
        hit = None
        for e in left:
            for k in ks:
                if k in mp:
                    continue
                c = e.t.get((k,))
                if c in (1, -1) and sum(1 for m in e.t if any(occ(k, a) for a in m)) == 1:
                    hit = (e, k, c)
                    break
            if hit:
                break
        if hit is None:
            return None
        e, k, c = hit
        val = P(k) - e * c
        left.remove(e)
        one = {k: val}
        left = [subst(x, one) for x in left]
        mp = {a: subst(b, one) for a, b in mp.items()}
        mp[k] = val
    return mp, [x for x in left if x.const() != 0]


def occ(k, a):
    from ..facts import occurs
    return occurs(k, a)


def orbit(I, outs, g, X, Y, sigma):
    """Raises Fails when the rule does not apply"""
    outs = [o for o in outs if o.kind != "unreachable"]
    r = cells(I, g)
    gpath = tuple(("F", e[1], None) for e in r.path)
    counts = None
    seen = []
    for o in outs:
        if o.kind == "panic":
            raise Fails("may panic: " + o.msg, o.st)
        O = Orbit(I, r.root, gpath, X + 1, Y + 1, sigma)
        start = O.arr(type("S", (), {"mem": I.init_mem})())
        top = [L for L in loops(o.st.events) if O.touches(L)]
        a = O.arr(o.st)
        if len(top) > 1:
            raise Fails("several loops in a row", o.st)
        if not isinstance(a, ArrV) or a.w:
            raise Fails("cells are written outside of the loops", o.st)
        if top and not any(top[0] is s for s in seen):
            seen.append(top[0])
            O.walk(top[0], ([], []), start)
            O.disjoint()
            O.covered(X, Y, constraints(top[0].entry.facts))
            counts = O.count
        elif not top:
            # a way without any loop: only when there is nothing to move
            O.iters = []
            f = o.st.facts.copy()
            u, v = P(sym("u", 0, None)), P(sym("v", 0, None))
            su, sv = sigma(u, v)
            for d in (su - u, sv - v):
                for n in negate(("eq", d)):
                    h = f.copy()
                    if assume(h, [("le", u - X), ("le", v - Y), ("le", -u), ("le", -v), n]):
                        raise Fails("a cell may be left alone", o.st)
    return counts


def unequal(c, I, st, v, want):
    """Whether two boolean values differ for some content: True, False, or None when not decided"""
    todo = [st.copy()]
    und = False
    while todo:
        s = todo.pop()
        try:
            a, b = I.truth(s, v), I.truth(s, want)
        except Undetermined:
            und = True
            continue
        except Split as e:
            todo += I.split(s, e)
            continue
        if a == b:
            continue
        if s.taint or c.real(s) is None:
            und = True
            continue
        return True
    return None if und else False


def exact(c, I, outs, g, X, Y, sigma, name):
    """Compare the cells one by one (sizes are numbers). True: as required, False: violation, None: not decided"""
    r = cells(I, g)
    gpath = tuple(("F", e[1], None) for e in r.path)
    ok = True
    w, h = X + 1, Y + 1
    where = "XMAX=%d, YMAX=%d" % (X, Y)
    for o in outs:
        if o.kind == "panic":
            if o.st.taint:
                return None
            c.violation(name, "%s panics for %s: %s" % (name, where, o.msg))
            return False
        a = I.node(o.st, r.root, gpath)
        base = I.init_mem[r.root]
        for e in r.path:
            base = base.f[e[1]]
        if not isinstance(a, ArrV) or a.base != base.base:
            return None
        for y in range(h):
            for x in range(w):
                dx, dy = sigma(x, y)
                try:
                    v = I.arr_read(o.st, a, P(dy * w + dx))
                except Split:
                    return None
                s = source(I.resolve(o.st, v))
                n = y * w + x
                if s is not None and s[0] == base.base[1] and s[1] == P(n):
                    continue
                if isinstance(base.ty, BitTy):
                    # a cell may be given equal content in another way: compare the content itself
                    try:
                        want = I.arr_read(o.st, base, P(n))
                    except Split:
                        return None
                    d = unequal(c, I, o.st, v, want)
                    if d is False:
                        continue
                    if d is None:
                        return None
                elif s is None or s[0] != base.base[1] or s[1].const() is None or o.st.taint:
                    return None
                what = "the content of cell (%d, %d)" % (s[1].const() % w, s[1].const() // w) if s is not None and s[1].const() is not None else repr(v)
                c.violation(name, "%s for %s: cell (%d, %d) receives %s; required is the content of (%d, %d)" % (name, where, dx, dy, what, x, y))
                return False
    return ok if outs else None


SIZES = [(0, 0), (1, 0), (0, 1), (2, 1), (1, 2), (3, 2), (2, 3), (4, 4)]


def permutation(c, pr, r, sigma, boolean, square):
    """Decide one operation: the orbit rule for all sizes, exact small instances for the alarm"""
    ps = {"g": "W"} if square else {}

    def sizes(I):
        if square:
            w = param(I, "W")
            return w, w
        return param(I, "XMAX"), param(I, "YMAX")

    def cellcount(I):
        X, Y = sizes(I)
        return (X + 1) * (Y + 1)

    def go(cv, delay):
        kw = {"cvals": cv, "delay": delay, "name": r}
        if boolean:
            kw["args"] = {"g": ghostref("g", cellcount)}
            kw["overrides"] = [ghostops]
        n = len(c.obs)
        res = c.run(pr, r, **kw)
        del c.obs[n:]
        return res
    why = None
    st = None
    res = go(None, 0)
    if res is None:
        why = "not interpreted"
    else:
        I, outs = res
        try:
            X, Y = sizes(I)
            cnt = orbit(I, outs, I.argvals[0], X, Y, lambda x, y: sigma(x, y, X, Y))
            c.add(r, "proved", "orbit rule: %s" % cnt)
            for k, v in (cnt or {}).items():
                c.sites["orbit rule: " + k] = c.sites.get("orbit rule: " + k, 0) + v
            return True
        except (Fails, Undetermined, Split) as e:
            why, st = "%s %s" % (type(e).__name__, e), getattr(e, "st", None)
    todo = [(x, y) for x, y in SIZES]
    if square:
        todo = [(n, n) for n in range(6)]
    if st is not None:
        # sizes where the failing partition is not empty
        f = st if isinstance(st, Facts) else st.facts
        hints = set()
        try:
            for env in f.points(set(), n=4, tries=200):
                v = {str(a): x for a, x in env.v.items()}
                x = v.get("W" if square else "XMAX")
                y = x if square else v.get("YMAX")
                if x is not None and y is not None and (x + 1) * (y + 1) <= 2000:
                    hints.add((x, y))
        except Exception:
            pass
        todo += sorted(h for h in hints if h not in todo)[:2]
    todo += [(40, 40)] if square else [(300, 1), (1, 300)]
    for X, Y in todo:
        cv = {"W": X} if square else {"XMAX": X, "YMAX": Y}
        n = (X + 1) * (Y + 1)
        cv["WORDS" if boolean else "SIZE"] = (n + 31) // 32 if boolean else n
        res = go(cv, 400)
        if res is None:
            continue
        I, outs = res
        if exact(c, I, outs, I.argvals[0], X, Y, lambda x, y: sigma(x, y, X, Y), r) is False:
            return False
    c.add(r, "open", why)
    return None


SIGMA = {
    "flip_h": lambda x, y, X, Y: (X - x, y),
    "flip_v": lambda x, y, X, Y: (x, Y - y),
    "rotate_cw": lambda x, y, X, Y: (X - y, x),
    "rotate_cc": lambda x, y, X, Y: (y, X - x),
}
