"""One call of the iterator of a cost-ordered search, from an arbitrary state: what it may skip, what it has to expand, and which
costs, queue entries and moves it has to record"""

from .common import *
from .common import leaves as plain_leaves
from .search import *
from ..interp import Split, sym, term

MAX = (1 << 64) - 1


def ismap(v):
    return isinstance(v, Model) and v.k == "ideal" or isinstance(v, Opq) and v.ty.k == "param" and v.ty.d.get("name") == "M"


def isheap(v):
    return isinstance(v, Model) and v.k == "heap" or hasattr(v, "ty") and v.ty is not None and v.ty.path.endswith("BinaryHeap")


def isgo(v):
    return isinstance(v, Opq) and v.ty.k == "param" and v.ty.d.get("name") == "F"


def parts(c, name, it, positions):
    """(map, queue) of an iterator that consists of nothing but them, the movement function and so many positions"""
    ms, hs, gs, ps = find(it, ismap), find(it, isheap), find(it, isgo), find(it, ispos)
    if len(ms) != 1 or len(hs) != 1 or len(gs) > 1 or len(ps) != positions or len(it.f) != 2 + len(gs) + positions:
        c.add(name, "open", "the iterator %s is not one map, one queue and a movement function" % it.ty.name)
        return None
    return ms[0], hs[0]


def entry(v):
    """(priority, position, direction) of an entry of the queue, which is ordered by its smallest priority"""
    if not isinstance(v, Agg) or not v.f or not isinstance(v.f[0], Agg) or not v.f[0].ty.path.endswith("cmp::Reverse") or v.ty.k != "tuple":
        return None
    rs, ps, ds = v.f[0].f, find(v, ispos), find(v, isdir)
    if len(rs) != 1 or not isinstance(rs[0], Poly) or len(ps) != 1 or len(ds) != 1:
        return None
    return rs[0], at(v, ps[0]), at(v, ds[0])


def show_pos(p):
    return "(%s)" % ", ".join(str(x) for x in leaves(p))


class Relax:
    """goal(I): the destination, None when there is none; lower(I, st, D, p): lower bound of the remaining cost of a position"""

    def __init__(self, c, pr, lower, positions):
        self.c, self.pr, self.lower, self.positions = c, pr, lower, positions

    def cost(self, I, st, m, p):
        return I.asint(st, value(I, st, m, tuple(leaves(p)), self.usize(I)), self.usize(I))

    def usize(self, I):
        return next(t for t in I.prog.types if t.k == "int" and t.name == "usize")

    def le(self, I, st, a, b):
        return I.truth(st, le(a, b))

    def eq(self, I, st, a, b):
        return I.truth(st, eq(a, b))

    # one call in an arbitrary state -------------------------------------------------------------

    def next(self, D, n, ch):
        c = self.c
        want = DIRS if D else DIRS[::2]
        name = "next %s diagonals, %d entries" % ("with" if D else "without", n)
        was, poped = {}, []

        def extra(I, st, k, e, r):
            # an entry is never cheaper than what is recorded for its position
            x = entry(e)
            if x is None:
                raise Undetermined("entries %r" % (e,))
            it = I.read(st, I.argvals[0].root, I.argvals[0].path)
            m = asmodel(at(it, find(it, ismap)[0]))
            p = x[1]
            if not st.facts.add_le(self.cost(I, st, m, p) + self.lower(I, st, D, p) - x[0]):
                raise Undetermined("an entry cheaper than its position")
            if self.bound is not None and not st.facts.add_le(self.cost(I, st, m, p) - self.bound):
                raise Undetermined("a cost over the bound")

        def some(k, p, d):
            return d.ty.vname(d.v) in want and want.index(d.ty.vname(d.v)) in ch
        res = c.run(self.pr, "next", name=name, cvals={"D": int(D)}, delay=12, budget=250000,
                    overrides=self.also + [stores, heaps(n, extra), steps(some, fresh_step), negs])
        if res is None:
            return
        I, outs = res
        it0 = I.init_mem[I.argvals[0].root]
        w = parts(c, name, it0, self.positions)
        if w is None:
            return
        m0 = asmodel(at(it0, w[0]))
        good = 0
        for o in outs:
            good += self.outcome(I, o, name, D, want, m0, w, lambda o: I.resolve(o.st, I.read(o.st, I.argvals[0].root, I.argvals[0].path)), n)
        if good:
            c.add(name, "proved", "%d ways, moves %s" % (good, sorted(ch)))

    # the first call -------------------------------------------------------------------------------

    def first(self, D, ch):
        """A new iterator comes to its origin first, at no cost"""
        c = self.c
        want = DIRS if D else DIRS[::2]
        name = "first %s diagonals" % ("with" if D else "without")

        def some(k, p, d):
            return d.ty.vname(d.v) in want and want.index(d.ty.vname(d.v)) in ch
        res = c.run(self.pr, "first", name=name, cvals={"D": int(D)}, delay=12, budget=250000,
                    overrides=self.also + [stores, heaps(0), steps(some, fresh_step), negs])
        if res is None:
            return
        I, outs = res
        good = 0
        for o in outs:
            if o.kind != "ret":
                good += self.outcome(I, o, name, D, want, None, None, None, 1)
                continue
            pair = I.resolve(o.st, o.v)
            it, r = pair.f
            w = parts(c, name, it, self.positions)
            if w is None:
                continue
            m = at(it, w[0])
            if not (isinstance(m, Model) and m.k == "ideal" and m.f[0][0] in ("default", "fill")):
                c.add(name, "open", "the costs of a new iterator are %r" % (m,))
                continue
            orig = behind(I, o.st, I.argvals[1])
            pops = [x for x, in logged(o.st, "pop")]
            v = I.resolve(o.st, r)
            if not pops and isinstance(v, Agg) and v.ty.vname(v.v) == "None":
                wrong(c, name, o.st, "never comes to the origin")
                continue
            if len(pops) != 1 or pops[0] is None or not isinstance(v, Agg):
                c.add(name, "open", "a new iterator has no single entry")
                continue
            x = entry(pops[0])
            if x is None:
                c.add(name, "open", "entries %r" % (pops[0],))
                continue
            if not equal_now(I, o.st, x[1], orig):
                wrong(c, name, o.st, "starts from %r instead of the origin" % (x[1],))
                continue
            if v.ty.vname(v.v) != "Some":
                wrong(c, name, o.st, "never comes to the origin")
                continue
            unit = I.fresh(self.usize(I), "any", o.st)
            base = value(I, o.st, Model("ideal", (m.f[0], ()), m.ty), tuple(leaves(orig)), self.usize(I))
            if not self.unknown(I, o.st, base):
                few = self.toofew(I, o.st, base)
                if few:
                    c.violation(name, few)
                elif isinstance(base, Poly) and o.st.facts.norm(base).const() is not None:
                    wrong(c, name, o.st, "positions are known to cost %s before there is a way to them" % base)
                else:
                    c.add(name, "open", "positions cost %r initially" % (base,))
                continue
            # before the expansion: the origin at no cost
            start = Model("ideal", (m.f[0], ((tuple(leaves(orig)), ZERO),)), m.ty)
            good += self.outcome(I, o, name, D, want, start, w, lambda o: it, 1, r, fresh=True)
        if good:
            c.add(name, "proved", "%d ways, moves %s" % (good, sorted(ch)))

    # rules --------------------------------------------------------------------------------------------

    def outcome(self, I, o, name, D, want, m0, w, after, n, r=None, fresh=False):
        c = self.c
        if o.kind != "ret":
            if re.search("overflow", o.msg, re.I):
                wrong(c, name, o.st, "the sum of costs overflows: " + o.msg)
            else:
                c.add(name, "open", "may panic: " + o.msg)
            return 0
        try:
            n = 0
            for s, why in split_all(I, o.st, lambda s: self.judge(I, s, o.v if r is None else r, D, want, m0, after(o), w, fresh)):
                if why:
                    wrong(c, name, s, why)
                else:
                    n = 1
            return n
        except Undetermined as e:
            c.add(name, "open", str(e))
            return 0

    def unknown(self, I, st, base):
        """Is it the cost of a position that was not reached?"""
        return isinstance(base, Poly) and st.facts.norm(base).const() == MAX

    def toofew(self, I, st, base):
        return None

    also = []
    bound = None  # of the costs of positions that were reached

    def judge(self, I, s, r, D, want, m0, it, w, fresh):
        c = self.c
        pops = [x for x, in logged(s, "pop")]
        gone = logged(s, "go")
        pushed = [x for x, in logged(s, "push")]
        r = I.resolve(s, r)
        m1, h1 = at(it, w[0]), at(it, w[1])
        m1 = asmodel(m1)
        if not isinstance(r, Agg):
            raise Undetermined("the result %r" % (r,))
        entries = [entry(x) if x is not None else None for x in pops]
        if any(e is None and x is not None for e, x in zip(entries, pops)):
            raise Undetermined("entries %r" % (pops,))
        if fresh:
            pushed = pushed[1:]  # the origin
        current = None
        for i, e in enumerate(entries):
            if e is None:
                continue
            pr, p, d = e
            if fresh or self.le(I, s, pr, self.cost(I, s, m0, p) + self.lower(I, s, D, p)):
                if i != len(entries) - 1:
                    return "goes past %s, reached at its lowest cost so far" % show_pos(p)
                current = e
            elif i == len(entries) - 1:
                if r.ty.vname(r.v) == "Some":
                    return "comes to %s again by an entry that costs more than a way found since" % show_pos(p)
                if s.copy().facts.add_le(P(len(entries) + 1) - sym("queue.len", 0, 1 << 40)):
                    return "ends at an outdated entry for %s, whatever else is queued" % show_pos(p)
                raise Undetermined("stops at an outdated entry")
        if current is None:
            if r.ty.vname(r.v) == "Some":
                return "returns %r although the queue is empty" % (r.f[0],)
            if gone or pushed:
                raise Undetermined("expands outdated entries")
            return None
        pr, p, d = current
        if r.ty.vname(r.v) != "Some":
            return "ends at %s, reached at its lowest cost" % show_pos(p)
        ps, ds = find(r.f[0], ispos), find(r.f[0], isdir)
        if len(ps) != 1 or len(ds) != 1:
            raise Undetermined("returns %r" % (r,))
        if not equalpos(I, s, at(r.f[0], ps[0]), p):
            return "returns %r instead of the cheapest position" % (r.f[0],)
        if term(I.resolve(s, at(r.f[0], ds[0]))) != term(I.resolve(s, d)):
            x, y = I.resolve(s, at(r.f[0], ds[0])), I.resolve(s, d)
            if opposite(I, s, x, y) is True or isinstance(x, Agg) and isinstance(y, Agg) and x.v != y.v:
                return "returns another direction than that of the entry"
            raise Undetermined("returns the direction %r" % (x,))
        for q, e, _ in gone:
            if not equalpos(I, s, q, p):
                return "moves from %s instead of %s" % (show_pos(q), show_pos(p))
            if e.ty.vname(e.v) not in want:
                return "moves to %s %s diagonals" % (e.ty.vname(e.v), "with" if D else "without")
        for x in want:
            if not any(e.ty.vname(e.v) == x for _, e, _ in gone):
                return "does not move %s" % x
        # relaxation, in the order of the moves
        m, left = m0, list(pushed)
        for _, e, v in gone:
            if not v.f:
                continue
            q, incr = self.reached(v.f[0])
            new = self.cost(I, s, m, p) + incr
            if not self.le(I, s, new, P(MAX)):
                new = P(MAX)
            if self.le(I, s, self.cost(I, s, m, q), new):
                continue
            m = Model("ideal", (m.f[0], m.f[1] + ((tuple(leaves(q)), new),)), m.ty)
            for x in left:
                y = entry(x)
                if y is None:
                    raise Undetermined("queues %r" % (x,))
                if not equalpos(I, s, y[1], q):
                    continue
                o = opposite(I, s, y[2], e)
                if o is None:
                    raise Undetermined("the direction %r" % (y[2],))
                if not o:
                    # the entry of another move to the same position
                    if any(opposite(I, s, y[2], e2) for _, e2, v2 in gone if v2.f):
                        if any(entry(z) and equalpos(I, s, entry(z)[1], q) and opposite(I, s, entry(z)[2], e) for z in left):
                            continue
                    return "queues %s with the direction %r, reached by %s" % (show_pos(q), y[2], e.ty.vname(e.v))
                why = self.priority(I, s, D, y[0], new, q)
                if why:
                    return why
                left = [z for z in left if z is not x]
                break
            else:
                return "does not queue %s, for which a cheaper way was found" % show_pos(q)
        if left:
            y = entry(left[0])
            return "queues %s, to which no cheaper way was found" % (show_pos(y[1]) if y else repr(left[0]))
        keys = {k for k, _ in m.f[1]} | {k for k, _ in m1.f[1]}
        if m1.f[0] != m.f[0]:
            raise Undetermined("the costs are those of %r" % (m1.f[0],))
        for k in sorted(keys, key=repr):
            a, b = self.cost(I, s, m1, Key(k)), self.cost(I, s, m, Key(k))
            if not self.eq(I, s, a, b):
                return "records the cost %s instead of %s for (%s)" % (a, b, ", ".join(map(str, k)))
        return None

    def reached(self, v):
        ps = find(v, ispos)
        if len(ps) != 1:
            raise Undetermined("moves to %r" % (v,))
        rest = [x for i, x in enumerate(v.f) if isinstance(x, Poly)] if ps[0] else []
        return at(v, ps[0]), rest[0] if rest else P(1)

    def priority(self, I, s, D, got, new, q):
        if self.eq(I, s, got, new):
            return None
        return "queues %s with the priority %s, its cost is %s" % (show_pos(q), got, new)


class Key:
    """A position given by its coordinates"""

    def __init__(self, k):
        self.k = k


def leaves(v):
    return list(v.k) if isinstance(v, Key) else plain_leaves(v)


def equal_now(I, st, p, q):
    return all(st.facts.entails_eq(st.facts.norm(x - y)) for x, y in zip(leaves(p), leaves(q)))


def asmodel(v):
    return v if isinstance(v, Model) and v.k == "ideal" else Model("ideal", (("was", term(v)), ()), getattr(v, "ty", None))
