"""C20: A*. Decided by abstract interpretation of one call of the iterator from an arbitrary state - arbitrary destination, recorded
costs and queue entries that are never cheaper than recorded - with a movement function that leads to unknown positions in every
choice of up to two directions: outdated entries are passed over, the first other one is returned after every direction was tried,
and a position gets a new cost of one more, together with a queue entry and the direction back, exactly when it is lower. The
priority of the entry is the cost and a lower bound of the moves to the destination: the sum of the coordinate differences without
diagonals, the largest of them with diagonals, which is zero at the destination and changes by at most one per move; a larger
estimate is a violation. New iterators start at the origin at no cost, the search records the moves of the positions as they come
and stops at the destination, and the path is the reconstruction of that map (C21)."""

from .common import *
from .search import *
from .relax import Relax, leaves
from ..expr import app
from ..interp import Outcome, Split
from .c19 import harness, moves, Q


def distance(st, a, b):
    """|a - b| as a value of its own"""
    x, y = st.facts.norm(a), st.facts.norm(b)
    if (x - y).const() is not None:
        return P(abs((x - y).const()))
    return P(app("absdiff", tuple(sorted((x, y), key=repr)), 0, 65535))


def signed(I, st, a, b):
    """Splits the partition by the sign of a - b"""
    d = distance(st, a, b)
    n = st.facts.norm(d - (a - b)), st.facts.norm(d - (b - a))
    if n[0].const() == 0 or n[1].const() == 0:
        return
    raise Split([lambda f: f.add_le(b - a) and f.add_eq(d - (a - b)), lambda f: f.add_le(a - b + 1) and f.add_eq(d - (b - a))])


def manhattans(I, st, call):
    """Override: the manhattan distance, which is the sum of the distances of the coordinates (C10)"""
    if call.path.endswith("::abs_diff") and len(call.args) == 2 and all(isinstance(x, Poly) for x in call.args):
        used.append(1)
        return [Outcome("ret", st.copy(), distance(st, *call.args))]
    if not (call.path.startswith("sqrid::") and call.path.endswith("::manhattan") and len(call.args) == 2):
        return None
    p, q = leaves(behind(I, st, call.args[0])), leaves(behind(I, st, call.args[1]))
    if len(p) != 2 or len(q) != 2:
        return None
    used.append(1)
    return [Outcome("ret", st.copy(), distance(st, p[0], q[0]) + distance(st, p[1], q[1]))]


used = []


class Star(Relax):
    other = False
    signs = False  # the differences of the coordinates are computed by the search itself
    also = [manhattans]
    bound = P(1 << 33)   # moves on a grid of at most 2^32 positions

    def unknown(self, I, st, base):
        # with unit costs, anything from the number of positions on
        return isinstance(base, Poly) and (st.facts.entails_le(W(I) * H(I) - base) or st.facts.entails_le(P(1 << 32) - base))

    def toofew(self, I, st, base):
        """A movement function can make the only way to a position one through all others"""
        if not isinstance(base, Poly):
            return None
        size = W(I) * H(I)
        env = self.c.real(st, [base, size], lambda env: env.poly(base) < env.poly(size), n=60)
        if env is not None:
            return "positions are known to cost %d before there is a way to them, which may be a way of %d moves" % (env.poly(base), env.poly(size) - 1)

    def dest(self, I, st):
        if len(I.argvals) > 1:
            return behind(I, st, I.argvals[2])
        it = I.init_mem[I.argvals[0].root]
        return at(it, find(it, ispos)[0])

    def bound_of(self, I, st, D, p, signs=False):
        """The least number of moves to the destination"""
        d = []
        for a, b in zip(leaves(p), leaves(self.dest(I, st))):
            d.append(distance(st, a, b))
            if (signs or self.signs) and d[-1].const() is None:
                signed(I, st, a, b)
        if not D:
            return d[0] + d[1]
        return d[1] if self.le(I, st, d[0], d[1]) else d[0]

    def atdest(self, I, s, got, new, q):
        """The estimate at the destination is not zero: a contradiction"""
        for s2, x in split_all(I, s, lambda s2: equalpos(I, s2, q, self.dest(I, s2)) and not self.eq(I, s2, got, new)):
            if x is True and self.c.real(s2) is not None:
                return s2
        return None

    def priority(self, I, s, D, got, new, q):
        want = new + self.bound_of(I, s, D, q)
        if I.decide(s, eq(got, want)) is None:
            want = new + self.bound_of(I, s, D, q, signs=True)
        if self.eq(I, s, got, want):
            return None
        z = self.atdest(I, s, got, new, q)
        if z is not None:
            return "the estimate of the moves that remain at the destination is %s" % z.facts.norm(got - new)
        if self.le(I, s, got, want):
            self.other = True
            raise Undetermined("the estimate of the remaining moves is %s, the distance %s" % (got - new, want - new))
        return "the estimate of the moves from %s to the destination is %s, more than %s" % (
            "(%s)" % ", ".join(map(str, leaves(q))), s.facts.norm(got - new), s.facts.norm(want - new))


def check(c):
    pr = c.load("c20", harness("astar", "AstarIterator", "Option<%s>" % Q, "go, &o, &d", True))
    rx = Star(c, pr, None, 1)
    rx.lower = rx.bound_of
    thorough = c.tier == "thorough"
    del used[:]
    for D in (False, True):
        for i, ch in enumerate(moves(D, thorough)):
            rx.first(D, ch)
            rx.signs = not used
    for D in (False, True):
        if rx.other:
            c.add("next", "open", "the estimate is another one than the distance")
            break
        rx.next(D, 0, set())
        for ch in moves(D, thorough):
            rx.next(D, 1, ch)
        rx.next(D, 2, set())
        rx.next(D, 2, {1})
    for D in (False, True):
        searches(c, pr, "search", False, D)
    paths(c, pr, "path", "astar", False)
    c.floor("searches", len(c.roots), 3)
