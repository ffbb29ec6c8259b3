"""Helpers for the searches: directions whose opposite is not split into cases, maps with few entries, what happened on a path"""

from .common import *
from ..interp import Outcome, Event, Split, term


def behind(I, st, a):
    while isinstance(a, Ref):
        a = I.read(st, a.root, a.path)
    return a


def negs(I, st, call):
    """Override: the opposite of an unknown direction stays a value of its own (C06 decides that it is the opposite)"""
    if call.path.endswith("Neg>::neg") and "Dir" in call.path and call.dty.isenum():
        d = I.resolve(st, behind(I, st, call.args[0]))
        if isinstance(d, Opq):
            if isinstance(d.term, tuple) and d.term[0] == "negdir":
                return [Outcome("ret", st.copy(), Opq(call.dty, d.term[1]))]
            return [Outcome("ret", st.copy(), Opq(call.dty, ("negdir", d.term)))]
    return None


def opposite(I, st, x, d):
    """Is x the opposite of the direction d? True, False or None"""
    x, d = I.resolve(st, x), I.resolve(st, d)
    if isinstance(x, Agg) and isinstance(d, Agg):
        return (DIRS.index(x.ty.vname(x.v)) + 4) % 8 == DIRS.index(d.ty.vname(d.v))
    if isinstance(x, Opq) and isinstance(d, Opq):
        if x.term == ("negdir", d.term) or d.term == ("negdir", x.term):
            return True
        if x.term == d.term:
            return False
    return None


def log(st, name, *vals):
    st.events = st.events + (Event("op", (name,) + vals, None, None),)


def logged(st, name):
    return [e.a[1:] for e in st.events if e.k == "op" and e.a[0] == name]


def fewmoves(limit):
    """Override: a map of moves that knows at most limit positions; which ones and what they map to is unknown"""
    def ov(I, st, call):
        if not call.path.endswith("::MapPos::get"):
            return None
        key = behind(I, st, call.args[1])
        t = call.dty.to()
        st = st.copy()
        seen = []
        for k, _ in logged(st, "mapget"):
            if not any(term(k) == term(x) for x in seen):
                seen.append(k)
        root = ("A", ("mapget", term(key)))
        if root not in st.mem:
            full = len(seen) >= limit
            st.mem[root] = Agg(t, t.vindex("None"), []) if full else I.fresh(t, ("mapget", term(key)), st)
        log(st, "mapget", key, st.mem[root])
        return [Outcome("ret", st, Ref(root, ()))]
    return ov


def equalities(I, st):
    """[(a, b, truth)] of the comparisons of opaque values on a path"""
    out = []
    for e in st.events:
        if e.k == "op" and e.a[0] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"):
            t = I.decide(st, e.a[3])
            if t is not None:
                out.append((e.a[2][0], e.a[2][1], t == e.a[0].endswith("eq")))
    return out


def issame(I, st, a, b):
    """Are two positions equal on a path? True, False or None"""
    a, b = behind(I, st, a), behind(I, st, b)
    if term(a) == term(b):
        return True
    for x, y, t in equalities(I, st):
        if {term(x), term(y)} == {term(a), term(b)}:
            return t
    la, lb = leaves(a), leaves(b)
    if all(isinstance(x, Poly) for x in la + lb):
        if any(st.facts.entails_ne(st.facts.norm(x - y)) for x, y in zip(la, lb)):
            return False
        if all(st.facts.entails_eq(st.facts.norm(x - y)) for x, y in zip(la, lb)):
            return True
    return None
