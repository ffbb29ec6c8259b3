"""C31: what positions, directions and bounded integers print. Decided by abstract interpretation: the pieces each printing
implementation writes on every path, for every value and every size."""

from .common import *
from .text import pieces

XY = "const XMAX: u16, const YMAX: u16"
F = "f: &mut std::fmt::Formatter<'_>"
R = "std::fmt::Result"
TYPES = [("BoundedU8", "u8"), ("BoundedU16", "u16"), ("BoundedU32", "u32"), ("BoundedU64", "u64"), ("BoundedI8", "i8"), ("BoundedI16", "i16"),
         ("BoundedI32", "i32"), ("BoundedI64", "i64"), ("BoundedIsize", "isize"), ("BoundedU128", "u128"), ("BoundedI128", "i128")]
NAMES = ["N", "NE", "E", "SE", "S", "SW", "W", "NW"]


def number(I, st, g):
    """The integer inside a printed value: the integer itself, a bounded integer holding it, or a reference to one"""
    g = I.resolve(st, g)
    while isinstance(g, Ref):
        g = I.resolve(st, I.read(st, g))
    ls = leaves(g)
    return ls[0] if len(ls) == 1 and isinstance(ls[0], Poly) else None


def agree(c, I, st, name, got, want):
    """Printed pieces against the wanted ones: text, or the integer whose value is printed. None: agree"""
    if got is None or any(g[0] == "?" for g in got):
        return c.add(name, "open", "what is printed is not understood")
    if len(got) != len(want):
        return wrong(c, I, st, name, got, want)
    for g, w in zip(got, want):
        if isinstance(w, str) != (g[0] == "lit") or isinstance(w, str) and g[1] != w:
            return wrong(c, I, st, name, got, want)
        if isinstance(w, str):
            continue
        n = number(I, st, g[1])
        if g[0] not in ("display", "debug") or n is None:
            return c.add(name, "open", "an argument is not understood")
        if not c.equal(I, st, name, n, w):
            return
    c.add(name, "proved", "prints %s" % " ".join(repr(x) if isinstance(x, str) else "value" for x in want))


def failed(I, st, v):
    """The path returns an error after some write returned one"""
    def err(x):
        x = I.resolve(st, x)
        return isinstance(x, Agg) and x.ty.isenum() and x.ty.vname(x.v) == "Err"
    return err(v) and any(err(e.a[3]) for e in st.events if e.k == "op")


def wrong(c, I, st, name, got, want):
    text = "".join(x[1] if x[0] == "lit" else "{}" for x in got)
    if not c.real(st):
        return c.add(name, "open", "prints %r" % text)
    c.violation(name, "prints %r where %r is required" % (text, "".join(x if isinstance(x, str) else "{}" for x in want)))


def check(c):
    H = ["pub fn pos<%s>(p: &Pos<XMAX, YMAX>, %s) -> %s { std::fmt::Display::fmt(p, f) }" % (XY, F, R),
         "pub fn dir(d: &Dir, %s) -> %s { std::fmt::Display::fmt(d, f) }" % (F, R)]
    for b, t in TYPES:
        for tr in ("Display", "Debug"):
            H.append("pub fn %s_%s<const MIN: %s, const MAX: %s>(v: &%s<MIN, MAX>, %s) -> %s { std::fmt::%s::fmt(v, f) }" % (tr, b, t, t, b, F, R, tr))
    pr = c.load("c31", "use sqrid::*;\n" + "\n".join(H))

    def judge(root, wants):
        res = c.run(pr, root)
        if not res:
            return
        I, outs = res
        for o in outs:
            if o.kind != "ret":
                c.add(root, "open", "path ends by %s" % o.kind)
                continue
            for conds, want in wants(I, deref(I, I.argvals[0])):
                st = o.st.copy()
                if all(I.assume(st.facts, k) if isinstance(k, BoolV) else k(st.facts) for k in conds):
                    if failed(I, st, o.v):
                        continue  # the formatter itself reported an error
                    agree(c, I, st, root, pieces(o.st), want)

    judge("pos", lambda I, p: [([], ["(", leaves(p)[0], ",", leaves(p)[1], ")"])])
    judge("dir", lambda I, d: [([isname(d, n)], [n]) for n in NAMES])
    for b, t in TYPES:
        for tr in ("Display", "Debug"):
            judge("%s_%s" % (tr, b), lambda I, v: [([], [leaves(v)[0]])])
    c.floor("printing operations", len(c.roots), 24)
