"""C11: stepping to the next or previous position and the iterators over all positions, over the coordinates and over
bounded integers enumerate every value exactly once, in reading order (or column order), from both ends, and end for good.
Decided by abstract interpretation: the iterator starts at the first and the last value, and in any state (two symbolic
ends) the next three calls, in every mix of directions, return what the remaining sequence requires; with a symbolic state
this is the step of the induction over the whole enumeration."""

import itertools

from . import override
from .common import *

PG = "const XMAX: u16, const YMAX: u16"
PT = "Pos<XMAX, YMAX>"
BTY = {"bu16": ("const MIN: u16, const MAX: u16", "BoundedU16<MIN, MAX>"), "bi8": ("const MIN: i8, const MAX: i8", "BoundedI8<MIN, MAX>"),
       "bu128": ("const MIN: u128, const MAX: u128", "BoundedU128<MIN, MAX>"), "u8": ("", "u8"), "i32": ("", "i32"), "usize": ("", "usize")}
SEQS = ["".join(s) for s in itertools.product("fb", repeat=2)]
SEQS3 = ["".join(s) for s in itertools.product("fb", repeat=3)]
TUPS = ["u8", "u16"]


def harness(seqs):
    h = ["use sqrid::*;"]

    def pos(n, g, ty):
        h.append("""
pub fn N_next<G>(p: T) -> Option<T> { PosT::next(&p) }
pub fn N_nexty<G>(p: T) -> Option<T> { PosT::next_y(&p) }
pub fn N_prev<G>(p: T) -> Option<T> { PosT::prev(&p) }
pub fn N_prevy<G>(p: T) -> Option<T> { PosT::prev_y(&p) }
pub fn N_h<G>() -> PosTIter<true, T> { <T as PosT>::iter() }
pub fn N_h2<G>() -> PosTIter<true, T> { <T as PosT>::iter_horizontal() }
pub fn N_h3<G>() -> PosTIter<true, T> { <T as PosT>::iter_orientation::<true>() }
pub fn N_v<G>() -> PosTIter<false, T> { <T as PosT>::iter_vertical() }
pub fn N_v3<G>() -> PosTIter<false, T> { <T as PosT>::iter_orientation::<false>() }
""".replace("N_", n + "_").replace("<G>", "<%s>" % g).replace("(p: T)", "(p: %s)" % ty).replace("<T>", "<%s>" % ty).replace(", T>", ", %s>" % ty).replace("<T ", "<%s " % ty))
        for o, b in (("h", "true"), ("v", "false")):
            it = "PosTIter<%s, %s>" % (b, ty)
            for s in seqs:
                res = "(%s)" % ", ".join(["Option<%s>" % ty] * len(s))
                h.append("pub fn %s_%s_%s<%s>(mut it: %s) -> %s { %s }" % (n, o, s, g, it, res, calls(s)))
                h.append("pub fn %s_%s0_%s<%s>() -> %s { let mut it = <%s as PosT>::%s(); %s }" % (
                    n, o, s, g, res, ty, "iter" if o == "h" else "iter_vertical", calls(s)))
    pos("pos", PG, PT)
    for t in TUPS:
        pos(t + "t", "", "(%s, %s)" % (t, t))
    for n, (g, ty) in BTY.items():
        for s in seqs:
            res = "(%s)" % ", ".join(["Option<%s>" % ty] * len(s))
            h.append("pub fn b_%s_%s<%s>(mut it: BoundedIntIterator<%s>) -> %s { %s }" % (n, s, g, ty, res, calls(s)))
            h.append("pub fn b_%s0_%s<%s>() -> %s { let mut it = <%s as BoundedInt>::iter(); %s }" % (n, s, g, res, ty, calls(s)))
        h.append("pub fn b_%s_new<%s>(a: %s, b: %s) -> BoundedIntIterator<%s> { BoundedIntIterator::new(a, b) }" % (n, g, ty, ty, ty))
    for ax, i in (("x", 0), ("y", 1)):
        m = "YX"[1 - i]
        for s in ("f", "ff", "fff"):
            res = "(%s,)" % ", ".join(["Option<BoundedU16<0, %sMAX>>" % ax.upper()] * len(s))
            h.append("pub fn axis_%s_%s<%s>() -> %s { let mut it = <%s as PosT>::iter_%s(); (%s,) }" % (ax, s, PG, res, PT, ax, calls(s)[1:-1]))
    return "\n".join(h)


def steps(X, Y, order):
    """succ and pred in reading order (h) or column order (v)"""
    def succ(p):
        x, y = p
        if order == "h":
            return [([lt(x, X)], [x + 1, y]), ([le(X, x), lt(y, Y)], [P(0), y + 1])]
        return [([lt(y, Y)], [x, y + 1]), ([le(Y, y), lt(x, X)], [x + 1, P(0)])]

    def pred(p):
        x, y = p
        if order == "h":
            return [([lt(0, x)], [x - 1, y]), ([le(x, 0), lt(0, y)], [X, y - 1])]
        return [([lt(0, y)], [x, y - 1]), ([le(y, 0), lt(0, x)], [x - 1, Y])]
    return succ, pred


def check(c):
    seqs = SEQS3 if c.tier == "thorough" else SEQS + ["fff", "bbb", "ffb", "bbf"]
    pr = c.load("c11-" + c.tier, harness(seqs) + override.harness(override.BOUNDED))
    R = Rust(pr)
    override.check(c, pr, override.BOUNDED)

    def positions(n, S):
        for root, order, i in (("next", "h", 0), ("nexty", "v", 0), ("prev", "h", 1), ("prevy", "v", 1)):
            def spec(I, a):
                X, Y = S(I)
                p = leaves(a[0])
                ways = steps(X, Y, order)[i](p)
                r = [(k, R.someval(n + root, v)) for k, v in ways]
                end = [le(X, p[0]), le(Y, p[1])] if i == 0 else [le(p[0], 0), le(p[1], 0)]
                return r + [(end, R.none(n + root))]
            c.cases(pr, n + root, spec)
        for order in "hv":
            o = n + order + "_"
            for s in seqs:
                r = n + order + "0_" + s

                def fromstart(I, a):
                    X, Y = S(I)
                    return [(k, options(R, r, v)) for k, v in consume(s, [P(0), P(0)], [X, Y], *steps(X, Y, order))]
                c.cases(pr, r, fromstart)
            st = start_state(c, pr, n + order)
            if st is None:
                c.add(o + "state", "open", "start of the iterator not interpreted")
                continue
            I0, v0 = st
            X, Y = S(I0)
            for alt in (order + "2", order + "3"):
                if n + alt in pr.roots:
                    c.cases(pr, n + alt, lambda I, a: [([], v0)])
            ends = opts(v0)
            want = [[P(0), P(0)], [X, Y]]
            if not (len(ends) == 2 and only_options(v0) and all(e.v == e.ty.vindex("Some") for _, e in ends) and [leaves(e) for _, e in ends] in (want, want[::-1])):
                c.add(o + "state", "open", "the state of the iterator is not a pair of ends: %r" % (v0,))
                continue
            (fp, fe), (bp, be) = ends if [leaves(e) for _, e in ends] == want else ends[::-1]
            pty = fe.ty.vfields(fe.ty.vindex("Some"))[0]

            def mk(I, st, ty):
                p = I.fresh(pty, "p", st)
                q = I.fresh(pty, "q", st)
                return put(put(v0, fp, Agg(fe.ty, fe.v, [p])), bp, Agg(be.ty, be.v, [q]))

            for s in seqs:
                r = o + s

                def anywhere(I, a):
                    X, Y = S(I)
                    p = leaves(follow(a[0], fp))
                    q = leaves(follow(a[0], bp))
                    key = (lambda v: [v[1], v[0]]) if order == "h" else (lambda v: v)
                    out = []
                    for pre, rel in lex(key(p), key(q)):
                        if rel == "Greater":
                            out.append((pre, Any))
                            continue
                        out += [(pre + k, options(R, r, v)) for k, v in consume(s, p, q, *steps(X, Y, order))]
                    return out
                c.cases(pr, r, anywhere, args={"it": mk})
    positions("pos_", lambda I: (param(I, "XMAX"), param(I, "YMAX")))
    for t in TUPS:
        n = (1 << int(t[1:])) - 1
        positions(t + "t_", lambda I: (P(n), P(n)))

    def line(m, M):
        def succ(p):
            return [([lt(p[0], M)], [p[0] + 1])]

        def pred(p):
            return [([lt(m, p[0])], [p[0] - 1])]
        return succ, pred

    for n in BTY:
        def ends(I):
            if n.startswith("b"):
                return param(I, "MIN"), param(I, "MAX")
            lo, hi = R.okty("b_%s_f" % n if False else "b_%s_ff" % n)
        root = "b_" + n + "_"

        def lim(I, r):
            if n.startswith("b"):
                return param(I, "MIN"), param(I, "MAX")
            t = R.root_ty(r).elems()[0]
            lo, hi = t.vfields(t.vindex("Some"))[0].range()
            return P(lo), P(hi)

        def ordered(I, a):
            return [le(*lim(I, root + "ff"))]
        for s in seqs:
            r = "b_" + n + "0_" + s

            def fromstart(I, a):
                m, M = lim(I, r)
                return [(k, options(R, r, v)) for k, v in consume(s, [m], [M], *line(m, M))]
            c.cases(pr, r, fromstart, pre=ordered)
        st = start_state(c, pr, root + "new")
        if st is None:
            c.add(root + "state", "open", "start of the iterator not interpreted")
            continue
        I0, v0 = st
        es = opts(v0)
        if not (len(es) == 2 and only_options(v0)) or [leaves(e) for _, e in es] != [leaves(x) for x in I0.argvals]:
            c.add(root + "state", "open", "the state of the iterator is not a pair of ends: %r" % (v0,))
            continue
        (fp, fe), (bp, be) = es
        vty = fe.ty.vfields(fe.ty.vindex("Some"))[0]

        def mk(I, st, ty):
            return put(put(v0, fp, Agg(fe.ty, fe.v, [I.fresh(vty, "a", st)])), bp, Agg(be.ty, be.v, [I.fresh(vty, "b", st)]))
        for s in seqs:
            r = root + s

            def anywhere(I, a):
                m, M = lim(I, r)
                p, q = leaves(follow(a[0], fp)), leaves(follow(a[0], bp))
                return [([lt(q[0], p[0])], Any)] + [([le(p[0], q[0])] + k, options(R, r, v)) for k, v in consume(s, p, q, *line(m, M))]
            c.cases(pr, r, anywhere, args={"it": mk})
    for ax in "xy":
        for s in ("f", "ff", "fff"):
            r = "axis_%s_%s" % (ax, s)

            def spec(I, a):
                M = param(I, ax.upper() + "MAX")
                return [(k, options(R, r, v)) for k, v in consume(s, [P(0)], [M], *line(P(0), M))]
            c.cases(pr, r, spec)
    c.floor("enumerations", len(c.roots), 170)


def follow(v, path):
    for i in path:
        v = v.f[i]
    return v
