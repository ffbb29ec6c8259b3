"""C12: the iterators over a rectangle, a column and a line return exactly the positions of the rectangle, column or line,
each once and in reading order, and the bounding box of a sequence of positions is its componentwise minimum and maximum
(an error exactly for the empty sequence). Decided by abstract interpretation: the start of each iterator and, from any
state, the next three results (the step of the induction), for every grid size, rectangle and position; the bounding box for
sequences of up to three (thorough: four) unknown positions."""

from . import override
from .common import *
from .c11 import follow

PG = "const XMAX: u16, const YMAX: u16"
PT = "Pos<XMAX, YMAX>"
SEQ = ["f", "ff", "fff"]
KINDS = {"range": "tl: T, br: T", "x": "x: BoundedU16<0, XMAX>", "y": "y: BoundedU16<0, YMAX>"}
CALL = {"range": "iter_range(tl, br)", "x": "iter_in_x(x)", "y": "iter_in_y(y)"}
STATE = {"range": "PosTIterRange<T>", "x": "PosTIterInX<T>", "y": "PosTIterInY<T>"}


def harness(n):
    h = ["""use sqrid::*;
pub struct Few<T, const N: usize>(core::array::IntoIter<T, N>);
impl<T, const N: usize> Iterator for Few<T, N> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }
pub struct Many<F>(F);
impl<T, F: Iterator<Item = T>> Iterator for Many<F> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }
"""]
    for t, g, ty in (("p", PG, PT), ("u8", "", "(u8, u8)"), ("i16", "", "(i16, i16)")):
        for k in KINDS:
            args = KINDS[k].replace("T", ty) if k == "range" else KINDS[k] if t == "p" else "%s: %s" % (k, t)
            a = args.replace("T", ty)
            state = STATE[k].replace("<T>", "<%s>" % ty)
            h.append("pub fn %s_%s<%s>(%s) -> %s { <%s as PosT>::%s }" % (t, k, g, args, state, ty, CALL[k]))
            for s in SEQ:
                res = "(%s,)" % ", ".join(["Option<%s>" % ty] * len(s))
                body = "(%s,)" % ", ".join(["it.next()"] * len(s))
                h.append("pub fn %s_%s_%s<%s>(mut it: %s) -> %s { %s }" % (t, k, s, g, state, res, body))
                h.append("pub fn %s_%s0_%s<%s>(%s) -> %s { let mut it = <%s as PosT>::%s; %s }" % (t, k, s, g, args, res, ty, CALL[k], body))
        for i in range(n + 1):
            ps = "".join("p%d: %s, " % (j, ty) for j in range(i))
            h.append("pub fn %s_box%d<%s>(%s) -> Result<(%s, %s), Error> { <%s as PosT>::tlbr_of(Few([%s].into_iter())) }" % (
                t, i, g, ps, ty, ty, ty, ", ".join("p%d" % j for j in range(i))))
    h.append("pub fn many<%s, F: Iterator<Item = %s>>(f: F) -> Result<(%s, %s), Error> { <%s as PosT>::tlbr_of(Many(f)) }" % (PG, PT, PT, PT, PT))
    h.append("pub fn range_new<%s>(tl: %s, br: %s) -> PosTIterRange<%s> { PosTIterRange::new(tl, br) }" % (PG, PT, PT, PT))
    return "\n".join(h)


def check(c):
    n = 4 if c.tier == "thorough" else 3
    pr = c.load("c12-" + c.tier, harness(n) + override.harness(override.RANGES))
    R = Rust(pr)
    override.check(c, pr, override.RANGES)
    for t in ("p", "u8", "i16"):
        def S(I):
            if t == "p":
                return P(0), param(I, "XMAX"), P(0), param(I, "YMAX")
            lo, hi = (0, 255) if t == "u8" else (-32768, 32767)
            return P(lo), P(hi), P(lo), P(hi)

        def rect(tl, br):
            def succ(p):
                return [([lt(p[0], br[0])], [p[0] + 1, p[1]]), ([le(br[0], p[0]), lt(p[1], br[1])], [tl[0], p[1] + 1])]
            return succ

        def limits(k, I, a):
            """corners of what the iterator covers, from the arguments of its constructor"""
            x0, x1, y0, y1 = S(I)
            if k == "range":
                return leaves(a[0]), leaves(a[1])
            v = leaves(a[0])[0]
            return ([v, y0], [v, y1]) if k == "x" else ([x0, v], [x1, v])

        def wellformed(tl, br):
            return [le(tl[0], br[0]), le(tl[1], br[1])]

        for k in KINDS:
            root = "%s_%s" % (t, k)
            for s in SEQ:
                r = root + "0_" + s

                def fromstart(I, a):
                    tl, br = limits(k, I, a)
                    # rectangles whose corners are swapped are not specified
                    return [(wellformed(tl, br) + cs, options(R, r, v)) for cs, v in consume(s, tl, br, rect(tl, br), None)]
                c.cases(pr, r, fromstart)
            st = start_state(c, pr, root)
            if st is None:
                c.add(root + " state", "open", "start of the iterator not interpreted")
                continue
            I0, v0 = st
            tl0, br0 = limits(k, I0, I0.argvals)
            args0 = [x for x in I0.argvals] if k == "range" else []
            es = opts(v0)
            if not (len(es) == 1 and only_options(v0, args0) and leaves(es[0][1]) == tl0 and es[0][1].v == es[0][1].ty.vindex("Some")):
                c.add(root + " state", "open", "the state of the iterator is not its next position: %r" % (v0,))
                continue
            path, e = es[0]
            pty = e.ty.vfields(e.ty.vindex("Some"))[0]
            where = {}
            if k == "range":
                for i, f in enumerate(v0.f):
                    for nm, a in zip(("tl", "br"), args0):
                        if f == a:
                            where[nm] = (i,)
                if len(where) != 2:
                    c.add(root + " state", "open", "the state of the iterator does not hold the corners: %r" % (v0,))
                    continue

            def mk(I, st, ty):
                v = put(v0, path, Agg(e.ty, e.v, [I.fresh(pty, "p", st)]))
                for nm, w in where.items():
                    v = put(v, w, I.fresh(pty, nm, st))
                return v
            for s in SEQ:
                r = root + "_" + s

                def anywhere(I, a):
                    p = leaves(follow(a[0], path))
                    if k == "range":
                        tl, br = leaves(follow(a[0], where["tl"])), leaves(follow(a[0], where["br"]))
                    else:
                        x0, x1, y0, y1 = S(I)
                        tl, br = ([p[0], y0], [p[0], y1]) if k == "x" else ([x0, p[1]], [x1, p[1]])
                    pre = wellformed(tl, br) + wellformed(tl, p) + wellformed(p, br)
                    return [(pre + cs, options(R, r, v)) for cs, v in consume(s, p, br, rect(tl, br), None)]
                c.cases(pr, r, anywhere, args={"it": mk})

        def mins(xs):
            """[(conditions, minimum, maximum)]"""
            out = []
            for i in range(len(xs)):
                for j in range(len(xs)):
                    k = [le(xs[i], x) if m > i else lt(xs[i], x) for m, x in enumerate(xs) if m != i]
                    k += [le(x, xs[j]) if m > j else lt(x, xs[j]) for m, x in enumerate(xs) if m != j]
                    out.append((k, xs[i], xs[j]))
            return out
        for i in range(n + 1):
            r = "%s_box%d" % (t, i)

            def box(I, a):
                if i == 0:
                    return [([], R.err(r, "Empty"))]
                ps = [leaves(x) for x in a]
                return [(kx + ky, R.okval(r, [x0, y0, x1, y1])) for kx, x0, x1 in mins([p[0] for p in ps]) for ky, y0, y1 in mins([p[1] for p in ps])]
            c.cases(pr, r, box, delay=n + 1)
    many(c, pr)
    c.floor("enumerations", len(c.roots), 30 + 3 * (n + 1))


def many(c, pr):
    """Sequences of any length: the corners start at the first position and every further position updates them"""
    r = c.run(pr, "many")
    if r is None:
        return
    I, outs = r
    n = 0
    for o in outs:
        if o.kind != "ret" or not isinstance(o.v, Agg):
            c.add("many", "open", "outcome %s %r" % (o.kind, o.v))
            return
        first = items(I, o.st)
        if o.v.ty.vname(o.v.v) == "Err":
            continue
        got = leaves(o.v)
        acc = [accumulator(I, o.st.events, g) for g in got]
        if not first or not isinstance(first[0], Agg) or not first[0].f or None in acc or len(got) != 4:
            c.add("many", "open", "the bounding box is not computed by one loop over the positions")
            return
        x0 = leaves(first[0].f[0])
        for i, (L, root, path) in enumerate(acc):
            name = "many corner %d" % i
            ok = c.differs(I, o.st, I.node(L.entry, root, path), x0[i % 2]) is False
            if not ok:
                c.add(name, "open", "the corner does not start at the first position")
                continue
            for p in L.paths:
                if p.kind != "back":
                    continue
                it = items(I, p.st)
                if len(it) != 1 or not isinstance(it[0], Agg) or not it[0].f:
                    c.add(name, "open", "an iteration does not take exactly one position")
                    ok = False
                    break
                x = leaves(it[0].f[0])[i % 2]
                a, b = got[i], I.node(p.st, root, path)
                lo, hi = (x, a) if i < 2 else (a, x)
                ok = step(c, I, name, p.st, b, [([le(lo, hi)], x), ([lt(hi, lo)], a)]) and ok
                n += 1
            if ok:
                c.add(name, "proved", "%d paths of the loop body" % len(L.paths))
    c.sites["steps of the bounding box"] = n
