"""C10: the geometry of positions: mirrors and quarter turns map every position to the one position the geometry requires
(so that mirrors are involutions and the two quarter turns are inverse to each other), the manhattan distance is the sum of
the absolute coordinate differences, and the corner, side and inside tests agree with the coordinates. Decided for every
grid size and all positions by abstract interpretation with symbolic coordinates."""

from .common import *

PG = "const XMAX: u16, const YMAX: u16"
PT = "Pos<XMAX, YMAX>"
UT = ["u8", "u16", "u32", "u64", "u128"]


def harness():
    h = ["use sqrid::*;"]
    h.append("""
pub fn p_flip_h<PG>(p: PT) -> PT { p.flip_h() }
pub fn p_flip_v<PG>(p: PT) -> PT { p.flip_v() }
pub fn p_flip_hh<PG>(p: PT) -> PT { p.flip_h().flip_h() }
pub fn p_flip_vv<PG>(p: PT) -> PT { p.flip_v().flip_v() }
pub fn p_corner<PG>(p: PT) -> bool { p.is_corner() }
pub fn p_side<PG>(p: PT) -> bool { p.is_side() }
pub fn p_inside<PG>(p: PT, q: PT, r: PT) -> bool { p.inside(&q, &r) }
pub fn p_manhattan<PG>(p: PT, q: PT) -> usize { PosT::manhattan(&p, &q) }
pub fn rotate_cw<const XMAX: u16>(p: Pos<XMAX, XMAX>) -> Pos<XMAX, XMAX> { p.rotate_cw() }
pub fn rotate_cc<const XMAX: u16>(p: Pos<XMAX, XMAX>) -> Pos<XMAX, XMAX> { p.rotate_cc() }
pub fn cw_cc<const XMAX: u16>(p: Pos<XMAX, XMAX>) -> Pos<XMAX, XMAX> { p.rotate_cw().rotate_cc() }
pub fn cc_cw<const XMAX: u16>(p: Pos<XMAX, XMAX>) -> Pos<XMAX, XMAX> { p.rotate_cc().rotate_cw() }
pub fn four<const XMAX: u16>(p: Pos<XMAX, XMAX>) -> Pos<XMAX, XMAX> { p.rotate_cw().rotate_cw().rotate_cw().rotate_cw() }
pub fn half<const XMAX: u16>(p: Pos<XMAX, XMAX>) -> (Pos<XMAX, XMAX>, Pos<XMAX, XMAX>) { (p.rotate_cw().rotate_cw(), p.flip_h().flip_v()) }
""".replace("PG", PG).replace("PT {", PT + " {").replace("p: PT", "p: " + PT).replace("q: PT", "q: " + PT).replace("r: PT", "r: " + PT))
    for t in UT:
        h.append("""
pub fn T_flip_h(p: (T, T)) -> (T, T) { p.flip_h() }
pub fn T_flip_v(p: (T, T)) -> (T, T) { p.flip_v() }
pub fn T_corner(p: (T, T)) -> bool { p.is_corner() }
pub fn T_side(p: (T, T)) -> bool { p.is_side() }
pub fn T_inside(p: (T, T), q: (T, T), r: (T, T)) -> bool { p.inside(&q, &r) }
pub fn T_rotate_cw(p: (T, T)) -> (T, T) { p.rotate_cw() }
pub fn T_rotate_cc(p: (T, T)) -> (T, T) { p.rotate_cc() }
""".replace("T_", t + "_").replace("(T, T)", "(%s, %s)" % (t, t)))
    for t in ("u8", "u16", "u32"):
        h.append("pub fn T_manhattan(p: (T, T), q: (T, T)) -> usize { PosT::manhattan(&p, &q) }".replace("T_", t + "_").replace("(T, T)", "(%s, %s)" % (t, t)))
    return "\n".join(h)


def both(xs, ys):
    return [(a + b, v, w) for a, v in xs for b, w in ys]


def check(c):
    pr = c.load("c10", harness())
    R = Rust(pr)

    def size(t):
        if t == "p":
            return lambda I: (param(I, "XMAX"), param(I, "YMAX"))
        if t == "s":
            return lambda I: (param(I, "XMAX"), param(I, "XMAX"))
        n = (1 << int(t[1:])) - 1
        return lambda I: (P(n), P(n))

    def maps(root, S, f):
        c.cases(pr, root, lambda I, a: [([], R.val(root, f(*leaves(a[0]), *S(I))))])

    def edges(v, m):
        """Conditions of v against the ends 0 and m, with whether v is at an end"""
        return [([eq(v, 0)], True), ([lt(0, v), eq(v, m)], True), ([lt(0, v), lt(v, m)], False)]

    for t in ["p"] + UT:
        S = size(t)
        T = t + "_"
        maps(T + "flip_h", S, lambda x, y, X, Y: [X - x, y])
        maps(T + "flip_v", S, lambda x, y, X, Y: [x, Y - y])

        def corner(I, a):
            (x, y), (X, Y) = leaves(a[0]), S(I)
            return [(k, boolv(v and w)) for k, v, w in both(edges(x, X), edges(y, Y))]

        def side(I, a):
            (x, y), (X, Y) = leaves(a[0]), S(I)
            return [(k, boolv(v or w)) for k, v, w in both(edges(x, X), edges(y, Y))]
        c.cases(pr, T + "corner", corner)
        c.cases(pr, T + "side", side)

        def between(v, a, b):
            """v within [min(a, b), max(a, b)], case by case"""
            r = []
            for o, lo, hi in (([le(a, b)], a, b), ([lt(b, a)], b, a)):
                i, l, h = split_in(lo, v, hi)
                r += [(o + i, True), (o + l, False), (o + h, False)]
            return r

        def insidespec(I, a):
            (x, y), (x1, y1), (x2, y2) = leaves(a[0]), leaves(a[1]), leaves(a[2])
            return [(k, boolv(v and w)) for k, v, w in both(between(x, x1, x2), between(y, y1, y2))]
        c.cases(pr, T + "inside", insidespec)

        def dist(I, a):
            (x, y), (u, v) = leaves(a[0]), leaves(a[1])
            return [([cx, cy], dx + dy) for cx, dx in ((le(x, u), u - x), (lt(u, x), x - u)) for cy, dy in ((le(y, v), v - y), (lt(v, y), y - v))]
        if T + "manhattan" in pr.roots:
            c.cases(pr, T + "manhattan", dist)
        cw, cc = ("rotate_cw", "rotate_cc") if t == "p" else (T + "rotate_cw", T + "rotate_cc")
        Q = size("s") if t == "p" else S
        maps(cw, Q, lambda x, y, X, Y: [Y - y, x])
        maps(cc, Q, lambda x, y, X, Y: [y, X - x])
    for r in ("p_flip_hh", "p_flip_vv", "cw_cc", "cc_cw", "four"):
        c.cases(pr, r, lambda I, a: [([], a[0])])
    c.cases(pr, "half", lambda I, a: [([], R.val("half", [param(I, "XMAX") - leaves(a[0])[0], param(I, "XMAX") - leaves(a[0])[1]] * 2))])
    c.floor("geometry entry points", len(c.roots), 52)
