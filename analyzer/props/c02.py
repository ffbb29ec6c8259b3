"""C02: a position only ever holds coordinates of its grid, keeps exactly the coordinates it was created with, and every
constructor and conversion accepts exactly the coordinates of the grid. Decided for every grid size (the sizes are symbols)
and every coordinate, by abstract interpretation of each constructor, accessor and conversion."""

from .common import *

PG = "const XMAX: u16, const YMAX: u16"
PT = "Pos<XMAX, YMAX>"
TUP = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32"]
CONSTS = {"FIRST": (0, 0), "LAST": ("X", "Y"), "TOP_LEFT": (0, 0), "TOP_RIGHT": ("X", 0), "BOTTOM_LEFT": (0, "Y"), "BOTTOM_RIGHT": ("X", "Y")}


def harness():
    h = ["use sqrid::*;"]

    def f(s):
        h.append(s.replace("PG", PG).replace("PT", PT))
    f("""
pub fn new<PG>(x: u16, y: u16) -> Result<PT, Error> { <PT>::new(x, y) }
pub fn new_unwrap<PG>(x: u16, y: u16) -> PT { <PT>::new_unwrap(x, y) }
pub fn new_static<PG, const X: u16, const Y: u16>() -> PT { <PT>::new_static::<X, Y>() }
pub fn try_u16<PG>(x: u16, y: u16) -> Result<PT, Error> { <PT>::try_from((x, y)) }
pub fn try_u16r<PG>(x: u16, y: u16) -> Result<PT, Error> { <PT>::try_from(&(x, y)) }
pub fn try_i32<PG>(x: i32, y: i32) -> Result<PT, Error> { <PT>::try_from((x, y)) }
pub fn try_i32r<PG>(x: i32, y: i32) -> Result<PT, Error> { <PT>::try_from(&(x, y)) }
pub fn try_pos<PG, const XM2: u16, const YM2: u16>(p: Pos<XM2, YM2>) -> Result<PT, Error> { <PT as PosT>::tryfrom_pos(p) }
pub fn from_b<PG>(x: BoundedU16<0, XMAX>, y: BoundedU16<0, YMAX>) -> PT { <PT>::from((x, y)) }
pub fn from_br<PG>(x: BoundedU16<0, XMAX>, y: BoundedU16<0, YMAX>) -> PT { <PT>::from(&(x, y)) }
pub fn new_b<PG>(x: BoundedU16<0, XMAX>, y: BoundedU16<0, YMAX>) -> PT { <PT as PosT>::new_((x, y)) }
pub fn default<PG>() -> PT { <PT>::default() }
pub fn first<PG>() -> PT { <PT as PosT>::first() }
pub fn last<PG>() -> PT { <PT as PosT>::last() }
pub fn center<PG>() -> PT { <PT>::CENTER }
pub fn x<PG>(p: PT) -> u16 { p.x() }
pub fn y<PG>(p: PT) -> u16 { p.y() }
pub fn tuple<PG>(p: PT) -> (u16, u16) { p.tuple() }
pub fn px<PG>(p: PT) -> BoundedU16<0, XMAX> { PosT::x(&p) }
pub fn py<PG>(p: PT) -> BoundedU16<0, YMAX> { PosT::y(&p) }
pub fn ptuple<PG>(p: PT) -> (BoundedU16<0, XMAX>, BoundedU16<0, YMAX>) { PosT::tuple(&p) }
pub fn pinto<PG>(p: PT) -> (BoundedU16<0, XMAX>, BoundedU16<0, YMAX>) { p.into_tuple() }
pub fn pinner<PG>(p: PT) -> (u16, u16) { p.inner_tuple() }
pub fn to_u16<PG>(p: PT) -> (u16, u16) { <(u16, u16)>::from(p) }
pub fn to_u16r<PG>(p: PT) -> (u16, u16) { <(u16, u16)>::from(&p) }
pub fn to_i32<PG>(p: PT) -> (i32, i32) { <(i32, i32)>::from(p) }
pub fn to_i32r<PG>(p: PT) -> (i32, i32) { <(i32, i32)>::from(&p) }
pub fn clone<PG>(p: PT) -> PT { p.clone() }
pub fn eq<PG>(p: PT, q: PT) -> bool { p == q }
pub fn cmp<PG>(p: PT, q: PT) -> core::cmp::Ordering { p.cmp(&q) }
pub fn pcmp<PG>(p: PT, q: PT) -> Option<core::cmp::Ordering> { p.partial_cmp(&q) }
pub fn xmax<PG>() -> u16 { <PT>::XMAX }
pub fn ymax<PG>() -> u16 { <PT>::YMAX }
pub fn width<PG>() -> u16 { <PT>::WIDTH }
pub fn height<PG>() -> u16 { <PT>::HEIGHT }
pub fn size<PG>() -> usize { <PT>::SIZE }
pub fn pwidth<PG>() -> usize { <PT as PosT>::WIDTH }
pub fn pheight<PG>() -> usize { <PT as PosT>::HEIGHT }
pub fn fwidth<PG>() -> usize { <PT as PosT>::width() }
pub fn fheight<PG>() -> usize { <PT as PosT>::height() }
pub fn fdim<PG>() -> usize { <PT as PosT>::dimensions() }
""")
    for n in CONSTS:
        f("pub fn c_%s<PG>() -> PT { <PT>::%s }" % (n, n))
    for u in INTS:
        f("pub fn pnew_%s<PG>(x: %s, y: %s) -> Result<PT, Error> { <PT as PosT>::new(x, y) }" % (u, u, u))
    for t in TUP:
        g = """
pub fn T_x(p: (T, T)) -> T { PosT::x(&p) }
pub fn T_y(p: (T, T)) -> T { PosT::y(&p) }
pub fn T_tuple(p: (T, T)) -> (T, T) { PosT::tuple(&p) }
pub fn T_into(p: (T, T)) -> (T, T) { p.into_tuple() }
pub fn T_inner(p: (T, T)) -> (T, T) { p.inner_tuple() }
pub fn T_new_(x: T, y: T) -> (T, T) { <(T, T) as PosT>::new_((x, y)) }
pub fn T_first() -> (T, T) { <(T, T) as PosT>::first() }
pub fn T_last() -> (T, T) { <(T, T) as PosT>::last() }
pub fn T_pos<PG>(p: PT) -> Result<(T, T), Error> { <(T, T) as PosT>::tryfrom_pos(p) }
pub fn T_topos<PG>(p: (T, T)) -> Result<PT, Error> { <PT as PosT>::tryfrom_pos(p) }
pub fn T_pwidth() -> usize { <(T, T) as PosT>::WIDTH }
pub fn T_pheight() -> usize { <(T, T) as PosT>::HEIGHT }
"""
        if t in ("u8", "u16", "u32"):
            g += """
pub fn T_fwidth() -> usize { <(T, T) as PosT>::width() }
pub fn T_fheight() -> usize { <(T, T) as PosT>::height() }
"""
        if t in ("u8", "u16"):
            g += "pub fn T_fdim() -> usize { <(T, T) as PosT>::dimensions() }\n"
        f(g.replace("T_", t + "_").replace("(T, T)", "(%s, %s)" % (t, t)).replace(": T", ": " + t).replace("-> T ", "-> %s " % t))
        for u in ("usize", "u16", "i32", "i64"):
            f("pub fn {t}_pnew_{u}(x: {u}, y: {u}) -> Result<({t}, {t}), Error> {{ <({t}, {t}) as PosT>::new(x, y) }}".format(t=t, u=u))
    return "\n".join(h)


def check(c):
    pr = c.load("c02", harness())
    R = Rust(pr)

    def XY(I):
        return param(I, "XMAX"), param(I, "YMAX")

    def accept(root):
        def spec(I, a):
            x, y = [l for v in a for l in leaves(v)]
            return in_box(x, y, *XY(I), R.okval(root, [x, y]), R.err(root, "OutOfBounds"))
        return spec
    for r in ["new", "try_u16", "try_u16r", "try_i32", "try_i32r", "try_pos"] + ["pnew_" + u for u in INTS]:
        c.cases(pr, r, accept(r))
    c.cases(pr, "new_unwrap", lambda I, a: in_box(a[0], a[1], *XY(I), R.val("new_unwrap", a), "panic"))
    c.cases(pr, "new_static", lambda I, a: in_box(param(I, "X"), param(I, "Y"), *XY(I), R.val("new_static", [param(I, "X"), param(I, "Y")]), "panic"))

    def same(root):
        return lambda I, a: [([], R.val(root, [l for v in a for l in leaves(v)]))]
    for r in ("from_b", "from_br", "new_b", "tuple", "ptuple", "pinto", "pinner", "to_u16", "to_u16r", "to_i32", "to_i32r", "clone"):
        c.cases(pr, r, same(r))
    c.cases(pr, "x", lambda I, a: [([], leaves(a[0])[0])])
    c.cases(pr, "y", lambda I, a: [([], leaves(a[0])[1])])
    c.cases(pr, "px", lambda I, a: [([], R.val("px", leaves(a[0])[:1]))])
    c.cases(pr, "py", lambda I, a: [([], R.val("py", leaves(a[0])[1:]))])

    def const(root, x, y):
        def spec(I, a):
            X, Y = XY(I)
            s = {"X": X, "Y": Y, 0: P(0)}
            return [([], R.val(root, [s[x], s[y]]))]
        return spec
    for n, (x, y) in CONSTS.items():
        c.cases(pr, "c_" + n, const("c_" + n, x, y))
    c.cases(pr, "default", const("default", 0, 0))
    c.cases(pr, "first", const("first", 0, 0))
    c.cases(pr, "last", const("last", "X", "Y"))
    c.cases(pr, "center", lambda I, a: [([], R.val("center", [div(XY(I)[0], P(2)), div(XY(I)[1], P(2))]))])
    c.cases(pr, "xmax", lambda I, a: [([], XY(I)[0])])
    c.cases(pr, "ymax", lambda I, a: [([], XY(I)[1])])
    # the u16 constants of the widest grids do not fit and are rejected when used
    def fits(I, a):
        return [lt(XY(I)[0], 65535), lt(XY(I)[1], 65535)]
    c.cases(pr, "width", lambda I, a: [([], XY(I)[0] + 1)], pre=fits)
    c.cases(pr, "height", lambda I, a: [([], XY(I)[1] + 1)], pre=fits)
    c.cases(pr, "size", lambda I, a: [([], (XY(I)[0] + 1) * (XY(I)[1] + 1))], pre=fits)
    for r, f in (("width", lambda X, Y: X + 1), ("height", lambda X, Y: Y + 1)):
        for p in "pf":
            c.cases(pr, p + r, lambda I, a: [([], f(*XY(I)))])
    c.cases(pr, "fdim", lambda I, a: [([], (XY(I)[0] + 1) * (XY(I)[1] + 1))])
    comparisons(c, pr, "", lambda a: (leaves(a[0]), leaves(a[1])), R)

    for t in TUP:
        T = t + "_"
        ty = R.arg_ty(T + "x", 0).elems()[0]
        lo, hi = ty.range()
        c.cases(pr, T + "x", lambda I, a: [([], a[0].f[0])])
        c.cases(pr, T + "y", lambda I, a: [([], a[0].f[1])])
        for r in ("tuple", "into", "inner", "new_"):
            c.cases(pr, T + r, same(T + r))
        c.cases(pr, T + "first", lambda I, a: [([], R.val(T + "first", [P(lo), P(lo)]))])
        c.cases(pr, T + "last", lambda I, a: [([], R.val(T + "last", [P(hi), P(hi)]))])
        for r in ["pos"] + ["pnew_" + u for u in ("usize", "u16", "i32", "i64")]:
            def spec(I, a, r=T + r):
                x, y = [l for v in a for l in leaves(v)]
                return in_box(x, y, hi, hi, R.okval(r, [x, y]), R.err(r, "OutOfBounds"), lo, lo)
            c.cases(pr, T + r, spec)
        c.cases(pr, T + "topos", accept(T + "topos"))
        n = hi - lo + 1
        if n < 1 << 64:
            c.cases(pr, T + "pwidth", lambda I, a: [([], P(n))])
            c.cases(pr, T + "pheight", lambda I, a: [([], P(n))])
        if t in ("u8", "u16", "u32"):
            c.cases(pr, T + "fwidth", lambda I, a: [([], P(n))])
            c.cases(pr, T + "fheight", lambda I, a: [([], P(n))])
        if t in ("u8", "u16"):
            c.cases(pr, T + "fdim", lambda I, a: [([], P(n * n))])
    witness(c, "pos_fields", "pub fn f(x: sqrid::BoundedU16<0, 3>) -> sqrid::Pos<3, 3> { sqrid::Pos((x, x)) }",
            "pub fn f(x: sqrid::BoundedU16<0, 4>) -> sqrid::Pos<3, 3> { sqrid::Pos((x, x)) }",
            "a position is only made of coordinates bounded by its grid")
    witness(c, "pos_static", "pub const C: sqrid::Pos<3, 5> = sqrid::Pos::<3, 5>::new_static::<3, 5>();",
            "pub const C: sqrid::Pos<3, 5> = sqrid::Pos::<3, 5>::new_static::<4, 5>();",
            "a constant position outside of the grid is rejected at compile time")
    c.floor("constructors and conversions", len(c.roots), 165)
