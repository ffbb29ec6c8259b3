"""C08: moving a position by a direction changes its coordinates by exactly the direction's unit vector, and fails exactly
when that leaves the grid (or the range of the integers of a tuple); moving back returns to the start. Decided for every
grid size, position and direction by abstract interpretation of every operator and helper."""

from .common import *

PG = "const XMAX: u16, const YMAX: u16"
PT = "Pos<XMAX, YMAX>"
TYPES = {"u8": "u8", "u16": "u16", "u32": "u32", "u64": "u64", "u128": "u128", "i8": "i8", "i16": "i16", "i32": "i32", "i64": "i64", "i128": "i128", "isize": "isize", "usize": "usize"}


def harness():
    h = ["""
use sqrid::*;
pub fn add<PG>(p: PT, d: Dir) -> Result<PT, Error> { p + d }
pub fn addr<PG>(p: PT, d: Dir) -> Result<PT, Error> { &p + d }
pub fn fadd<PG>(p: PT, d: Dir) -> Result<PT, Error> { pos_dir_add(p, d) }
pub fn faddok<PG>(p: PT, d: Dir) -> Option<PT> { pos_dir_add_ok(p, d) }
pub fn back<PG>(p: PT, d: Dir) -> Option<PT> { match p + d { Ok(q) => (q + -d).ok(), Err(_) => None } }
pub fn btuple<const A: i32, const B: i32, const C: u8, const E: u8>(x: BoundedI32<A, B>, y: BoundedU8<C, E>, d: Dir) -> Result<(BoundedI32<A, B>, BoundedU8<C, E>), Error> { (x, y) + d }
pub fn btupler<const A: i32, const B: i32, const C: u8, const E: u8>(x: BoundedI32<A, B>, y: BoundedU8<C, E>, d: Dir) -> Result<(BoundedI32<A, B>, BoundedU8<C, E>), Error> { &(x, y) + d }
pub fn mixed(x: u8, y: i64, d: Dir) -> Result<(u8, i64), Error> { (x, y) + d }
"""]
    for t in TYPES:
        h.append("""
pub fn T_add(p: (T, T), d: Dir) -> Result<(T, T), Error> { p + d }
pub fn T_addr(p: (T, T), d: Dir) -> Result<(T, T), Error> { &p + d }
""".replace("T_", t + "_").replace("(T, T)", "(%s, %s)" % (t, t)))
    return "\n".join(h).replace("PG", PG).replace("PT", PT)


def check(c):
    pr = c.load("c08", harness())
    R = Rust(pr)

    def moves(root, xs, d, box, yes, no):
        """box: ((xlo, xhi), (ylo, yhi))"""
        x, y = xs
        r = []
        for i, k in dirs(d):
            dx, dy = DELTA[i]
            for conds, w in in_box(x + dx, y + dy, box[0][1], box[1][1], yes([x + dx, y + dy]), no, box[0][0], box[1][0]):
                r.append(([k] + conds, w))
        return r

    def posbox(I):
        return ((P(0), param(I, "XMAX")), (P(0), param(I, "YMAX")))
    for r in ("add", "addr", "fadd"):
        c.cases(pr, r, lambda I, a: moves(r, leaves(a[0]), a[1], posbox(I), lambda v: R.okval(r, v), R.err(r, "OutOfBounds")))
    c.cases(pr, "faddok", lambda I, a: moves("faddok", leaves(a[0]), a[1], posbox(I), lambda v: R.someval("faddok", v), R.none("faddok")))
    c.cases(pr, "back", lambda I, a: moves("back", leaves(a[0]), a[1], posbox(I), lambda v: R.some("back", a[0]), R.none("back")))
    for r in ("btuple", "btupler"):
        c.cases(pr, r, lambda I, a: moves(r, leaves(a[0]) + leaves(a[1]), a[2], ((param(I, "A"), param(I, "B")), (param(I, "C"), param(I, "E"))),
                                          lambda v: R.okval(r, v), R.err(r, "OutOfBounds")))
    c.cases(pr, "mixed", lambda I, a: moves("mixed", a[:2], a[2], ((P(0), P(255)), (P(-(1 << 63)), P((1 << 63) - 1))), lambda v: R.okval("mixed", v), R.err("mixed", "OutOfBounds")))
    for t in TYPES:
        for n in ("add", "addr"):
            r = t + "_" + n

            def spec(I, a):
                p = leaves(deref(I, a[0]))
                lo, hi = [P(z) for z in R.okty(r).elems()[0].range()]
                return moves(r, p, a[1], ((lo, hi), (lo, hi)), lambda v: R.okval(r, v), R.err(r, "OutOfBounds"))
            c.cases(pr, r, spec)
    c.floor("movement operations", len(c.roots), 32)
