"""C03: the linear index of a position is its row-major number: a bijection between the positions of the grid and
0..width*height, in both directions, and indices outside of that range are rejected. Decided for every grid size
(symbolic) by abstract interpretation with polynomial value numbering (quotient and remainder by the symbolic width)."""

from .common import *

PG = "const XMAX: u16, const YMAX: u16"
PT = "Pos<XMAX, YMAX>"


def harness():
    h = ["use sqrid::*;"]
    h.append("""
pub fn to<PG>(p: PT) -> usize { PosT::to_usize(&p) }
pub fn from<PG>(p: PT) -> usize { usize::from(p) }
pub fn fromr<PG>(p: PT) -> usize { usize::from(&p) }
pub fn tryfrom<PG>(i: usize) -> Result<PT, Error> { <PT as PosT>::tryfrom_usize(i) }
pub fn try_from<PG>(i: usize) -> Result<PT, Error> { <PT>::try_from(i) }
pub fn roundtrip<PG>(p: PT) -> Result<PT, Error> { <PT as PosT>::tryfrom_usize(PosT::to_usize(&p)) }
pub fn backtrip<PG>(i: usize) -> Option<usize> { match <PT as PosT>::tryfrom_usize(i) { Ok(p) => Some(p.to_usize()), Err(_) => None } }
""".replace("PG", PG).replace("PT", PT))
    for t in ("u8", "u16", "u32"):
        h.append("""
pub fn T_to(p: (T, T)) -> usize { PosT::to_usize(&p) }
pub fn T_tryfrom(i: usize) -> Result<(T, T), Error> { <(T, T) as PosT>::tryfrom_usize(i) }
""".replace("T_", t + "_").replace("(T, T)", "(%s, %s)" % (t, t)))
    return "\n".join(h)


def check(c):
    pr = c.load("c03", harness())
    R = Rust(pr)

    def W(I):
        return param(I, "XMAX") + 1

    def H(I):
        return param(I, "YMAX") + 1
    for r in ("to", "from", "fromr"):
        c.cases(pr, r, lambda I, a: [([], leaves(a[0])[1] * W(I) + leaves(a[0])[0])])
    for r in ("tryfrom", "try_from"):
        c.cases(pr, r, lambda I, a: [([lt(a[0], W(I) * H(I))], R.okval(r, [mod(a[0], W(I)), div(a[0], W(I))])), ([le(W(I) * H(I), a[0])], R.err(r, "OutOfBounds"))])
    c.cases(pr, "roundtrip", lambda I, a: [([], R.ok("roundtrip", a[0]))])
    c.cases(pr, "backtrip", lambda I, a: [([lt(a[0], W(I) * H(I))], R.some("backtrip", a[0])), ([le(W(I) * H(I), a[0])], R.none("backtrip"))])

    for t in ("u8", "u16", "u32"):
        n = 1 << int(t[1:])
        c.cases(pr, t + "_to", lambda I, a: [([], a[0].f[1] * n + a[0].f[0])])
        r = t + "_tryfrom"
        c.cases(pr, r, lambda I, a: [([lt(a[0], n * n)], R.okval(r, [mod(a[0], P(n)), div(a[0], P(n))])), ([le(P(n * n), a[0])], R.err(r, "OutOfBounds"))])
    c.floor("index conversions", len(c.roots), 13)
