"""C06: directions form the cyclic group of eighth turns: opposite, rotation and their operators agree for every pair of
directions, and the enumerations list every direction exactly once, clockwise from north. Decided by abstract interpretation
of every operation over all variants of its operands."""

from . import override
from .common import *


def harness():
    return """
use sqrid::*;
pub fn flip(d: Dir) -> Dir { d.flip() }
pub fn neg(d: Dir) -> Dir { -d }
pub fn rotate(d: Dir, e: Dir) -> Dir { d.rotate(&e) }
pub fn add(d: Dir, e: Dir) -> Dir { d + e }
pub fn addassign(mut d: Dir, e: Dir) -> Dir { d += e; d }
pub fn diag(d: Dir) -> bool { d.is_diagonal() }
pub fn next<const D: bool>(d: Dir) -> Option<Dir> { d.next::<D>() }
pub fn all8() -> [Dir; 8] { Dir::ALL8 }
pub fn all4() -> [Dir; 4] { Dir::ALL4 }
pub fn size() -> usize { Dir::SIZE }
pub fn number(d: Dir) -> usize { d as usize }
pub fn default() -> Dir { Dir::default() }
pub fn clone(d: Dir) -> Dir { d.clone() }
pub fn eq(d: Dir, e: Dir) -> bool { d == e }
pub fn cmp(d: Dir, e: Dir) -> core::cmp::Ordering { d.cmp(&e) }
pub fn pcmp(d: Dir, e: Dir) -> Option<core::cmp::Ordering> { d.partial_cmp(&e) }
pub fn iter<const D: bool>() -> [Option<Dir>; 10] { let mut i = Dir::iter::<D>();
    [i.next(), i.next(), i.next(), i.next(), i.next(), i.next(), i.next(), i.next(), i.next(), i.next()] }
pub fn iter_rest<const D: bool>() -> [Option<Dir>; 4] { let mut i = Dir::iter::<D>(); i.next(); let mut j = i.clone();
    [j.next(), i.next(), j.next(), i.next()] }
"""


def check(c):
    pr = c.load("c06", harness() + override.harness(override.DIRS_))
    R = Rust(pr)
    override.check(c, pr, override.DIRS_)
    dty = R.root_ty("flip")

    def D(i):
        return enumv(dty, DIRS[i % 8])
    for r in ("flip", "neg"):
        c.cases(pr, r, lambda I, a: [([k], D(i + 4)) for i, k in dirs(a[0])])
    for r in ("rotate", "add", "addassign"):
        c.cases(pr, r, lambda I, a: [([k, l], D(i + j)) for i, k in dirs(a[0]) for j, l in dirs(a[1])])
    c.cases(pr, "clone", lambda I, a: [([k], D(i)) for i, k in dirs(a[0])])
    c.cases(pr, "number", lambda I, a: [([k], P(i)) for i, k in dirs(a[0])])
    c.cases(pr, "diag", lambda I, a: [([k], boolv(i % 2 == 1)) for i, k in dirs(a[0])])
    c.cases(pr, "default", lambda I, a: [([], D(0))])
    c.cases(pr, "size", lambda I, a: [([], P(8))])
    c.cases(pr, "eq", lambda I, a: [([k, l], boolv(i == j)) for i, k in dirs(a[0]) for j, l in dirs(a[1])])
    ot = R.root_ty("cmp")

    def order(i, j):
        return enumv(ot, "Less" if i < j else "Greater" if i > j else "Equal")
    c.cases(pr, "cmp", lambda I, a: [([k, l], order(i, j)) for i, k in dirs(a[0]) for j, l in dirs(a[1])])
    c.cases(pr, "pcmp", lambda I, a: [([k, l], R.some("pcmp", order(i, j))) for i, k in dirs(a[0]) for j, l in dirs(a[1])])

    def listof(root, xs):
        t = R.root_ty(root)
        return ArrV(t, ("list", tuple(xs)), P(len(xs)))
    c.cases(pr, "all8", lambda I, a: [([], listof("all8", [D(i) for i in range(8)]))])
    c.cases(pr, "all4", lambda I, a: [([], listof("all4", [D(i) for i in (0, 2, 4, 6)]))])
    for d in (0, 1):
        seq = list(range(0, 8, 1 if d else 2))
        ot = R.root_ty("next")

        def opt(i, t=ot):
            return enumv(t, "None") if i is None else enumv(t, "Some", D(i))

        def nxt(i):
            for x in seq:
                if x > i:
                    return x
            return None
        # without diagonals the successor of a diagonal is not used by the iteration: it has to stay total
        c.cases(pr, "next", lambda I, a: [([k], opt(nxt(i)) if i in seq else Any) for i, k in dirs(a[0])], cvals={"D": d}, name="next D=%d" % d)
        full = [opt(x) for x in seq] + [opt(None)] * 10
        c.cases(pr, "iter", lambda I, a: [([], listof("iter", full[:10]))], cvals={"D": d}, name="iter D=%d" % d)
        c.cases(pr, "iter_rest", lambda I, a: [([], listof("iter_rest", [full[1], full[1], full[2], full[2]]))], cvals={"D": d}, name="iter_rest D=%d" % d)
    c.floor("direction operations", len(c.roots), 18)
