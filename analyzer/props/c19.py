"""C19: uniform-cost search. Decided by abstract interpretation of one call of the iterator from an arbitrary state - arbitrary
recorded costs and queue entries that are never cheaper than recorded - with a movement function that leads to unknown positions at
unknown costs in every choice of up to two directions: outdated entries are passed over, the first other one is returned after every
direction was tried, and a position gets a new cost, together with a queue entry of that priority and the direction back, exactly
when the new cost, the sum without wrapping, is lower. New iterators start at the origin at no cost, the search records the moves of
the positions as they come and stops at the destination, and the path is the reconstruction of that map (C21)."""

from .common import *
from .search import *
from .relax import Relax, leaves

Q = "Pos<XMAX, YMAX>"


def harness(mod, Ty, go, new, dest):
    """The calls of a search that is by cost"""
    g = "<const XMAX: u16, const YMAX: u16, M: MapPos<usize, [P], W, Z>%s, F: Fn([P], Dir) -> [GO], const D: bool, const W: usize, const Z: usize>"
    it = "[MOD]::[TY]<F, M, [P], D, W, Z>"
    s = "const XMAX: u16, const YMAX: u16, N: MapPos<Option<Dir>, [P], W, Z> + Default, M: MapPos<usize, [P], W, Z> + Default, F: Fn([P], Dir) -> [GO], const D: bool, const W: usize, const Z: usize"
    t = """use sqrid::*;
pub fn next%s(it: &mut %s) -> Option<([P], Dir)> { it.next() }
pub fn first%s(go: F, o: [P], d: [P]) -> (%s, Option<([P], Dir)>) { let mut it = [MOD]::[TY]::<F, M, [P], D, W, Z>::new([NEW]); let r = it.next(); (it, r) }
pub fn search<%s>(go: F, o: [P], d: [P]) -> Result<N, Error> { [MOD]::search_mapmov::<F, N, M, [P], D, W, Z>(go, &o, &d) }
pub fn path<%s>(go: F, o: [P], d: [P]) -> Result<Vec<Dir>, Error> { [MOD]::search_path::<F, N, M, [P], D, W, Z>(go, &o, &d) }
""" % (g % "", it, g % " + Default", it, s, s)
    for k, v in (("[MOD]", mod), ("[TY]", Ty), ("[GO]", go), ("[NEW]", new), ("[P]", Q)):
        t = t.replace(k, v)
    return t


def moves(D, thorough):
    k = 8 if D else 4
    out = [set()] + [{i} for i in range(k)]
    pairs = [{i, j} for i in range(k) for j in range(i)]
    return out + (pairs if thorough or not D else [{i, (i + 1) % k} for i in range(0, k, 3)])


def run(c, pr, rx, mod):
    thorough = c.tier == "thorough"
    for D in (False, True):
        rx.next(D, 0, set())
        for ch in moves(D, thorough):
            rx.next(D, 1, ch)
            rx.first(D, ch)
        rx.next(D, 2, set())
        rx.next(D, 2, {1})
        searches(c, pr, "search", False, D)
    paths(c, pr, "path", mod, False)
    c.floor("searches", len(c.roots), 4)


def check(c):
    pr = c.load("c19", harness("ucs", "UcsIterator", "Option<(%s, usize)>" % Q, "go, &o", False))
    run(c, pr, Relax(c, pr, lambda I, st, D, p: ZERO, 0), "ucs")
