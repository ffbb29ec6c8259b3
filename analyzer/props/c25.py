"""C25: the length an iterator announces brackets the number of items it still returns. Decided by abstract interpretation: for
every iterator of the library, at the start and after each of its first calls (from both ends where it has two), for every size
and every starting point, the announced length is compared with the number of items that remain, which C11, C12, C06 and C16
decide; for the smallest grids through the whole iteration and past its end. Iterators whose remaining number of items depends
on a content or on a search must not announce a lower bound above zero, nor an upper bound that some content exceeds."""

import itertools

from .common import *
from ..mir import Program
from ..interp import Split

T = "(usize, Option<usize>)"
PG = "const XMAX: u16, const YMAX: u16"
PT = "Pos<XMAX, YMAX>"

# name: (generics, arguments, iterator, ends, number of items)
ALL = {
    "iter": (PG, "", "<%s as PosT>::iter()" % PT, 2, lambda I, a: W(I) * H(I)),
    "iter_vertical": (PG, "", "<%s as PosT>::iter_vertical()" % PT, 2, lambda I, a: W(I) * H(I)),
    "iter_range": (PG, "tl: T, br: T", "<%s as PosT>::iter_range(tl, br)" % PT, 1,
                   lambda I, a: (leaves(a[1])[0] - leaves(a[0])[0] + 1) * (leaves(a[1])[1] - leaves(a[0])[1] + 1)),
    "iter_in_x": (PG, "x: BoundedU16<0, XMAX>", "<%s as PosT>::iter_in_x(x)" % PT, 1, lambda I, a: H(I)),
    "iter_in_y": (PG, "y: BoundedU16<0, YMAX>", "<%s as PosT>::iter_in_y(y)" % PT, 1, lambda I, a: W(I)),
    "iter_x": (PG, "", "<%s as PosT>::iter_x()" % PT, 1, lambda I, a: W(I)),
    "iter_y": (PG, "", "<%s as PosT>::iter_y()" % PT, 1, lambda I, a: H(I)),
    "Dir_iter_true": ("", "", "Dir::iter::<true>()", 1, lambda I, a: P(8)),
    "Dir_iter_false": ("", "", "Dir::iter::<false>()", 1, lambda I, a: P(4)),
    "bounded": ("const MIN: u16, const MAX: u16", "", "<BoundedU16<MIN, MAX> as BoundedInt>::iter()", 2, lambda I, a: param(I, "MAX") - param(I, "MIN") + 1),
    "bounded_i8": ("const MIN: i8, const MAX: i8", "", "<BoundedI8<MIN, MAX> as BoundedInt>::iter()", 2, lambda I, a: param(I, "MAX") - param(I, "MIN") + 1),
    "bounded_from": ("const MIN: u16, const MAX: u16", "a: BoundedU16<MIN, MAX>, b: BoundedU16<MIN, MAX>", "BoundedIntIterator::new(a, b)", 2,
                     lambda I, a: leaves(a[1])[0] - leaves(a[0])[0] + 1),
    "grid_iter": (GG, "g: &[G]", "g.iter()", 2, lambda I, a: W(I) * H(I)),
    "grid_iter_mut": (GG, "g: &mut [G]", "g.iter_mut()", 2, lambda I, a: W(I) * H(I)),
    "grid_into_iter": (GG, "g: [G]", "g.into_iter()", 2, lambda I, a: W(I) * H(I)),
    "grid_iter_pos": (GG, "g: &[G]", "g.iter_pos()", 1, lambda I, a: W(I) * H(I)),
    "gridbool_iter": (BG, "g: &[B]", "g.iter()", 1, lambda I, a: W(I) * H(I)),
    "gridbool_iter_pos": (BG, "g: &[B]", "g.iter_pos()", 1, lambda I, a: W(I) * H(I)),
}
# content decides how many remain: anything between none and all positions
SOME = {
    "only_t": (BG, "g: &[B]", "g.iter_t()", lambda I: W(I) * H(I)),
    "only_f": (BG, "g: &[B]", "g.iter_f()", lambda I: W(I) * H(I)),
}
SEARCH = """
pub fn s_bf<G: Fn(P, Dir) -> Option<P>, M: SetPos<P, WORDS, SIZE>, P: PosT + Copy, const D: bool, const WORDS: usize, const SIZE: usize>(it: &BfIterator<G, M, P, D, WORDS, SIZE>) -> TT { it.size_hint() }
pub fn s_ucs<F: Fn(P, Dir) -> Option<(P, usize)>, M: MapPos<usize, P, WORDS, SIZE>, P: PosT + Copy + Ord, const D: bool, const WORDS: usize, const SIZE: usize>(it: &UcsIterator<F, M, P, D, WORDS, SIZE>) -> TT { it.size_hint() }
pub fn s_astar<F: Fn(P, Dir) -> Option<P>, M: MapPos<usize, P, WORDS, SIZE>, P: PosT + Copy + Ord, const D: bool, const WORDS: usize, const SIZE: usize>(it: &AstarIterator<F, M, P, D, WORDS, SIZE>) -> TT { it.size_hint() }
""".replace("TT", T)


def words(n, ends, full=False):
    """The sequences of n calls"""
    if ends == 1 or n > 3:
        return ["f" * n]
    return ["".join(x) for x in itertools.product("fb", repeat=n)] if n < 3 or full else ["f" * n, "b" * n, "fbf"]


def harness(tier):
    h = ["use sqrid::*;"]
    for k, (g, args, it, ends, _) in ALL.items():
        for n in range(4):
            for w in words(n, ends, tier != "quick"):
                h.append("pub fn %s_%s<%s>(%s) -> %s { let mut it = %s; %s it.size_hint() }" % (
                    k, w, g, args.replace("T", PT) if k == "iter_range" else args, T, it, " ".join({"f": "it.next();", "b": "it.next_back();"}[s] for s in w)))
        for n in (4, 5, 8, 9):
            h.append("pub fn %s_%s<%s>(%s) -> %s { let mut it = %s; %s it.size_hint() }" % (
                k, "f" * n, g, args.replace("T", PT) if k == "iter_range" else args, T, it, "it.next(); " * n))
    for k, (g, args, it, _) in SOME.items():
        h.append("pub fn %s<%s>(%s) -> %s { %s.size_hint() }" % (k, g, args, T, it))
    return expand("\n".join(h).replace("pub fn  ", "pub fn ")).replace("<>(", "(")


def bracket(c, I, st, v, lo, hi):
    """(lower bound ok, upper bound ok): True, False, or the comparison that is not decided.
    The truth is anything from lo to hi."""
    low, up = I.resolve(st, v.f[0]), I.resolve(st, v.f[1])
    r = [le(low, lo)]
    if not isinstance(up, Agg):
        raise Undetermined("the upper bound is %r" % (up,))
    if up.ty.vname(up.v) == "Some":
        r.append(le(hi, I.resolve(st, up.f[0])))
    return r


def judge(c, pr, name, root, truth, key, cvals=None, delay=0):
    """truth(I, a) -> [(conditions, fewest, most)]. Violations are told apart by what is announced: key(I, st, v)"""
    res = c.run(pr, root, cvals=cvals, name=name, delay=delay)
    if res is None:
        return
    I, outs = res
    n, ok = 0, True
    for o in outs:
        if o.kind != "ret":
            # C28 decides panics
            continue
        for conds, lo, hi in truth(I, I.argvals):
            todo = [(o.st.copy(), list(conds))]
            while todo:
                st, cs = todo.pop()
                try:
                    if not all(I.assume(st.facts, k) for k in cs):
                        continue
                    v = I.resolve(st, o.v)
                    bad = None
                    for b in bracket(c, I, st, v, lo, hi):
                        t = I.decide(st, b)
                        if t is True:
                            continue
                        s = st
                        if t is None:
                            s = st.copy()
                            if not I.assume(s.facts, b.neg()):
                                continue
                        env = c.real(s, [x for x in (lo, hi) if isinstance(x, Poly)])
                        bad = (b, env, s)
                        if env is not None:
                            break
                    n += 1
                    if bad is None:
                        continue
                    ok = False
                    b, env, s = bad
                    if env is None:
                        c.add(name, "open", "not decided whether %r brackets %r..%r" % (v, lo, hi))
                        continue
                    from ..spec import fmt, point
                    what = key(I, s, v)
                    c.violation(name, "%s announces %s while %s items remain, for %s" % (
                        name, fmt(v, env), fmt(lo, env) if lo == hi else "%s to %s" % (fmt(lo, env), fmt(hi, env)), point(env)), key=what)
                    return
                except Split as e:
                    todo += [(x, []) for x in I.split(st, e)]
                except Undetermined as e:
                    ok = False
                    c.add(name, "open", str(e))
    if ok:
        c.add(name, "proved" if n else "open", "%d path/case pairs" % n)


def full(c, name, total, k):
    """Key of a violation: does the iterator announce, whatever it has returned, the number of items of the whole?"""
    def key(I, st, v):
        n = total(I)
        x = Agg(v.ty, 0, [n, Agg(v.f[1].ty, v.f[1].ty.vindex("Some"), [n])])
        if c.differs(I, st, I.resolve(st, v), x) is False:
            return name + " always announces the full number" if k else name + " announces the full number"
        return name + " start" if not k else name + " after items"
    return key


def check(c):
    pr = c.load("c25", harness(c.tier))
    R = Rust(pr)
    for name, (g, args, it, ends, number) in ALL.items():
        def total(I):
            return W(I) * H(I) if name == "iter_range" else number(I, I.argvals)

        def truth(k):
            def f(I, a):
                n = number(I, a)
                pre = []
                if name == "iter_range":
                    pre = [le(x, y) for x, y in zip(leaves(a[0]), leaves(a[1]))]
                if name == "bounded_from":
                    pre = [le(leaves(a[0])[0], leaves(a[1])[0])]
                if name.startswith("bounded"):
                    try:
                        pre = pre + [le(param(I, "MIN"), param(I, "MAX"))]
                    except Undetermined:
                        pass
                return [(pre + [le(P(k), n)], n - k, n - k), (pre + [lt(n, P(k))], ZERO, ZERO)]
            return f
        for n in range(4):
            for w in words(n, ends, c.tier != "quick"):
                judge(c, pr, name + (" after %s" % w if w else ""), "%s_%s" % (name, w), truth(n), full(c, name, total, n))
        for n in (4, 5, 8, 9):
            cv = None
            if "XMAX" in g:
                cv = {"XMAX": 1, "YMAX": 1} if n < 8 else {"XMAX": 3, "YMAX": 1}
                if "SIZE" in g:
                    cv["SIZE"] = 4 if n < 8 else 8
                if "WORDS" in g:
                    cv["WORDS"] = 1
            elif "MIN" in g:
                cv = {"MIN": 1, "MAX": n}
            judge(c, pr, "%s after %d" % (name, n), "%s_%s" % (name, "f" * n), truth(n), full(c, name, total, n), cv, delay=20)
    for name, (g, args, it, most) in SOME.items():
        judge(c, pr, name, name, lambda I, a: [([], ZERO, most(I))], lambda I, st, v: name + " start")
    # searches: how many positions remain depends on the moves
    ps = c.load("c25-search", "use sqrid::*; use sqrid::bf::BfIterator; use sqrid::ucs::UcsIterator; use sqrid::astar::AstarIterator;" + SEARCH)
    for r in ("s_bf", "s_ucs", "s_astar"):
        res = c.run(ps, r)
        if res is None:
            continue
        I, outs = res
        good = all(o.kind == "ret" and c.differs(I, o.st, o.v.f[0], ZERO) is False and o.v.f[1].ty.vname(o.v.f[1].v) == "None" for o in outs)
        c.add(r, "proved" if good and outs else "open", "announces nothing" if good else "announces a length: %r" % ([o.v for o in outs],))
    # every iterator of the library is one of these
    cr = Program(build.dump_crate())
    known = ("DirIter", "PosTIter", "PosTIterRange", "PosTIterInX", "PosTIterInY", "BoundedIntIterator", "BfIterator", "UcsIterator", "AstarIterator")
    found = set()
    for b in cr.bodies.values():
        p = b.path
        if ("Iterator>::size_hint" in p or "ExactSizeIterator" in p) and p.startswith("<sqrid::"):
            t = p[1:].split(" as ")[0].split("<")[0].split("::")[-1]
            found.add(t)
            if t not in known or "ExactSize" in p:
                c.add("iterators", "open", "%s is not covered" % p)
    c.add("iterators", "proved", "iterators that announce a length: %s" % ", ".join(sorted(found)))
    c.floor("iterators", len([r for r in c.roots if r in SOME or r.endswith("_")]) + len(SOME), 19)
