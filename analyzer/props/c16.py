"""C16: the bulk operations of boolean grids agree with reading and writing position by position, for every size and content.
Decided by abstract interpretation over grids of cells (what the single-position operations do to the words is decided by C14):
iterators take their positions one by one from the iterator over all positions and return what get returns there; the filtered
ones return exactly the positions with the value; bulk writes set exactly the positions they are given; collecting sets the
positions in order to the values in order; flips and turns follow the rule of C13."""

from .common import *
from .perm import permutation, unequal, SIGMA, ghostref, ghostops, ghostgrid, isgridbool, BitTy, boolty
from ..interp import Outcome, Event, Split


def harness():
    return expand("""
use sqrid::*;
pub struct Few<T, const N: usize>(core::array::IntoIter<T, N>);
impl<T, const N: usize> Iterator for Few<T, N> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }
pub struct Many<F>(F);
impl<T, F: Iterator<Item = T>> Iterator for Many<F> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }
pub fn flip_h<BG>(g: &mut [B]) { g.flip_h() }
pub fn flip_v<BG>(g: &mut [B]) { g.flip_v() }
pub fn rotate_cw<const W: u16, const WORDS: usize>(g: &mut Gridbool<Pos<W, W>, WORDS>) { g.rotate_cw() }
pub fn rotate_cc<const W: u16, const WORDS: usize>(g: &mut Gridbool<Pos<W, W>, WORDS>) { g.rotate_cc() }
pub fn iter<BG>(g: &[B]) -> Option<bool> { g.iter().next() }
pub fn iter_pos<BG>(g: &[B]) -> Option<([P], bool)> { g.iter_pos().next() }
pub fn iter_t<BG>(g: &[B]) -> Option<[P]> { g.iter_t().next() }
pub fn iter_f<BG>(g: &[B]) -> Option<[P]> { g.iter_f().next() }
pub fn n_iter<BG>(g: &[B]) -> (Option<bool>, Option<bool>, Option<bool>) { let mut i = g.iter(); (i.next(), i.next(), i.next()) }
pub fn n_iter_pos<BG>(g: &[B]) -> (Option<([P], bool)>, Option<([P], bool)>, Option<([P], bool)>) { let mut i = g.iter_pos(); (i.next(), i.next(), i.next()) }
pub fn n_iter_t<BG>(g: &[B]) -> [Option<[P]>; 7] { let mut i = g.iter_t(); [i.next(), i.next(), i.next(), i.next(), i.next(), i.next(), i.next()] }
pub fn n_iter_f<BG>(g: &[B]) -> [Option<[P]>; 7] { let mut i = g.iter_f(); [i.next(), i.next(), i.next(), i.next(), i.next(), i.next(), i.next()] }
pub fn set_iter_t<F: Iterator<Item = [P]>, BG_>(g: &mut [B], f: F) { g.set_iter_t(Many(f)) }
pub fn set_iter_f<F: Iterator<Item = [P]>, BG_>(g: &mut [B], f: F) { g.set_iter_f(Many(f)) }
pub fn few_t<BG>(g: &mut [B], p: [P], q: [P], r: [P]) -> bool { g.set_iter_t(Few([p, q].into_iter())); g.get(&r) }
pub fn few_f<BG>(g: &mut [B], p: [P], q: [P], r: [P]) -> bool { g.set_iter_f(Few([p, q].into_iter())); g.get(&r) }
pub fn collect<FB: Iterator<Item = bool>, BG_>(f: FB) -> [B] { Many(f).collect() }
pub fn collectp<F: Iterator<Item = [P]>, BG_>(f: F) -> [B] { Many(f).collect() }
pub fn few_p<BG>(p: [P], q: [P], r: [P]) -> bool { let g: [B] = Few([p, q].into_iter()).collect(); g.get(&r) }
pub fn b3<const WORDS: usize>(a: bool, b: bool, c: bool) -> Gridbool<Pos<2, 1>, WORDS> { Few([a, b, c].into_iter()).collect() }
pub fn b6<const WORDS: usize, const X: u16, const Y: u16>(a: bool, b: bool, c: bool, d: bool, e: bool, f: bool) -> bool { let g: Gridbool<Pos<2, 1>, WORDS> = Few([a, b, c, d, e, f].into_iter()).collect(); g.get(&Pos::<2, 1>::new_static::<X, Y>()) }
pub fn b7<const WORDS: usize>(a: bool, b: bool, c: bool, d: bool, e: bool, f: bool, g: bool) -> Gridbool<Pos<2, 1>, WORDS> { Few([a, b, c, d, e, f, g].into_iter()).collect() }
pub fn all<BG_, const N: usize>(g: &[B]) -> [bool; N] { let mut r = [false; N]; let mut i = 0; while i < N { r[i] = g.get(&<[P]>::try_from(i).unwrap()); i += 1 } r }
pub fn w_flip_h<BG_, const N: usize>(g: &mut [B]) -> ([bool; N], [bool; N]) { let b = all::<XMAX, YMAX, WORDS, N>(g); g.flip_h(); (b, all::<XMAX, YMAX, WORDS, N>(g)) }
pub fn w_flip_v<BG_, const N: usize>(g: &mut [B]) -> ([bool; N], [bool; N]) { let b = all::<XMAX, YMAX, WORDS, N>(g); g.flip_v(); (b, all::<XMAX, YMAX, WORDS, N>(g)) }
pub fn w_rotate_cw<const W: u16, const WORDS: usize, const N: usize>(g: &mut Gridbool<Pos<W, W>, WORDS>) -> ([bool; N], [bool; N]) { let b = all::<W, W, WORDS, N>(g); g.rotate_cw(); (b, all::<W, W, WORDS, N>(g)) }
pub fn w_rotate_cc<const W: u16, const WORDS: usize, const N: usize>(g: &mut Gridbool<Pos<W, W>, WORDS>) -> ([bool; N], [bool; N]) { let b = all::<W, W, WORDS, N>(g); g.rotate_cc(); (b, all::<W, W, WORDS, N>(g)) }
pub fn w_iter_t<BG_, const N: usize>(g: &[B]) -> ([bool; N], Option<[P]>, Option<[P]>) { let mut i = g.iter_t(); (all::<XMAX, YMAX, WORDS, N>(g), i.next(), i.next()) }
pub fn w_iter_f<BG_, const N: usize>(g: &[B]) -> ([bool; N], Option<[P]>, Option<[P]>) { let mut i = g.iter_f(); (all::<XMAX, YMAX, WORDS, N>(g), i.next(), i.next()) }
pub fn at<BG_, const I: usize>() -> [P] { <[P]>::try_from(I).unwrap() }
pub fn w_set_iter_t<BG_, const N: usize, const I: usize, const J: usize, const K: usize>(g: &mut [B]) -> ([bool; N], [bool; N]) { let b = all::<XMAX, YMAX, WORDS, N>(g); g.set_iter_t(Few([at::<XMAX, YMAX, WORDS, I>(), at::<XMAX, YMAX, WORDS, J>(), at::<XMAX, YMAX, WORDS, K>()].into_iter())); (b, all::<XMAX, YMAX, WORDS, N>(g)) }
pub fn w_set_iter_f<BG_, const N: usize, const I: usize, const J: usize, const K: usize>(g: &mut [B]) -> ([bool; N], [bool; N]) { let b = all::<XMAX, YMAX, WORDS, N>(g); g.set_iter_f(Few([at::<XMAX, YMAX, WORDS, I>(), at::<XMAX, YMAX, WORDS, J>(), at::<XMAX, YMAX, WORDS, K>()].into_iter())); (b, all::<XMAX, YMAX, WORDS, N>(g)) }
pub fn w_collectp<BG_, const N: usize, const I: usize, const J: usize, const K: usize>() -> ([bool; N], [bool; N]) { let g: [B] = Few([at::<XMAX, YMAX, WORDS, I>(), at::<XMAX, YMAX, WORDS, J>(), at::<XMAX, YMAX, WORDS, K>()].into_iter()).collect(); ([false; N], all::<XMAX, YMAX, WORDS, N>(&g)) }
pub fn w_collect<BG_, const N: usize, const BACK: bool, const K: usize>(v: bool) -> ([bool; N], [bool; N]) { let mut b = [BACK; N]; b[K] = v; let g: [B] = Few(b.into_iter()).collect(); (b, all::<XMAX, YMAX, WORDS, N>(&g)) }
""").replace("BG_", BG)


def size(I):
    return W(I) * H(I)


def position(I, st, call):
    """Override: the next position is an arbitrary one, or there is none left"""
    if "PosTIter<" in call.path and call.path.endswith("Iterator>::next"):
        ty = call.dty
        out = []
        a = st.copy()
        p = I.fresh(ty.vfields(ty.vindex("Some"))[0], "p%d" % next(I.ids), a)
        a.events = a.events + (Event("position", (p,), call.at, call.fr.body.path),)
        out.append(Outcome("ret", a, Agg(ty, ty.vindex("Some"), [p])))
        b = st.copy()
        b.events = b.events + (Event("position", (None,), call.at, call.fr.body.path),)
        out.append(Outcome("ret", b, Agg(ty, ty.vindex("None"), [])))
        return out
    return None


def starts(I, st, call):
    """Override: a grid filled with one value, as cells"""
    if call.path.endswith("::repeat") and isgridbool(call.dty):
        v = ghostgrid(call.dty, "fill", I, st, size(I))
        f = [ArrV(x.ty, ("repeat", call.args[0]), x.len) if isinstance(x, ArrV) else x for x in v.f]
        return [Outcome("ret", st.copy(), Agg(v.ty, 0, f))]
    return None


def ghostarr(v):
    if isinstance(v, ArrV) and isinstance(v.ty, BitTy):
        return v
    if isinstance(v, (Agg, Model)):
        for x in v.f:
            r = ghostarr(x)
            if r is not None:
                return r
    return None


def cell(I, g, p):
    """The initial value of the cell of a position"""
    return lambda I, o, st: I.arr_read(st, ghostarr(I.init_mem[g.root]), index(I, p))


def taken(st):
    return [e.a[0] for e in st.events if e.k == "position"]


def forked(c, I, name, st, fn):
    """fn(state) -> bool in every partition; None: not decided"""
    todo = [st.copy()]
    while todo:
        s = todo.pop()
        try:
            r = fn(s)
        except Split as e:
            todo += I.split(s, e)
            continue
        if r is not True:
            return r
    return True


def filtered(c, pr, r, val, kw):
    """The filtered iterators: the positions with the value, in order, none left out"""
    res = c.run(pr, r, overrides=[ghostops, position], **kw)
    if res is None:
        return
    I, outs = res
    g = I.argvals[0]
    n = 0
    for o in outs:
        if o.kind != "ret":
            c.add(r, "open", "may panic: " + o.msg)
            return
        steps = [p.st for L in loops(o.st.events) for p in L.paths if p.kind == "back"]
        skipped = [(s, taken(s)) for s in steps]
        last = taken(o.st)
        for L in loops(o.st.events):
            for p in L.paths:
                if p.kind in ("exit", "out") and len(taken(p.st)) > 1:
                    c.add(r, "open", "several positions are taken at once")
                    return
        for s, t in skipped:
            n += 1
            if len(t) != 1 or t[0] is None or forked(c, I, r, s, lambda s: I.decide(s, I.arr_read(s, ghostarr(I.init_mem[g.root]), index(I, t[0]))) is (not val)) is not True:
                c.add(r, "open", "a position with the value may be skipped")
                return
        if I.resolve(o.st, o.v).ty.vname(I.resolve(o.st, o.v).v) == "None":
            if not last or last[-1] is not None:
                c.add(r, "open", "ends before the last position")
                return
            continue
        if not last or last[-1] is None or c.differs(I, o.st, o.v, R_some(o.v, last[-1])) is not False:
            c.add(r, "open", "returns %r instead of the position just taken" % (o.v,))
            return
        if forked(c, I, r, o.st, lambda s: I.decide(s, I.arr_read(s, ghostarr(I.init_mem[g.root]), index(I, last[-1]))) is val) is not True:
            c.add(r, "open", "returns a position without the value")
            return
        n += 1
    c.add(r, "proved" if n >= 2 else "open", "%d kinds of positions" % n)


def R_some(v, p):
    return Agg(v.ty, v.ty.vindex("Some"), [p])


def filled(c, pr, r, kw, item, want, nposition, after=None):
    """A loop that takes items and writes cells; want(I, st, items, positions) -> (position, value) of the cell it sets.
    The cells of other positions are left alone."""
    res = c.run(pr, r, overrides=[ghostops, starts] + ([position] if nposition else []), **kw)
    if res is None:
        return None
    I, outs = res
    n = 0
    seen = set()
    starts_ = set()
    for o in outs:
        ls = loops(o.st.events)
        if len(ls) != 1:
            c.add(r, "open", "%d loops" % len(ls))
            return None
        L = ls[0]
        heads = dict(L.parts)
        root = None
        for p in L.paths:
            H = heads[p.key]
            for k, v in H.mem.items():
                if ghostarr(v) is not None and ghostarr(p.st.mem.get(k)) != ghostarr(v):
                    root = k
        if root is None:
            c.add(r, "open", "the loop writes no cells")
            return None
        starts_.add(ghostarr(L.entry.mem[root]))
        for p in L.paths:
            if id(p) in seen:
                continue
            seen.add(id(p))
            a, b = ghostarr(heads[p.key].mem[root]), ghostarr(p.st.mem[root]) if root in p.st.mem else None
            its, ps = items(I, p.st), taken(p.st)
            if p.kind != "back":
                if b is not None and a != b:
                    c.add(r, "open", "cells are written when the loop ends")
                    return None
                continue
            if len(its) != 1 or len(ps) != nposition:
                c.add(r, "open", "one iteration takes %d items and %d positions" % (len(its), len(ps)))
                return None
            if ps and ps[0] is None or not getattr(its[0], "f", ()):
                c.add(r, "open", "an iteration goes on when nothing is left")
                return None
            pos, val = want(I, p.st, its[0], ps)
            if isinstance(pos, Opq):
                pos = I.fresh(c.pty, pos.term, p.st)
            q = P(sym("q", 0, (1 << 32) - 1))

            def agree(s):
                if not (s.facts.add_le(q - size(I) + 1)):
                    return True
                i = index(I, pos)
                d = s.facts.norm(q - i)
                if s.facts.entails_eq(d):
                    x = val
                elif s.facts.entails_ne(d):
                    x = I.arr_read(s, a, q)
                else:
                    raise Split([lambda f, d=d: f.add_eq(d), lambda f, d=d: f.add_ne(d)])
                return c.differs(I, s, I.arr_read(s, b, q), x) is False
            if forked(c, I, r, p.st, agree) is not True:
                c.add(r, "open", "an iteration does not set exactly the cell of its position")
                return None
            n += 1
    if after is not None and after(I, outs, starts_) is not True:
        return None
    c.add(r, "proved", "%d ways through an iteration" % n)
    return I, outs


def check(c):
    pr = c.load("c16", harness())
    R = Rust(pr)
    for r, s in SIGMA.items():
        permutation(c, pr, r, s, True, r.startswith("rotate"))
    c.pty = R.arg_ty("few_p", 0)
    gh = {"args": {"g": ghostref("g", size)}}

    # iterators: one arbitrary step, the first steps, and small grids
    def step(r, val):
        def spec(I, a, o):
            t = taken(o.st)
            if len(t) != 1:
                raise Undetermined("the iterator does not take its positions one by one from the iterator over all positions")
            return [([], R.none(r) if t[0] is None else lambda I, o, st: R.some(r, val(I, o, st, a[0], t[0])))]
        return spec
    rd = lambda I, o, st, g, p: cell(I, g, p)(I, o, st)
    c.cases(pr, "iter", step("iter", rd), overrides=[ghostops, position], **gh)
    it = R.okty("iter_pos")
    c.cases(pr, "iter_pos", step("iter_pos", lambda I, o, st, g, p: Agg(it, 0, [p, rd(I, o, st, g, p)])), overrides=[ghostops, position], **gh)

    def first(r, withpos):
        rt = R.root_ty(r)

        def succ(I):
            X, Y = param(I, "XMAX"), param(I, "YMAX")
            return lambda p: [([lt(p[0], X)], [p[0] + 1, p[1]]), ([le(X, p[0]), lt(p[1], Y)], [P(0), p[1] + 1])]

        def spec(I, a):
            out = []
            for k, ps in consume("fff", [P(0), P(0)], [param(I, "XMAX"), param(I, "YMAX")], succ(I), None):
                def val(I, o, st, ps=ps):
                    fs = []
                    for et, p in zip(rt.elems(), ps):
                        if p is None:
                            fs.append(Agg(et, et.vindex("None"), []))
                            continue
                        b = cell(I, a[0], p)(I, o, st)
                        if withpos:
                            t = et.vfields(et.vindex("Some"))[0]
                            b = Agg(t, 0, [make(t.elems()[0], p), b])
                        fs.append(Agg(et, et.vindex("Some"), [b]))
                    return Agg(rt, 0, fs)
                out.append((k, val))
            return out
        c.cases(pr, r, spec, overrides=[ghostops], **gh)
    first("n_iter", False)
    first("n_iter_pos", True)
    for r, val in (("iter_t", True), ("iter_f", False)):
        filtered(c, pr, r, val, gh)
        small(c, pr, R, "n_" + r, val)

    # bulk writes
    def every(r, I, outs):
        # they end when there are no items left, and never panic
        for o in outs:
            its = items(I, o.st)
            if o.kind != "ret":
                c.add(r, "open", "may panic: " + o.msg)
                return False
            if len(its) != 1 or not isinstance(its[0], Agg) or its[0].ty.vname(its[0].v) != "None":
                if not its and counted_only(c, o.st):
                    c.violation(r, "%s: returns although there may be items left, for %s" % (r, point(o.st)))
                else:
                    c.add(r, "open", "returns although there may be items left")
                return False
        return True
    for r, val in (("set_iter_t", True), ("set_iter_f", False)):
        filled(c, pr, r, gh, 1, lambda I, st, x, ps: (x.f[0], boolv(val)), 0, lambda I, outs, st: every(r, I, outs))
        few = "few_" + r[-1]

        def two(I, a):
            out = []
            for k, s in samepos(I, a[1], a[3]):
                if s:
                    out.append((k, boolv(val)))
                    continue
                for k2, s2 in samepos(I, a[2], a[3]):
                    out.append((k + k2, boolv(val) if s2 else cell(I, a[0], a[3])))
            return out
        c.cases(pr, few, two, overrides=[ghostops], delay=3, **gh)

    # collections
    def empty(I, outs, st):
        if st == {a for a in st if a.base == ("repeat", FALSE) and not a.w}:
            return True
        c.add("collect", "open", "does not start with an empty grid")

    def ends(I, outs, st):
        # returned when there are neither positions nor items left; a panic when one of them ends early
        for o in outs:
            t, its = taken(o.st), items(I, o.st)
            pos = None if not t else t[-1] is not None
            some = [x.ty.vname(x.v) == "Some" for x in its if isinstance(x, Agg)]
            if o.kind == "ret" and (pos is not False or len(some) != 1 or some[0]):
                c.add("collect", "open", "returns although there may be positions or items left")
                return False
            if o.kind == "panic" and not (pos and some and not some[-1] or pos is False and some and some[-1]):
                c.add("collect", "open", "panics: " + o.msg)
                return False
        return empty(I, outs, st)
    filled(c, pr, "collectp", {}, 1, lambda I, st, x, ps: (x.f[0], TRUE), 0, lambda I, outs, st: empty(I, outs, st) and every("collectp", I, outs))
    filled(c, pr, "collect", {}, 1, lambda I, st, x, ps: (ps[0], x.f[0]), 1, ends)
    c.cases(pr, "few_p", lambda I, a: [(k + k2, boolv(s or s2)) for k, s in samepos(I, a[0], a[2]) for k2, s2 in samepos(I, a[1], a[2])],
            overrides=[ghostops, starts], delay=3)
    cv = {"WORDS": 1}
    for r in ("b3", "b7"):
        c.cases(pr, r, lambda I, a: [([], "panic")], cvals=cv, delay=10)

    six(c, pr)
    undecided = {n for n, v, d in c.obs if v == "open"}
    for r, s in SIGMA.items():
        if r in undecided:
            words(c, pr, r, s, r.startswith("rotate"))
    for r, val in (("iter_t", True), ("iter_f", False)):
        if r in undecided or "n_" + r in undecided:
            listed(c, pr, r, val)
    for r, val in (("set_iter_t", True), ("set_iter_f", False), ("collectp", True)):
        if r in undecided:
            written(c, pr, r, val)
    if "collect" in undecided:
        written(c, pr, "collect", None)
    c.floor("bulk operations", len(c.roots), 21)


def wrun(c, pr, r, X, Y, square, **more):
    """An operation on a grid of the given size, on its words: (interp, outcomes, number of positions) or None"""
    n = (X + 1) * (Y + 1)
    cv = {"W": X} if square else {"XMAX": X, "YMAX": Y}
    cv.update(WORDS=(n + 31) // 32, N=n, **more)
    k = len(c.obs)
    res = c.run(pr, "w_" + r, cvals=cv, delay=400, budget=100000)
    del c.obs[k:]
    return res and res + (n,)


def bools(I, st, v):
    return [I.arr_read(st, v, P(i)) for i in range(v.len.const())]


def words(c, pr, r, sigma, square):
    """Code that works on the words: each bit that get reads afterwards against the bit it read before, in small grids"""
    for X, Y in ([(n, n) for n in range(1, 6)] if square else [(2, 1), (1, 2), (31, 1), (63, 1), (32, 1), (15, 1), (7, 3), (31, 2), (63, 2)]):
        res = wrun(c, pr, r, X, Y, square)
        if res is None:
            continue
        I, outs, n = res
        for o in outs:
            if o.kind != "ret":
                if o.kind == "panic" and c.real(o.st) is not None:
                    return c.violation(r, "%s panics for XMAX=%d, YMAX=%d: %s" % (r, X, Y, o.msg))
                continue
            a, b = (bools(I, o.st, x) for x in o.v.f)
            for y in range(Y + 1):
                for x in range(X + 1):
                    dx, dy = sigma(x, y, X, Y)
                    if unequal(c, I, o.st, b[dy * (X + 1) + dx], a[y * (X + 1) + x]) is True:
                        return c.violation(r, "%s for XMAX=%d, YMAX=%d: position (%d, %d) does not read what (%d, %d) read before" % (r, X, Y, dx, dy, x, y))


def written(c, pr, r, val):
    """Code that works on the words: each bit that get reads after three positions are written, or after values are collected
    (all but one of them the same)"""
    if val is None:
        todo = [(X, Y, {"BACK": back, "K": k}) for X, Y in ((4, 0), (31, 0), (6, 4), (10, 2), (31, 1), (4, 12), (12, 7))
                for back in (0, 1) for k in sorted({0, 31, 32, (X + 1) * (Y + 1) - 1}) if k < (X + 1) * (Y + 1)]
    else:
        todo = [(X, Y, dict(zip("IJK", at))) for X, Y, at in ((2, 1, (0, 5, 3)), (4, 0, (4, 2, 2)), (31, 0, (31, 0, 31)),
                (6, 4, (34, 31, 32)), (31, 1, (63, 0, 32)), (31, 1, (3, 4, 40)), (12, 7, (64, 5, 103)), (0, 70, (70, 1, 69)))]
    for X, Y, more in todo:
        res = wrun(c, pr, r, X, Y, False, **more)
        if res is None:
            continue
        I, outs, n = res
        what = "%s for XMAX=%d, YMAX=%d (%s)" % (r, X, Y, more)
        for o in outs:
            if o.kind != "ret":
                if o.kind == "panic" and c.real(o.st) is not None:
                    return c.violation(r, "%s panics: %s" % (what, o.msg))
                continue
            b, a = (bools(I, o.st, x) for x in o.v.f)
            for i in range(n):
                if unequal(c, I, o.st, a[i], boolv(val) if val is not None and i in more.values() else b[i]) is True:
                    return c.violation(r, "%s: position number %d does not read the value it was given" % (what, i))


def listed(c, pr, r, val):
    """Code that works on the words: the first two positions the iterator returns against what get reads, in small grids"""
    for X, Y in ((2, 1), (6, 5), (15, 2), (31, 0)):
        res = wrun(c, pr, r, X, Y, False)
        if res is None:
            continue
        I, outs, n = res
        what = "%s for XMAX=%d, YMAX=%d" % (r, X, Y)
        for o in outs:
            if o.kind != "ret":
                if o.kind == "panic" and c.real(o.st) is not None:
                    return c.violation(r, "%s panics: %s" % (what, o.msg))
                continue
            a, at, listed = bools(I, o.st, o.v.f[0]), 0, []
            for p in o.v.f[1:]:
                p = I.resolve(o.st, p)
                if p.ty.vname(p.v) == "None":
                    i = n
                else:
                    i = index(I, p.f[0]).const()
                if i is None:
                    break
                bad = [j for j in range(at, i) if unequal(c, I, o.st, a[j], boolv(not val)) is True]
                if bad:
                    return c.violation(r, "%s: position number %d is left out" % (what, bad[0]))
                if i < n and (i < at or unequal(c, I, o.st, a[i], boolv(val)) is True):
                    return c.violation(r, "%s: position number %d is returned, but is not the next one with the value" % (what, i))
                at = i + 1
                if i == n:
                    break


def counted_only(c, st):
    """Is a state after a loop possible for some input? Only counters, not what the iterations found, lead to it"""
    if "havoc" in repr(st.facts.describe()):
        return False
    c.loopy = True
    try:
        return c.real(st) is not None
    finally:
        c.loopy = False


def point(st):
    return "; ".join(st.facts.describe()[:6])


def six(c, pr):
    """Six values collected into a grid of six positions: what get reads at each position is the value"""
    for i in range(6):
        c.cases(pr, "b6", lambda I, a, o: [([], a[i])], cvals={"WORDS": 1, "X": i % 3, "Y": i // 3}, delay=10)


def small(c, pr, R, r, val):
    """All positions with the value in a grid of 3x2, whatever its content"""
    at = R.root_ty(r)
    et = at.elem()
    pt = et.vfields(et.vindex("Some"))[0]

    def spec(I, a, o):
        def want(I, o, st):
            g = ghostarr(I.init_mem[a[0].root])
            fs = []
            for i in range(6):
                b = I.truth(st, I.arr_read(st, g, P(i)))
                if b == val:
                    fs.append(Agg(et, et.vindex("Some"), [make(pt, [P(i % 3), P(i // 3)])]))
            fs += [Agg(et, et.vindex("None"), [])] * (7 - len(fs))
            return ArrV(at, ("list", tuple(fs)), P(7))
        return [([], want)]
    c.cases(pr, r, spec, cvals={"XMAX": 2, "YMAX": 1, "WORDS": 1}, args={"g": ghostref("g", P(6))}, overrides=[ghostops], delay=12)
