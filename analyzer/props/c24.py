"""C24: a grid built from values holds every value at its place. Decided by abstract interpretation, for every size at once: what
repeat and default hold at any position, and the step of every construction loop (an iteration writes exactly the cell of its
number with the next input; the closure that fills a grid from vectors gives a cell the value of its line and column, the default
where there is none). Small grids with inputs of every shape around the right one are compared cell by cell, and rejected exactly
when the input does not fit."""

from .common import *
from .seq import seqs, vec
from ..interp import Event, Outcome, Split, elemty, sym, term

VAL = """
#[derive(Clone, Copy)] pub struct V(pub u32, pub bool);
impl Default for V { fn default() -> V { V(77, true) } }
impl std::ops::Neg for V { type Output = V; fn neg(self) -> V { V(self.0, !self.1) } }
"""
ITER = """
pub struct Few<T, const N: usize>(core::array::IntoIter<T, N>);
impl<T, const N: usize> Iterator for Few<T, N> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }
pub struct FewRef<'a, T>(core::slice::Iter<'a, T>);
impl<'a, T> Iterator for FewRef<'a, T> { type Item = &'a T; fn next(&mut self) -> Option<&'a T> { self.0.next() } }
pub struct Many<F>(F);
impl<T, F: Iterator<Item = T>> Iterator for Many<F> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }
"""


def harness():
    # type parameters with different bounds need different names: instances are told apart by name
    g = "const XMAX: u16, const YMAX: u16, const SIZE: usize"
    v = "Grid<V, Pos<XMAX, YMAX>, SIZE>"
    return expand("use sqrid::*;" + VAL + ITER + """
pub fn repeat<T: Copy, [g]>(v: T, p: [P]) -> T { <[G]>::repeat(v)[p] }
pub fn default<T: Copy + Default, [g]>(p: [P]) -> (T, T) { let g: [G] = Default::default(); (g[p], T::default()) }
pub fn collect<F: Iterator<Item = T>, T: Default, [g]>(f: F) -> [G] { Many(f).collect() }
pub fn collect_ref<'a, FR: Iterator<Item = &'a T>, T: Default + Copy + 'a, [g]>(f: FR) -> [G] { Many(f).collect() }
pub fn extend<FE: Iterator<Item = ([P], T)>, T, [g]>(g: &mut [G], f: FE) { g.extend(Many(f)) }
pub fn extend_ref<'a, FX: Iterator<Item = ([P], &'a T)>, T: Copy + 'a, [g]>(g: &mut [G], f: FX) { g.extend(Many(f)) }
pub fn extend_pair<'a, FY: Iterator<Item = &'a ([P], T)>, T: Copy + 'a, [g]>(g: &mut [G], f: FY) { g.extend(Many(f)) }
pub fn neg<T: Copy + Default + std::ops::Neg<Output = T>, [g]>(g: [G]) -> [G] { -g }
pub fn vecs<T: Default, [g]>(v: Vec<Vec<T>>) -> Result<[G], Error> { v.try_into() }
pub fn vecext<T, [g]>(g: &mut [G], v: Vec<Vec<T>>) -> Result<(), Error> { g.extend_from_vecvec(v) }
pub fn i_repeat<[g]>(v: V) -> [V] { <[V]>::repeat(v) }
pub fn i_default<[g]>() -> [V] { Default::default() }
pub fn i_collect<const N: usize, [g]>(a: [V; N]) -> [V] { Few(a.into_iter()).collect() }
pub fn i_collect_ref<const N: usize, [g]>(a: &[V; N]) -> [V] { FewRef(a.iter()).collect() }
pub fn i_neg<[g]>(g: [V]) -> [V] { -g }
pub fn i_vecs<[g]>(v: Vec<Vec<V>>) -> Result<[V], Error> { v.try_into() }
pub fn i_vecext<[g]>(g: &mut [V], v: Vec<Vec<V>>) -> Result<(), Error> { g.extend_from_vecvec(v) }
pub fn i_extend<[g]>(g: &mut [V], a: ([P], V), b: ([P], V), p: [P]) -> V { g.extend(Few([a, b].into_iter())); g[p] }
pub fn i_extend_ref<[g]>(g: &mut [V], a: [P], b: [P], v: V, w: V, p: [P]) -> V { g.extend(Few([(a, &v), (b, &w)].into_iter())); g[p] }
pub fn i_extend_pair<[g]>(g: &mut [V], a: ([P], V), b: ([P], V), p: [P]) -> V { g.extend(FewRef([a, b].iter())); g[p] }
""".replace("[V]", v).replace("[V; N]", "[V; N]")).replace("[g]", g)


def each(I, st, call):
    """Override: an array of known length is filled element by element"""
    if call.path != "core::array::from_fn":
        return None
    n = st.facts.norm(I.constlen(call.dty.d["len"], st)).const()
    if n is None or n > 600:
        return None
    root = ("B", next(I.ids))
    s = st.copy()
    s.mem[root] = call.args[0]
    live, done = [(s, ())], []
    for k in range(n):
        nxt = []
        for s, xs in live:
            for o in I.call_value(s, Ref(root, ()), [P(k)], call.dty.elem(), call.at, call.fr):
                if o.kind == "ret":
                    nxt.append((o.st, xs + (o.v,)))
                else:
                    done.append(o)
        live = nxt
    return [Outcome("ret", s, ArrV(call.dty, ("list", xs), P(n))) for s, xs in live] + done


def theone(I, st, v):
    """The array of cells in a grid"""
    ps = arrays(I, v)
    if len(ps) != 1:
        raise Undetermined("a grid holds %d arrays" % len(ps))
    for _, i in ps[0]:
        v = v.f[i]
    return v


def cells_of(I, st, v, n):
    a = theone(I, st, v)
    return [I.resolve(st, I.arr_read(st, a, P(i))) for i in range(n)]


def wanted(c, I, o, name, want, where):
    """want: 'panic', an error name, or the list of the cells of the resulting grid (cells: function of the outcome)"""
    if want == "panic" or o.kind == "panic":
        if want == o.kind:
            return True
        env = c.real(o.st)
        if env is None:
            c.add(name, "open", "%s: %s instead of %s" % (where, o.kind, "a panic" if want == "panic" else "a result"))
            return None
        c.violation(name, "%s: %s where %s is required, for %s: %s" % (
            name, "panics (%s)" % o.msg if o.kind == "panic" else "returns a grid", "a panic" if want == "panic" else "a result", where, point(env)))
        return False
    return None


def point(env):
    from ..spec import point as p
    return p(env)


def build(c, pr, R, r, X, Y, cv, where, spec, args=None):
    """One small grid: spec(I, a) -> 'panic' | ('err', name) | list of cells; result(I, o) gives the cells found"""
    n = (X + 1) * (Y + 1)
    cvals = {"XMAX": X, "YMAX": Y, "SIZE": n}
    cvals.update(cv)
    k = len(c.obs)
    res = c.run(pr, r, cvals=cvals, args=args, delay=2000, overrides=(seqs, each), name=r, vecs=True)
    if res is None:
        c.obs[k] = (r, "open", where + ": " + c.obs[k][2])
        return None
    I, outs = res
    a = I.argvals
    for o in outs:
        want = spec(I, a, o)
        v = None
        if o.kind == "ret":
            v = I.resolve(o.st, o.v)
        if want == "panic" or o.kind == "panic":
            if wanted(c, I, o, r, want, where) is not True:
                return False
            continue
        if isinstance(v, Agg) and v.ty.path.endswith("result::Result"):
            got = v.ty.vname(v.v)
            if isinstance(want, tuple) or got == "Err":
                w = R.err(r, want[1]) if isinstance(want, tuple) else R.ok(r, v.f[0])
                if got == "Err" and not isinstance(want, tuple):
                    w = Agg(v.ty, v.ty.vindex("Ok"), [])
                if c.equal(I, o.st, r, v, w, where) is not True:
                    return False
                continue
            v = v.f[0]
        if isinstance(v, Agg) and v.ty.elems() == []:
            v = I.read(o.st, a[0].root, a[0].path)
        todo = [o.st]
        while todo:
            s = todo.pop()
            try:
                got = cells_of(I, s, v, n)
                for i in range(n):
                    if c.equal(I, s, r, got[i], want[i], "%s, cell %d" % (where, i)) is not True:
                        return False
            except Split as e:
                todo += I.split(s, e)
    c.sites["small grids"] = c.sites.get("small grids", 0) + 1
    return True


def nested(shape):
    """Argument: a vector of vectors with lines of the given lengths"""
    def mk(I, st, ty):
        lt_ = elemty(ty)
        et = elemty(lt_)
        return vec(ty, [vec(lt_, [I.fresh(et, "v%d_%d" % (y, x), st) for x in range(n)]) for y, n in enumerate(shape)])
    return mk


SIZES = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)]


def shapes(X, Y, deep):
    """Shapes around the right one"""
    w, h = X + 1, Y + 1
    r = [[], [0], [w] * h, [w] * (h - 1), [w] * (h + 1), [w] * (h - 1) + [w + 1], [w + 1] + [w] * (h - 1), [w] * (h - 1) + [w - 1], [0] * (h - 1) + [1], [0] * (h + 1),
         [w - 1] + [w] * (h - 1), [0] * h + [1], [i % (w + 1) for i in range(h)], [w + 1]]
    if deep:
        r += [[a, b] for a in range(w + 2) for b in range(w + 2)] + [[a] * k for a in range(w + 2) for k in range(h + 2)]
    u = []
    for s in r:
        if s not in u:
            u.append(s)
    return u


def instances(c, pr, R, wide=False):
    deep = c.tier != "quick"
    if wide:
        sizes = [(256, 0), (0, 256)] + ([(299, 1), (1, 299)] if deep else [])
    else:
        sizes = SIZES + [(16, 0), (0, 16), (4, 3)] + ([(2, 2), (3, 2), (40, 0), (7, 7)] if deep else [])
    for X, Y in sizes:
        n, w, h = (X + 1) * (Y + 1), X + 1, Y + 1
        at = "XMAX=%d, YMAX=%d" % (X, Y)

        def dflt(I):
            return (P(77), TRUE)

        def flat(I, st, v):
            return leaves(v)
        VT = R.arg_ty("i_repeat", 0)
        D = make(VT, [P(77), TRUE])
        ok = True
        build(c, pr, R, "i_repeat", X, Y, {}, at, lambda I, a, o: [a[0]] * n)
        build(c, pr, R, "i_default", X, Y, {}, at, lambda I, a, o: [D] * n)
        build(c, pr, R, "i_neg", X, Y, {}, at, lambda I, a, o: [make(VT, [leaves(x)[0], leaves(x)[1].neg()]) for x in cells_of(I, o.st, a[0], n)])
        for m in sorted({0, n - 1, n, n + 1, n + w} if n < 200 else {n}):
            for r in ("i_collect", "i_collect_ref"):
                build(c, pr, R, r, X, Y, {"N": m}, "%s, %d values" % (at, m),
                      lambda I, a, o: "panic" if m != n else [I.arr_read(o.st, deref(I, a[0]), P(i)) for i in range(n)])
        for sh in shapes(X, Y, deep and n < 10) if n < 200 else [[w] * h]:
            fits = len(sh) <= h and all(k <= w for k in sh)
            args = {"v": nested(sh)}
            where = "%s, lines of lengths %s" % (at, sh)

            def value(I, a, i):
                x, y = i % w, i // w
                return I.init(a, y, x) if y < len(sh) and x < sh[y] else None

            def tovals(I, a, o, k, old):
                v = a[k]
                r = []
                for i in range(n):
                    x, y = i % w, i // w
                    if y < len(sh) and x < sh[y]:
                        r.append(I.arr_read(o.st, I.arr_read(o.st, v, P(y)), P(x)))
                    else:
                        r.append(old(i))
                return r
            if fits or any(k for k in sh[h:]) or any(k > w for k in sh):
                # whether empty lines past the last one fit is left to the implementation
                if h <= 64:
                    # more lines than that: only i_vecext, which does not generalise a walk over the lines
                    build(c, pr, R, "i_vecs", X, Y, {}, where, lambda I, a, o: tovals(I, a, o, 0, lambda i: D) if fits else ("err", "OutOfBounds"), args)
                build(c, pr, R, "i_vecext", X, Y, {}, where, lambda I, a, o: tovals(I, a, o, 1, lambda i: I.arr_read(o.st, theone(I, o.st, I.init_mem[a[0].root]), P(i)))
                      if fits else ("err", "OutOfBounds"), args)


def pairs(c, pr, R):
    """Two assignments, for every size: the later wins, other cells keep their value"""
    for r in ("i_extend", "i_extend_ref", "i_extend_pair"):
        def spec(I, a, o):
            if r == "i_extend_ref":
                p1, p2, v1, v2, q = a[1:]
            else:
                (p1, v1), (p2, v2), q = a[1].f, a[2].f, a[3]
            old = theone(I, o.st, I.init_mem[a[0].root])
            out = []
            for k, s in samepos(I, p2, q):
                if s:
                    out.append((k, v2))
                    continue
                for k2, s2 in samepos(I, p1, q):
                    out.append((k + k2, v1 if s2 else lambda I, o, st: I.arr_read(st, old, index(I, q))))
            return out
        c.cases(pr, r, spec, delay=4, name=r)


def pointee(I, st, x):
    """The value behind a reference that may be unknown"""
    if isinstance(x, Opq) and x.ty.k == "ref":
        x = I.fresh(x.ty, x.term, st)
    if not isinstance(x, Ref):
        raise Undetermined("no reference: %r" % (x,))
    return I.read(st, x.root, x.path)


def writes(st):
    return [e.a for e in st.events if e.k == "awrite"]


def everyloop(events, outer=()):
    for L in loops(events):
        yield L, outer
        for p in L.paths:
            yield from everyloop(p.st.events, outer + (L,))


def entrypart(L):
    return dict(L.parts)


def gridwrites(I, H, ws, isgrid):
    return [w for w in ws if isgrid(H, w[0])]


def stepwise(c, pr, r, nexts, want, grid, args=None):
    """Every iteration of the loops of r that writes cells of the grid writes the cell and the value want(I, st) gives, and
    nothing else; every value the input gives is written"""
    res = c.run(pr, r, args=args, overrides=(seqs,), vecs=True)
    if res is None:
        return None
    I, outs = res
    n, seen = 0, set()
    for o in outs:
        for L, outer in everyloop(o.st.events):
            for p in L.paths:
                if id(p) in seen:
                    continue
                seen.add(id(p))
                ws = [w for w in writes(p.st) if grid(I, p.st, w)]
                inner = bool(loops(p.st.events))
                if inner and not ws:
                    continue
                if p.kind != "back":
                    if ws:
                        c.add(r, "open", "cells are written when the loop ends")
                        return None
                    continue
                if inner or len(ws) != 1:
                    c.add(r, "open", "one iteration writes %d cells" % len(ws))
                    return None
                try:
                    e = want(I, p.st, L, outer, ws[0])
                except Undetermined as x:
                    c.add(r, "open", str(x))
                    return None
                i, v = e
                if c.differs(I, p.st, ws[0][1], i) is not False or c.differs(I, p.st, ws[0][2], v) is not False:
                    c.add(r, "open", "an iteration writes %r to cell %r, not %r to cell %r" % (ws[0][2], ws[0][1], v, i))
                    return None
                n += 1
    if not n:
        c.add(r, "open", "no iteration writes a cell")
        return None
    c.add(r, "proved", "%d ways through an iteration" % n)
    return I, outs


def counted(I, st, L, i):
    """The index is a counter of the loop that starts at zero and goes up by one"""
    for (root, path), p in L.plan.items():
        if p[0] == "ind":
            for _, H in L.parts:
                x = I.node(H, root, path)
                if isinstance(x, Poly) and isinstance(i, Poly) and x == i and I.node(L.entry, root, path) == ZERO and p[2] == 1:
                    return True
    return False


def some(I, st, n=1):
    its = [x for x in items(I, st)]
    if len(its) != n or not all(isinstance(x, Agg) and x.ty.vname(x.v) == "Some" for x in its):
        raise Undetermined("one iteration takes %d items" % len(its))
    return its[0].f[0]


def check(c):
    pr = c.load("c24", harness())
    R = Rust(pr)
    # any position of any size
    c.cases(pr, "repeat", lambda I, a: [([], a[0])])
    c.cases(pr, "default", lambda I, a, o: [([], lambda I, o, st: Agg(o.v.ty, 0, [o.v.f[1], o.v.f[1]]))])

    # the step of the loops
    def anyarr(I, st, w):
        v = I.read(st, w[0].root, w[0].path)
        return isinstance(v, ArrV) and v.ty.k == "array"

    def next_item(ref):
        def want(I, st, L, outer, w):
            x = some(I, st)
            if not counted(I, st, L, w[1]):
                raise Undetermined("the cell written is not that of a counter from 0")
            return w[1], pointee(I, st, x) if ref else x
        return want

    def negated(I, st, L, outer, w):
        if not counted(I, st, L, w[1]):
            raise Undetermined("the cell written is not that of a counter from 0")
        ns = [e.a for e in st.events if e.k == "op" and e.a[0].endswith("::Neg::neg")]
        if len(ns) != 1:
            raise Undetermined("%d negations" % len(ns))
        old = I.arr_read(st, theone(I, st, I.argvals[0]), w[1])
        if c.differs(I, st, ns[0][1][0], old) is not False:
            raise Undetermined("negates %r" % (ns[0][1][0],))
        return w[1], ns[0][3]

    def assigned(kind):
        def want(I, st, L, outer, w):
            x = some(I, st)
            if kind == "pair":
                x = pointee(I, st, x)
            x = I.resolve(st, x)
            if isinstance(x, Opq):
                x = I.fresh(x.ty, x.term, st)
            p = x.f[0]
            if isinstance(p, Opq):
                p = I.fresh(p.ty, p.term, st)
            v = x.f[1]
            return index(I, p), pointee(I, st, v) if kind == "ref" else v
        return want

    def vecline(I, st, L, outer, w):
        # the value of column x and line y of the input: two counters from 0
        v = term(w[2])
        base = term(I.argvals[1])
        if not (isinstance(v, tuple) and v[0] == "elem" and isinstance(v[1], tuple) and v[1][0] == "elem" and v[1][1] == base):
            raise Undetermined("%r is not an input value" % (v,))
        x, y = v[2], v[1][2]
        if not counted(I, st, L, x) or not any(counted(I, st, M, y) for M in outer):
            raise Undetermined("lines or columns are skipped")
        return y * W(I) + x, w[2]
    stepwise(c, pr, "collect", 1, next_item(False), anyarr)
    stepwise(c, pr, "collect_ref", 1, next_item(True), anyarr)
    stepwise(c, pr, "neg", 0, negated, anyarr)
    stepwise(c, pr, "extend", 1, assigned("val"), anyarr)
    stepwise(c, pr, "extend_ref", 1, assigned("ref"), anyarr)
    stepwise(c, pr, "extend_pair", 1, assigned("pair"), anyarr)
    stepwise(c, pr, "vecext", 0, vecline, anyarr)
    filledby(c, pr)

    # small grids
    pairs(c, pr, R)
    k = len(c.obs)
    instances(c, pr, R)
    if all(v == "proved" for _, v, _ in c.obs[k:]):
        c.add("small grids", "proved", "%d grids compared cell by cell" % c.sites.get("small grids", 0))
    c.floor("constructions", len(c.roots), 20)
    k = len(c.obs)
    instances(c, pr, R, True)
    if all(v == "proved" for _, v, _ in c.obs[k:]):
        c.add("wide grids", "proved", "grids of more than 256 columns or lines compared cell by cell")


def changed(a, b):
    """The parts of a value that differ from what they were"""
    if a is b or a == b:
        return []
    if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
        return [x for p, q in zip(a.f, b.f) for x in changed(p, q)]
    return [a]


def anyone(I, st, call):
    """Override: one element of an array, which finds the lines as they were at first (that others leave its value alone is checked by
    filledby for every element); nothing else may change from element to element"""
    if call.path != "core::array::from_fn":
        return None
    n = I.constlen(call.dty.d["len"], st)
    i = sym("e%d" % next(I.ids), 0, None)
    s = st.copy()
    s.events = ()
    if not s.facts.add_le(P(i) + 1 - n):
        return None
    root = ("B", next(I.ids))
    s.mem[root] = call.args[0]
    before = dict(s.mem)
    outs = I.call_value(s, Ref(root, ()), [P(i)], call.dty.elem(), call.at, call.fr)
    for o in outs:
        if o.kind != "ret" or any(not isinstance(x, ArrV) for rt, v in o.st.mem.items() if rt in before for x in changed(before[rt], v)):
            return None
    st = st.copy()
    st.events = st.events + (Event("from_fn", (P(i), n, tuple(outs)), call.at, call.fr.body.path),)
    return [Outcome("ret", st, ArrV(call.dty, ("sym", ("from_fn", next(I.ids)), I.elemsym(call.dty.elem())), n))]


def filledby(c, pr):
    """Cell number i of a grid made from vectors is the value of line i div width and column i mod width, or the default"""
    r = "vecs"
    res = c.run(pr, r, overrides=(seqs, anyone), vecs=True)
    if res is None:
        return
    I, outs = res
    v = I.argvals[0]
    n = 0
    for o in outs:
        evs = [e.a for e in o.st.events if e.k == "from_fn"]
        got = I.resolve(o.st, o.v)
        if o.kind != "ret":
            c.add(r, "open", "panics: %s" % o.msg)
            return
        if got.ty.vname(got.v) == "Err":
            if evs:
                c.add(r, "open", "an error after the grid is filled")
                return
            continue
        if len(evs) != 1:
            c.add(r, "open", "the grid is not filled by one closure")
            return
        i, _, rets = evs[0]
        w = W(I)
        y, x = div(i, w), i - div(i, w) * w
        for q in rets:
            todo = [q.st.copy()]
            while todo:
                s = todo.pop()
                line = I.arr_read(s, v, y)
                for conds, inside_ in (([lt(y, v.len), lt(x, line.len)], True), ([lt(y, v.len), le(line.len, x)], False), ([le(v.len, y)], False)):
                    t = s.copy()
                    if not all(I.assume(t.facts, k) for k in conds):
                        continue
                    if inside_:
                        want = I.arr_read(t, line, x)
                    else:
                        ds = [e.a[3] for e in t.events if e.k == "op" and e.a[0].endswith("::Default::default")]
                        want = ds[-1] if ds else None
                    if want is None or c.differs(I, t, q.v, want) is not False:
                        c.add(r, "open", "cell i is %r, not %r" % (q.v, want))
                        return
                    ws = [a for a in writes(t) if a[0].path == ()]
                    for a in ws:
                        if inside_ and c.differs(I, t, a[1], y) is not False or not inside_:
                            c.add(r, "open", "a value that belongs to another cell is taken")
                            return
                    n += 1
    c.add(r, "proved" if n >= 2 else "open", "%d ways through the closure" % n)
