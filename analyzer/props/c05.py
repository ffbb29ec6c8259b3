"""C05: every way to reach a grid's cells means the same cell: a position designates exactly one cell, the row-major one, in
reads, writes, indexing, lines, arrays and all iterators, and a write changes that cell only. Decided by abstract
interpretation with symbolic sizes: each accessor returns a reference to exactly the required place of the grid, so that two
accessors agree on all later reads and writes."""

from .common import *

LIFETIME = ["get", "index", "indexr", "as_array", "as_ref", "line"]


def harness():
    return expand("""
use sqrid::*;
pub struct Few<T, const N: usize>(core::array::IntoIter<T, N>);
impl<T, const N: usize> Iterator for Few<T, N> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }
pub fn get<GG>(g: &[G], p: [P]) -> &T { g.get(&p) }
pub fn get_mut<GG>(g: &mut [G], p: [P]) -> &mut T { g.get_mut(&p) }
pub fn index<GG>(g: &[G], p: [P]) -> &T { &g[p] }
pub fn indexr<GG>(g: &[G], p: [P]) -> &T { &g[&p] }
pub fn index_mut<GG>(g: &mut [G], p: [P]) -> &mut T { &mut g[p] }
pub fn index_mutr<GG>(g: &mut [G], p: [P]) -> &mut T { &mut g[&p] }
pub fn as_array<GG>(g: &[G]) -> &[T; SIZE] { g.as_array() }
pub fn as_array_mut<GG>(g: &mut [G]) -> &mut [T; SIZE] { g.as_array_mut() }
pub fn as_ref<GG>(g: &[G]) -> &[T; SIZE] { AsRef::<[T; SIZE]>::as_ref(g) }
pub fn as_mut<GG>(g: &mut [G]) -> &mut [T; SIZE] { AsMut::<[T; SIZE]>::as_mut(g) }
pub fn into_inner<GG>(g: [G]) -> [T; SIZE] { g.into_inner() }
pub fn line<GG>(g: &[G], y: BoundedU16<0, YMAX>) -> &[T] { g.line(y) }
pub fn line_mut<GG>(g: &mut [G], y: BoundedU16<0, YMAX>) -> &mut [T] { g.line_mut(y) }
pub fn line_at<GG>(g: &[G], y: BoundedU16<0, YMAX>, x: BoundedU16<0, XMAX>) -> &T { &g.line(y)[usize::from(x.into_inner())] }
pub fn iter<GG>(g: &[G]) -> std::slice::Iter<'_, T> { g.iter() }
pub fn iter_mut<GG>(g: &mut [G]) -> std::slice::IterMut<'_, T> { g.iter_mut() }
pub fn into_ref<GG>(g: &[G]) -> std::slice::Iter<'_, T> { g.into_iter() }
pub fn into_mut<GG>(g: &mut [G]) -> std::slice::IterMut<'_, T> { g.into_iter() }
pub fn into_own<GG>(g: [G]) -> std::array::IntoIter<T, SIZE> { g.into_iter() }
pub fn iter_pos<GG>(g: &[G]) -> Option<([P], &T)> { g.iter_pos().next() }
pub fn iter_pos1<GG>(g: &[G]) -> (Option<([P], &T)>, Option<([P], &T)>, Option<([P], &T)>) { let mut i = g.iter_pos(); (i.next(), i.next(), i.next()) }
pub fn set_get<GC>(g: &mut [G], p: [P], q: [P], v: T) -> T { g[p] = v; *g.get(&q) }
pub fn ext1<GC>(g: &mut [G], p: [P], v: T, r: [P]) -> T { g.extend(Few([(p, v)].into_iter())); g[r] }
pub fn ext<GC>(g: &mut [G], p: [P], v: T, q: [P], w: T, r: [P]) -> T { g.extend(Few([(p, v), (q, w)].into_iter())); g[r] }
pub fn extr<GC>(g: &mut [G], p: [P], v: &T, q: [P], w: &T, r: [P]) -> T { g.extend(Few([(p, v), (q, w)].into_iter())); g[r] }
pub fn extp<GC>(g: &mut [G], p: &([P], T), q: &([P], T), r: [P]) -> T { g.extend(Few([p, q].into_iter())); g[r] }
pub fn ext0<GC>(g: &mut [G], r: [P]) -> T { g.extend(Few::<([P], T), 0>([].into_iter())); g[r] }
""")


def check(c):
    pr = c.load("c05", harness())
    R = Rust(pr)
    for r in ("get", "get_mut", "index", "indexr", "index_mut", "index_mutr"):
        c.cases(pr, r, lambda I, a: [([], cellref(I, a[0], index(I, a[1])))])
    for r in ("as_array", "as_array_mut", "as_ref", "as_mut"):
        c.cases(pr, r, lambda I, a: [([], cells(I, a[0]))])
    c.cases(pr, "into_inner", lambda I, a: [([], a[0].f[[isinstance(x, ArrV) for x in a[0].f].index(True)])])
    for r in ("line", "line_mut"):
        def line(I, a):
            k = cells(I, a[0])
            return [([], Ref(k.root, k.path, (leaves(a[1])[0] * W(I), W(I))))]
        c.cases(pr, r, line)
    c.cases(pr, "line_at", lambda I, a: [([], cellref(I, a[0], leaves(a[1])[0] * W(I) + leaves(a[2])[0]))])
    for r in ("iter", "iter_mut", "into_ref", "into_mut"):
        c.cases(pr, r, lambda I, a: [([], Model("sliceiter", (cells(I, a[0]), P(0), W(I) * H(I))))])

    def own(I, a, o):
        v = o.v
        if isinstance(v, Model) and v.k == "arriter" and v.f[1] == P(0):
            src = o.st.mem[v.f[0].root]
            if src == a[0].f[[isinstance(x, ArrV) for x in a[0].f].index(True)]:
                return [([], Model("arriter", (v.f[0], P(0), W(I) * H(I))))]
        return [([], Model("arriter", (None, P(0), W(I) * H(I))))]
    c.cases(pr, "into_own", own)

    # the iterator with positions: an arbitrary step, and the first three
    def arbitrary(I, a, o):
        p = positions_of(o.st)
        if len(p) != 1:
            raise Undetermined("the iterator does not take its positions from the iterator over all positions")
        return [([], R.some("iter_pos", Agg(R.okty("iter_pos"), 0, [p[0], cellref(I, a[0], index(I, p[0]))])))]
    c.cases(pr, "iter_pos", arbitrary, overrides=[anypos("p")])

    def first(I, a):
        X, Y = param(I, "XMAX"), param(I, "YMAX")
        out = []
        rt = R.root_ty("iter_pos1")

        def succ(p):
            x, y = p
            return [([lt(x, X)], [x + 1, y]), ([le(X, x), lt(y, Y)], [P(0), y + 1])]
        for k, ps in consume("fff", [P(0), P(0)], [X, Y], succ, None):
            fs = []
            for et, p in zip(rt.elems(), ps):
                if p is None:
                    fs.append(Agg(et, et.vindex("None"), []))
                else:
                    it = et.vfields(et.vindex("Some"))[0]
                    fs.append(Agg(et, et.vindex("Some"), [Agg(it, 0, [make(it.elems()[0], p), cellref(I, a[0], index(I, p))])]))
            out.append((k, Agg(rt, 0, fs)))
        return out
    c.cases(pr, "iter_pos1", first)

    def old(I, a, p):
        """The initial content of the cell of p"""
        r = cells(I, a[0])
        from ..interp import State
        arr = I.init_mem[r.root]
        for e in r.path:
            arr = arr.f[e[1]]
        return lambda I, o, st: I.arr_read(st, arr, index(I, p))

    c.cases(pr, "set_get", lambda I, a: [(k, a[3] if s else old(I, a, a[2])) for k, s in samepos(I, a[1], a[2])])
    c.cases(pr, "ext0", lambda I, a: [([], old(I, a, a[1]))], delay=3)
    c.cases(pr, "ext1", lambda I, a: [(k, a[2] if s else old(I, a, a[3])) for k, s in samepos(I, a[1], a[3])], delay=3)

    def two(p, v, q, w, r):
        def spec(I, a):
            out = []
            for k, s in samepos(I, q(I, a), r(I, a)):
                if s:
                    out.append((k, w(I, a)))
                    continue
                for k2, s2 in samepos(I, p(I, a), r(I, a)):
                    out.append((k + k2, v(I, a) if s2 else old(I, a, r(I, a))))
            return out
        return spec
    c.cases(pr, "ext", two(*[lambda I, a, i=i: a[i] for i in (1, 2, 3, 4, 5)]), delay=3)
    c.cases(pr, "extr", two(*[(lambda I, a, i=i: a[i]) if i in (1, 3, 5) else (lambda I, a, i=i: I.init_mem[a[i].root]) for i in (1, 2, 3, 4, 5)]), delay=3)
    c.cases(pr, "extp", two(*[(lambda I, a, i=i, j=j: I.init_mem[a[i].root].f[j]) for i, j in ((1, 0), (1, 1), (2, 0), (2, 1))] + [lambda I, a: a[3]]), delay=3)
    c.floor("grid accessors", len(c.roots), 27)
