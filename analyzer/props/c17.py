"""C17: the position maps and sets offered to the searches behave like an ideal map and an ideal set. Decided by abstract
interpretation of every storage, one operation from an arbitrary state: a new map holds its default everywhere, a write is read
back at its position and changes no other, and inserting, removing and assigning do the same for membership. The collections of
the standard library are taken as ideal; grids are the ones whose accessors C13 and C14 decide."""

import os

from .common import *
from .ideal import ideal
from .finite import finite
from .perm import ghostref, ghostops, ghostgrid, isgridbool
from .c16 import starts, size

MAPS = {
    "grid": ("Grid<T, [P], SIZE>", "Grid<Option<Dir>, [P], SIZE>"),
    "hash": ("(std::collections::HashMap<[P], T>, T)", "(std::collections::HashMap<[P], Option<Dir>>, Option<Dir>)"),
    "btree": ("(std::collections::BTreeMap<[P], T>, T)", "(std::collections::BTreeMap<[P], Option<Dir>>, Option<Dir>)"),
}
SETS = {"bool": "[B]", "hashset": "std::collections::HashSet<[P]>", "btreeset": "std::collections::BTreeSet<[P]>"}
GC = "<T: Copy, const XMAX: u16, const YMAX: u16, const SIZE: usize>"
GB = "<const XMAX: u16, const YMAX: u16, const WORDS: usize>"


def harness():
    h = ["use sqrid::*;"]
    for n, (m, d) in MAPS.items():
        tr = "<%s as MapPos<T, [P], 0, SIZE>>" % m
        h += ["pub fn %s_new%s(v: T, p: [P]) -> T { let m = %s::new(v); *%s::get(&m, &p) }" % (n, GC, tr, tr),
              "pub fn %s_set%s(m: &mut %s, p: [P], v: T, q: [P]) -> (T, T) { let o = *%s::get(m, &q); %s::set(m, p, v); (o, *%s::get(m, &q)) }" % (n, GC, m, tr, tr, tr),
              "pub fn %s_sets%s(v0: T, p: [P], v: T, q: [P], w: T, r: [P]) -> T { let mut m = %s::new(v0); %s::set(&mut m, p, v); %s::set(&mut m, q, w); *%s::get(&m, &r) }" % (n, GC, tr, tr, tr, tr),
              "pub fn %s_default<const XMAX: u16, const YMAX: u16, const SIZE: usize>(p: [P]) -> Option<Dir> { let m = <%s>::default(); *<%s as MapPos<Option<Dir>, [P], 0, SIZE>>::get(&m, &p) }" % (n, d, d)]
    for n, s in SETS.items():
        tr = "<%s as SetPos<[P], WORDS, 0>>" % s
        h += ["pub fn %s_default%s(p: [P]) -> bool { let s = <%s>::default(); %s::contains(&s, &p) }" % (n, GB, s, tr)]
        for op, e in (("insert", "insert(s, p)"), ("remove", "remove(s, &p)"), ("set", "set(s, p, v)")):
            h.append("pub fn %s_%s%s(s: &mut %s, p: [P], v: bool, q: [P]) -> (bool, bool) { let o = %s::contains(s, &q); %s::%s; (o, %s::contains(s, &q)) }" % (n, op, GB, s, tr, tr, e, tr))
        h.append("pub fn %s_seq%s(p: [P], q: [P], r: [P]) -> bool { let mut s = <%s>::default(); %s::insert(&mut s, p); %s::insert(&mut s, q); %s::remove(&mut s, &p); %s::contains(&s, &r) }" % (
            n, GB, s, tr, tr, tr, tr))
    for n, (m, d) in MAPS.items():
        tr = "<%s as MapPos<T, [P], 0, SIZE>>" % m
        h.append("pub fn %s_hist%s(d: T, a: [P], u: T, b: [P], v: T, c: [P], w: T, x: [P]) -> (T, T, T, T) { let mut m = %s::new(d); %s::set(&mut m, a, u); %s::set(&mut m, b, v); "
                 "%s::set(&mut m, c, w); (*%s::get(&m, &a), *%s::get(&m, &b), *%s::get(&m, &c), *%s::get(&m, &x)) }" % ((n, GC) + (tr,) * 8))
    for n, s in SETS.items():
        tr = "<%s as SetPos<[P], WORDS, SIZE>>" % s
        h.append("pub fn %s_hist<const XMAX: u16, const YMAX: u16, const WORDS: usize, const SIZE: usize>(a: [P], b: [P], c: [P], d: [P], x: [P], f: bool) -> (bool, bool, bool, bool, bool) { "
                 "let mut s = <%s>::default(); %s::insert(&mut s, a); %s::insert(&mut s, b); %s::set(&mut s, c, f); %s::remove(&mut s, &d); "
                 "(%s::contains(&s, &a), %s::contains(&s, &b), %s::contains(&s, &c), %s::contains(&s, &d), %s::contains(&s, &x)) }" % ((n, s) + (tr,) * 9))
    return expand("\n".join(h))


# Histories at particular positions, for storages that no single step decides: grid, then the positions in the order of the
# harness' arguments. They meet in one coordinate, in the low bits of their indices or of a coordinate, or altogether.
HISTORIES = (
    ((1, 1), [(0, 0), (1, 0), (0, 1), (1, 1), (0, 0)]),
    ((1, 1), [(1, 1), (0, 1), (1, 1), (0, 0), (1, 0)]),
    ((1, 0), [(1, 0), (0, 0), (1, 0), (1, 0), (0, 0)]),
    ((0, 0), [(0, 0), (0, 0), (0, 0), (0, 0), (0, 0)]),
    ((2, 2), [(1, 2), (2, 1), (0, 0), (2, 1), (1, 1)]),
    ((2, 2), [(1, 1), (1, 1), (2, 1), (1, 1), (0, 1)]),
    ((2, 2), [(2, 2), (1, 1), (1, 2), (1, 2), (2, 1)]),
    ((7, 7), [(1, 4), (1, 0), (1, 4), (2, 0), (0, 4)]),
    ((7, 7), [(2, 4), (0, 4), (3, 4), (3, 4), (2, 0)]),
    ((299, 299), [(0, 0), (256, 0), (1, 1), (256, 0), (212, 1)]),
    ((299, 299), [(5, 1), (261, 1), (5, 257), (261, 1), (5, 1)]),
    ((299, 299), [(136, 218), (0, 0), (136, 218), (1, 0), (137, 218)]),
    ((299, 299), [(136, 218), (135, 218), (0, 0), (0, 0), (137, 218)]),
    ((299, 299), [(212, 1), (256, 2), (256, 2), (256, 2), (0, 0)]),
    ((299, 299), [(212, 1), (257, 2), (257, 3), (257, 2), (0, 0)]),
    ((299, 299), [(0, 0), (257, 1), (257, 0), (257, 1), (256, 0)]),
    ((299, 299), [(0, 0), (0, 1), (0, 2), (0, 1), (0, 256)]),
    ((299, 299), [(136, 218), (137, 218), (137, 218), (137, 218), (0, 0)]),
    ((299, 299), [(0, 0), (1, 0), (1, 0), (1, 0), (136, 218)]),
)


def kpos(x, y):
    """A particular position as an argument"""
    def mk(I, st, ty):
        left = [x, y]

        def go(v):
            if isinstance(v, Agg):
                return Agg(v.ty, v.v, [go(f) for f in v.f])
            return P(left.pop(0))
        return go(I.fresh(ty, "p", st))
    return mk


def histories(c, pr, R, n):
    r = n + "_hist"
    for (X, Y), ps in HISTORIES:
        cv = {"XMAX": X, "YMAX": Y, "SIZE": (X + 1) * (Y + 1), "WORDS": ((X + 1) * (Y + 1) + 31) // 32}
        isset = n in SETS
        names = "abcdx" if isset else "abcx"
        ps = ps[:5] if isset else ps[:3] + ps[4:]

        def spec(I, a):
            t = R.root_ty(r)
            if not isset:
                log = [(ps[0], a[2]), (ps[1], a[4]), (ps[2], a[6])]
                return [([], Agg(t, 0, [dict(log).get(p, a[0]) for p in ps]))]
            out = []
            for f in (True, False):
                s = {ps[0], ps[1]} | ({ps[2]} if f else set())
                s -= ({ps[2]} if not f else set()) | {ps[3]}
                out.append(([a[5] if f else a[5].neg()], Agg(t, 0, [boolv(p in s) for p in ps])))
            return out
        c.cases(pr, r, spec, cvals=cv, args={k: kpos(*p) for k, p in zip(names, ps)}, overrides=[finite], delay=8,
                name="%s %dx%d %s" % (n, X + 1, Y + 1, " ".join("%d,%d" % p for p in ps)))


def defaults(I, st, call):
    """Override: the default boolean grid is one of cells that are all false, when it is ALL_FALSE's or repeat's"""
    return None


def check(c):
    pr = c.load("c17", harness())
    R = Rust(pr)
    for n in MAPS:
        c.cases(pr, n + "_new", lambda I, a: [([], a[0])], overrides=[ideal])
        r = n + "_set"

        def upd(I, a, o, r=r):
            if o.kind != "ret":
                return [([], Any)]
            t = R.root_ty(r)
            return [(k, Agg(t, 0, [Any, a[2] if s else o.v.f[0]])) for k, s in samepos(I, a[1], a[3])]
        c.cases(pr, r, upd, overrides=[ideal])

        def twice(I, a):
            out = []
            for k, s in samepos(I, a[3], a[5]):
                if s:
                    out.append((k, a[4]))
                else:
                    out += [(k + k2, a[2] if s2 else a[0]) for k2, s2 in samepos(I, a[1], a[5])]
            return out
        c.cases(pr, n + "_sets", twice, overrides=[ideal])
        c.cases(pr, n + "_default", lambda I, a: [([], R.none(n + "_default"))], overrides=[ideal])
    for n in SETS:
        ov = [ghostops, starts, ideal]
        kw = {"args": {"s": ghostref("s", size)}} if n == "bool" else {}
        c.cases(pr, n + "_default", lambda I, a: [([], FALSE)], overrides=[ideal])
        for op, val in (("insert", TRUE), ("remove", FALSE), ("set", None)):
            r = "%s_%s" % (n, op)

            def upd(I, a, o, r=r, val=val):
                if o.kind != "ret":
                    return [([], Any)]
                t = R.root_ty(r)
                new = a[2] if val is None else val
                return [(k, Agg(t, 0, [Any, new if s else o.v.f[0]])) for k, s in samepos(I, a[1], a[3])]
            c.cases(pr, r, upd, overrides=ov, **kw)

        def seq(I, a):
            out = []
            for k, s in samepos(I, a[0], a[2]):
                if s:
                    out.append((k, FALSE))
                else:
                    out += [(k + k2, boolv(s2)) for k2, s2 in samepos(I, a[1], a[2])]
            return out
        c.cases(pr, n + "_seq", seq, overrides=ov)
    c.floor("storage operations", len(c.roots), 27)
    if os.environ.get("SQV_HIST"):
        undecided = {*MAPS, *SETS}
    else:
        undecided = {n for n in (*MAPS, *SETS) for k, v, _ in c.obs if v == "open" and k.split("_")[0] == n}
    for n in sorted(undecided - {k.split("_")[0] for k, v, _ in c.obs if v == "violated"}):
        k = len(c.obs)
        histories(c, pr, R, n)
        c.obs[k:] = [x for x in c.obs[k:] if x[1] == "violated"] if not os.environ.get("SQV_HIST") else c.obs[k:]
