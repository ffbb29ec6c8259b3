"""C14: a boolean grid stores one independent bit per position. Setting, clearing or assigning a position is visible at exactly
that position through every accessor, for every grid size, position, value and content. Decided by abstract interpretation with
a symbolic content and symbolic sizes: words are vectors of bits, and the bit read after a write is the written value when the
positions are equal and the bit read before the write otherwise."""

from .common import *

WRITES = {"t": ("g.set_t(&p)", True), "f": ("g.set_f(&p)", False), "s": ("g.set(&p, v)", None)}
READS = {"get": "g.get(&q)", "index": "g[q]", "indexr": "g[&q]"}


def harness():
    h = ["use sqrid::*;"]
    for r, e in READS.items():
        h.append("pub fn %s<BG>(g: &[B], q: [P]) -> bool { %s }" % (r, e))
        for w, (s, _) in WRITES.items():
            h.append("pub fn %s_%s<BG>(g: &mut [B], p: [P], q: [P], v: bool) -> (bool, bool) { let o = %s; %s; (o, %s) }" % (w, r, e, s, e))
            for w2, (s2, _) in WRITES.items():
                if r == "get":
                    h.append("pub fn %s%s_%s<BG>(g: &mut [B], p: [P], q: [P], v: bool, w: bool) -> bool { %s; %s; %s }" % (
                        w, w2, r, s, s2.replace("&p", "&q").replace("v)", "w)"), "g.get(&p)"))
    for w, (s, _) in WRITES.items():
        h.append("pub fn bit_%s<BG>(g: &mut [B], p: [P], v: bool, j: usize, n: u32) -> (bool, bool) { let o = (g.as_inner()[j] >> n) & 1 == 1; %s; (o, (g.as_inner()[j] >> n) & 1 == 1) }" % (w, s))
    return expand("\n".join(h))


def bit(I, a, j, n):
    """Number of the bit n of word j, from the first bit of the grid"""
    return j * 32 + 31 - n


def wordbit(I, o, st, g, q):
    from .. import bits
    r = cells(I, g)
    arr = I.init_mem[r.root]
    for e in r.path:
        arr = arr.f[e[1]]
    i = index(I, q)
    j = I.binop(st, "Div", i, P(32), arr.ty.elem(), None)
    w = I.arr_read(st, arr, j)
    return eq(bits.bitof(I, st, w, 31 - (i - j * 32), 32), 0).neg()


def check(c):
    pr = c.load("c14", harness())
    R = Rust(pr)
    for r in READS:
        # all the readers are the same function of the content: the bit of the row-major number
        c.cases(pr, r, lambda I, a: [([], lambda I, o, st: wordbit(I, o, st, a[0], a[1]))])
        for w, (_, val) in WRITES.items():
            name = "%s_%s" % (w, r)

            def spec(I, a, o, name=name, val=val):
                t = R.root_ty(name)
                if o.kind != "ret":
                    return [([], Any)]
                old = o.v.f[0]
                new = a[3] if val is None else boolv(val)
                return [(k, Agg(t, 0, [Any, new]) if s else Agg(t, 0, [Any, old])) for k, s in samepos(I, a[1], a[2])]
            c.cases(pr, name, spec)
            if r != "get":
                continue
            for w2, (_, val2) in WRITES.items():
                name = "%s%s_%s" % (w, w2, r)

                def two(I, a, val=val, val2=val2):
                    x = a[3] if val is None else boolv(val)
                    y = a[4] if val2 is None else boolv(val2)
                    return [(k, y if s else x) for k, s in samepos(I, a[1], a[2])]
                c.cases(pr, name, two)
    for w, (_, val) in WRITES.items():
        name = "bit_" + w

        def words(I, a, o, name=name, val=val):
            # the words themselves: only the bit of the position changes
            if o.kind != "ret":
                return [([lt(a[3], param(I, "WORDS")), lt(a[4], 32)], R.val(name, [TRUE, TRUE]))]
            b, i = bit(I, a, a[3], a[4]), index(I, a[1])
            t = R.root_ty(name)
            new = a[2] if val is None else boolv(val)
            rng = [lt(a[4], 32), lt(a[3], param(I, "WORDS"))]
            return [(rng + [eq(b, i)], Agg(t, 0, [Any, new])), (rng + [lt(b, i)], Agg(t, 0, [Any, o.v.f[0]])), (rng + [lt(i, b)], Agg(t, 0, [Any, o.v.f[0]]))]
        c.cases(pr, name, words)
    c.floor("bit operations", len(c.roots), 24)
