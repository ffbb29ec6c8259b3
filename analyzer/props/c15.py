"""C15: equal boolean grids have equal words: the storage bits that belong to no position are always clear. Decided by abstract
interpretation with symbolic sizes. Every constructor leaves bit n of word j with the required value, and clear when the bit is
past the last position; every operation on positions, and every loop of a bulk operation, leaves each bit past the last position
as it was (induction over the operations); comparisons and hashes are those of the words."""

import os

from .common import *
from .. import bits
from ..interp import Split, Outcome, term
from .perm import BOOLOP, isgridbool, SIZES

MAKE = {"repeat": ("v: bool", "<[B]>::repeat(v)", lambda a: a[0]), "all_true": ("v: bool", "<[B]>::ALL_TRUE", lambda a: TRUE),
        "all_false": ("v: bool", "<[B]>::ALL_FALSE", lambda a: FALSE), "default": ("v: bool", "<[B]>::default()", lambda a: FALSE)}
OPS = {"set_t": "g.set_t(&p)", "set_f": "g.set_f(&p)", "set": "g.set(&p, v)"}
BULK = {
    "flip_h": "pub fn flip_h<BG>(g: &mut [B]) { g.flip_h() }",
    "flip_v": "pub fn flip_v<BG>(g: &mut [B]) { g.flip_v() }",
    "rotate_cw": "pub fn rotate_cw<const W: u16, const WORDS: usize>(g: &mut Gridbool<Pos<W, W>, WORDS>) { g.rotate_cw() }",
    "rotate_cc": "pub fn rotate_cc<const W: u16, const WORDS: usize>(g: &mut Gridbool<Pos<W, W>, WORDS>) { g.rotate_cc() }",
    "set_iter_t": "pub fn set_iter_t<F: Iterator<Item = [P]>, BG_>(g: &mut [B], f: F) { g.set_iter_t(Many(f)) }",
    "set_iter_f": "pub fn set_iter_f<F: Iterator<Item = [P]>, BG_>(g: &mut [B], f: F) { g.set_iter_f(Many(f)) }",
}
COLLECT = {
    "collect": "pub fn collect<F: Iterator<Item = bool>, BG_>(f: F) -> [B] { Many(f).collect() }",
    "collectp": "pub fn collectp<F: Iterator<Item = [P]>, BG_>(f: F) -> [B] { Many(f).collect() }",
}


def neutral(I, st, call):
    """Override: the operations on one position leave the padding alone (rule op_*), whatever they do to the other bits"""
    m = BOOLOP.search(call.path)
    if not m or "sqrid::" not in call.path or not call.args or not isinstance(call.args[0], Ref):
        return None
    st = st.copy()
    g = call.args[0]
    v = I.read(st, g.root, g.path)
    if not isinstance(v, Agg) or not isgridbool(v.ty):
        return None
    if m.group(1) == "get":
        return [Outcome("ret", st, I.fresh(call.dty, ("bit", next(I.ids)), st))]
    from ..interp import Event
    st.events = st.events + (Event("set", (g,), call.at, call.fr.body.path),)
    return [Outcome("ret", st, I.unit(call.dty))]


# instances: a fixed size, the content unknown
INST = {
    "flip_h": "pub fn i_flip_h<BG>(g: &mut [B]) { g.flip_h() }",
    "flip_v": "pub fn i_flip_v<BG>(g: &mut [B]) { g.flip_v() }",
    "rotate_cw": "pub fn i_rotate_cw<const W: u16, const WORDS: usize>(g: &mut Gridbool<Pos<W, W>, WORDS>) { g.rotate_cw() }",
    "rotate_cc": "pub fn i_rotate_cc<const W: u16, const WORDS: usize>(g: &mut Gridbool<Pos<W, W>, WORDS>) { g.rotate_cc() }",
    "set_iter_t": "pub fn i_set_iter_t<BG>(g: &mut [B], p: [P], q: [P]) { g.set_iter_t(Few([p, q].into_iter())) }",
    "set_iter_f": "pub fn i_set_iter_f<BG>(g: &mut [B], p: [P], q: [P]) { g.set_iter_f(Few([p, q].into_iter())) }",
    "collect": "pub fn i_collect<const XMAX: u16, const YMAX: u16, const WORDS: usize, const N: usize>(a: [bool; N]) -> [B] { Few(a.into_iter()).collect() }",
    "collectp": "pub fn i_collectp<BG>(p: [P], q: [P]) -> [B] { Few([p, q].into_iter()).collect() }",
}


def words(n, *true):
    """The words of a grid of n cells, all of them true, or those given"""
    ws = [0] * ((n + 31) // 32)
    for b in true or range(n):
        ws[b // 32] |= 1 << (31 - b % 32)
    return ws


def given(ws):
    """A boolean grid of particular words"""
    def mk(I, st, ty):
        def go(v):
            if isinstance(v, Agg):
                return Agg(v.ty, v.v, [go(x) for x in v.f])
            return ArrV(v.ty, ("list", tuple(P(w) for w in ws)), P(len(ws))) if isinstance(v, ArrV) else v
        v = I.fresh(ty.to() if ty.k == "ref" else ty, "g", st)
        if ty.k != "ref":
            return go(v)
        root = ("G", next(I.ids))
        st.mem[root] = go(v)
        return Ref(root, ())
    return mk


def instance(c, pr, r):
    """The padding after an operation on a grid of fixed size with particular content: the padding is clear before"""
    sizes = [(0, 0), (1, 1), (32, 0), (0, 39), (63, 0)] if r == "collect" else [(n, n) for n in (0, 1, 2)] if r.startswith("rotate") else [(0, 0), (1, 0), (1, 1), (2, 1), (1, 2), (32, 0)]
    for X, Y in sizes:
        n = (X + 1) * (Y + 1)
        cv = {"WORDS": (n + 31) // 32}
        if r == "collect":
            cv["N"] = n
        cv.update({"W": X} if r.startswith("rotate") else {"XMAX": X, "YMAX": Y})
        contents = [[TRUE] * n, [boolv(i % 3 == 1) for i in range(n)]] if r == "collect" else [None] if r == "collectp" else [words(n), words(n, 0), words(n, n - 1)]
        for ws in contents:
            k = len(c.obs)
            res = c.run(pr, "i_" + r, args={} if ws is None else {"a": lambda I, st, ty: ArrV(ty, ("list", tuple(ws)), P(n))} if r == "collect" else {"g": given(ws)}, cvals=cv, delay=200, name=r)
            del c.obs[k:]
            if res is None:
                break
            I, outs = res
            for o in outs:
                if o.kind != "ret":
                    continue
                if r.startswith("collect"):
                    got = [a for _, a in wordarrays(o.v)]
                else:
                    g = I.argvals[0]
                    got = [a for _, a in wordarrays(I.read(o.st, g.root, g.path))]
                if len(got) != 1:
                    continue
                todo = [o.st]
                while todo:
                    st = todo.pop()
                    try:
                        for b in range(n, 32 * cv["WORDS"]):
                            x = bits.bitof(I, st, I.arr_read(st, got[0], P(b // 32)), P(31 - b % 32), 32)
                            if x == ZERO:
                                continue
                            if c.differs(I, st, x, ZERO) is False:
                                continue
                            j = len(c.obs)
                            good = c.equal(I, st, r, x, ZERO, "bit %d past the %d cells for XMAX=%d, YMAX=%d, words %s" % (b, n, X, Y, ws))
                            if good is False:
                                return False
                            del c.obs[j:]
                    except Split as e:
                        todo += I.split(st, e)
    return None


def equality(c, pr, R):
    """Comparisons of particular grids, whose padding is clear: they say equal exactly for equal words"""
    def flip(ws, *bs):
        ws = list(ws)
        for b in bs:
            ws[b // 32] ^= 1 << (31 - b % 32)
        return ws
    for n, pairs in (
            (1, [((), ()), ((), (0,))]), (2, [((), (0,)), ((0,), (1,)), ((0, 1), (0,)), ((1,), (0, 1))]), (5, [((4,), ()), ((0, 4), (0,)), ((1,), (4,))]),
            (32, [((31,), ()), ((0,), ()), ((0, 31), (0,)), ((0,), (31,))]),
            (33, [((32,), ()), ((0,), ()), ((31,), ()), ((), (32,)), ((0, 32), (0,)), ((0,), (32,)), ((0, 32), ())]),
            (64, [((0,), ()), ((31,), ()), ((32,), ()), ((63,), ()), ((0,), (32,)), ((0, 32), ()), ((31,), (63,))]),
            (100, [((0,), ()), ((40,), ()), ((70,), ()), ((99,), ()), ((0,), (32,)), ((32,), (64,)), ((0, 32), ()), ((40, 72), ()), ((99,), (0,))]), (8225, [((8224,), ())])):
        for a, b in [((), ())] + pairs:
            x, y = flip(words(n, *a) if a else [0] * len(words(n)), ), flip(words(n, *b) if b else [0] * len(words(n)))
            for u, v in ((x, y), (y, x)):
                same = u == v
                t = R.root_ty("same")
                c.cases(pr, "same", lambda I, s, same=same, t=t: [([], Agg(t, 0, [boolv(same), boolv(not same)]))],
                        cvals={"XMAX": n - 1, "YMAX": 0, "WORDS": len(u)}, args={"g": given(u), "h": given(v)}, delay=300,
                        name="eq of %s and %s of %d cells" % (sorted(a), sorted(b), n))


def harness():
    h = ["use sqrid::*;", "pub struct Few<T, const N: usize>(core::array::IntoIter<T, N>);",
         "impl<T, const N: usize> Iterator for Few<T, N> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }",
         "pub struct Many<F>(F);",
         "impl<T, F: Iterator<Item = T>> Iterator for Many<F> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }"]
    for k, (args, e, _) in MAKE.items():
        h.append("pub fn %s<BG>(%s, j: usize, n: u32) -> bool { let g = %s; (g.as_inner()[j] >> n) & 1 == 1 }" % (k, args, e))
        h.append("pub fn w_%s<BG>(%s) -> [B] { %s }" % (k, args, e))
    for k, e in OPS.items():
        h.append("pub fn op_%s<BG>(g: &mut [B], p: [P], v: bool, j: usize, n: u32) -> (bool, bool) { let o = (g.as_inner()[j] >> n) & 1 == 1; %s; (o, (g.as_inner()[j] >> n) & 1 == 1) }" % (k, e))
    for e in list(BULK.values()) + list(COLLECT.values()) + list(INST.values()):
        h.append(e.replace("BG_", BG))
    h.append("pub fn eq<BG>(g: &[B], h: &[B]) -> bool { g == h }")
    h.append("pub fn same<BG>(g: &[B], h: &[B]) -> (bool, bool) { (g == h, g != h) }")
    h.append("pub fn hash<S: std::hash::Hasher, const XMAX: u16, const YMAX: u16, const WORDS: usize>(g: &[B], h: &mut S) { std::hash::Hash::hash(g, h) }")
    h.append("pub fn inner<BG>(g: [B]) -> [u32; WORDS] { g.into_inner() }")
    return expand("\n".join(h))


def forall(c, I, name, st, facts, a, b):
    """Bit n of the values a and b (functions of a state) agree in every partition where the facts hold"""
    todo = [st.copy()]
    if not all(I.assume(todo[0].facts, f) if isinstance(f, BoolV) else f(todo[0].facts) for f in facts):
        return True
    n = 0
    while todo:
        s = todo.pop()
        n += 1
        if n > 400:
            c.add(name, "open", "too many partitions")
            return None
        try:
            x, y = a(s), b(s)
            if c.differs(I, s, x, y) is not False:
                c.add(name, "open", "%r instead of %r under %s" % (x, y, s.facts.describe()[:14]))
                return None
        except Split as e:
            todo += I.split(s, e)
    return True


def size_of(I, st, root="W"):
    try:
        return (param(I, "XMAX") + 1) * (param(I, "YMAX") + 1)
    except Undetermined:
        w = param(I, root)
        return (w + 1) * (w + 1)


def size(I):
    if "W" in I.cparams:
        return (param(I, "W") + 1) * (param(I, "W") + 1)
    return (param(I, "XMAX") + 1) * (param(I, "YMAX") + 1)


def wordarrays(v, pre=()):
    """Paths to the arrays of 32-bit words in a value"""
    if isinstance(v, ArrV) and "elem" in v.ty.d and v.ty.elem().name == "u32":
        yield pre, v
    elif isinstance(v, (Agg, Model)):
        for i, x in enumerate(v.f):
            yield from wordarrays(x, pre + (("F", i, v.v if isinstance(v, Agg) and v.ty.isenum() else None),))


def padding(I, n):
    """A bit past the last position: word j, bit k"""
    j, k = P(sym("j", 0, (1 << 58))), P(sym("n", 0, 31))
    return j, k, [lt(j, n), le(size(I), j * 32 + 31 - k)]


def preserved(c, I, name, before, after, st):
    """Every bit past the last position is as before in the arrays of words that changed"""
    n = 0
    ok = True
    for root, hv in before.mem.items():
        for path, a in wordarrays(hv):
            b = I.node(st, root, path)
            if b == a:
                continue
            n += 1
            if not isinstance(b, ArrV):
                c.add(name, "open", "the words are replaced by %r" % (b,))
                ok = False
                continue
            j, k, pre = padding(I, a.len)
            r = forall(c, I, name, st, pre, lambda s: bits.bitof(I, s, I.arr_read(s, b, j), k, 32), lambda s: bits.bitof(I, s, I.arr_read(s, a, j), k, 32))
            ok = ok and r
    return n, ok


def every_loop(events):
    for L in loops(events):
        yield L
        for p in L.paths:
            yield from every_loop(p.st.events)


def ends(c, I, st, a, collect):
    """Do the words at the end come from those at the start (through loops, whose steps are judged), or are they clear past the
    last position?"""
    if a.w:
        return False
    start = {term(x) for v in I.init_mem.values() for _, x in wordarrays(v)}
    t = term(a)
    through = False
    while isinstance(t, tuple) and t and t[0] == "loopv":
        t, through = t[2], True
    if t in start or through and collect:
        # the words a collected grid starts with are judged on their own
        return True
    if through:
        return False
    j, k, pre = padding(I, a.len)
    n = len(c.obs)
    r = forall(c, I, "end", st, pre, lambda s: bits.bitof(I, s, I.arr_read(s, a, j), k, 32), lambda s: ZERO)
    del c.obs[n:]
    return bool(r)


def bulk(c, pr, r):
    """The padding is as before after a bulk operation"""
    k = len(c.obs)
    res = c.run(pr, r, overrides=[neutral])
    del c.obs[k:]
    if res is not None:
        I, outs = res
        n = 0
        clean = True
        for o in outs:
            evs = list(o.st.events)
            for L in every_loop(o.st.events):
                for p in L.paths:
                    evs += list(p.st.events)
                    clean = clean and all(I.node(p.st, root, path) == a for root, v in dict(L.parts)[p.key].mem.items() for path, a in wordarrays(v))
            n += sum(1 for e in {id(e): e for e in evs}.values() if e.k == "set")
            for root, v in [(("ret",), o.v)] + list(o.st.mem.items()):
                for _, a in wordarrays(v):
                    if r.startswith("collect"):
                        clean = clean and any(a == b for L in loops(o.st.events) for v2 in L.entry.mem.values() for _, b in wordarrays(v2))
                    elif not ends(c, I, o.st, a, False):
                        clean = False
        if n and clean:
            c.add(r, "proved", "%d calls of the operations on one position are the only writes" % n)
            c.sites["writes through the operations on one position"] = c.sites.get("writes through the operations on one position", 0) + n
            return
    if instance(c, pr, r) is False:
        return
    induction(c, pr, r)


def induction(c, pr, r):
    res = c.run(pr, r)
    if res is None:
        return
    I, outs = res
    seen = set()
    steps = 0
    ok = True
    for o in outs:
        for L in every_loop(o.st.events):
            heads = dict(L.parts)
            for p in L.paths:
                if id(p) in seen:
                    continue
                seen.add(id(p))
                k, good = preserved(c, I, "%s: step of the loop in %s" % (r, L.fn), heads[p.key], p, p.st)
                steps += k
                ok = ok and good
    for o in outs:
        if o.kind != "ret":
            continue
        # outside of the loops: the words come from a loop (whose steps preserve the padding), or are those of the start
        found = [a for root, v in [(("ret",), o.v)] + list(o.st.mem.items()) for _, a in wordarrays(v)]
        for a in found:
            if not ends(c, I, o.st, a, r.startswith("collect")):
                c.add(r, "open", "words are written outside of the loops: %r" % (a,))
                ok = False
    if ok and steps:
        c.add(r, "proved", "%d steps that write words" % steps)
        c.sites["loop steps that write words"] = c.sites.get("loop steps that write words", 0) + steps
    elif not steps:
        c.add(r, "open", "no loop that writes words found")


def check(c):
    pr = c.load("c15", harness())
    R = Rust(pr)
    for r, (_, _, val) in MAKE.items():
        def filled(I, a, val=val):
            j, n = a[1], a[2]
            b = j * 32 + 31 - n
            rng = [lt(j, param(I, "WORDS")), lt(n, 32)]
            return [(rng + [lt(b, size(I))], val(a)), (rng + [le(size(I), b)], FALSE)]
        c.cases(pr, r, filled)
    for k in OPS:
        r = "op_" + k

        def kept(I, a, o, r=r):
            if o.kind != "ret":
                return [([lt(a[3], param(I, "WORDS")), lt(a[4], 32)], R.val(r, [TRUE, TRUE]))]
            pad = [lt(a[4], 32), lt(a[3], param(I, "WORDS")), le(size(I), a[3] * 32 + 31 - a[4])]
            return [(pad + [o.v.f[0].neg()], Agg(R.root_ty(r), 0, [Any, FALSE])), (pad + [o.v.f[0]], Any)]
        c.cases(pr, r, kept)
    for r in BULK:
        bulk(c, pr, r)
    for r in COLLECT:
        bulk(c, pr, r)
        # the loop starts with the words of a grid without any position
        res = c.run(pr, r)
        if res is None:
            continue
        I, outs = res
        starts = set()
        for o in outs:
            for L in loops(o.st.events):
                for root, v in L.entry.mem.items():
                    for path, a in wordarrays(v):
                        if any(I.node(p.st, root, path) != I.node(dict(L.parts)[p.key], root, path) for p in L.paths):
                            starts.add((a, L.entry))
        good = bool(starts)
        for a, st in starts:
            j, k, pre = padding(I, a.len)
            good = good and forall(c, I, r + ": start", st, pre, lambda s: bits.bitof(I, s, I.arr_read(s, a, j), k, 32), lambda s: ZERO)
        if not good and instance(c, pr, r) is False:
            continue
        c.add(r + ": start", "proved" if good else "open", "the padding is clear at the start of the loop")

    # comparisons look at the words only
    def wordsof(I, a):
        r = cells(I, a)
        v = I.init_mem[r.root]
        for e in r.path:
            v = v.f[e[1]]
        return v
    res = c.run(pr, "eq")
    if res:
        I, outs = res
        x, y = (wordsof(I, a) for a in I.argvals)
        for o in outs:
            want = BoolV("t", ("eq", term(x), term(y)), True)
            good = o.kind == "ret" and (o.v == want or I.decide(o.st, o.v) is not None and o.st.facts.bools.get(want.a) == I.decide(o.st, o.v))
            c.add("eq", "proved" if good else "open", "%r" % (o.v,))
    if os.environ.get("SQV_HIST") or any(k == "eq" and v == "open" for k, v, _ in c.obs):
        k = len(c.obs)
        equality(c, pr, R)
        if not os.environ.get("SQV_HIST"):
            c.obs[k:] = [x for x in c.obs[k:] if x[1] == "violated"]
    c.cases(pr, "inner", lambda I, a: [([], [x for x in a[0].f if isinstance(x, ArrV)][0])])
    c.floor("operations on boolean grids", len(c.roots), 16)
