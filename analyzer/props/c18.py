"""C18: breadth-first search. Decided by abstract interpretation of one call of the iterator from an arbitrary state - arbitrary
visited set, fronts of up to two unknown positions - with a movement function that leads to unknown positions in every choice of up
to two directions: it tries every direction of every position of the front, returns that front, and the next front consists of
exactly the positions reached and not visited before, each once with the direction back, which are then visited. New iterators
start from the origin, the search records the moves of the positions as they come and stops at the first one that is found, and the
path is the reconstruction of that map (C21) from the origin to what was found."""

import re

from .common import *
from .search import *
from .seq import seqs, vec, known, values
from ..interp import Outcome, sym, term

PQ = "Pos<XMAX, YMAX>"
G = "<const XMAX: u16, const YMAX: u16, S: SetPos<%s, W, Z>%s, F: Fn(%s, Dir) -> Option<%s>, const D: bool, const W: usize, const Z: usize>"


def harness():
    g = G % (PQ, "", PQ, PQ)
    gd = G % (PQ, " + Default", PQ, PQ)
    it = "bf::BfIterator<F, S, %s, D, W, Z>" % PQ
    return """use sqrid::*;
pub fn next%s(it: &mut %s) -> Option<Vec<(%s, Dir)>> { it.next() }
pub fn start%s(go: F, o: %s) -> %s { bf::bf_iter::<F, S, %s, D, W, Z>(go, &o) }
pub fn made%s(go: F, o: %s) -> %s { bf::BfIterator::<F, S, %s, D, W, Z>::new(go, &o) }
pub fn search<const XMAX: u16, const YMAX: u16, S: SetPos<[P], W, Z> + Default, M: MapPos<Option<Dir>, [P], W, Z> + Default, F: Fn([P], Dir) -> Option<[P]>, N: Fn([P]) -> bool, const D: bool, const W: usize, const Z: usize>(go: F, o: [P], found: N) -> Result<([P], M), Error> { bf::search_mapmov::<F, N, M, S, [P], D, W, Z>(go, &o, found) }
pub fn path<const XMAX: u16, const YMAX: u16, S: SetPos<[P], W, Z> + Default, M: MapPos<Option<Dir>, [P], W, Z> + Default, F: Fn([P], Dir) -> Option<[P]>, N: Fn([P]) -> bool, const D: bool, const W: usize, const Z: usize>(go: F, o: [P], found: N) -> Result<([P], Vec<Dir>), Error> { bf::search_path::<F, N, M, S, [P], D, W, Z>(go, &o, found) }
""".replace("[P]", PQ) % (g, it, PQ, gd, PQ, it, PQ, gd, PQ, it, PQ)


def isfront(v):
    return hasattr(v, "ty") and v.ty is not None and v.ty.path == "alloc::vec::Vec"


def isset(v):
    return isinstance(v, Model) and v.k == "ideal" or isinstance(v, Opq) and v.ty.k == "param" and v.ty.d.get("name") == "S"


def expansion(c, I, name, st, front, was, it, D):
    """The effects of expanding a front: visited set and next front of the iterator after it"""
    fs, ss = find(it, isfront), find(it, isset)
    if len(fs) != 1 or len(ss) != 1:
        c.add(name, "open", "the iterator holds %d vectors and %d sets" % (len(fs), len(ss)))
        return False
    nxt, vis = at(it, fs[0]), at(it, ss[0])
    if not known(nxt):
        c.add(name, "open", "the next front is not understood: %r" % (nxt,))
        return False
    pushed = [(x.f[0], x.f[1]) for x in values(I, st, nxt)]
    gone = logged(st, "go")
    # every direction of every position
    want = DIRS if D else DIRS[::2]
    for p, d, _ in gone:
        if not any(equal_now(I, st, p, q) for q in front):
            return wrong(c, name, st, "moves from %r, which is not in the front %r" % (p, front))
        if d.ty.vname(d.v) not in want:
            return wrong(c, name, st, "moves to %s %s diagonals" % (d.ty.vname(d.v), "with" if D else "without"))
    for q in front:
        for n in want:
            if not any(equal_now(I, st, p, q) and d.ty.vname(d.v) == n for p, d, _ in gone):
                return wrong(c, name, st, "does not move %s from %r of the front" % (n, q))
    reached = [(p, d, v.f[0]) for p, d, v in gone if v.f]

    def judge(s):
        def before(q):
            """visited before, or part of the front"""
            if any(equalpos(I, s, q, p) for p in front):
                return True
            if was is None:
                return False
            return truth(I, s, member(I, s, was, tuple(leaves(q))))
        for i, (q, e) in enumerate(pushed):
            src = [(p, d) for p, d, r in reached if equalpos(I, s, r, q)]
            if not src:
                return "puts %r in the next front, where no move leads" % (q,)
            if before(q):
                return "puts %r in the next front, which was visited before" % (q,)
            if any(equalpos(I, s, q, r) for r, _ in pushed[:i]):
                return "puts %r in the next front twice" % (q,)
            back = [opposite(I, s, e, d) for p, d in src]
            if True not in back:
                if None in back:
                    raise Undetermined("the direction back")
                return "records %r for a position reached by %r" % (e, [d for p, d in src])
        for p, d, q in reached:
            if not before(q) and not any(equalpos(I, s, q, r) for r, _ in pushed):
                return "leaves out %r, reached for the first time" % (q,)
        # the visited set: exactly the front and the next front are added
        if isinstance(vis, Model):
            for k, x in vis.f[1]:
                if I.truth(s, x) is not True:
                    return "takes %r out of the visited positions" % (k,)
                if not any(samekey(I, s, k, leaves(q)) for q in front + [r for r, _ in pushed]) and not (was is not None and truth(I, s, member(I, s, was, k))):
                    return "marks %r as visited, which is not" % (k,)
            for q in [r for r, _ in pushed] + (front if was is None else []):
                if truth(I, s, member(I, s, vis, tuple(leaves(q)))) is not True:
                    return "does not mark %r as visited" % (q,)
        elif pushed:
            return "does not mark the next front as visited"
        return None
    ok = True
    for s, why in split_all(I, st, judge):
        if why:
            ok = wrong(c, name, s, why)
    return ok


def equal_now(I, st, p, q):
    return all(st.facts.entails_eq(st.facts.norm(x - y)) for x, y in zip(leaves(p), leaves(q)))


def choices(D, n, thorough):
    """Which uses of the movement function lead somewhere: sets of (position of the front, direction)"""
    k = 8 if D else 4
    one = [{(i, j)} for i in range(n) for j in range(k)]
    pairs = [{(i, j), (i, (j + 1) % k)} for i in range(n) for j in range(k)] if n == 1 or not D else []
    if n == 2:
        pairs += [{(0, j), (1, (j + s) % k)} for j in range(k) for s in ((0, 1) if not D else (1,))]
    if D and not thorough:
        one, pairs = one[::1] if n == 1 else one[::3], pairs[::3]
    return [set()] + one + pairs


def label(D, n, ch):
    return "%s, front of %d" % ("with diagonals" if D else "without diagonals", n)


def check(c):
    pr = c.load("c18", harness())
    thorough = c.tier == "thorough"
    for D in (False, True):
        want = DIRS if D else DIRS[::2]
        for n in (0, 1, 2):
            for ch in choices(D, n, thorough) if n else [set()]:
                one(c, pr, D, n, ch, want)
        for n, ch in ((1, {(0, 1)}), (2, {(0, 2), (1, 2)}), (2, {(1, 0)}), (2, {(0, 3)})):
            one(c, pr, D, n, ch, want, True)
        for ch in choices(D, 1, thorough):
            for root in ("start", "made"):
                start(c, pr, root, D, ch, want)
        searches(c, pr, "search", True, D)
    paths(c, pr, "path", "bf", True)
    c.floor("searches", len(c.roots), 5)


def chosen(ch, fr, want):
    def some(n, p, d):
        for i, q in enumerate(fr):
            if leaves(p) == leaves(q):
                return (i, want.index(d.ty.vname(d.v)) if d.ty.vname(d.v) in want else -1) in ch
        return False
    return some


def longer(front, n):
    """Override: the front may be longer than the positions that are looked at (from the others no move leads anywhere)"""
    def ov(I, st, call):
        if not re.match(r"^(alloc::vec::Vec::<.*>|core::slice::<impl \[T\]>)::len$", call.path) or not isinstance(call.args[0], Ref):
            return None
        v = I.read(st, call.args[0].root, call.args[0].path[:-1] if call.args[0].fat else call.args[0].path)
        f = front()
        if not known(v) or f is None:
            return None
        if not values(I, st, v) or [term(x) for x in values(I, st, v)] != [term(x) for x in values(I, st, f)]:
            if call.args[0].root != I.argvals[0].root:
                return None
            # the next front holds positions reached from the rest of the front as well
            return [Outcome("ret", st.copy(), P(sym("next.len", 0, 1 << 32)) + len(values(I, st, v)))]
        return [Outcome("ret", st.copy(), P(sym("front.len", n, 1 << 32)))]
    return ov


def one(c, pr, D, n, ch, want, wide=False):
    name = "next " + label(D, n, ch)
    if wide:
        # of the obligations of a longer front only violations are kept: what else it does with the rest is not looked at
        k = len(c.obs)
        one2(c, pr, D, n, ch, want, name + " and more", True)
        c.obs[k:] = [x for x in c.obs[k:] if x[1] == "violated"]
    else:
        one2(c, pr, D, n, ch, want, name, False)


def one2(c, pr, D, n, ch, want, name, wide):
    fr = []
    box = {}

    def arg(I, st, ty):
        r = I.fresh(ty, "it", st)
        v = st.mem[r.root]
        ps = find(v, isfront)
        ss = find(v, isset)
        if len(ps) != 1 or len(ss) != 1:
            raise Undetermined("the iterator holds %d vectors and %d sets" % (len(ps), len(ss)))
        vt = at(v, ps[0]).ty
        et = vt.targs()[0]
        xs = [I.fresh(et, "f%d" % i, st) for i in range(n)]
        del fr[:]
        fr.extend(x.f[0] for x in xs)
        old = at(v, ss[0])
        # positions of a front are distinct and have been visited
        was = Model("ideal", (("was", term(old)), tuple((tuple(leaves(q)), TRUE) for q in fr)), old.ty)
        box["was"], box["front"] = was, vec(vt, xs)
        if n == 2:
            a, b = leaves(fr[0]), leaves(fr[1])
            st.facts.add_ne(a[0] - b[0])
        v = put(put(v, ps[0], box["front"]), ss[0], was)
        st.mem[r.root] = v
        return r
    res = c.run(pr, "next", name=name, args={"it": arg}, cvals={"D": int(D)}, delay=12,
                overrides=([longer(lambda: box.get("front"), n)] if wide else []) + [stores, steps(lambda k, p, d: chosen(ch, fr, want)(k, p, d), fresh_step), negs, seqs])
    if res is None:
        return
    I, outs = res
    it = I.argvals[0]
    good = 0
    for o in outs:
        if o.kind != "ret":
            c.add(name, "open", "may panic: " + o.msg)
            continue
        v = I.resolve(o.st, o.v)
        after = I.read(o.st, it.root, it.path)
        if n == 0:
            if v.ty.vname(v.v) == "None" and not logged(o.st, "go"):
                good += 1
            else:
                wrong(c, name, o.st, "does not end when there is no next front")
            continue
        if not isinstance(v, Agg) or v.ty.vname(v.v) != "Some":
            wrong(c, name, o.st, "ends although the next front is not empty")
            continue
        d = c.differs(I, o.st, v.f[0], box["front"])
        if d is not False:
            if d is True:
                wrong(c, name, o.st, "returns %r instead of the front" % (v.f[0],))
            else:
                c.add(name, "open", "returns %r instead of the front" % (v.f[0],))
            continue
        try:
            good += bool(expansion(c, I, name, o.st, list(fr), box["was"], after, D))
        except Undetermined as e:
            c.add(name, "open", str(e))
    if good:
        c.add(name, "proved", "%d ways, moves %s" % (good, sorted(ch)))


def start(c, pr, root, D, ch, want):
    name = root + " " + label(D, 1, ch)
    fr = []

    def origin(I, st, ty):
        v = I.fresh(ty, "o", st)
        del fr[:]
        fr.append(v)
        return v
    res = c.run(pr, root, name=name, args={"o": origin}, cvals={"D": int(D)}, delay=12,
                overrides=[stores, steps(lambda k, p, d: chosen(ch, fr, want)(k, p, d), fresh_step), negs, seqs])
    if res is None:
        return
    I, outs = res
    good = 0
    for o in outs:
        if o.kind != "ret":
            c.add(name, "open", "may panic: " + o.msg)
            continue
        try:
            good += bool(expansion(c, I, name, o.st, list(fr), None, I.resolve(o.st, o.v), D))
        except Undetermined as e:
            c.add(name, "open", str(e))
    if good:
        c.add(name, "proved", "%d ways, moves %s" % (good, sorted(ch)))
