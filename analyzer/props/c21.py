"""C21: turning recorded moves into a path follows them one by one, and always ends. Decided by abstract interpretation for an
arbitrary map, origin, destination and grid: every way through the walk with up to three recorded moves returns exactly the moves
followed, reversed, or the error the documentation gives; and by the loop's induction variable: the number of moves is bounded by
a multiple of the number of positions, and an error for a cycle is returned only after more moves than a simple path can have."""

import re

from .common import *
from .seq import seqs, known, values
from .walk import *
from ..interp import Outcome
from ..facts import Unknown

M = "MapPos<Option<Dir>, %s, W, S>"


def harness():
    return """use sqrid::*;
pub fn any<P: PosT + Copy + PartialEq + std::ops::Add<Dir, Output = Result<P, Error>>, M: MapPos<Option<Dir>, P, W, S>, const W: usize, const S: usize>(m: M, o: P, d: P) -> Result<Vec<Dir>, Error> { camefrom_into_path(m, &o, &d) }
pub fn three<P: PosT + Copy + PartialEq + std::ops::Add<Dir, Output = Result<P, Error>>, M: MapPos<Option<Dir>, P, W, S>, const W: usize, const S: usize>(m: M, o: P, d: P) -> Result<Vec<Dir>, Error> { camefrom_into_path(m, &o, &d) }
pub fn pos<const XMAX: u16, const YMAX: u16, M: MapPos<Option<Dir>, Pos<XMAX, YMAX>, W, S>, const W: usize, const S: usize>(m: M, o: Pos<XMAX, YMAX>, d: Pos<XMAX, YMAX>) -> Result<Vec<Dir>, Error> { camefrom_into_path(m, &o, &d) }
"""


def err(o, I):
    v = I.resolve(o.st, o.v)
    if isinstance(v, Agg) and v.ty.vname(v.v) == "Err":
        e = I.resolve(o.st, v.f[0])
        return e.ty.vname(e.v) if isinstance(e, Agg) else "?"
    return None


def walk(I, o, orig, dest):
    """Follows the recorded moves of a path: ('error', name) or ('path', [moves]), and the number of moves; None: not determined"""
    st = o.st
    gets = [(k, I.resolve(st, v)) for k, v in logged(st, "mapget")]
    adds = [(e.a[2][0], e.a[2][1], I.resolve(st, e.a[3])) for e in st.events if e.k == "op" and e.a[0].endswith("::Add::add")]

    def entry(p):
        for k, v in gets:
            if term(behind(I, st, k)) == term(p):
                return v if isinstance(v, Agg) else None
        return None
    p, moves = behind(I, st, dest), []
    first = entry(p)
    if first is None:
        return None
    if first.ty.vname(first.v) == "None":
        return ("error", "DestinationUnreachable"), 0
    while True:
        same = issame(I, st, p, orig)
        if same is None:
            return (("stopped", moves), len(moves)) if moves and err(o, I) == "Loop" else None
        if same:
            return ("path", moves), len(moves)
        e = entry(p)
        if e is None:
            return None
        if e.ty.vname(e.v) == "None":
            return ("error", "InvalidMovement"), len(moves)
        d = e.f[0]
        moves = [d] + moves
        for a, b, r in adds:
            if term(behind(I, st, a)) == term(p) and c_same(I, st, b, d):
                break
        else:
            return ("stopped", moves), len(moves)
        if not isinstance(r, Agg):
            return ("stopped", moves), len(moves)
        if r.ty.vname(r.v) == "Err":
            return ("error", "InvalidMovement"), len(moves)
        p = r.f[0]


def c_same(I, st, a, b):
    a, b = I.resolve(st, a), I.resolve(st, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.v == b.v
    return term(a) == term(b)


def steps(c, pr, root, limit, ov):
    res = c.run(pr, root, overrides=ov + [fewmoves(limit), seqs], delay=limit + 2)
    if res is None:
        return
    I, outs = res
    orig, dest = I.argvals[1], I.argvals[2]
    n = 0
    for o in outs:
        if loops(o.st.events):
            c.add(root, "open", "the walk is not over after %d recorded moves" % limit)
            continue
        if o.kind != "ret":
            if any(e.a[0].endswith("MapPos::get") or e.a[0] == "mapget" for e in o.st.events if e.k == "op"):
                c.add(root, "open", "may panic: " + o.msg)
            continue  # the size estimate of positions far apart (C28)
        w = walk(I, o, orig, dest)
        got = err(o, I)
        if w is None:
            c.add(root, "open", "the walk is not recognised")
            continue
        (kind, what), k = w
        if got == "Loop" and kind != "path" and k:
            n += 1  # whether that many moves are enough is decided below
            continue
        if kind == "stopped":
            c.add(root, "open", "ends after a recorded move without following it")
            continue
        want = what if kind == "error" else "the path of %d moves" % len(what)
        if kind == "error":
            if got == what:
                n += 1
            elif c.real(o.st) is not None:
                c.violation(root, "after %d recorded moves: returns %s where %s is required" % (k, got or "a path", want))
            else:
                c.add(root, "open", "returns %s where %s is required" % (got, want))
            continue
        v = I.resolve(o.st, o.v)
        if got is not None:
            if c.real(o.st) is not None:
                c.violation(root, "after %d recorded moves: returns the error %s where %s is required" % (k, got, want))
            else:
                c.add(root, "open", "returns the error %s where %s is required" % (got, want))
            continue
        xs = values(I, o.st, v.f[0]) if isinstance(v, Agg) and known(v.f[0]) else None
        if xs is None:
            c.add(root, "open", "the path returned is not understood: %r" % (v,))
            continue
        rs = [opposite(I, o.st, x, d) for x, d in zip(xs, what)]
        if len(xs) != len(what) or False in rs:
            if c.real(o.st) is not None:
                c.violation(root, "returns %r for the recorded moves %r from the destination back" % (xs, what[::-1]))
            else:
                c.add(root, "open", "another path than the one recorded")
        elif None in rs:
            c.add(root, "open", "the path %r for the recorded moves %r" % (xs, what))
        else:
            n += 1
    if n:
        c.add(root, "proved", "%d ways through walks of up to %d moves" % (n, limit))


def anymove(I, st, call):
    """Override: a move leads to an unknown position, or nowhere (C08 decides where)"""
    if re.search(r"Add<\S*dir::Dir>(?: for .*)?>::add$", call.path) and call.dty.isenum():
        st = st.copy()
        v = I.fresh(call.dty, ("move", next(I.ids)), st)
        log(st, "move", call.args[0], call.args[1], v)
        return [Outcome("ret", st, v)]
    return None


SEQ = r"alloc::(?:vec::Vec|collections::vec_deque::VecDeque|collections::VecDeque)(?:::)?<.*?>"


def lengths(I, st, call):
    """Override: vectors and queues of moves, of which only the length is known"""
    m = re.match(r"^(?:<)?%s(?: as .*>)?::(\w+)$" % SEQ, call.path)
    if not m:
        return None
    op = m.group(1)
    if op in ("new", "with_capacity", "default") and call.dty.path.startswith("alloc::"):
        return [Outcome("ret", st.copy(), Model("moves", (P(0),), call.dty))]
    if op in ("from", "into") and isinstance(call.args[0], Model) and call.args[0].k == "moves":
        return [Outcome("ret", st.copy(), Model("moves", call.args[0].f, call.dty))]
    r = call.args[0] if call.args else None
    v = I.read(st, r.root, r.path) if isinstance(r, Ref) else None
    if not (isinstance(v, Model) and v.k == "moves"):
        return None
    if op in ("push", "push_back", "push_front"):
        st = st.copy()
        I.write(st, r.root, r.path, Model("moves", (v.f[0] + 1,), v.ty), call.at, call.fr.body.path)
        return [Outcome("ret", st, I.unit(call.dty))]
    if op == "len":
        return [Outcome("ret", st.copy(), v.f[0])]
    if op == "is_empty":
        return [Outcome("ret", st.copy(), eq(v.f[0], 0))]
    return None


def plain(L):
    """Nothing but lookups, moves, comparisons and pushes happens in the loop"""
    names = {e.a[0] for p in L.paths for e in p.st.events if e.k == "op"}
    return all(x.endswith(("MapPos::get", "Add::add", "push_front", "push_back", "Vec::<T, A>::push", "PartialEq::eq", "PartialEq::ne", "Neg>::neg", "move",
                           "with_capacity", "PosT::manhattan", "::new")) for x in names)


def bounds(c, pr):
    """The number of moves is bounded; cycles are reported only when there must be one"""
    res = c.run(pr, "pos", overrides=[negs, anymove, lengths])
    if res is None:
        return
    I, outs = res
    size = W(I) * H(I)
    ls = {id(L): L for o in outs for L in loops(o.st.events)}
    if len(ls) != 1:
        seen = {L.span for L in ls.values()}
        if len(seen) != 1:
            return c.add("bound", "open", "%d loops" % len(seen))
    n = 0
    for L in ls.values():
        for p in L.paths:
            if p.kind != "back":
                continue
            n += 1
            s = p.st.copy()
            if s.facts.entails_le(P(L.k) - 4 * size - 16):
                continue
            if plain(L) and not any(q[0] == "ind" for q in L.plan.values()):
                return c.violation("bound", "nothing bounds the number of moves followed: a map with a cycle is followed for ever")
            n = None
            c.add("bound", "open", "no bound for the number of moves is found")
            break
        if n is None:
            break
    if n is not None:
        c.add("bound", "proved" if n else "open", "%d ways around the loop, at most 4*W*H+16 times" % n)
    n = 0
    for o in outs:
        if o.kind == "ret" and err(o, I) == "Loop":
            ls = loops(o.st.events)
            if len(ls) != 1:
                c.add("loop error", "open", "a cycle is reported outside of the walk")
                continue
            s = o.st.copy()
            if s.facts.entails_le(size - P(ls[0].k) - 1):
                n += 1
                continue
            # an arbitrary map has a simple path of every length below W*H: only the counter decides here
            env = None
            if plain(ls[0]) and not s.taint:
                for e in s.facts.points(P(ls[0].k).atoms() | size.atoms(), n=40, tries=2000):
                    try:
                        if e.poly(P(ls[0].k)) + 1 < e.poly(size):
                            env = e
                            break
                    except Unknown:
                        continue
            if env is not None:
                return c.violation("loop error", "a cycle is reported after %d moves in a grid of %d positions" % (env.poly(P(ls[0].k)) + 1, env.poly(size)))
            else:
                c.add("loop error", "open", "a cycle may be reported for a simple path: %s" % s.facts.describe()[:8])
    if n:
        c.add("loop error", "proved", "%d ways, only after W*H moves" % n)


def small(c, pr, xmax, ymax):
    """All walks of a small grid: no cycle is reported before as many moves as there are positions"""
    size = (xmax + 1) * (ymax + 1)
    root = "small %dx%d" % (xmax + 1, ymax + 1)
    res = c.run(pr, "pos", name=root, overrides=[negs, fewmoves(size), seqs], delay=4 * size + 2, cvals={"XMAX": xmax, "YMAX": ymax})
    if res is None:
        return
    I, outs = res
    orig, dest = I.argvals[1], I.argvals[2]
    n = 0
    for o in outs:
        if o.kind != "ret":
            c.add(root, "open", "may panic: " + o.msg)
            continue
        if loops(o.st.events):
            c.add(root, "open", "still walking after %d moves" % (4 * size))
            continue
        if err(o, I) != "Loop":
            n += 1
            continue
        # distinct positions looked up: each one but the last leads to the next
        ps = []
        for k, _ in logged(o.st, "mapget"):
            if not any(issame(I, o.st, k, q) is True for q in ps):
                ps.append(k)
        moved = len(logged(o.st, "mapget")) - 1
        if moved >= size:
            n += 1
        elif all(issame(I, o.st, p, q) is False for i, p in enumerate(ps) for q in ps[:i]) and len(ps) == moved and c.real(o.st) is not None:
            c.violation(root, "reports a cycle after %d moves through distinct positions" % moved)
        else:
            c.add(root, "open", "reports a cycle after %d moves" % moved)
    if n:
        c.add(root, "proved", "%d ways" % n)


def check(c):
    pr = c.load("c21", harness())
    steps(c, pr, "any", 2, [])
    steps(c, pr, "three", 3, [negs])
    bounds(c, pr)
    small(c, pr, 1, 0)
    small(c, pr, 2, 0)
    small(c, pr, 0, 2)
    c.floor("walks", len(c.roots), 3)
