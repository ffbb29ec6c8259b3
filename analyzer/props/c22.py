"""C22: the convenience entry points are the generic operations with their arguments, diagonal mode and result passed through.
Decided by abstract interpretation of every entry point with the generic operations left uninterpreted: on every path exactly one
of them is called, it is the right one, with the arguments of the entry point in order and the diagonal mode of its type, and what
it returns is returned. The types the macros name are compared with the types they stand for by the type checker."""

from .. import build
import re

from .common import *
from ..interp import Outcome, Event, term

P_ = "P: PosT + Copy + Ord + std::hash::Hash + std::ops::Add<Dir, Output = Result<P, Error>>"
KS = "const D: bool, const WORDS: usize, const SIZE: usize"
GO = {"bf": "Option<P>", "bfi": "Option<P>", "astar": "Option<P>", "ucs": "Option<(P, usize)>"}
BACK = ["grid", "hash", "btree"]
SET = {"grid": "Gridbool<P, WORDS>", "hash": "std::collections::HashSet<P>", "btree": "std::collections::BTreeSet<P>"}
RES = {"bf": "Result<(P, Vec<Dir>), Error>", "astar": "Result<Vec<Dir>, Error>", "ucs": "Result<Vec<Dir>, Error>"}
SQ = "Sqrid::<XMAX, YMAX, D, WORDS, SIZE>"
XY = "const XMAX: u16, const YMAX: u16, "
CUTS = {"bfi": "::bf::bf_iter", "bf": "::bf::search_path", "astar": "::astar::search_path", "ucs": "::ucs::search_path",
        "camefrom": "::mappos::camefrom_into_path"}


def roots():
    """[(root, generic operation, harness text)]"""
    out = []
    for b in [None] + BACK:
        s = SET[b or "grid"]
        if b:
            out.append(("bf_iter_%s" % b, "bfi", "pub fn bf_iter_%s<F: Fn(P, Dir) -> Option<P>, %s, %s>(go: F, orig: &P) -> bf::BfIterator<F, %s, P, D, WORDS, SIZE> { bf::bf_iter_%s::<F, P, D, WORDS, SIZE>(go, orig) }" % (b, P_, KS, s, b)))
        n = "bf_iter" + ("_" + b if b else "")
        out.append(("s_" + n, "bfi", "pub fn s_%s<F: Fn(P, Dir) -> Option<P>, %s, %s%s>(go: F, orig: &P) -> bf::BfIterator<F, %s, P, D, WORDS, SIZE> { %s::%s::<P, F>(go, orig) }" % (n, P_, XY, KS, s, SQ, n)))
        for a in ("bf", "astar", "ucs"):
            g = ("F: Fn(P, Dir) -> %s, " % GO[a]) + ("G: Fn(P) -> bool, " if a == "bf" else "")
            last = "found: G" if a == "bf" else "dest: &P"
            args = "go, orig, " + last.split(":")[0]
            if b:
                n = "%s_%s" % (a, b)
                out.append((n, a, "pub fn %s<%s%s, %s>(go: F, orig: &P, %s) -> %s { %s::search_path_%s::<F, %sP, D, WORDS, SIZE>(%s) }" % (
                    n, g, P_, KS, last, RES[a], a, b, "G, " if a == "bf" else "", args)))
            m = ("bfs" if a == "bf" else a) + "_path" + ("_" + b if b else "")
            out.append(("s_" + m, a, "pub fn s_%s<%s%s, %s%s>(go: F, orig: &P, %s) -> %s { %s::%s::<%s>(%s) }" % (
                m, g, P_, XY, KS, last, RES[a], SQ, m, "P, F, G" if a == "bf" else "F, P", args)))
    out.append(("s_camefrom", "camefrom", "pub fn s_camefrom<M: MapPos<Option<Dir>, P, WORDS, SIZE>, %s, %s%s>(m: M, orig: &P, dest: &P) -> Result<Vec<Dir>, Error> { %s::camefrom_into_path::<P, M>(m, orig, dest) }" % (P_, XY, KS, SQ)))
    return out


def cut(I, st, call):
    """Override: the generic operations are not interpreted"""
    hits = [k for k, p in CUTS.items() if call.path.endswith(p) and call.path.startswith("sqrid::")]
    if not hits:
        return None
    st = st.copy()
    t = ("generic", hits[0]) + tuple(I.argterm(st, a) for a in call.args)
    v = Opq(call.dty, t)
    modes = [I.konst(a["c"], st) for a in call.callee["args"] if "c" in a]
    st.events = st.events + (Event("generic", (hits[0], tuple(call.args), v, modes), call.at, call.fr.body.path),)
    return [Outcome("ret", st, v)]


def check(c):
    rs = roots()
    pr = c.load("c22", "use sqrid::*;\n" + "\n".join(t for _, _, t in rs))
    for name, kind, _ in rs:
        res = c.run(pr, name, overrides=[cut])
        if res is None:
            continue
        I, outs = res
        D = None if kind == "camefrom" else param(I, "D")
        names = {"generic": CUTS[kind].strip(":")}
        for o in outs:
            es = [e for e in o.st.events if e.k == "generic"]
            if o.kind != "ret" or len(es) != 1:
                # an answer that does not come from the generic operation: its equality with it is not decided here
                c.add(name, "open", "%d calls of generic operations" % len(es))
                continue
            what, args, v, modes = es[0].a
            bad = None
            if what != kind:
                bad = "is %s instead of %s" % (CUTS[what].strip(":"), names["generic"])
            elif D is not None and modes[0] != D:
                bad = "runs with diagonal mode %r instead of that of its type" % (modes[0],)
            elif len(args) != len(I.argvals):
                bad = "passes %d arguments" % len(args)
            else:
                for n, x, y in zip(("first", "second", "third"), args, I.argvals):
                    if c.differs(I, o.st, x, y) is not False and I.argterm(o.st, x) != I.argterm(o.st, y):
                        tx = [n2 for n2, z in zip(("first", "second", "third"), I.argvals) if I.argterm(o.st, z) == I.argterm(o.st, x)]
                        bad = "passes %s as %s argument" % ("its %s argument" % tx[0] if tx else "%r" % (x,), n)
            r = I.resolve(o.st, o.v)
            if bad:
                if o.st.taint:
                    c.add(name, "open", bad)
                else:
                    c.violation(name, "%s %s (%s)" % (name, bad, rel_(es[0].at)))
            elif r == v or term(r) == term(v):
                c.add(name, "proved", "%s called once" % names["generic"])
            elif same_result(c, I, o.st, r, v):
                c.add(name, "proved", "%s called once" % names["generic"])
            elif isinstance(r, Opq) or isinstance(r, Agg):
                c.add(name, "open", "the result %r is not known to be that of the generic operation" % (r,))
    c.floor("entry points", len(c.roots), 28)
    types(c)


def rel_(at):
    from ..spec import rel
    return rel(at)


def same_result(c, I, st, r, v):
    """The result taken apart and put together again"""
    try:
        return c.differs(I, st, r, I.resolve(st, v)) is False
    except Undetermined:
        return False


SIZES = [(3, 4), (7, 3), (0, 0), (8, 5), (5, 8), (31, 0), (0, 31), (32, 0), (0, 32), (63, 2), (300, 2), (2, 300), (999, 699), (255, 255), (256, 1),
         (1, 256), (65534, 0), (0, 65534), (65534, 3), (3, 65534), (65534, 65534)]
NAMED = """
pub trait Named { const V: (u16, u16, bool, usize, usize); }
impl<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize> Named for Sqrid<X, Y, D, W, S> { const V: (u16, u16, bool, usize, usize) = (X, Y, D, W, S); }
impl<const X: u16, const Y: u16> Named for Pos<X, Y> { const V: (u16, u16, bool, usize, usize) = (X, Y, false, 0, 0); }
impl<const X: u16, const Y: u16, const S: usize> Named for Grid<u8, Pos<X, Y>, S> { const V: (u16, u16, bool, usize, usize) = (X, Y, false, 0, S); }
impl<const X: u16, const Y: u16, const W: usize> Named for Gridbool<Pos<X, Y>, W> { const V: (u16, u16, bool, usize, usize) = (X, Y, false, W, 0); }
pub const fn same(a: (u16, u16, bool, usize, usize), x: u16, y: u16, d: bool, words: bool, size: usize) -> bool {
    let n = (x as usize + 1) * (y as usize + 1);
    a.0 == x && a.1 == y && a.2 == d && a.4 == size && if words { n <= a.3 * 32 && n + 32 >= a.3 * 32 } else { a.3 == 0 }
}
"""


def types(c):
    """The macros name the types with the limits, mode, number of positions and cells they are given. The number of words is free,
    as long as it passes the check of the boolean grid. Decided by the compiler: the constants of the types are compared in
    constants of the program."""
    lines, names = [], {}
    head = "#![allow(unused)]\nuse sqrid::*;" + NAMED + "".join("type P%dx%d = Pos<%d, %d>;\n" % (x, y, x, y) for x, y in SIZES)
    n0 = head.count("\n") + 1

    def want(name, ty, x, y, d, words, size):
        names[n0 + len(lines)] = (name, ty)
        lines.append("const _: () = assert!(same(<%s as Named>::V, %d, %d, %s, %s, %d));" % (
            ty, x, y, str(d).lower(), str(words).lower(), size))
        c.roots.add(name)
    for x, y in SIZES:
        n = (x + 1) * (y + 1)
        for d in (False, True):
            ds = str(d).lower()
            want("sqrid_create", "sqrid_create!(%d, %d, %s)" % (x, y, ds), x, y, d, True, n)
            want("sqrid_create of a position", "sqrid_create!(P%dx%d, %s)" % (x, y, ds), x, y, d, True, n)
        q = "Sqrid<%d, %d, false, 1, %d>" % (x, y, n)
        want("pos_create", "pos_create!(%s)" % q, x, y, False, False, 0)
        want("grid_create", "grid_create!(%s, u8)" % q, x, y, False, False, n)
        want("gridbool_create", "gridbool_create!(%s)" % q, x, y, False, True, 0)
        names[n0 + len(lines)] = ("limits", q)
        lines.append("const _: () = assert!(<%s>::XMAX == %d && <%s>::YMAX == %d);" % (q, x, q, y))
    c.roots.add("limits")
    ok, diag = build.compiles("c22-macros", head + "\n".join(lines) + "\n")
    bad = {}
    for m in re.finditer(r"c22-macros\.rs:(\d+):", diag if not ok else ""):
        k = names.get(int(m.group(1)))
        if k:
            bad.setdefault(k[0], k[1])
    if not ok and not bad:
        bad = {"sqrid_create": "the types it names"}
    for n in sorted(set(v[0] for v in names.values())):
        if n in bad:
            c.violation(n, "%s does not name the type it stands for: %s" % (n, bad[n]))
        else:
            c.add(n, "proved", "%d sizes type checked" % sum(v[0] == n for v in names.values()))
