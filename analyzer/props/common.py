"""Helpers shared by the properties"""

from .. import build
from ..expr import P, ZERO, sym, div, mod
from ..spec import Agg, le, lt, eq, TRUE, FALSE, Any, BoolV, boolv, Poly, Model, ArrV, Opq, Ref, Undetermined

INTS = ["usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128"]


def make(ty, leaves):
    """Value of a struct/tuple type with the given integer leaves, in order"""
    it = iter(leaves)

    def go(t):
        if t.k in ("int", "bool", "char"):
            return next(it)
        el = t.elems()
        if el is None and t.isenum() and len(t.d["variants"]) == 1:
            return Agg(t, 0, [go(x) for x in t.vfields(0)])
        if el is None:
            raise Undetermined("no value of type %s" % t)
        return Agg(t, 0, [go(x) for x in el])
    return go(ty)


def leaves(v):
    """The integers (conditions) inside a value, in order"""
    if isinstance(v, Agg):
        r = []
        for x in v.f:
            r += leaves(x)
        return r
    return [v]


class Rust:
    """Builds values of the types a harness returns"""

    def __init__(self, prog):
        self.p = prog

    def root_ty(self, root):
        return self.p.bodies[self.p.roots[root]["key"]].locals[0]

    def arg_ty(self, root, i):
        return self.p.bodies[self.p.roots[root]["key"]].locals[i + 1]

    def ok(self, root, v):
        t = self.root_ty(root)
        return Agg(t, t.vindex("Ok"), [v])

    def err(self, root, name):
        t = self.root_ty(root)
        e = t.vfields(t.vindex("Err"))[0]
        return Agg(t, t.vindex("Err"), [Agg(e, e.vindex(name), [])])

    def some(self, root, v):
        t = self.root_ty(root)
        return Agg(t, t.vindex("Some"), [v])

    def none(self, root):
        t = self.root_ty(root)
        return Agg(t, t.vindex("None"), [])

    def okty(self, root):
        t = self.root_ty(root)
        return t.vfields(t.vindex("Some" if t.path.endswith("Option") else "Ok"))[0]

    def okval(self, root, xs):
        return self.ok(root, make(self.okty(root), xs))

    def someval(self, root, xs):
        return self.some(root, make(self.okty(root), xs))

    def val(self, root, xs):
        return make(self.root_ty(root), xs)

    def variant(self, root, name):
        t = self.root_ty(root)
        return Agg(t, t.vindex(name), [])


def param(I, name):
    return I.konst({"k": "param", "name": name}, None)


def deref(I, a):
    """Initial value behind a reference argument"""
    return I.init_mem[a.root] if isinstance(a, Ref) else a


def inside(lo, v, hi):
    return [le(lo, v), le(v, hi)]


def split_in(lo, v, hi):
    """Conditions: inside, and the two ways to be outside"""
    return inside(lo, v, hi), [lt(v, lo)], [le(lo, v), lt(hi, v)]


def in_box(x, y, xmax, ymax, yes, no, xmin=0, ymin=0):
    """Cases: (x, y) inside the box -> yes, else no"""
    r = []
    xi, xl, xh = split_in(P(xmin), x, P(xmax))
    yi, yl, yh = split_in(P(ymin), y, P(ymax))
    r.append((xi + yi, yes))
    for o in (xl, xh):
        r.append((o, no))
    for o in (yl, yh):
        r.append((xi + o, no))
    return r


def lex(a, b):
    """Cases of the lexicographic comparison of two lists: [(conditions, 'Less'|'Equal'|'Greater')]"""
    r = []
    pre = []
    for x, y in zip(a, b):
        r.append((pre + [lt(x, y)], "Less"))
        r.append((pre + [lt(y, x)], "Greater"))
        pre = pre + [eq(x, y)]
    r.append((pre, "Equal"))
    return r


def comparisons(c, pr, B, vals, R, pre=()):
    """eq, cmp and pcmp roots: vals(a) -> two lists of leaves"""
    def two(a):
        x, y = vals(a)
        return (x if isinstance(x, list) else [x]), (y if isinstance(y, list) else [y])
    c.cases(pr, B + "eq", lambda I, a: [(k, boolv(v == "Equal")) for k, v in lex(*two(a))], pre=pre)
    ot = R.root_ty(B + "cmp")

    def order(wrap):
        return lambda I, a: [(k, wrap(Agg(ot, ot.vindex(v), []))) for k, v in lex(*two(a))]
    c.cases(pr, B + "cmp", order(lambda v: v), pre=pre)
    c.cases(pr, B + "pcmp", order(lambda v: R.some(B + "pcmp", v)), pre=pre)


def witness(c, name, good, bad, why):
    """bad must be rejected by the compiler; its twin good, which differs only by the offending construct, must be accepted"""
    g, gd = build.compiles(name + "_ok", good)
    if not g:
        c.violation("witness " + name, "the twin of a compile-fail witness no longer compiles (%s):\n%s" % (why, gd[:1500]))
        return
    b, bd = build.compiles(name + "_bad", bad)
    if b:
        c.violation("witness " + name, "a program that has to be rejected compiles: %s\n%s" % (why, bad))
    else:
        import re
        codes = sorted(set(re.findall(r"error\[(E\d+)\]", bd)))
        c.add("witness " + name, "proved", "%s: rejected (%s)" % (why, ", ".join(codes)))
        c.sites["compile-fail witnesses"] = c.sites.get("compile-fail witnesses", 0) + 1


DIRS = ["N", "NE", "E", "SE", "S", "SW", "W", "NW"]
DELTA = [(0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1)]


def isvar(v, i):
    """Condition: the enum value v is its variant i"""
    if isinstance(v, Agg):
        return boolv(v.v == i)
    return lambda f: f.add_variant(v.term, i)


def isname(v, name):
    return isvar(v, v.ty.vindex(name))


def enumv(ty, name, *f):
    return Agg(ty, ty.vindex(name), list(f))


def dirs(v):
    """(index, condition that v is direction number index)"""
    return [(i, isname(v, n)) for i, n in enumerate(DIRS)]


# enumeration: a finite sequence given by its ends, a successor and a predecessor, as cases


def same(p, q):
    """[(conditions, p == q)] of two lists of leaves"""
    r, pre = [], []
    for x, y in zip(p, q):
        r.append((pre + [eq(x, y).neg()], False))
        pre = pre + [eq(x, y)]
    return [(pre, True)] + r


def consume(steps, lo, hi, succ, pred):
    """What the calls in steps ('f' next, 'b' next_back) return for the remaining sequence lo..hi (None: empty):
    [(conditions, [leaves or None])]"""
    if not steps:
        return [([], [])]
    if lo is None:
        return [(c, [None] + r) for c, r in consume(steps[1:], None, None, succ, pred)]
    out = []
    for k, eqq in same(lo, hi):
        if eqq:
            out += [(k + c, [lo] + r) for c, r in consume(steps[1:], None, None, succ, pred)]
        elif steps[0] == "f":
            for k2, n in succ(lo):
                out += [(k + k2 + c, [lo] + r) for c, r in consume(steps[1:], n, hi, succ, pred)]
        else:
            for k2, n in pred(hi):
                out += [(k + k2 + c, [hi] + r) for c, r in consume(steps[1:], lo, n, succ, pred)]
    return out


def calls(steps):
    return "(%s)" % ", ".join({"f": "it.next()", "b": "it.next_back()"}[s] for s in steps)


def options(R, root, rs):
    """A tuple of options as the harness function returns it"""
    t = R.root_ty(root)
    fs = []
    for et, r in zip(t.elems(), rs):
        if r is None:
            fs.append(Agg(et, et.vindex("None"), []))
        else:
            fs.append(Agg(et, et.vindex("Some"), [make(et.vfields(et.vindex("Some"))[0], r)]))
    return Agg(t, 0, fs)


def start_state(c, prog, root, args=None, cvals=None):
    """The value a function without branches returns, or None"""
    r = c.run(prog, root, args=args, cvals=cvals)
    if r is None:
        return None
    I, outs = r
    outs = [o for o in outs if o.kind == "ret"]
    if len(outs) != 1:
        return None
    return I, outs[0].v


def opts(v):
    """The options among the fields of an iterator, with their position"""
    if not isinstance(v, Agg):
        return []
    r = []
    for i, x in enumerate(v.f):
        if isinstance(x, Agg) and x.ty.path.endswith("option::Option"):
            r.append(((i,), x))
        elif isinstance(x, Agg):
            r += [((i,) + p, y) for p, y in opts(x)]
    return r


def only_options(v, also=()):
    """Does an iterator consist of nothing but options (and the given other leaves)?"""
    if not isinstance(v, Agg):
        return v in also
    if v.ty.path.endswith("option::Option"):
        return True
    if v in also:
        return True
    return all(only_options(x, also) for x in v.f)


def put(v, path, x):
    if not path:
        return x
    f = list(v.f)
    f[path[0]] = put(f[path[0]], path[1:], x)
    return Agg(v.ty, v.v, f)


# loops as inductions ---------------------------------------------------------------------------


def loops(events):
    """Loop summaries among events, outermost first"""
    return [e.a[0] for e in events if e.k == "loop"]


def accumulator(I, events, leaf):
    """The loop and location whose generalised value is leaf: (summary, root, path) or None"""
    for L in loops(events):
        for (root, path), p in L.plan.items():
            if p[0] != "dead" and I.node(L.parts[0][1], root, path) == leaf:
                return L, root, path
    return None


def step(c, I, name, st, got, cases):
    """got agrees with every case it is compatible with; a mismatch stays open (the state is a generalised one)"""
    for conds, want in cases:
        s = st.copy()
        if not all(I.assume(s.facts, k) if isinstance(k, BoolV) else k(s.facts) for k in conds):
            continue
        if c.differs(I, s, got, want) is not False:
            c.add(name, "open", "the step of the induction: %r where %r is expected" % (got, want))
            return False
    return True


def items(I, st, suffix="::next"):
    """What the calls of an opaque iterator returned on a path: resolved option values, in order"""
    return [I.resolve(st, e.a[3]) for e in st.events if e.k == "op" and e.a[0].endswith(suffix)]


# grids -----------------------------------------------------------------------------------------

GG = "T, const XMAX: u16, const YMAX: u16, const SIZE: usize"
GP = "Pos<XMAX, YMAX>"
GT = "Grid<T, Pos<XMAX, YMAX>, SIZE>"
BG = "const XMAX: u16, const YMAX: u16, const WORDS: usize"
BT = "Gridbool<Pos<XMAX, YMAX>, WORDS>"


def expand(text):
    """Short names for the types of the harnesses: <GG> [P] [G] [B]"""
    return (text.replace("<GG>", "<%s>" % GG).replace("<GC>", "<%s>" % GG.replace("T,", "T: Copy,", 1)).replace("<BG>", "<%s>" % BG)
            .replace("[P]", GP).replace("[G]", GT).replace("[B]", BT))


def W(I):
    return param(I, "XMAX") + 1


def H(I):
    return param(I, "YMAX") + 1


def index(I, p):
    """Row-major number of a position of the grid"""
    x, y = leaves(p) if not isinstance(p, list) else p
    return y * W(I) + x


def samepos(I, p, q, pre=()):
    """[(conditions, are the positions equal)], with the (true) multiples of the width the linear reasoning needs"""
    (x, y), (u, v) = leaves(p), leaves(q)
    w = W(I)

    def hint(d):
        return lambda f: f.add_le(-(w * (d - 1)))
    pre = list(pre)
    return [(pre + [eq(x, u), eq(y, v)], True), (pre + [eq(y, v), lt(x, u)], False), (pre + [eq(y, v), lt(u, x)], False),
            (pre + [lt(y, v), hint(v - y)], False), (pre + [lt(v, y), hint(y - v)], False)]


def arrays(I, a):
    """Paths to the arrays inside a value"""
    if isinstance(a, ArrV):
        return [()]
    if isinstance(a, Agg):
        return [(("f", i),) + p for i, x in enumerate(a.f) for p in arrays(I, x)]
    return []


def cells(I, a):
    """Reference to the array of cells of the grid behind a reference"""
    ps = arrays(I, I.init_mem[a.root])
    if len(ps) != 1:
        raise Undetermined("a grid holds %d arrays" % len(ps))
    return Ref(a.root, tuple(a.path) + ps[0])


def cellref(I, a, idx):
    r = cells(I, a)
    return Ref(r.root, r.path + (("i", idx),))


def anypos(name):
    """Override: the next item of the iterator over all positions is an arbitrary position (C11 decides which ones it returns)"""
    def ov(I, st, call):
        if "PosTIter<" in call.path and call.path.endswith("Iterator>::next"):
            from ..interp import Outcome, Event
            st = st.copy()
            ty = call.dty
            n = sum(1 for e in st.events if e.k == "position")
            p = I.fresh(ty.vfields(ty.vindex("Some"))[0], name if not n else name + str(n), st)
            st.events = st.events + (Event("position", (p,), call.at, call.fr.body.path),)
            return [Outcome("ret", st, Agg(ty, ty.vindex("Some"), [p]))]
        return None
    return ov


def positions_of(st):
    return [e.a[0] for e in st.events if e.k == "position"]
