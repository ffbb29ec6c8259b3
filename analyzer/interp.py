"""Abstract interpreter over MIR.

Trace-partitioned: every partition (State) carries one abstract value per location and one conjunction
of facts. Calls are analysed in their calling context. Loops are never unrolled: the state at a loop
header is generalised (induction variables become entry + step*k for a symbolic iteration number k,
finite-variant locations are partitioned, anything else that changes becomes an unknown) until it
is an invariant of the body, which is then analysed once per header partition."""

import itertools

from .expr import P, Poly, ZERO, ONE, sym, app, div as mkdiv, mod as mkmod, bounds, wrap as wrapint, tainted, Atom
from .facts import Facts, quotient


class Undetermined(Exception):
    """The analysis cannot interpret a construct"""


class Budget(Undetermined):
    pass


class Split(Exception):
    """The partition has to be split before going on; alts: functions Facts -> bool (feasible)"""

    def __init__(self, alts):
        self.alts = alts


# values ---------------------------------------------------------------------------------------


class BoolV:
    """A condition: ('c', bool) | ('le'|'eq'|'ne', poly) | ('t', term, polarity)"""
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a, b=None):
        self.k, self.a, self.b = k, a, b

    def neg(self):
        if self.k == "c":
            return BoolV("c", not self.a)
        if self.k == "le":
            return BoolV("le", ONE - self.a)
        if self.k == "eq":
            return BoolV("ne", self.a)
        if self.k == "ne":
            return BoolV("eq", self.a)
        return BoolV("t", self.a, not self.b)

    def __eq__(self, o):
        return isinstance(o, BoolV) and (self.k, self.a, self.b) == (o.k, o.a, o.b)

    def __hash__(self):
        return hash((self.k, self.a, self.b))

    def __repr__(self):
        if self.k == "c":
            return str(self.a)
        if self.k == "t":
            return ("" if self.b else "!") + repr(self.a)
        return "(%r %s 0)" % (self.a, {"le": "<=", "eq": "==", "ne": "!="}[self.k])

    def term(self):
        if self.k == "t" and self.b:
            return self.a
        return ("cond", self.k, self.a, self.b)


TRUE, FALSE = BoolV("c", True), BoolV("c", False)


def boolv(x):
    return TRUE if x else FALSE


def lt(a, b):
    return le(P(a) + 1, b)


def le(a, b):
    p = strip(P(a) - P(b))
    c = p.const()
    return boolv(c <= 0) if c is not None else BoolV("le", p)


def eq(a, b):
    p = strip(P(a) - P(b))
    c = p.const()
    if c is None and len(p.t) == 1:
        (m, k), = p.t.items()
        if len(m) == 1 and m[0].op == "bitof":
            return BoolV("le", P(m[0]))
    return boolv(c == 0) if c is not None else BoolV("eq", p)


def strip(p):
    """A polynomial with the same sign, without the positive factors (masks) all of its terms share"""
    if not any(a.op == "pow2" for m in p.t for a in m):
        return p
    const = p.t.get(())
    if const is None:
        common = None
        for m in p.t:
            s = {a for a in m if a.lo is not None and a.lo >= 1}
            common = s if common is None else common & s
        for a in common:
            t = {}
            for m, c in p.t.items():
                m = list(m)
                m.remove(a)
                t[tuple(m)] = c
            p = Poly(t)
            return strip(p)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            return Poly({m: 1 if c > 0 else -1})
        return p
    if const == 1 and len(p.t) == 2:
        # 1 - c*m <= 0 exactly when m >= 1
        (m, c), = [(m, c) for m, c in p.t.items() if m]
        if c < 0 and all(a.lo is not None and a.lo >= 0 for a in m):
            return Poly({(): 1, tuple(a for a in m if a.lo < 1): -1}) if any(a.lo < 1 for a in m) else ONE - 1
    return p


class Agg:
    """A struct, tuple, closure, or an enum value of known variant"""
    __slots__ = ("ty", "v", "f", "_h")

    def __init__(self, ty, v, f):
        self.ty, self.v, self.f = ty, v, tuple(f)
        self._h = None

    def __eq__(self, o):
        return self is o or isinstance(o, Agg) and self.v == o.v and self.ty is o.ty and self.f == o.f

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.v, self.f))
        return self._h

    def __repr__(self):
        n = self.ty.name
        if self.ty.isenum():
            n = self.ty.vname(self.v)
        elif self.ty.k == "tuple":
            n = ""
        elif self.ty.k == "adt":
            n = self.ty.path.split("::")[-1]
        return n + ("(%s)" % ", ".join(map(repr, self.f)) if self.f else ("()" if not n else ""))


class Opq:
    """A value known only by the term that produced it"""
    __slots__ = ("ty", "term")

    def __init__(self, ty, term):
        self.ty, self.term = ty, term

    def __eq__(self, o):
        return isinstance(o, Opq) and self.term == o.term

    def __hash__(self):
        return hash(self.term)

    def __repr__(self):
        return "<%s>" % show(self.term)


class Model:
    """A library value the analysis models; k names the model, f are its component values"""
    __slots__ = ("k", "f", "ty", "_h")

    def __init__(self, k, f, ty=None):
        self.k, self.f, self.ty = k, tuple(f), ty
        self._h = None

    def __eq__(self, o):
        return self is o or isinstance(o, Model) and self.k == o.k and self.f == o.f

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.k, self.f))
        return self._h

    def __repr__(self):
        return "%s{%s}" % (self.k, ", ".join(map(repr, self.f)))


class StrV:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, StrV) and self.s == o.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return repr(self.s)


class FnV:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, FnV) and self.ty is o.ty

    def __hash__(self):
        return hash(self.ty.id)

    def __repr__(self):
        return "fn " + self.ty.name


class Ref:
    """Reference to a place; fat: (start, len) of a slice inside the array at the place"""
    __slots__ = ("root", "path", "fat")

    def __init__(self, root, path, fat=None):
        self.root, self.path, self.fat = root, tuple(path), fat

    def __eq__(self, o):
        return isinstance(o, Ref) and (self.root, self.path, self.fat) == (o.root, o.path, o.fat)

    def __hash__(self):
        return hash((self.root, self.path, self.fat))

    def __repr__(self):
        return "&%s%s%s" % (show(self.root), "".join("." + "".join(map(str, p[1:])) if p[0] != "i" else "[%r]" % p[1] for p in self.path),
                            "[%r;%r]" % self.fat if self.fat else "")


class ArrV:
    """Array: base is ('list', values) | ('repeat', value) | ('sym', term) | ('gen', fn), then writes"""
    __slots__ = ("ty", "base", "len", "w", "_h")

    def __init__(self, ty, base, length, w=()):
        self.ty, self.base, self.len, self.w = ty, base, length, w
        self._h = None

    def __eq__(self, o):
        return self is o or isinstance(o, ArrV) and (self.base, self.len, self.w) == (o.base, o.len, o.w)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.base, self.w))
        return self._h

    def __repr__(self):
        b = self.base
        s = "[%s]" % ", ".join(map(repr, b[1])) if b[0] == "list" else "[%r; %r]" % (b[1], self.len) if b[0] == "repeat" else "<%s>" % show(b[1])
        return s + "".join("{[%r]=%r}" % w for w in self.w)

    # used by the sampling evaluator
    def select(self, env, idx):
        i = env.term(idx)
        return self.at(env, i)

    def at(self, env, i):
        for wi, wv in reversed(self.w):
            if env.poly(wi) == i:
                return evalue(wv, env)
        b = self.base
        if b[0] == "list":
            return evalue(b[1][i], env)
        if b[0] == "repeat":
            return evalue(b[1], env)
        key = ("elem", env.term(b[1]), i)
        if key not in env.uf:
            env.uf[key] = env.pick(b[2]) if len(b) > 2 else ("el", key)
        return env.uf[key]

    def normalize(self, facts):
        return self

    def evaluate(self, env):
        return ("arr", self.base[0], env.term(self.base[1]) if self.base[0] == "sym" else None, tuple((env.poly(i), env.term(term(v))) for i, v in self.w))

    def collect(self, f):
        if self.base[0] == "list" or self.base[0] == "repeat":
            f(term(self.base[1]) if self.base[0] == "repeat" else tuple(map(term, self.base[1])))
        else:
            f(self.base[1])
        for i, v in self.w:
            f(i)
            f(term(v))

    def occurs(self, a):
        return False

    def read_term(self, idx, lo, hi):
        return P(app("select", (self, idx), lo, hi))


def evalue(v, env):
    """Concrete (Python) value of an abstract value at a point"""
    if isinstance(v, Poly):
        return env.poly(v)
    if isinstance(v, BoolV):
        if v.k == "c":
            return v.a
        if v.k == "t":
            x = env.term(v.a)
            key = ("bool", x)
            if key not in env.uf:
                env.uf[key] = bool(env.pick(sym("b?", 0, 1)))
            return env.uf[key] == v.b
        x = env.poly(v.a)
        return {"le": x <= 0, "eq": x == 0, "ne": x != 0}[v.k]
    if isinstance(v, Agg):
        f = tuple(evalue(x, env) for x in v.f)
        if v.ty.isenum():
            return (v.ty.vname(v.v),) + f
        return f
    if isinstance(v, Opq):
        return ("opq", env.term(v.term))
    if isinstance(v, StrV):
        return v.s
    if isinstance(v, Ref):
        return ("ref", show(v.root), tuple(env.term(p) for p in v.path), env.term(v.fat) if v.fat else None)
    if isinstance(v, Model):
        return (v.k,) + tuple(evalue(x, env) for x in v.f)
    if isinstance(v, ArrV):
        if v.base[0] == "list" and not v.w:
            return ("arr",) + tuple(evalue(x, env) for x in v.base[1])
        return ("arr", v.evaluate(env))
    return ("?", repr(v))


def term(v):
    """Hashable term of a value, used as argument of opaque applications"""
    if isinstance(v, Poly):
        return v
    if isinstance(v, BoolV):
        return v.term()
    if isinstance(v, Agg):
        if v.ty.isenum():
            return ("agg", v.ty.vname(v.v)) + tuple(term(x) for x in v.f)
        return ("agg",) + tuple(term(x) for x in v.f)
    if isinstance(v, Opq):
        return v.term
    if isinstance(v, Model):
        return (v.k,) + tuple(term(x) for x in v.f)
    if isinstance(v, StrV):
        return ("str", v.s)
    if isinstance(v, FnV):
        return ("fn", v.ty.name)
    if isinstance(v, Ref):
        return ("ref", v.root, v.path, v.fat)
    if isinstance(v, ArrV):
        if v.base[0] == "sym" and not v.w:
            return v.base[1]
        return v
    if v is None:
        return ("uninit",)
    return v


def show(t):
    if isinstance(t, tuple):
        if t and t[0] == "." and len(t) == 3:
            return "%s.%s" % (show(t[1]), t[2])
        if t and t[0] == "*" and len(t) == 2:
            return "*%s" % show(t[1])
        if t and t[0] == "A" and len(t) == 2:
            return "%s" % show(t[1])
        if t and isinstance(t[0], str):
            return "%s(%s)" % (t[0], ", ".join(show(x) for x in t[1:]))
        return "(%s)" % ", ".join(show(x) for x in t)
    return str(t)


def base_term(t):
    """The object behind a chain of updates"""
    while isinstance(t, tuple) and t and t[0] in ("upd", "loopv"):
        t = t[2]
    return t


class Event:
    __slots__ = ("k", "a", "at", "fn")

    def __init__(self, k, a, at, fn):
        self.k, self.a, self.at, self.fn = k, a, at, fn

    def __repr__(self):
        return "%s(%s)@%s" % (self.k, ", ".join(map(repr, self.a)), self.at.split("/")[-1])


class State:
    __slots__ = ("mem", "facts", "events", "taint", "trace")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.events = ()
        self.taint = ()
        self.trace = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.events, s.taint, s.trace = self.events, self.taint, self.trace
        return s


class Outcome:
    """kind: ret | panic | unreachable"""
    __slots__ = ("kind", "st", "v", "msg", "at")

    def __init__(self, kind, st, v=None, msg="", at=""):
        self.kind, self.st, self.v, self.msg, self.at = kind, st, v, msg, at


class LoopSummary:
    def __init__(self, body, header, k):
        self.fn, self.header, self.k = body.path, header, k
        self.span = body.blocks[header]["t"]["at"]
        self.parts = []     # [(key, header State)]
        self.paths = []     # [BodyPath]
        self.plan = {}

    def __repr__(self):
        return "Loop@%s[k=%r]" % (self.span.split("/")[-1], self.k)


class BodyPath:
    __slots__ = ("key", "kind", "st", "out", "tokey")

    def __init__(self, key, kind, st, out=None, tokey=None):
        self.key, self.kind, self.st, self.out, self.tokey = key, kind, st, out, tokey


class Plan(dict):
    """How the header of a loop is generalised; base: as it was when the attempt began"""

    def __init__(self, base):
        super().__init__(base)
        self.base = dict(base)


class Frame:
    __slots__ = ("id", "body", "depth", "fin")

    def __init__(self, i, body, depth):
        self.id, self.body, self.depth = i, body, depth


def vague(st):
    """What makes the value of a constant uncertain: loops that were generalised on the way to it"""
    return tuple(e for e in st.events if e.k in ("loop", "havoc")), tuple(st.taint)


class Interp:
    MAXDEPTH = 70

    def __init__(self, prog, overrides=(), budget=60000):
        self.prog = prog
        self.frames = itertools.count()
        self.ids = itertools.count()
        self.overrides = list(overrides)
        self.steps = 0
        self.budget = budget
        self.visited = set()       # functions analysed
        self.unmodelled = set()    # calls without body or model
        self.calls = 0
        self.constcache = {}
        self.vecs = False          # unknown vectors as sequences (symbolic length and elements) instead of opaque values
        self.delay = 0             # iterations of each loop analysed before it is generalised
        from . import models
        self.models = models

    # fresh values -----------------------------------------------------------------------------

    def fresh(self, ty, t, st, taint=False):
        k = ty.k
        if k in ("int", "char"):
            lo, hi = ty.range()
            return self.intterm(t, lo, hi, taint)
        if k == "bool":
            return BoolV("t", t, True)
        if k == "str" or k == "param":
            return Opq(ty, t)
        if k in ("ref", "ptr"):
            to = ty.to()
            if to.k == "slice":
                n = self.intterm((".", t, "len"), 0, (1 << 63) - 1, taint)
                st.mem.setdefault(("A", t), ArrV(to, ("sym", ("*", t), self.elemsym(to.elem())), n))
                return Ref(("A", t), (), (ZERO, n))
            if to.k in ("str", "dyn"):
                return Opq(ty, t)
            if ("A", t) not in st.mem:
                st.mem[("A", t)] = self.fresh(to, ("*", t), st, taint)
            return Ref(("A", t), ())
        if k == "array":
            return ArrV(ty, ("sym", t, self.elemsym(ty.elem())), self.constlen(ty.d["len"], st))
        if self.vecs and ty.path == "alloc::vec::Vec":
            return ArrV(ty, ("sym", t, self.elemsym(elemty(ty))), P(app("uf", (("len", t),), 0, (1 << 58) - 1)))
        el = ty.elems()
        if el is not None:
            m = self.models.fresh_model(self, ty, t, st)
            if m is not None:
                return m
            v = Agg(ty, 0, [self.fresh(x, (".", t, i), st, taint) for i, x in enumerate(el)])
            self.invariant(v, st)
            return v
        if ty.isenum():
            vs = ty.d["variants"]
            if len(vs) == 1:
                return Agg(ty, 0, [self.fresh(x, (".", t, i), st, taint) for i, x in enumerate(ty.vfields(0))])
            if not vs:
                return Opq(ty, t)
            return Opq(ty, t)
        return Opq(ty, t)

    def elemsym(self, ty):
        if ty.isint():
            lo, hi = ty.range()
            return sym("elem", lo, hi)
        if ty.k == "bool":
            return sym("elemb", 0, 1)
        return None

    def intterm(self, t, lo, hi, taint=False):
        if isinstance(t, str):
            return P(sym(t, lo, hi, taint))
        if isinstance(t, tuple) and len(t) == 3 and t[0] == "." and isinstance(root_name(t), str) and not taint:
            return P(sym(show(t), lo, hi))
        if taint:
            return P(sym(show(t), lo, hi, True))
        return P(app("uf", (t,), lo, hi))

    def invariant(self, v, st):
        """Type invariants the checks on bounded integers establish: MIN <= value <= MAX"""
        ty = v.ty
        if ty.k == "adt" and ty.path.startswith("sqrid::") and ty.path.split("::")[-1] in ("Grid", "Gridbool"):
            self.gridinvariant(ty, st)
        if ty.k == "adt" and ty.path.startswith("sqrid::") and ty.path.split("::")[-1].startswith("Bounded") and len(v.f) == 1 and isinstance(v.f[0], Poly):
            c = ty.cargs()
            if len(c) == 2:
                mn, mx = self.konst(c[0], st), self.konst(c[1], st)
                st.facts.add_le(mn - v.f[0], check=False)
                st.facts.add_le(v.f[0] - mx, check=False)

    def gridinvariant(self, ty, st):
        """The size checks of the grid types: a grid has one cell per position, a Gridbool one bit (rule of C04/C24)"""
        pos = [t for t in ty.targs() if t.path.startswith("sqrid::") and t.path.endswith("::Pos")]
        n = ty.cargs()
        if not pos or len(n) != 1:
            return
        X, Y = (self.konst(x, st) for x in pos[0].cargs())
        n, size = self.konst(n[0], st), (X + 1) * (Y + 1)
        if ty.path.endswith("::Grid"):
            st.facts.add_eq(n - size, check=False)
        else:
            st.facts.add_le(size - n * 32, check=False)
            st.facts.add_le(n * 32 - size - 32, check=False)

    def constlen(self, c, st):
        return self.konst(c, st)

    def konst(self, c, st):
        k = c["k"]
        if k == "int":
            return P(int(c["v"]))
        if k == "param":
            b = self.cparams.get(c["name"])
            if b is None:
                b = (0, (1 << 64) - 1)
            v = self.cvals.get(c["name"])
            if v is not None:
                return P(v)
            return P(sym(c["name"], b[0], b[1]))
        raise Undetermined("type-level constant %s" % c)

    # places -----------------------------------------------------------------------------------

    def get(self, st, root):
        if root in st.mem:
            return st.mem[root]
        raise Undetermined("read of unknown location %s" % show(root))

    def step_read(self, st, v, e):
        k = e[0]
        if k == "f":
            if isinstance(v, Agg):
                return v.f[e[1]]
            if isinstance(v, Opq):
                el = v.ty.elems()
                if el is None:
                    raise Undetermined("field of opaque %r : %s" % (v, v.ty))
                return self.fresh(el[e[1]], (".", v.term, e[1]), st)
            raise Undetermined("field of %r" % (v,))
        if k == "v":
            if isinstance(v, Agg):
                if v.v != e[1]:
                    raise Undetermined("downcast of %r to variant %d" % (v, e[1]))
                return v
            if isinstance(v, Opq):
                return self.variant_view(st, v, e[1])
            raise Undetermined("downcast of %r" % (v,))
        if k == "i":
            if isinstance(v, ArrV):
                self.noghost(v)
                return self.arr_read(st, v, e[1])
            if isinstance(v, Model):
                return self.models.index_read(self, st, v, e[1])
            raise Undetermined("index of %r" % (v,))
        raise Undetermined("projection %s" % (e,))

    def variant_view(self, st, v, i):
        t = v.ty
        return Agg(t, i, [self.fresh(x, (".", ("#", v.term, t.vname(i)), j), st) for j, x in enumerate(t.vfields(i))])

    ghostok = False

    def noghost(self, a):
        """Cells that stand for the words of a boolean grid are touched by its accessors only"""
        if getattr(a.ty, "ghost", False) and not self.ghostok:
            raise Undetermined("the words of a boolean grid are accessed directly")

    def arr_read(self, st, a, idx):
        idx = st.facts.norm(idx)
        for wi, wv in reversed(a.w):
            d = idx - wi
            if st.facts.norm(d).const() == 0 or st.facts.entails_eq(d):
                return wv
            if not st.facts.entails_ne(d):
                raise Split([lambda f, d=d: f.add_eq(d), lambda f, d=d: f.add_ne(d)])
        b = a.base
        if b[0] == "repeat":
            return b[1]
        if b[0] == "list":
            c = idx.const()
            if c is not None:
                if 0 <= c < len(b[1]):
                    return b[1][c]
                raise Undetermined("constant index out of range")
            n = len(b[1])
            if n > 64:
                raise Undetermined("symbolic index into a large constant array")
            alts = []
            for j in range(n):
                alts.append(lambda f, j=j, idx=idx: f.add_eq(idx - j))
            raise Split(alts)
        return self.elem(st, a, elemty(a.ty), idx)

    def elem(self, st, a, ety, idx):
        if ety.isint():
            lo, hi = ety.range()
            return P(app("select", (ArrV(a.ty, a.base, a.len), idx), lo, hi))
        return self.fresh(ety, ("elem", a.base[1], idx), st)

    def read(self, st, root, path):
        v = self.get(st, root)
        for e in path:
            v = self.step_read(st, v, e)
        return v

    def write(self, st, root, path, val, at="", fn=""):
        if not path:
            st.mem[root] = val
            return
        st.mem[root] = self._write(st, self.get(st, root), path, val, root, (), at, fn)

    def _write(self, st, v, path, val, root, done, at, fn):
        if not path:
            return val
        e = path[0]
        if e[0] == "i":
            if not isinstance(v, ArrV):
                raise Undetermined("indexed write in %r" % (v,))
            self.noghost(v)
            old = None
            if len(path) > 1:
                old = self.arr_read(st, v, e[1])
            new = self._write(st, old, path[1:], val, root, done + (e,), at, fn)
            if v.base[0] == "list" and not v.w and e[1].const() is not None and 0 <= e[1].const() < len(v.base[1]):
                l = list(v.base[1])
                l[e[1].const()] = new
                return ArrV(v.ty, ("list", tuple(l)), v.len)
            if v.base[0] != "list" or len(path) == 1 and True:
                st.events = st.events + (Event("awrite", (Ref(root, done), e[1], new), at, fn),)
            return ArrV(v.ty, v.base, v.len, v.w + ((e[1], new),))
        if e[0] == "v":
            if isinstance(v, Opq):
                v = self.variant_view(st, v, e[1])
            if v is None:
                raise Undetermined("write to variant of uninitialised value")
            return self._write(st, v, path[1:], val, root, done + (e,), at, fn)
        if e[0] == "f":
            if isinstance(v, Opq):
                el = v.ty.elems()
                if el is None:
                    raise Undetermined("field write in opaque")
                v = Agg(v.ty, 0, [self.fresh(x, (".", v.term, i), st) for i, x in enumerate(el)])
            if not isinstance(v, Agg):
                raise Undetermined("field write in %r" % (v,))
            f = list(v.f)
            f[e[1]] = self._write(st, f[e[1]], path[1:], val, root, done + (e,), at, fn)
            return Agg(v.ty, v.v, f)
        raise Undetermined("write projection %s" % (e,))

    def place(self, st, fr, p):
        """-> (root, path, fat)"""
        root, path, fat = ("L", fr.id, p["l"]), (), None
        for e in p["p"]:
            k = e["k"]
            if k == "deref":
                v = self.read(st, root, path)
                if isinstance(v, Ref):
                    root, path, fat = v.root, v.path, v.fat
                elif isinstance(v, Opq) and v.ty.k in ("ref", "ptr"):
                    r = ("A", v.term)
                    if r not in st.mem:
                        st.mem[r] = self.fresh(v.ty.to(), ("*", v.term), st)
                    root, path, fat = r, (), None
                elif isinstance(v, StrV):
                    r = ("S", v.s)
                    st.mem[r] = v
                    root, path, fat = r, (), None
                elif isinstance(v, Model) and v.k == "box":
                    path = path + (("b",),)
                    raise Undetermined("box deref")
                else:
                    raise Undetermined("deref of %r" % (v,))
            elif k == "field":
                path = path + (("f", e["i"]),)
            elif k == "downcast":
                path = path + (("v", e["v"]),)
            elif k == "index":
                i = self.read(st, ("L", fr.id, e["l"]), ())
                if fat:
                    i = fat[0] + i
                    fat = None
                path = path + (("i", i),)
            elif k == "cindex":
                if e["end"]:
                    if not fat:
                        self.noghost(self.read(st, root, path))
                    n = fat[1] if fat else self.read(st, root, path).len
                    i = n - e["off"]
                else:
                    i = P(e["off"])
                if fat:
                    i = fat[0] + i
                    fat = None
                path = path + (("i", i),)
            elif k == "subslice":
                if fat is None:
                    self.noghost(self.read(st, root, path))
                    n = self.read(st, root, path).len
                    fat = (ZERO, n)
                if e["end"]:
                    fat = (fat[0] + e["from"], fat[1] - e["from"] - e["to"])
                else:
                    fat = (fat[0] + e["from"], P(e["to"] - e["from"]))
            else:
                raise Undetermined("projection " + k)
        return root, path, fat

    # operands ---------------------------------------------------------------------------------

    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("copy", "move"):
            root, path, fat = self.place(st, fr, o["place"])
            v = self.read(st, root, path)
            if v is None:
                raise Undetermined("read of uninitialised place")
            return v
        if k == "const":
            return self.constant(st, o["c"])
        if k == "rtcheck":
            return FALSE
        raise Undetermined("operand " + k)

    def constant(self, st, c):
        k = c["k"]
        ty = self.prog.types[c["ty"]] if "ty" in c else None
        if k == "int":
            if ty is not None and ty.k == "bool":
                return boolv(int(c["v"]))
            return P(int(c["v"]))
        if k == "param":
            if ty is not None and ty.k == "bool":
                v = self.cvals.get(c["name"])
                if v is not None:
                    return boolv(v)
                return BoolV("t", c["name"], True)
            return self.konst(c, st)
        if k == "zst":
            return self.zst(ty)
        if k == "str":
            return StrV(c["v"])
        if k == "body":
            return self.constbody(st, c, ty)
        if k == "scalar_adt":
            return self.scalar_adt(ty, int(c["v"]), c["bytes"])
        if k == "tree":
            f = [self.constant(st, x) for x in c["f"]]
            if ty.k == "array":
                return ArrV(ty, ("list", tuple(f)), P(len(f)))
            return Agg(ty, c["v"], f)
        if k == "assoc":
            return self.fresh(ty, ("const", c["path"], tuple(c["targs"])), st)
        if k == "bytes" and ty is not None and ty.k in ("ref", "ptr", "adt"):
            return Opq(ty, ("constant", repr(sorted(c.items()))))
        raise Undetermined("constant %s" % k)

    def scalar_adt(self, ty, v, nbytes):
        if ty.isenum():
            for i, _ in enumerate(ty.d["variants"]):
                if ty.discr(i) & ((1 << (8 * nbytes)) - 1) == v and all(e.elems() == [] for e in ty.vfields(i)):
                    return Agg(ty, i, [self.zst(e) for e in ty.vfields(i)])
            zero = [i for i in range(len(ty.d["variants"])) if all(e.elems() == [] for e in ty.vfields(i))]
            full = [i for i in range(len(ty.d["variants"])) if len(ty.vfields(i)) == 1 and ty.vfields(i)[0].name.startswith("std::num::NonZero<")]
            if len(zero) == 1 and len(full) == 1 and len(ty.d["variants"]) == 2:
                # the variant without content is the value NonZero cannot have
                if v == 0:
                    return Agg(ty, zero[0], [self.zst(e) for e in ty.vfields(zero[0])])
        el = ty.elems()
        if el is not None:
            live = [e for e in el if not (e.elems() == [] or e.name.startswith("std::marker::PhantomData"))]
            if len(live) == 1:
                return Agg(ty, 0, [self.scalar_adt(e, v, nbytes) if e in live else self.zst(e) for e in el])
        if ty.isint():
            return P(wrapint(v, ty.bits, ty.signed) if ty.k == "int" else v)
        if ty.k == "bool":
            return boolv(v)
        raise Undetermined("scalar constant of type %s" % ty)

    def zst(self, ty):
        if ty.k == "fndef":
            return FnV(ty)
        el = ty.elems()
        if el is not None:
            return Agg(ty, 0, [self.zst(x) for x in el])
        if ty.k == "array":
            return ArrV(ty, ("list", ()), ZERO)
        if ty.isenum() and len(ty.d["variants"]) == 1:
            return Agg(ty, 0, [self.zst(x) for x in ty.vfields(0)])
        if ty.k == "adt":
            return Opq(ty, ("zst", ty.name))
        raise Undetermined("zero-sized constant %s" % ty)

    def constbody(self, st, c, ty):
        key = c["key"]
        b = self.prog.bodies.get(key)
        if b is None or b.error:
            raise Undetermined("no body for " + key)
        hit = st.mem.get(("K", key))
        if hit is not None:
            return hit
        ent = self.constcache.get(key)
        if ent is None:
            s0 = State()
            outs = self.call_body(s0, b, [], 0)
            rets = [o for o in outs if o.kind == "ret"]
            bad = [o for o in outs if o.kind != "ret"]
            ent = self.constcache[key] = (rets, bad)
        rets, bad = ent
        if len(rets) == 1 and not bad:
            o = rets[0]
            for k, v in o.st.mem.items():
                st.mem.setdefault(k, v)
            loose, taint = vague(o.st)
            st.events, st.taint = st.events + tuple(e for e in loose if e not in st.events), st.taint + tuple(t for t in taint if t not in st.taint)
            return o.v
        if not rets:
            # the constant can never be evaluated: code that needs it is never compiled
            raise Split([])
        # evaluation that panics is a compile error, so those partitions do not exist at run time
        alts = []
        for o in rets:
            def alt(f, o=o, st=st):
                return f.merge(o.st.facts)
            alt.mem = dict(o.st.mem)
            alt.mem[("K", key)] = o.v
            alt.events, alt.taint = vague(o.st)
            alts.append(alt)
        raise Split(alts)

    # conditions -------------------------------------------------------------------------------

    def decide(self, st, b):
        """True / False / None"""
        f = st.facts
        if b.k == "c":
            return b.a
        if b.k == "t":
            v = f.boolean(b.a)
            return None if v is None else v == b.b
        if b.k == "le":
            if f.entails_le(b.a):
                return True
            if f.entails_le(ONE - b.a):
                return False
            return None
        e = None
        if f.entails_eq(b.a):
            e = True
        elif f.entails_ne(b.a):
            e = False
        if e is None:
            return None
        return e == (b.k == "eq")

    def assume(self, facts, b):
        if b.k == "c":
            return b.a
        if b.k == "t":
            return facts.add_bool(b.a, b.b)
        if b.k == "le":
            return facts.add_le(b.a)
        if b.k == "eq":
            return facts.add_eq(b.a)
        return facts.add_ne(b.a)

    def truth(self, st, b):
        """Python bool, splitting the partition when needed"""
        if not isinstance(b, BoolV):
            raise Undetermined("condition %r" % (b,))
        d = self.decide(st, b)
        if d is None:
            raise Split([lambda f: self.assume(f, b), lambda f: self.assume(f, b.neg())])
        return d

    def resolve(self, st, v):
        """An opaque enum whose variant is known, as a value of that variant"""
        if isinstance(v, Opq) and v.ty.isenum():
            i = st.facts.variants.get(v.term)
            if i is not None:
                return self.variant_view(st, v, i)
        return v

    def variant(self, st, v):
        """Variant index of an enum value, splitting when needed"""
        if isinstance(v, Agg):
            return v.v
        if isinstance(v, Opq) and v.ty.isenum():
            i = st.facts.variants.get(v.term)
            if i is not None:
                return i
            alts = []
            for j, vd in enumerate(v.ty.d["variants"]):
                if any(self.uninhabited(x) for x in v.ty.vfields(j)):
                    continue
                alts.append(lambda f, j=j: f.add_variant(v.term, j))
            raise Split(alts)
        raise Undetermined("variant of %r" % (v,))

    def uninhabited(self, ty):
        return ty.k == "never" or ty.isenum() and not ty.d["variants"]

    # rvalues ----------------------------------------------------------------------------------

    def int_in(self, st, p, ty, exact=True):
        """Normalise a mathematical integer into a machine type (wrapping)"""
        lo, hi = ty.range()
        blo, bhi = bounds(p)
        if blo is not None and bhi is not None and lo <= blo and bhi <= hi:
            return p
        a = self.decide(st, le(lo, p))
        b = self.decide(st, le(p, hi))
        if a and b:
            return p
        if a is None or b is None:
            raise Split([lambda f: f.add_le(P(lo) - p) and f.add_le(p - hi),
                         lambda f: f.add_le(p - hi + 0 * ZERO) and f.add_le(p - lo + 1),
                         lambda f: f.add_le(P(hi) - p + 1)])
        # definitely out of range on one side; within one period use the exact offset
        span = 1 << ty.bits
        q = p + span if a is False else p - span
        if self.decide(st, le(lo, q)) and self.decide(st, le(q, hi)):
            return q
        return P(app("wrap", (p, ty.bits, ty.signed), lo, hi))

    def checked(self, st, p, ty):
        """(wrapped value, overflow flag)"""
        lo, hi = ty.range()
        a = self.decide(st, le(lo, p))
        b = self.decide(st, le(p, hi))
        if a and b:
            return p, False
        if a is None or b is None:
            raise Split([lambda f: f.add_le(P(lo) - p) and f.add_le(p - hi),
                         lambda f: f.add_le(p - lo + 1),
                         lambda f: f.add_le(P(hi) - p + 1)])
        return self.int_in(st, p, ty), True

    def binop(self, st, op, a, b, ty, dty):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            if isinstance(a, BoolV) or isinstance(b, BoolV):
                a, b = P(int(self.truth(st, a))), P(int(self.truth(st, b)))
            if not (isinstance(a, Poly) and isinstance(b, Poly)):
                if isinstance(a, (Opq, Ref)) and isinstance(b, (Opq, Ref)) and op in ("Eq", "Ne"):
                    t = BoolV("t", ("eq", term(a), term(b)), True)
                    if a == b:
                        t = TRUE
                    return t if op == "Eq" else t.neg()
                raise Undetermined("comparison of %r and %r" % (a, b))
            if op == "Cmp":
                r = {-1: "Less", 0: "Equal", 1: "Greater"}
                for k, c in ((-1, lt(a, b)), (0, eq(a, b)), (1, lt(b, a))):
                    if self.decide(st, c):
                        return Agg(dty, dty.vindex(r[k]), [])
                raise Split([lambda f: self.assume(f, lt(a, b)), lambda f: self.assume(f, eq(a, b)), lambda f: self.assume(f, lt(b, a))])
            return {"Eq": lambda: eq(a, b), "Ne": lambda: eq(a, b).neg(), "Lt": lambda: lt(a, b), "Le": lambda: le(a, b),
                    "Gt": lambda: lt(b, a), "Ge": lambda: le(b, a)}[op]()
        if ty.k == "bool":
            x, y = self.truth(st, a), self.truth(st, b)
            return boolv({"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[op])
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            raise Undetermined("%s of %r and %r" % (op, a, b))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            p = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b}[base]()
            if op.endswith("WithOverflow"):
                v, o = self.checked(st, p, ty)
                return Agg(dty, 0, [v, boolv(o)])
            return self.int_in(st, p, ty)
        if base in ("Div", "Rem"):
            z = self.truth(st, eq(b, 0))
            if z:
                raise Undetermined("division by zero reached")
            a, b = st.facts.norm(a), st.facts.norm(b)
            q = quotient(st.facts, a, b)
            return q if base == "Div" else a - q * b
        if base in ("BitAnd", "BitOr", "BitXor"):
            return self.bits(st, {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[base], a, b, ty)
        if base in ("Shl", "Shr"):
            return self.shift(st, base.lower(), a, b, ty)
        raise Undetermined("operator " + op)

    def bits(self, st, op, a, b, ty):
        a, b = st.facts.norm(a), st.facts.norm(b)
        ca, cb = a.const(), b.const()
        lo, hi = ty.range()
        if ca is not None and cb is not None:
            m = (1 << ty.bits) - 1
            x, y = ca & m, cb & m
            return P(wrapint({"and": x & y, "or": x | y, "xor": x ^ y}[op], ty.bits, ty.signed))
        full = (1 << ty.bits) - 1 if not ty.signed else -1
        if not ty.signed:
            from . import bits as B
            if op == "and":
                r = B.land(self, st, a, b, ty.bits)
                if r is not None:
                    return r
        for x, y in ((a, cb), (b, ca)):
            if y == 0:
                return ZERO if op == "and" else x
            if y == full:
                return x if op == "and" else P(full) if op == "or" else P(full) - x
            # masks of low bits and powers of two are quotients and remainders
            if op == "and" and y is not None and not ty.signed and y > 0 and (y & (y + 1)) == 0:
                return x - quotient(st.facts, x, P(y + 1)) * (y + 1)
        if a == b:
            return ZERO if op == "xor" else a
        if a.t and b.t and sorted(map(str, b.t)) < sorted(map(str, a.t)):
            a, b = b, a
        alo, ahi = bounds(a)
        blo, bhi = bounds(b)
        if op == "and" and not ty.signed:
            hs = [h for h in (ahi, bhi, hi) if h is not None]
            return P(app("and", (a, b, ty.bits, ty.signed), 0, min(hs)))
        return P(app(op, (a, b, ty.bits, ty.signed), lo, hi))

    def shift(self, st, op, a, b, ty):
        a, b = st.facts.norm(a), st.facts.norm(b)
        inr = self.truth(st, lt(b, ty.bits))
        neg = bounds(b)[0] is not None and bounds(b)[0] < 0 and self.truth(st, lt(b, 0))
        if not inr or neg:
            raise Undetermined("shift amount out of range")
        ca, cb = a.const(), b.const()
        lo, hi = ty.range()
        if not ty.signed:
            from . import bits as B
            if a == ZERO:
                return ZERO
            if cb is None:
                r = B.shl(self, st, a, b, ty.bits) if op == "shl" else B.shr(self, st, a, b, ty.bits)
                if r is not None:
                    return r
            elif cb and B.isword(a) and B.log2(a) is None and bounds(a) != (0, 1):
                return P(app("shl", (a, b, ty.bits, ty.signed), lo, hi)) if op == "shl" else P(app("shr", (a, b, ty.bits), 0, hi >> cb))
        if cb is not None:
            if op == "shl":
                return self.int_in(st, a * (1 << cb), ty)
            if bounds(a)[0] is not None and bounds(a)[0] >= 0:
                return quotient(st.facts, a, P(1 << cb))
        if op == "shr":
            blo, bhi = bounds(a)
            return P(app("shr", (a, b, ty.bits), blo if blo is None or blo < 0 else 0, bhi))
        return P(app("shl", (a, b, ty.bits, ty.signed), lo, hi))

    def asint(self, st, v, fty):
        if isinstance(v, Poly):
            return v
        if isinstance(v, BoolV):
            return P(int(self.truth(st, v)))
        if fty.isenum():
            return P(fty.discr(self.variant(st, v)))
        raise Undetermined("integer value of %r" % (v,))

    def rvalue(self, st, fr, r, dty, at):
        k = r["k"]
        T = self.prog.types
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k == "ref":
            root, path, fat = self.place(st, fr, r["place"])
            return Ref(root, path, fat)
        if k == "bin":
            return self.binop(st, r["op"], self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"]), T[r["ty"]], dty)
        if k == "un":
            a = self.operand(st, fr, r["a"])
            ty = T[r["ty"]]
            if r["op"] == "Not":
                if ty.k == "bool":
                    return a.neg()
                if ty.signed:
                    return P(-1) - a
                return P((1 << ty.bits) - 1) - a
            if r["op"] == "Neg":
                return self.int_in(st, -a, ty)
            if r["op"] == "PtrMetadata":
                if isinstance(a, Ref):
                    if a.fat:
                        return a.fat[1]
                raise Undetermined("metadata of %r" % (a,))
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "discr":
            root, path, fat = self.place(st, fr, r["place"])
            v = self.read(st, root, path)
            ty = T[r["ty"]]
            if not ty.isenum():
                raise Undetermined("discriminant of %s" % ty)
            if v is None:
                # optimised library code reads zero-sized values it never wrote
                live = [j for j in range(len(ty.d["variants"])) if not any(self.uninhabited(x) for x in ty.vfields(j))]
                if len(live) == 1:
                    return P(ty.discr(live[0]))
            return P(ty.discr(self.variant(st, v)))
        if k == "agg":
            f = [self.operand(st, fr, x) for x in r["f"]]
            ty = T[r["ty"]]
            if r["ak"] == "array":
                return ArrV(ty, ("list", tuple(f)), P(len(f)))
            if r["ak"] == "rawptr":
                if isinstance(f[0], Ref) and isinstance(f[1], Poly):
                    return Ref(f[0].root, f[0].path, (f[0].fat[0] if f[0].fat else ZERO, f[1]))
                raise Undetermined("raw pointer")
            return Agg(ty, r["v"], f)
        if k == "repeat":
            v = self.operand(st, fr, r["o"])
            n = self.konst(r["n"], st)
            return ArrV(dty, ("repeat", v), n)
        raise Undetermined("rvalue " + k)

    def cast(self, st, fr, r):
        v = self.operand(st, fr, r["o"])
        T = self.prog.types
        ty, fty = T[r["ty"]], T[r["from"]]
        ck = r["ck"]
        if ck.startswith("IntToInt"):
            i = self.asint(st, v, fty)
            if ty.k == "char":
                return i
            if ty.k == "int":
                return self.int_in(st, i, ty)
            raise Undetermined("cast to %s" % ty)
        if ck.startswith("PointerCoercion(Unsize"):
            if isinstance(v, Ref):
                a = self.read(st, v.root, v.path)
                if isinstance(a, ArrV):
                    self.noghost(a)
                    return Ref(v.root, v.path, (ZERO, a.len))
            raise Undetermined("unsize of %r" % (v,))
        if ck.startswith("PointerCoercion(ReifyFnPointer") or ck.startswith("PointerCoercion(ClosureFnPointer"):
            return v
        if ck.startswith("PtrToPtr") or ck.startswith("PointerCoercion(MutToConst") or ck.startswith("Subtype"):
            return v
        if ck.startswith("BoxDerefTransmute") and isinstance(v, Ref):
            return v
        if ck.startswith("Transmute"):
            if ty is fty:
                return v
            if isinstance(v, Poly) and ty.k == "int" and fty.k == "int":
                return self.int_in(st, v, ty)
            if isinstance(v, Ref):
                return v
            if isinstance(v, Poly) and ty.isenum() and ty.name.startswith("std::option::Option<std::num::NonZero<"):
                if self.truth(st, eq(v, ZERO)):
                    return Agg(ty, ty.vindex("None"), [])
                w = ty.vfields(ty.vindex("Some"))[0]
                return Agg(ty, ty.vindex("Some"), [self.nonzero(w, v)])
            if isinstance(v, Poly) and ty.name.startswith("std::num::NonZero<"):
                return self.nonzero(ty, v)
            if isinstance(v, Agg) and fty.name.startswith("std::num::NonZero<") and ty.k == "int":
                w = v
                while isinstance(w, Agg) and len(w.f) == 1:
                    w = w.f[0]
                if isinstance(w, Poly):
                    return w
            if isinstance(v, Agg) and fty.isenum() and ty.k == "int":
                return P(fty.discr(v.v))
            # single-field wrappers
            if isinstance(v, Agg) and len(v.f) == 1 and not fty.isenum():
                return v.f[0]
            return Opq(ty, ("transmute", term(v)))
        raise Undetermined("cast %s %s -> %s" % (ck, fty, ty))

    def nonzero(self, ty, v):
        el = ty.elems()
        return Agg(ty, 0, [self.nonzero(el[0], v)]) if el is not None and len(el) == 1 else v

    # execution --------------------------------------------------------------------------------

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("partition budget")

    def run_root(self, name, args=None, cvals=None, mutate=None):
        r = self.prog.roots[name]
        b = self.prog.bodies[r["key"]]
        self.cparams = {}
        for g in r["generics"]:
            t = self.prog.types[g["ty"]]
            self.cparams[g["name"]] = t.range() if t.k != "bool" else (0, 1)
        self.cvals = dict(cvals or {})
        self.constcache = {}
        st = State()
        vals = []
        for i in range(b.nargs):
            nm = b.names.get(i + 1, "arg%d" % i)
            if args and nm in args:
                a = args[nm]
                vals.append(a(self, st, b.locals[i + 1]) if callable(a) else a)
            else:
                vals.append(self.fresh(b.locals[i + 1], nm, st))
        if mutate:
            mutate(self, st)
        self.argvals = vals
        self.argnames = {b.names.get(i + 1, "arg%d" % i) for i in range(b.nargs)}
        self.init_mem = dict(st.mem)
        return self.call_body(st, b, vals, 0)

    def call_body(self, st, body, args, depth):
        if body.error:
            raise Undetermined("no MIR for " + body.key)
        if depth > self.MAXDEPTH:
            raise Undetermined("call depth")
        self.visited.add(body.path if not body.closure else body.key.split("<")[0])
        fr = Frame(next(self.frames), body, depth)
        st = st.copy()
        for i in range(len(body.locals)):
            st.mem[("L", fr.id, i)] = None
        if body.spread is not None:
            # the last argument is spread over a tuple
            n = body.spread - 1
            if not (len(args) == n + 1 and isinstance(args[n], Agg) and args[n].ty is body.locals[body.spread]):
                args = args[:n] + [Agg(body.locals[body.spread], 0, args[n:])]
        for i, a in enumerate(args):
            st.mem[("L", fr.id, i + 1)] = a
        ty0 = body.locals[0]
        if ty0.elems() == []:
            st.mem[("L", fr.id, 0)] = Agg(ty0, 0, [])
        states = [st]
        for c in body.required:
            if c["k"] == "body":
                states = self.require(states, c)
        outs = []
        for s in states:
            outs.extend(self.region(s, fr, 0, None, None)[0])
        for o in outs:
            if o.kind == "ret":
                o.v = o.st.mem.get(("L", fr.id, 0))
                # locals of the frame die, unless the result or the heap refers to them
                self.pop_frame(o.st, fr, o.v)
        return outs

    def pop_frame(self, st, fr, v):
        roots = set()

        def walk(x):
            if isinstance(x, Ref):
                if x.root not in roots:
                    roots.add(x.root)
                    if x.root in st.mem:
                        walk(st.mem[x.root])
            elif isinstance(x, (Agg, Model)):
                for y in x.f:
                    walk(y)
            elif isinstance(x, ArrV):
                if x.base[0] == "list":
                    for y in x.base[1]:
                        walk(y)
                for _, y in x.w:
                    walk(y)
        walk(v)
        for k, x in list(st.mem.items()):
            if k[0] != "L" or k[1] < fr.id:
                walk(x)
        for i in range(len(fr.body.locals)):
            k = ("L", fr.id, i)
            if k not in roots:
                st.mem.pop(k, None)

    def require(self, states, c):
        out = []
        todo = list(states)
        while todo:
            s = todo.pop()
            try:
                self.constbody(s.copy() if False else s, c, None)
                out.append(s)
            except Split as e:
                todo.extend(self.split(s, e))
            except Undetermined:
                out.append(s)
        return out

    def split(self, st, e):
        r = []
        for alt in e.alts:
            s = st.copy()
            if alt(s.facts):
                for k, v in getattr(alt, "mem", {}).items():
                    s.mem.setdefault(k, v)
                s.events = s.events + getattr(alt, "events", ())
                s.taint = s.taint + getattr(alt, "taint", ())
                r.append(s)
        return r

    def region(self, st, fr, bb, nodes, header):
        """Run from the start of block bb. With nodes/header: stop at edges that leave the nodes (exits) or go
        back to the header. -> (outcomes, exits [(bb, st)], back [st])"""
        body = fr.body
        loops = body.loops()
        outs, exits, back = [], [], []
        work = [(bb, st, True)]
        while work:
            b, s, entry = work.pop()
            if not entry:
                if header is not None and b == header:
                    back.append(s)
                    continue
                if nodes is not None and b not in nodes:
                    exits.append((b, s))
                    continue
            if b in loops and not (entry and b == header):
                o, ex = self.loop(s, fr, b, loops[b])
                outs.extend(o)
                for b2, s2 in ex:
                    work.append((b2, s2, False))
                continue
            self.tick()
            for kind, x in self.block(s, fr, b):
                if kind == "go":
                    work.append((x[0], x[1], False))
                else:
                    outs.append(x)
        return outs, exits, back

    def block(self, st, fr, b):
        """-> list of ('go', (bb, st)) | ('out', Outcome)"""
        blk = fr.body.blocks[b]
        res = []
        work = [(st, 0)]
        n = len(blk["s"])
        while work:
            s, i = work.pop()
            while i < n:
                x = blk["s"][i]
                s2 = s.copy()
                try:
                    self.statement(s2, fr, x)
                except Split as e:
                    self.tick()
                    work.extend((y, i) for y in self.split(s, e))
                    s = None
                    break
                s = s2
                i += 1
            if s is None:
                continue
            try:
                res.extend(self.terminator(s.copy(), fr, blk))
            except Split as e:
                self.tick()
                work.extend((y, n) for y in self.split(s, e))
        return res

    def statement(self, st, fr, x):
        k = x["k"]
        if k == "assign":
            root, path, fat = self.place(st, fr, x["p"]) if x["p"]["p"] else (("L", fr.id, x["p"]["l"]), (), None)
            dty = fr.body.locals[x["p"]["l"]] if not x["p"]["p"] else None
            if dty is None:
                last = x["p"]["p"][-1]
                dty = self.prog.types[last["ty"]] if "ty" in last else None
            v = self.rvalue(st, fr, x["r"], dty, x["at"])
            self.write(st, root, path, v, x["at"], fr.body.path)
        elif k == "setdiscr":
            root, path, fat = self.place(st, fr, x["p"])
            v = self.read(st, root, path)
            if isinstance(v, Agg):
                self.write(st, root, path, Agg(v.ty, x["v"], v.f if v.v == x["v"] else ()))
            else:
                raise Undetermined("set discriminant")
        elif k == "assume":
            b = self.operand(st, fr, x["o"])
            if isinstance(b, BoolV):
                if self.decide(st, b) is not True:
                    st.events = st.events + (Event("unchecked", (None, None, False, st.facts.copy()), x["at"], fr.body.path),)
                if not self.assume(st.facts, b):
                    raise Split([])
        else:
            raise Undetermined("statement " + k)

    def terminator(self, st, fr, blk):
        t = blk["t"]
        k = t["k"]
        at = t["at"]
        if k == "goto":
            return [("go", (t["t"], st))]
        if k == "drop":
            return [("go", (t["t"], st))]
        if k == "return":
            return [("out", Outcome("ret", st, None, "", at))]
        if k == "unreachable":
            return [("out", Outcome("unreachable", st, None, "unreachable", at))]
        if k == "switch":
            v = self.operand(st, fr, t["o"])
            ty = self.prog.types[t["ty"]]
            if isinstance(v, BoolV):
                c = int(self.truth(st, v))
                for val, b in t["v"]:
                    if int(val) == c:
                        return [("go", (b, st))]
                return [("go", (t["else"], st))]
            v = self.asint(st, v, ty)
            v = st.facts.norm(v)
            c = v.const()
            if c is not None:
                for val, b in t["v"]:
                    if int(val) == c:
                        return [("go", (b, st))]
                return [("go", (t["else"], st))]
            vals = [int(x[0]) for x in t["v"]]
            alts = [lambda f, x=x: f.add_eq(v - x) for x in vals]
            alts.append(lambda f: all(f.add_ne(v - x) for x in vals))
            if all(self.decide(st, eq(v, x)) is False for x in vals):
                return [("go", (t["else"], st))]
            raise Split(alts)
        if k == "assert":
            c = self.truth(st, self.operand(st, fr, t["o"]))
            if c == t["exp"]:
                return [("go", (t["t"], st))]
            return [("out", Outcome("panic", st, None, t["msg"], at))]
        if k == "call":
            return self.call_term(st, fr, t, at)
        raise Undetermined("terminator " + k)

    def call_term(self, st, fr, t, at):
        args = [self.operand(st, fr, a) for a in t["args"]]
        dty = self.prog.types[t["dty"]]
        callee = t["callee"]
        droot, dpath, _ = self.place(st, fr, t["dest"])
        call = Call(callee, args, [self.prog.types[i] for i in t["aty"]], dty, at, fr)
        if callee["res"] == "indirect":
            f = self.operand(st, fr, t["f"])
            outs = self.call_value(st, f, args, dty, at, fr)
        else:
            outs = self.call(st, call)
        res = []
        for o in outs:
            if o.kind == "ret":
                if t["t"] is None:
                    res.append(("out", Outcome("panic", o.st, None, "diverging call " + callee.get("rpath", callee.get("path", "?")), at)))
                    continue
                self.write(o.st, droot, dpath, o.v, at, fr.body.path)
                res.append(("go", (t["t"], o.st)))
            else:
                res.append(("out", o))
        return res

    def call(self, st, call):
        self.calls += 1
        for ov in self.overrides:
            r = ov(self, st, call)
            if r is not None:
                return r
        r = self.models.dispatch(self, st, call)
        if r is not None:
            return r
        c = call.callee
        res = c["res"]
        if res == "item":
            b = self.prog.bodies.get(c["key"])
            if b is not None and not b.error:
                args = call.args
                if b.closure and len(args) == 2 and b.nargs != 2 or b.closure and c["path"].startswith(("core::ops::function::Fn", "core::ops::Fn")) and len(args) == 2 and isinstance(args[1], Agg) and args[1].ty.k == "tuple":
                    args = [args[0]] + list(args[1].f)
                return self.call_body(st, b, args, call.fr.depth + 1)
        if res in ("closure_once", "fnptr_shim"):
            return self.call_value(st, call.args[0], list(call.args[1].f), call.dty, call.at, call.fr)
        if res == "clone_shim":
            v = call.args[0]
            return [Outcome("ret", st, self.read(st, v.root, v.path))]
        if res == "drop_glue":
            return [Outcome("ret", st, self.unit(call.dty))]
        if call.dty.k == "never":
            return [Outcome("panic", st, None, c.get("rpath", c["path"]), call.at)]
        return self.opaque(st, call)

    def call_value(self, st, f, args, dty, at, fr):
        """Call a function value with unpacked arguments"""
        st = st.copy()
        ref = None
        g = f
        while isinstance(g, Ref):
            ref = g
            g = self.read(st, g.root, g.path)
        if isinstance(g, FnV):
            c = g.ty.d["callee"]
            call = Call(c, args, [None] * len(args), dty, at, fr)
            return self.call(st, call)
        if isinstance(g, Agg) and g.ty.k == "closure":
            b = self.find_closure(g.ty)
            if b is None:
                raise Undetermined("closure without MIR")
            selfty = b.locals[1]
            if selfty.k == "ref":
                if ref is None:
                    root = ("L", next(self.frames), 0)
                    st.mem[root] = g
                    ref = Ref(root, ())
                a0 = ref
            else:
                a0 = g
            return self.call_body(st, b, [a0] + args, fr.depth + 1)
        if isinstance(g, Opq):
            t = ("call", g.term) + tuple(self.argterm(st, a) for a in args)
            v = self.fresh(dty, t, st)
            st.events = st.events + (Event("call", (g.term, tuple(args), v), at, fr.body.path),)
            return [Outcome("ret", st, v)]
        raise Undetermined("call of %r" % (g,))

    def find_closure(self, ty):
        name = ty.name
        hits = self._closures().get(ty.id)
        return hits

    def _closures(self):
        if not hasattr(self.prog, "closures"):
            m = {}
            for b in self.prog.bodies.values():
                if b.error or not b.closure or b.nargs < 1:
                    continue
                t = b.locals[1]
                if t.k in ("ref", "ptr"):
                    t = t.to()
                if t.k == "closure":
                    m[t.id] = b
            self.prog.closures = m
        return self.prog.closures

    def argterm(self, st, a):
        """Term of an argument, looking through shared references"""
        if isinstance(a, Ref) and a.fat is None:
            try:
                return ("&", term(self.read(st, a.root, a.path)))
            except Undetermined:
                return term(a)
        if isinstance(a, Agg):
            return ("agg", a.ty.vname(a.v) if a.ty.isenum() else "") + tuple(self.argterm(st, x) for x in a.f)
        return term(a)

    def opaque(self, st, call):
        """A call that cannot be resolved (a method of a type parameter, a library function without model): a
        function of its arguments; whatever it can reach through &mut becomes unknown"""
        st = st.copy()
        c = call.callee
        name = c.get("rpath", c["path"])
        if c["res"] != "opaque":
            self.unmodelled.add(name)
        terms = tuple(self.argterm(st, a) for a in call.args)
        olds = []
        for i, (a, ty) in enumerate(zip(call.args, call.atys)):
            if isinstance(a, Ref):
                old = None
                try:
                    old = self.read(st, a.root, a.path)
                except Undetermined:
                    pass
                olds.append(old)
            else:
                olds.append(a)
        v = self.fresh(call.dty, ("op", name) + terms, st)
        news = []
        for i, (a, ty) in enumerate(zip(call.args, call.atys)):
            if ty is not None and ty.k == "ref" and ty.d["mut"] and isinstance(a, Ref):
                old = olds[i]
                ot = term(old) if old is not None else ("?",)
                nt = ("upd", name + "#%d" % i, ot) + tuple(t for j, t in enumerate(terms) if j != i)
                self.write(st, a.root, a.path, self.fresh(ty.to(), nt, st))
        st.events = st.events + (Event("op", (name, tuple(call.args), tuple(olds), v), call.at, call.fr.body.path),)
        if c["res"] != "opaque" or not self.abstract(c):
            st.taint = st.taint + (name,)
        return [Outcome("ret", st, v)]

    def abstract(self, c):
        """Whether a callee is a method of a type that only the user of the library knows"""
        ts = [a["ty"] for a in c["args"] if "ty" in a]
        if not ts:
            return c.get("trait") is None and "rpath" not in c
        t = self.prog.types[ts[0]]
        while t.k == "ref":
            t = t.to()
        return t.k in ("param", "other", "dyn", "closure")

    def unit(self, ty):
        if ty.elems() == []:
            return Agg(ty, 0, [])
        return None

    # loops ------------------------------------------------------------------------------------

    def loop(self, S, fr, h, nodes):
        """Delayed widening: the first self.delay iterations keep their own partitions, the rest is generalised"""
        outs, exits = [], []
        heads = [S]
        for _ in range(self.delay):
            nxt = []
            for s in heads:
                o, ex, back = self.region(s.copy(), fr, h, nodes, h)
                outs += o
                exits += ex
                nxt += back
            heads = nxt
        for s in heads:
            o, ex, finite = self.fixpoint(s, fr, h, nodes)
            if finite:
                r = self.unroll(s, fr, h, nodes, finite)
                if r is not None:
                    o, ex = r
            outs += o
            exits += ex
        return outs, exits

    def unroll(self, S, fr, h, nodes, limit):
        """A loop whose number of iterations is known and that has few ways through them: every way by itself, or None"""
        outs, exits, steps = [], [], self.steps
        heads = [S]
        for _ in range(limit):
            nxt = []
            for s in heads:
                o, ex, back = self.region(s.copy(), fr, h, nodes, h)
                outs += o
                exits += ex
                nxt += back
                if len(nxt) > 24:
                    self.steps = steps
                    return None
            heads = nxt
            if not heads:
                return outs, exits
        return None

    def fixpoint(self, S, fr, h, nodes):
        """-> outcomes, exits, number of iterations if it is known"""
        lid = next(self.ids)
        k = sym("k%d" % lid, 0, None)
        plan = {}
        for attempt in range(14):
            newplan = Plan(plan)
            summ = LoopSummary(fr.body, h, k)
            summ.plan = plan
            summ.entry = S
            outs, exits = [], []
            H0 = self.generalise(S, S, plan, k, lid)
            parts = {self.finkey(H0, plan): H0}
            queue = list(parts.items())
            changed = False
            while queue:
                key, H = queue.pop(0)
                summ.parts.append((key, H))
                hs = H.copy()
                hs.events = ()
                o, ex, back = self.region(hs, fr, h, nodes, h)
                for x in o:
                    summ.paths.append(BodyPath(key, "out", x.st.copy(), x))
                    outs.append(x)
                for b, s in ex:
                    summ.paths.append(BodyPath(key, "exit", s.copy(), b))
                    exits.append((b, s))
                for s in back:
                    bk = self.finkey(s, plan)
                    if bk in parts:
                        if self.widen(S, parts[bk], s, newplan, k):
                            changed = True
                    else:
                        if len(parts) > 80:
                            raise Undetermined("loop partitions")
                        if self.widen(S, H0, s, newplan, k, new=True):
                            changed = True
                        HB = self.generalise(S, s, plan, k, lid)
                        parts[bk] = HB
                        queue.append((bk, HB))
                    summ.paths.append(BodyPath(key, "back", s, None, bk))
                if changed and attempt < 13 and len(parts) > 40:
                    break
                if changed:
                    break
            if not changed:
                break
            plan = newplan
        else:
            raise Undetermined("loop invariant not found at " + fr.body.blocks[h]["t"]["at"])
        ev = Event("loop", (summ,), summ.span, fr.body.path)
        for o in outs:
            o.st.events = S.events + (ev,) + o.st.events
        for b, s in exits:
            s.events = S.events + (ev,) + s.events
        return outs, exits, self.iterations(summ)

    def iterations(self, summ):
        """Number of passes through the header when the partitions follow each other without a cycle, or 0"""
        if len(summ.parts) < 2:
            return 0
        nxt = {}
        for p in summ.paths:
            if p.kind == "back":
                nxt.setdefault(p.key, set()).add(p.tokey)
        depth = {}

        def go(k, seen):
            if k in seen:
                return None
            if k not in depth:
                ds = [go(x, seen | {k}) for x in nxt.get(k, ())]
                depth[k] = None if None in ds else 1 + max(ds, default=0)
            return depth[k]
        return go(summ.parts[0][0], frozenset()) or 0

    def finkey(self, st, plan):
        r = []
        for (root, path), p in plan.items():
            if p[0] == "fin":
                r.append((root, path, self.finval(st, root, path)))
        return tuple(sorted(r, key=repr))

    def node(self, st, root, path):
        v = st.mem.get(root)
        for e in path:
            if v is None:
                return None
            if e[0] == "F":
                if isinstance(v, (Agg, Model)) and e[1] < len(v.f) and (e[2] is None or isinstance(v, Agg) and e[2] == v.v):
                    v = v.f[e[1]]
                else:
                    return None
        return v

    def finval(self, st, root, path):
        v = self.node(st, root, path)
        if isinstance(v, Agg):
            return v.v
        if isinstance(v, BoolV) and v.k == "c":
            return v.a
        if isinstance(v, Poly):
            return v.const()
        return None

    def leafpaths(self, v, pre=()):
        """Yield (path, leaf) of a value tree"""
        if isinstance(v, Agg) and (v.f or True):
            if v.ty.isenum():
                yield pre, v
            for i, x in enumerate(v.f):
                yield from self.leafpaths(x, pre + (("F", i, v.v if v.ty.isenum() else None),))
        elif isinstance(v, Model):
            for i, x in enumerate(v.f):
                yield from self.leafpaths(x, pre + (("F", i, None),))
        else:
            yield pre, v

    def widen(self, S, H, B, plan, k, new=False):
        """Compare the state at the back edge with the header state; extend the plan. True if it changed"""
        changed = False
        for root, hv in list(H.mem.items()):
            if root not in B.mem:
                continue
            bv = B.mem[root]
            if hv is bv or hv == bv:
                continue
            changed = self.widen_value(S, H, B, root, (), hv, bv, plan, k, new) or changed
        return changed

    def widen_value(self, S, H, B, root, path, hv, bv, plan, k, new):
        if hv is bv or hv == bv:
            return False
        key = (root, path)
        p = plan.get(key)
        if p is not None and p[0] == "havoc":
            return False
        if isinstance(hv, Poly) and isinstance(bv, Poly):
            f = B.facts
            d = f.norm(bv - hv)
            if p is not None and p[0] == "ind" and key not in plan.base:
                # found on another way round in this attempt: the header is not generalised yet
                if f.norm(bv - p[1] - p[2]).const() == 0:
                    return False
                plan[key] = ("havoc",)
                return True
            if p is not None and p[0] == "ind":
                # must be entry + step*(k+1)
                want = p[1] + p[2] * (P(k) + 1)
                if f.norm(bv - want).const() == 0:
                    return False
                plan[key] = ("havoc",)
                return True
            if p is not None and p[0] == "fin":
                if bv.const() is not None:
                    return False
                plan[key] = ("havoc",)
                return True
            if new:
                if hv == bv:
                    return False
            if d.const() is not None and d.const() != 0 and not new:
                sv = self.node(S, root, path)
                if isinstance(sv, Poly):
                    if sv.const() is not None and self.small_range(S, root, path):
                        plan[key] = ("fin",)
                    else:
                        plan[key] = ("ind", sv, d.const())
                    return True
            if d.const() == 0:
                return False
            plan[key] = ("havoc",)
            return True
        if isinstance(hv, Agg) and isinstance(bv, Agg) and hv.ty is bv.ty:
            ch = False
            if hv.ty.isenum() and hv.v != bv.v:
                if p is None:
                    plan[key] = ("fin",)
                    return True
                # p is fin: another partition handles it; nothing to compare below
                return False
            for i, (x, y) in enumerate(zip(hv.f, bv.f)):
                ch = self.widen_value(S, H, B, root, path + (("F", i, hv.v if hv.ty.isenum() else None),), x, y, plan, k, new) or ch
            return ch
        if isinstance(hv, Model) and isinstance(bv, Model) and hv.k == bv.k and len(hv.f) == len(bv.f):
            ch = False
            for i, (x, y) in enumerate(zip(hv.f, bv.f)):
                ch = self.widen_value(S, H, B, root, path + (("F", i, None),), x, y, plan, k, new) or ch
            return ch
        if isinstance(hv, BoolV) and isinstance(bv, BoolV):
            if hv.k == "c" and bv.k == "c":
                if p is None:
                    plan[key] = ("fin",)
                    return True
                return False
            if p is None or p[0] == "fin":
                plan[key] = ("havoc",)
                return True
            return False
        if hv is None:
            # uninitialised at the header: dead there
            if p is None:
                plan[key] = ("dead",)
                return True
            return False
        if bv is None:
            if p is None:
                plan[key] = ("dead",)
                return True
            return False
        if p is not None and p[0] == "dead":
            return False
        plan[key] = ("havoc",)
        return True

    def small_range(self, S, root, path):
        """start of a Range whose both ends are small constants"""
        if not path:
            return False
        par = self.node(S, root, path[:-1])
        if isinstance(par, Agg) and par.ty.path in ("core::ops::Range", "std::ops::Range", "core::ops::range::Range") and len(par.f) == 2:
            a, b = par.f
            if isinstance(a, Poly) and isinstance(b, Poly) and a.const() is not None and b.const() is not None:
                return 0 <= b.const() - a.const() <= 16
        if isinstance(par, Model) and par.k in ("sliceiter", "arriter") and path[-1][1] in (1, 2):
            a, b = par.f[1], par.f[2]
            if a.const() is not None and b.const() is not None:
                return 0 <= b.const() - a.const() <= 16
        return False

    def generalise(self, S, X, plan, k, lid):
        """Header state for partition entered with X: facts of the loop entry only"""
        H = State()
        H.mem = dict(X.mem)
        H.facts = S.facts.copy()
        H.events = S.events
        H.taint = tuple(dict.fromkeys(S.taint + X.taint))
        for (root, path), p in plan.items():
            if root not in H.mem:
                continue
            if p[0] == "fin":
                continue
            if p[0] == "dead":
                H.mem[root] = self.put(H.mem[root], path, lambda v: None)
                continue
            cur = self.node(H, root, path)
            if cur is None and p[0] != "havoc":
                continue
            if p[0] == "ind":
                val = p[1] + p[2] * P(k)
                H.mem[root] = self.put(H.mem[root], path, lambda v: val)
            elif p[0] == "havoc":
                ty = self.path_type(X, root, path)
                orig = self.node(S, root, path)
                H.mem[root] = self.put(H.mem[root], path, lambda v: self.unknown(H, v, orig, ty, lid, root, path))
        # type invariants of the generalised values
        for (root, path), p in plan.items():
            if p[0] in ("ind", "havoc"):
                for n in range(len(path) + 1):
                    v = self.node(H, root, path[:n])
                    if isinstance(v, Agg):
                        self.invariant(v, H)
                if p[0] == "ind":
                    t = self.path_type(X, root, path)
                    v = self.node(H, root, path)
                    if t is not None and t.isint() and isinstance(v, Poly):
                        lo, hi = t.range()
                        H.facts.add_le(P(lo) - v, check=False)
                        H.facts.add_le(v - hi, check=False)
        if plan:
            H.facts.add_le(-P(k), check=False)
        return H

    def put(self, v, path, f):
        if not path:
            return f(v)
        e = path[0]
        if isinstance(v, (Agg, Model)) and e[1] < len(v.f) and (e[2] is None or isinstance(v, Agg) and v.v == e[2]):
            l = list(v.f)
            l[e[1]] = self.put(l[e[1]], path[1:], f)
            return Agg(v.ty, v.v, l) if isinstance(v, Agg) else Model(v.k, l, v.ty)
        return v

    def path_type(self, st, root, path):
        if root[0] == "L":
            ty = self.frame_types.get(root) if hasattr(self, "frame_types") else None
        v = st.mem.get(root)
        t = None
        for e in path:
            if isinstance(v, Agg):
                fl = v.ty.vfields(v.v) if v.ty.isenum() else v.ty.elems()
                t = fl[e[1]] if fl else None
                v = v.f[e[1]] if e[1] < len(v.f) else None
            elif isinstance(v, Model):
                t = None
                v = v.f[e[1]] if e[1] < len(v.f) else None
            else:
                return None
        if t is None:
            if isinstance(v, (Agg, Opq, ArrV)):
                return v.ty
        return t

    def unknown(self, H, v, orig, ty, lid, root, path):
        t = ("loopv", "%d:%s" % (lid, "".join(str(e[1]) for e in path)), term(orig) if orig is not None else ("?", show(root)))
        if isinstance(v, Poly):
            lo, hi = ty.range() if ty is not None and ty.isint() else (None, None)
            return P(sym("havoc%d.%s%s" % (lid, show(root), "".join(".%s" % e[1] for e in path)), lo, hi, True))
        if isinstance(v, BoolV):
            return BoolV("t", t, True)
        if isinstance(v, ArrV):
            n = v.len
            if v.ty.path.startswith("alloc::"):
                # a vector: its length changes too
                n = P(sym("len%d.%s%s" % (lid, show(root), "".join(".%s" % e[1] for e in path)), 0, (1 << 63) - 1, True))
            return ArrV(v.ty, ("sym", t, self.elemsym(elemty(v.ty))), n)
        if isinstance(v, Opq):
            return Opq(v.ty, t)
        if isinstance(v, Agg):
            return self.fresh(v.ty, t, H)
        if isinstance(v, Ref):
            return Model("unknown-ref", (), None)
        if isinstance(v, Model):
            return Model(v.k, tuple(self.unknown(H, x, None, None, lid, root, path + (("F", i, None),)) for i, x in enumerate(v.f)), v.ty)
        return Model("unknown", (), None)


class Call:
    __slots__ = ("callee", "args", "atys", "dty", "at", "fr")

    def __init__(self, callee, args, atys, dty, at, fr):
        self.callee, self.args, self.atys, self.dty, self.at, self.fr = callee, args, atys, dty, at, fr

    @property
    def path(self):
        return self.callee.get("rpath", self.callee["path"])


def elemty(ty):
    """Element type of an array, a slice or a vector"""
    return ty.elem() if "elem" in ty.d else ty.targs()[0]


def root_name(t):
    while isinstance(t, tuple) and len(t) in (2, 3) and t[0] in (".", "*", "#"):
        t = t[1]
    return t


def mentions(v, atom):
    """Does a value depend on an atom (a symbol)"""
    from .facts import _occ
    return _occ(atom, _deep(v))


def _deep(v):
    if isinstance(v, (Agg, Model)):
        return tuple(_deep(x) for x in v.f)
    if isinstance(v, Ref):
        return (tuple(v.path), v.fat or ())
    if isinstance(v, ArrV):
        b = v.base
        r = tuple(_deep(x) for x in b[1]) if b[0] == "list" else (_deep(b[1]),) if b[0] == "repeat" else (b[1],)
        return r + tuple((i, _deep(x)) for i, x in v.w)
    if isinstance(v, BoolV):
        return (v.a,) if v.k != "c" else ()
    if isinstance(v, Opq):
        return v.term
    return v
