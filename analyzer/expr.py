"""Value domain: integer-valued expressions in polynomial normal form over atoms.

An atom is a symbol (a const parameter, an argument, a loop counter, an opaque result) or the
application of an operator that is not polynomial (division, bit operations, array selection, an
uninterpreted call). Two values are the same abstract value exactly when their normal forms are
equal, so comparing values never needs a solver."""

import itertools

_atoms = {}
_count = itertools.count()


class Atom:
    __slots__ = ("kind", "op", "args", "lo", "hi", "id", "taint", "_h")

    def __repr__(self):
        if self.kind == "sym":
            return self.op
        return "%s(%s)" % (self.op, ", ".join(map(show, self.args)))

    def __lt__(self, o):
        return self.id < o.id

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o


def show(x):
    if isinstance(x, tuple):
        return "(" + ",".join(map(show, x)) + ")"
    return str(x)


def _mk(kind, op, args, lo, hi, taint):
    key = (kind, op, args, lo, hi, taint)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.op, a.args, a.lo, a.hi, a.taint = kind, op, args, lo, hi, taint
        a.id = next(_count)
        a._h = hash(a.id)
        _atoms[key] = a
    return a


def sym(name, lo=None, hi=None, taint=False):
    """A symbol; lo/hi are constant bounds (None: unbounded)"""
    return _mk("sym", name, (), lo, hi, taint)


def app(op, args, lo=None, hi=None):
    args = tuple(args)
    return _mk("app", op, args, lo, hi, any(tainted(x) for x in args))


def tainted(x):
    if isinstance(x, Poly):
        return any(a.taint for m in x.t for a in m)
    if isinstance(x, Atom):
        return x.taint
    if isinstance(x, tuple):
        return any(tainted(y) for y in x)
    return False


class Poly:
    """Immutable polynomial with integer coefficients: {monomial (sorted tuple of atoms): coef}"""
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda mc: (len(mc[0]), [a.id for a in mc[0]])):
            s = "*".join(map(repr, m))
            if not m:
                out.append("%+d" % c)
            elif c == 1:
                out.append("+" + s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append("%+d*%s" % (c, s))
        r = " ".join(out)
        return r[1:] if r.startswith("+") else r

    def const(self):
        """The constant value, or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        return {a for m in self.t for a in m}

    def __add__(self, o):
        o = P(o)
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        r = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n))
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return Poly(r)

    __rmul__ = __mul__

    def degree(self):
        return max((len(m) for m in self.t), default=0)

    def subst(self, mp):
        """Substitute atoms by polynomials"""
        if not any(a in mp for m in self.t for a in m):
            return self
        r = ZERO
        for m, c in self.t.items():
            p = Poly({(): c})
            for a in m:
                p = p * (mp[a] if a in mp else P(a))
            r = r + p
        return r


ZERO = Poly({})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly({(): int(x)}) if x else ZERO
    if isinstance(x, int):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, Atom):
        return Poly({(x,): 1})
    raise TypeError(repr(x))


ONE = P(1)


def bounds(p, _depth=0):
    """Constant interval of a polynomial from the bounds of its atoms (None: unbounded)"""
    lo = hi = 0
    for m, c in p.t.items():
        mlo, mhi = 1, 1
        for a in m:
            alo, ahi = a.lo, a.hi
            cands = []
            if None in (mlo, mhi, alo, ahi):
                # only the non-negative case is worth keeping
                if mlo is not None and mlo >= 0 and alo is not None and alo >= 0:
                    mlo = mlo * alo
                    mhi = None if (mhi is None or ahi is None) else mhi * ahi
                else:
                    mlo = mhi = None
                continue
            cands = [mlo * alo, mlo * ahi, mhi * alo, mhi * ahi]
            mlo, mhi = min(cands), max(cands)
        if c < 0:
            mlo, mhi = (None if mhi is None else mhi * c), (None if mlo is None else mlo * c)
        else:
            mlo, mhi = (None if mlo is None else mlo * c), (None if mhi is None else mhi * c)
        lo = None if lo is None or mlo is None else lo + mlo
        hi = None if hi is None or mhi is None else hi + mhi
    return lo, hi


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


class Unknown(Exception):
    """An expression has no value at a point (e.g. division by zero)"""


class Env:
    """A point: values for symbols; opaque applications get a value per (operator, argument values)"""

    def __init__(self, vals, pick=None):
        self.v = vals
        self.memo = {}
        self.uf = {}
        self.pick = pick

    def poly(self, p):
        r = 0
        for m, c in p.t.items():
            x = c
            for a in m:
                x *= self.atom(a)
            r += x
        return r

    def atom(self, a):
        if a.kind == "sym":
            if a in self.v:
                return self.v[a]
            if self.pick is None:
                raise Unknown(a)
            v = self.v[a] = self.pick(a)
            return v
        if a in self.memo:
            return self.memo[a]
        v = self.memo[a] = self._app(a)
        return v

    def term(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Atom):
            return self.atom(x)
        if isinstance(x, tuple):
            return tuple(self.term(y) for y in x)
        if hasattr(x, "evaluate"):
            return x.evaluate(self)
        return x

    def _app(self, a):
        f = EVAL.get(a.op)
        if f is not None:
            return f(self, a)
        key = (a.op, self.term(a.args))
        if key not in self.uf:
            if self.pick is None:
                raise Unknown(a)
            self.uf[key] = self.pick(a)
        return self.uf[key]


def _div(env, a):
    x, y = env.poly(a.args[0]), env.poly(a.args[1])
    if y == 0:
        raise Unknown("div0")
    return trunc_div(x, y)


def _bits(f):
    def g(env, a):
        bits, signed = a.args[2], a.args[3]
        m = (1 << bits) - 1
        return wrap(f(env.poly(a.args[0]) & m, env.poly(a.args[1]) & m, bits), bits, signed)
    return g


def _shr(env, a):
    x, s = env.poly(a.args[0]), env.poly(a.args[1])
    return x >> (s % a.args[2])


EVAL = {
    "div": _div,
    "and": _bits(lambda x, y, b: x & y),
    "or": _bits(lambda x, y, b: x | y),
    "xor": _bits(lambda x, y, b: x ^ y),
    "shl": _bits(lambda x, y, b: x << (y % b)),
    "shr": _shr,
    "wrap": lambda env, a: wrap(env.poly(a.args[0]), a.args[1], a.args[2]),
    "absdiff": lambda env, a: abs(env.poly(a.args[0]) - env.poly(a.args[1])),
    "select": lambda env, a: a.args[0].select(env, a.args[1]),
}


def div(a, b, nonneg=True):
    """a / b (truncating); operands are polys"""
    ca, cb = a.const(), b.const()
    if cb == 1:
        return a
    if ca is not None and cb:
        return P(trunc_div(ca, cb))
    lo = hi = None
    alo, ahi = bounds(a)
    blo, bhi = bounds(b)
    if alo is not None and alo >= 0 and blo is not None and blo >= 0:
        lo = 0
        hi = ahi if ahi is None or not blo else ahi // blo
    elif cb and cb > 0 and None not in (alo, ahi):
        lo, hi = trunc_div(alo, cb), trunc_div(ahi, cb)
    return P(app("div", (a, b), lo, hi))


def mod(a, b):
    """a % b (truncating) in terms of the quotient, so that (a/b)*b + a%b == a holds by form"""
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        return P(ca - trunc_div(ca, cb) * cb)
    if cb == 1:
        return ZERO
    return a - div(a, b) * b
