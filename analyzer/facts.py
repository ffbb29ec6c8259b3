"""Constraint domain of a trace partition.

A conjunction of: linear constraints over monomials (p <= 0), disequalities, truth values of opaque
conditions, and variants of opaque enum values. Emptiness is decided by Fourier-Motzkin elimination over
the monomials (with integer tightening, the definitions of quotients and the products of linear
facts as extra facts). An emptiness answer is a proof; the absence of one proves nothing."""

from fractions import Fraction
from math import gcd
import random

from .expr import P, Poly, ZERO, ONE, bounds, Env, Unknown, app, div as mkdiv, wrap

FM_CAP = 300


def tighten(t, c):
    """t: {mono: int}, constraint sum t*m + c <= 0 -> divided by the gcd, constant rounded up"""
    g = 0
    for v in t.values():
        g = gcd(g, v)
    if g > 1:
        t = {m: v // g for m, v in t.items()}
        c = -((-c) // g)  # ceil(c/g)
    return t, c


class Infeasible(Exception):
    pass


def lp_empty(cons):
    """As fm_empty over the rationals, by the simplex method on slack variables (Bland's rule)"""
    cols = sorted({m for t, _ in cons for m in t}, key=lambda m: [a.id for a in m])
    n = len(cols)
    num = {m: i for i, m in enumerate(cols)}
    # variable i < n: free, 0 at the start; variable n+j: slack sum of constraint j, at most -c
    rows, upper, val = {}, {}, [Fraction(0)] * (n + len(cons))
    for j, (t, c) in enumerate(cons):
        rows[n + j] = {num[m]: Fraction(v) for m, v in t.items()}
        upper[n + j] = Fraction(-c)
    for _ in range(600):
        bad = [b for b in rows if b in upper and val[b] > upper[b]]
        if not bad:
            return False
        b = min(bad)
        row = rows[b]
        # decrease b: raise a variable with negative coefficient (if below its bound) or lower one with positive coefficient
        piv = None
        for x in sorted(row):
            k = row[x]
            if k > 0 or k < 0 and (x not in upper or val[x] < upper[x]):
                piv = x
                break
        if piv is None:
            return True
        k = row[piv]
        d = (upper[b] - val[b]) / k
        val[b] = upper[b]
        val[piv] += d
        for r, rw in rows.items():
            if r != b and piv in rw:
                val[r] += rw[piv] * d
        # pivot
        new = {x: -v / k for x, v in row.items() if x != piv}
        new[b] = 1 / k
        del rows[b]
        for r, rw in rows.items():
            v = rw.pop(piv, None)
            if v is not None:
                for x, y in new.items():
                    z = rw.get(x, 0) + v * y
                    if z:
                        rw[x] = z
                    else:
                        rw.pop(x, None)
        rows[piv] = new
    return False


def fm_empty(cons):
    """cons: list of ({mono: int}, const) meaning sum + const <= 0. True if definitely empty"""
    work = []
    seen = set()
    for t, c in cons:
        if not t:
            if c > 0:
                return True
            continue
        t, c = tighten(t, c)
        k = (frozenset(t.items()))
        work.append((t, c, k))

    def dedupe(w):
        best = {}
        for t, c, k in w:
            o = best.get(k)
            if o is None or c > o[1]:
                best[k] = (t, c, k)
        return list(best.values())

    work = dedupe(work)
    while work:
        cnt = {}
        for t, c, k in work:
            for m, v in t.items():
                p, n = cnt.get(m, (0, 0))
                cnt[m] = (p + 1, n) if v > 0 else (p, n + 1)
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], len(x), [a.id for a in x]))
        pos = [w for w in work if w[0].get(m, 0) > 0]
        neg = [w for w in work if w[0].get(m, 0) < 0]
        rest = [w for w in work if m not in w[0]]
        if len(pos) * len(neg) + len(rest) > FM_CAP:
            return lp_empty([(t, c) for t, c, k in work])
        for tp, cp, _ in pos:
            a = tp[m]
            for tn, cn, _ in neg:
                b = -tn[m]
                g = gcd(a, b)
                fa, fb = b // g, a // g
                t = {}
                for x, v in tp.items():
                    t[x] = v * fa
                for x, v in tn.items():
                    n = t.get(x, 0) + v * fb
                    if n:
                        t[x] = n
                    else:
                        t.pop(x, None)
                t.pop(m, None)
                c = cp * fa + cn * fb
                if not t:
                    if c > 0:
                        return True
                    continue
                t, c = tighten(t, c)
                rest.append((t, c, frozenset(t.items())))
        work = dedupe(rest)
    return False


def split(p):
    t = dict(p.t)
    c = t.pop((), 0)
    return t, c


def definitional(a):
    """Facts (polys <= 0) that hold by definition of an atom"""
    r = []
    if a.lo is not None:
        r.append(P(a.lo) - P(a))
    if a.hi is not None:
        r.append(P(a) - a.hi)
    if a.kind == "app" and a.op == "div":
        n, d = a.args
        nlo, dlo = bounds(n)[0], bounds(d)[0]
        if nlo is not None and nlo >= 0 and dlo is not None and dlo > 0:
            q = P(a)
            r.append(d * q - n)            # d*q <= n
            r.append(n - d * q - d + 1)    # n - d*q <= d - 1
    if a.kind == "app" and a.op in DEFS:
        r.extend(DEFS[a.op](a))
    return r


DEFS = {}


class Facts:
    __slots__ = ("les", "nes", "bools", "variants", "sub", "_cache")

    def __init__(self):
        self.les = ()
        self.nes = ()
        self.bools = {}
        self.variants = {}
        self.sub = {}
        self._cache = {}

    def copy(self):
        f = Facts()
        f.les, f.nes = self.les, self.nes
        f.bools, f.variants, f.sub = self.bools, self.variants, self.sub
        f._cache = self._cache
        return f

    # normal forms under the equalities

    def norm(self, p):
        if not self.sub:
            return p
        mp = {}
        for a in p.atoms():
            n = self._atom(a)
            if n is not None:
                mp[a] = n
        return p.subst(mp) if mp else p

    def _atom(self, a):
        if a in self._cache:
            return self._cache[a]
        r = self.sub.get(a)
        if r is None and a.kind == "app":
            changed = False
            args = []
            for x in a.args:
                y = self.normterm(x)
                changed = changed or y is not x
                args.append(y)
            if changed:
                r = rebuild(a, tuple(args))
                r = self.norm(r)
        self._cache[a] = r
        return r

    def normterm(self, x):
        if isinstance(x, Poly):
            y = self.norm(x)
            return x if y == x else y
        if isinstance(x, tuple):
            ys = tuple(self.normterm(y) for y in x)
            return x if all(a is b for a, b in zip(x, ys)) else ys
        if hasattr(x, "normalize"):
            return x.normalize(self)
        return x

    # queries

    def _system(self, extra):
        """Constraints in the connected component of the extra polys"""
        pool = list(self.les)
        want = set()
        for p in extra:
            want |= p.atoms()
        chosen = []
        done = set()
        todo = list(want)
        seen_atoms = set(want)
        seen_f = set()
        by_atom = {}
        for i, f in enumerate(pool):
            for a in deep_atoms(f):
                by_atom.setdefault(a, []).append(i)
        while todo:
            a = todo.pop()
            for i in by_atom.get(a, ()):
                if i in seen_f:
                    continue
                seen_f.add(i)
                chosen.append(pool[i])
                for b in pool[i].atoms():
                    if b not in seen_atoms:
                        seen_atoms.add(b)
                        todo.append(b)
            for f in definitional(a):
                f = self.norm(f)
                if f.const() is not None and f.const() <= 0:
                    continue
                chosen.append(f)
                for b in f.atoms():
                    if b not in seen_atoms:
                        seen_atoms.add(b)
                        todo.append(b)
        return chosen

    def _empty(self, extra):
        full = self._system(extra)
        if any(len(m) > 1 for p in extra for m in p.t):
            # nonlinear: first with the facts about the atoms of the query only
            near = {a for p in extra for a in p.atoms()}
            sub = [p for p in full if p.atoms() <= near]
            if len(sub) < len(full) and self._refute(sub + list(extra)):
                return True
        return self._refute(full + list(extra))

    def _refute(self, sys):
        monos = set()
        for p in sys:
            for m in p.t:
                if len(m) > 1:
                    monos.add(m)
        cons = [split(p) for p in sys]
        if monos:
            inter = {a for m in monos for a in m}
            lin = []
            seen = set()
            for p in sys:
                if p.degree() <= 1 and p not in seen and p.atoms() & inter:
                    seen.add(p)
                    lin.append(p)
            # products of pairs of facts, when they only talk about monomials we already have
            if len(lin) <= 40:
                for i, p in enumerate(lin):
                    for q in lin[i:]:
                        r = -(p * q)
                        if all(len(m) < 2 or m in monos for m in r.t):
                            cons.append(split(r))
        return fm_empty(cons)

    def entails_le(self, p):
        """p <= 0 for sure"""
        p = self.norm(p)
        c = p.const()
        if c is not None:
            return c <= 0
        hi = bounds(p)[1]
        if hi is not None and hi <= 0:
            return True
        if p in self.les:
            return True
        return self._factors(p) or self._empty([ONE - p])

    def _factors(self, p):
        """p <= 0 because p = A*d + B with A <= 0, d >= 0, B <= 0"""
        if p.degree() != 2:
            return False
        for a in sorted({a for m in p.t if len(m) == 2 for a in m}, key=lambda a: a.id):
            if a.lo is None or a.lo < 0:
                continue
            quad, lin = ZERO, ZERO
            for m, k in p.t.items():
                if a in m:
                    x = list(m)
                    x.remove(a)
                    if x:
                        quad = quad + Poly({tuple(x): k})
                    else:
                        lin = P(k)
            if not quad.t:
                continue
            for d in (P(a) + 1, P(a)):
                for A in ([quad, quad + lin] if lin.t else [quad]):
                    B = p - A * d
                    if B.degree() <= 1 and A.degree() <= 1 and self.entails_le(B) and self.entails_le(A):
                        return True
        return False

    def entails_eq(self, p):
        p = self.norm(p)
        c = p.const()
        if c is not None:
            return c == 0
        return self.entails_le(p) and self.entails_le(-p)

    def entails_ne(self, p):
        p = self.norm(p)
        c = p.const()
        if c is not None:
            return c != 0
        if p in self.nes or -p in self.nes:
            return True
        for A, B in self.digits(p):
            if self.entails_ne(A) or self.entails_ne(B) or self._empty([A, -A, B, -B]):
                return True
        return self._empty([p, -p]) or self.entails_le(p + 1) or self.entails_le(ONE - p)

    def digits(self, p):
        """p as A*(a+1) + B with |B| <= a, for an atom a: then p = 0 exactly when A = 0 and B = 0"""
        if p.degree() != 2:
            return
        for a in sorted({a for m in p.t if len(m) == 2 for a in m}, key=lambda a: a.id):
            if a.lo is None or a.lo < 0:
                continue
            quad, lin = ZERO, ZERO
            for m, k in p.t.items():
                if a in m:
                    x = list(m)
                    x.remove(a)
                    if x:
                        quad = quad + Poly({tuple(x): k})
                    else:
                        lin = P(k)
            if not quad.t:
                continue
            d = P(a) + 1
            for A in ([quad, quad + lin] if lin.t else [quad]):
                B = p - A * d
                if B.degree() <= 1 and self.entails_le(B - P(a)) and self.entails_le(-B - P(a)):
                    yield A, B

    # updates; they return False when the partition is certainly empty

    def add_le(self, p, check=True):
        p = self.norm(p)
        c = p.const()
        if c is not None:
            return c <= 0
        lo, hi = bounds(p)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
        if p in self.les:
            return True
        if check and (self._factors(ONE - p) or self._empty([p])):
            return False
        self.les = self.les + (p,)
        if not self._nes(p):
            return False
        # p <= 0 and -p <= 0: an equality
        if check and -p in self.les or check and self._pinned(p):
            return self.add_eq(p, check=False)
        return True

    def _pinned(self, p):
        return self.entails_le(-p)

    def add_eq(self, p, check=True):
        p = self.norm(p)
        c = p.const()
        if c is not None:
            return c == 0
        if check and self._empty([p, -p]):
            return False
        if p in self.nes or -p in self.nes:
            return False
        for A, B in self.digits(p):
            return self.add_eq(A) and self.add_eq(B)
        # solve for an atom that occurs once, linearly, with coefficient +-1
        best = None
        for m, k in p.t.items():
            if len(m) == 1 and k in (1, -1):
                a = m[0]
                if sum(1 for n in p.t if a in n) != 1:
                    continue
                if any(occurs(a, b) for n in p.t for b in n if b is not a):
                    continue
                # prefer replacing applications, then the youngest symbol
                rank = (a.kind == "app", a.id)
                if best is None or rank > best[0]:
                    best = (rank, a, k)
        if best is None:
            self.les = self.les + (p, -p)
            return True
        _, a, k = best
        rest = Poly({m: v for m, v in p.t.items() if m != (a,)})
        val = -rest if k == 1 else rest
        extra = definitional(a)
        ns = Facts()
        ns.sub = {a: val}
        new = {}
        moved = []
        for b, v in self.sub.items():
            new[b] = ns.norm(v)
            if b.kind == "app" and occurs(a, b):
                # an application with the replaced symbol in its arguments: what it equals holds for its new form
                nb = ns.norm(P(b))
                if nb != P(b):
                    moved.append(nb - new[b])
        new[a] = val
        self.sub = new
        self._cache = {}
        # the replaced symbol keeps its bounds
        old = self.les
        self.les = ()
        for f in list(old) + extra:
            f = self.norm(f)
            c = f.const()
            if c is not None:
                if c > 0:
                    return False
                continue
            hi = bounds(f)[1]
            if hi is not None and hi <= 0:
                continue
            if f not in self.les:
                self.les = self.les + (f,)
        oldn = self.nes
        self.nes = ()
        for f in oldn:
            f = self.norm(f)
            c = f.const()
            if c is not None:
                if c == 0:
                    return False
                continue
            self.nes = self.nes + (f,)
        for f in self.nes:
            if not self._ne_close(f):
                return False
        for f in moved:
            if not self.add_eq(f):
                return False
        return True

    def _nes(self, p):
        at = deep_atoms(p)
        for f in self.nes:
            if deep_atoms(f) & at:
                if not self._ne_close(f):
                    return False
        return True

    def _ne_close(self, f):
        le, ge = self.entails_le(f), self.entails_le(-f)
        if le and ge:
            return False
        if le and (f + 1) not in self.les:
            return self.add_le(f + 1)
        if ge and (ONE - f) not in self.les:
            return self.add_le(ONE - f)
        return True

    def add_ne(self, p):
        p = self.norm(p)
        c = p.const()
        if c is not None:
            return c != 0
        lo, hi = bounds(p)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return True
        if p in self.nes or -p in self.nes:
            return True
        self.nes = self.nes + (p,)
        return self._ne_close(p)

    def _same(self, table, t):
        """Value known for a term, or for one that is equal to it under the equalities known"""
        o = table.get(t)
        if o is None and table and self.sub:
            n = self.normterm(t)
            for u, v in table.items():
                if len(u) == len(n) and u[0] == n[0] and self.normterm(u) == n:
                    return v
        return o

    def boolean(self, t):
        return self._same(self.bools, t)

    def add_bool(self, t, v):
        o = self._same(self.bools, t)
        if o is not None:
            return o == v
        self.bools = dict(self.bools)
        self.bools[t] = v
        return True

    def add_variant(self, t, v):
        o = self.variants.get(t)
        if o is not None:
            return o == v
        self.variants = dict(self.variants)
        self.variants[t] = v
        return True

    def mentions(self, t):
        """Is a term part of anything that is known?"""
        seen = set()

        def within(x):
            if x == t:
                return True
            if isinstance(x, tuple):
                return any(within(y) for y in x)
            if isinstance(x, Poly):
                return any(within(a) for a in x.atoms())
            if hasattr(x, "kind"):
                if x in seen:
                    return False
                seen.add(x)
                return within(x.args)
            if hasattr(x, "w") and hasattr(x, "base"):
                return within(x.base) or within(x.w)
            return False
        return any(within(x) for x in list(self.les) + list(self.nes) + list(self.sub.items()) + list(self.bools) + list(self.variants))

    def merge(self, other):
        """Conjoin another set of facts; False when certainly empty"""
        for a, v in other.sub.items():
            if not self.add_eq(P(a) - v):
                return False
        for p in other.les:
            if not self.add_le(p):
                return False
        for p in other.nes:
            if not self.add_ne(p):
                return False
        for t, v in other.bools.items():
            if not self.add_bool(t, v):
                return False
        for t, v in other.variants.items():
            if not self.add_variant(t, v):
                return False
        return True

    def describe(self):
        r = ["%r = %r" % (a, v) for a, v in self.sub.items()]
        r += ["%r <= 0" % p for p in self.les]
        r += ["%r != 0" % p for p in self.nes]
        r += ["%s%r" % ("" if v else "!", t) for t, v in self.bools.items()]
        r += ["%r is #%s" % (t, v) for t, v in self.variants.items()]
        return r

    # points inside the partition

    def holds(self, env):
        for a, v in self.sub.items():
            if env.atom(a) != env.poly(v):
                return False
        for p in self.les:
            if env.poly(p) > 0:
                return False
        for p in self.nes:
            if env.poly(p) == 0:
                return False
        return True

    def points(self, extra_atoms=(), n=6, tries=400, seed=1, hints=()):
        """Yield points (Env) that satisfy the numeric facts; opaque applications are free"""
        rnd = random.Random(seed)
        atoms = set(extra_atoms)
        for p in list(self.les) + list(self.nes) + list(self.sub.values()):
            atoms |= p.atoms()
        atoms |= set(self.sub)
        syms = set()

        def collect(x):
            if isinstance(x, Poly):
                for a in x.atoms():
                    collect(a)
            elif isinstance(x, tuple):
                for y in x:
                    collect(y)
            elif hasattr(x, "kind"):
                if x.kind == "sym":
                    syms.add(x)
                else:
                    collect(x.args)
            elif hasattr(x, "collect"):
                x.collect(collect)
        for a in atoms:
            collect(a)
        free = sorted(a for a in syms if a not in self.sub)
        lin = [p for p in self.les if all(a.kind == "sym" for a in p.atoms())]
        found = 0
        for attempt in range(tries):
            vals = {}
            small = attempt % 3 != 2
            order = free[:]
            if attempt % 2:
                rnd.shuffle(order)
            ok = True
            for a in order:
                lo, hi = a.lo, a.hi
                for p in lin:
                    k = None
                    rest = 0
                    for m, c in p.t.items():
                        if m == (a,):
                            k = c
                        else:
                            v = c
                            for b in m:
                                if b in vals:
                                    v *= vals[b]
                                else:
                                    v = None
                                    break
                            if v is None:
                                rest = None
                                break
                            rest += v
                    if k is None or rest is None:
                        continue
                    # k*a + rest <= 0
                    if k > 0:
                        h = (-rest) // k
                        hi = h if hi is None else min(hi, h)
                    else:
                        l = _ceil(rest, -k)
                        lo = l if lo is None else max(lo, l)
                if lo is not None and hi is not None and lo > hi:
                    ok = False
                    break
                vals[a] = pick(rnd, lo, hi, small, hints)
            if not ok:
                continue
            env = Env(vals, pick=lambda a: pick(rnd, a.lo, a.hi, small, hints))
            try:
                for a, v in self.sub.items():
                    if a.kind == "sym":
                        vals[a] = env.poly(v)
                bad = False
                for a, v in self.sub.items():
                    if a.kind == "sym":
                        if (a.lo is not None and vals[a] < a.lo) or (a.hi is not None and vals[a] > a.hi):
                            bad = True
                    else:
                        if a.op not in _EVALS:
                            env.memo[a] = env.poly(v)
                            env.uf[(a.op, env.term(a.args))] = env.memo[a]
                for t, v in self.bools.items():
                    # conditions that are known here are so at the point
                    if env.uf.setdefault(("bool", env.term(t)), v) != v:
                        bad = True
                if bad:
                    continue
                if self.holds(env):
                    found += 1
                    yield env
                    if found >= n:
                        return
            except Unknown:
                continue


def _ceil(a, b):
    return -((-a) // b)


from .expr import EVAL as _EVALS  # noqa: E402


def pick(rnd, lo, hi, small, hints=()):
    if lo is None and hi is None:
        lo, hi = -8, 8
    elif lo is None:
        lo = hi - 8
    elif hi is None:
        hi = lo + 8
    r = rnd.random()
    if hi - lo <= 6:
        return rnd.randint(lo, hi)
    if r < 0.15:
        return lo
    if r < 0.3 and not small:
        return hi
    if r < 0.4 and not small:
        return rnd.randint(lo, hi)
    if r < 0.5 and hints:
        c = rnd.choice(hints)
        if lo <= c <= hi:
            return c
    if lo < 0 < hi:
        return max(lo, min(hi, rnd.randint(-3, 6)))
    return min(hi, lo + rnd.randint(0, 6))


_deep = {}


def deep_atoms(p):
    """Atoms of a poly, including those inside the arguments of its applications"""
    r = _deep.get(p)
    if r is None:
        out = set()

        def go(x):
            if isinstance(x, Poly):
                for b in x.atoms():
                    if b not in out:
                        out.add(b)
                        if b.kind == "app":
                            go(b.args)
            elif isinstance(x, tuple):
                for y in x:
                    go(y)
        go(p)
        r = _deep[p] = frozenset(out)
    return r


def quotient(f, n, d):
    """n / d under the facts f (both non-negative), with exact multiples of d taken out of the quotient"""
    n, d = f.norm(n), f.norm(d)
    c = d.const()
    best = None
    if c is not None:
        if c > 0:
            A = Poly({m: k // c for m, k in n.t.items() if k // c and m})
            if A.t:
                best = (A, n - A * c)
            A2 = Poly({m: k // c for m, k in n.t.items() if k // c})
            if A2 != A:
                best = (A2, n - A2 * c)
    else:
        for m, k in d.t.items():
            if len(m) == 1 and k in (1, -1) and sum(1 for x in d.t if m[0] in x) == 1:
                a = m[0]
                A, B = ZERO, n
                for _ in range(12):
                    hit = None
                    for x, v in B.t.items():
                        if a in x:
                            hit = (x, v)
                            break
                    if hit is None:
                        break
                    x = list(hit[0])
                    x.remove(a)
                    t = Poly({tuple(x): hit[1] * k})
                    A = A + t
                    B = B - t * d
                else:
                    continue
                if A.t:
                    best = (A, B)
                    break
    if best is not None:
        A, B = best
        if f.entails_le(-B) and f.entails_le(-n) and f.entails_le(ONE - d):
            if f.entails_le(B - d + 1):
                return A
            return A + mkdiv(B, d)
        # one step off: a negative rest
        if f.entails_le(-n) and f.entails_le(ONE - d) and f.entails_le(-(B + d)):
            if f.entails_le(B + 1):
                return A - 1
    elif f.entails_le(-n) and f.entails_le(n - d + 1):
        return ZERO
    return mkdiv(n, d)


def occurs(a, b):
    """atom a occurs inside atom b"""
    if a is b:
        return True
    if b.kind == "sym":
        return False
    return _occ(a, b.args)


def _occ(a, x):
    if isinstance(x, Poly):
        return any(occurs(a, b) for b in x.atoms())
    if isinstance(x, tuple):
        return any(_occ(a, y) for y in x)
    if hasattr(x, "kind") and hasattr(x, "op"):
        return occurs(a, x)
    if hasattr(x, "occurs"):
        return x.occurs(a)
    return False


def rebuild(a, args):
    if a.op == "div":
        return mkdiv(args[0], args[1])
    if a.op == "wrap":
        c = args[0].const()
        if c is not None:
            return P(wrap(c, args[1], args[2]))
    if a.op == "select":
        return args[0].read_term(args[1], a.lo, a.hi)
    if a.op in _EVALS and all(isinstance(x, int) or (isinstance(x, Poly) and x.const() is not None) for x in args):
        try:
            return P(Env({})._app(app(a.op, args, a.lo, a.hi)))
        except Unknown:
            pass
    return P(app(a.op, args, a.lo, a.hi))
