"""Obligations: the comparison of abstract outcomes with what a property requires.

Three verdicts. proved: the abstract values agree in normal form (or the partition is empty).
violated: they differ, and a point of the partition confirms that the difference is real.
open: neither; an open obligation never raises an alarm and is reported in the evidence."""

import os
import re
import time

from . import build
from .expr import P, ZERO, Poly, Atom, tainted, Unknown
from .facts import Facts
from .interp import (Interp, Agg, Opq, Model, Ref, ArrV, BoolV, StrV, FnV, Undetermined, Split, Budget, evalue, term, show,
                     TRUE, FALSE, le, lt, eq, boolv, Outcome, mentions, _deep)
from .mir import Program


def rel(at):
    """file:line of a span, relative to the repository"""
    m = re.search(r"((?:src|harness)/[\w/]+\.rs:\d+)", at or "")
    return m.group(1) if m else (at or "?").split("/")[-1]


class Any:
    """Expected value that is not constrained"""


class Enough(BaseException):
    """Ends a check early: its time is up, or it has found plenty"""


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.loopy = False     # may a state after a generalised loop confirm a violation?
        self.sized = 0.        # seconds spent on particular sizes
        self.loose = False     # was such a state refused?
        self.obs = []          # (name, verdict, detail)
        self.viol = []         # (key, text)
        self.functions = set()
        self.npaths = 0
        self.unmodelled = set()
        self.roots = set()
        self.notes = []
        self.samples = []
        self.sites = {}        # rule -> number of sites it was applied to

    # programs

    def load(self, name, text):
        return Program(build.dump(name, text))

    # recording

    def add(self, name, verdict, detail=""):
        self.obs.append((name, verdict, detail))
        if verdict == "proved" and len(self.samples) < 12 and len(self.obs) % 7 == 1:
            self.samples.append("%s: %s" % (name, detail) if detail else name)

    def violation(self, name, text, key=None):
        self.obs.append((name, "violated", text))
        self.viol.append((key or name, text))
        if len(self.viol) >= 300:
            raise Enough("the first %d violations" % len(self.viol))

    def floor(self, what, count, minimum):
        """Instances counted by hand when the check was written: fewer means an anchor is gone"""
        if count < minimum:
            self.violation(what, "only %d instances of %s found, at least %d expected: the construct this rule is about is missing" % (count, what, minimum))

    # running

    def run(self, prog, root, args=None, cvals=None, mutate=None, overrides=(), budget=60000, name=None, delay=0, vecs=False):
        """-> (interp, outcomes) or None when the analysis cannot interpret the function"""
        name = name or root
        self.roots.add(root)
        if root not in prog.roots:
            self.violation(name, "no function %s in the harness dump" % root)
            return None
        I = Interp(prog, overrides, budget)
        I.delay = delay
        I.vecs = vecs
        try:
            outs = I.run_root(root, args, cvals, mutate)
        except Exception as e:
            self.functions |= I.visited
            self.add(name, "open", "not interpreted: %s%s" % ("" if isinstance(e, Undetermined) else type(e).__name__ + " ", e))
            if os.environ.get("SQV_DEBUG") and not isinstance(e, Budget):
                import traceback
                traceback.print_exc(limit=-4)
            return None
        self.functions |= I.visited
        self.unmodelled |= I.unmodelled
        self.npaths += len(outs)
        outs = [o for o in outs if o.kind != "unreachable"]
        return I, outs

    # deciding

    def real(self, st, extra=(), pred=None, n=4, tries=600):
        """A point of the partition (where pred holds), as confirmation that it is not empty"""
        if st.taint:
            return None
        if not self.loopy and any(e.k in ("loop", "havoc") for e in st.events):
            # what the iterations of a generalised loop found out is not known after it
            self.loose = True
            return None
        if any(tainted(p) for p in st.facts.les + st.facts.nes) or any(tainted(a) or tainted(v) for a, v in st.facts.sub.items()):
            return None
        if any(tainted(x) for x in extra):
            return None
        atoms = set()
        for x in extra:
            if isinstance(x, Poly):
                atoms |= x.atoms()
        for env in st.facts.points(atoms, n=n, tries=tries):
            try:
                if pred is None or pred(env):
                    return env
            except Unknown:
                continue
        return None

    def differs(self, I, st, a, b):
        """False: equal for sure. True: certainly different (variant, kind). list: residual pairs"""
        a, b = I.resolve(st, a), I.resolve(st, b)
        if a is Any or b is Any:
            return False
        if a is b or a == b:
            return False
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = st.facts.norm(a - b)
            if d.const() is not None:
                return d.const() != 0
            if st.facts.entails_eq(d):
                return False
            return [(a, b)]
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            x, y = I.decide(st, a), I.decide(st, b)
            if x is not None and y is not None:
                return x != y
            if a == b.neg():
                return True
            if self.implies(I, st, a, b) and self.implies(I, st, b, a):
                return False
            return [(a, b)]
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.v != b.v or len(a.f) != len(b.f):
                return True
            out = []
            for x, y in zip(a.f, b.f):
                d = self.differs(I, st, x, y)
                if d is True:
                    return True
                if d:
                    out += d
            return out or False
        if isinstance(a, Ref) and isinstance(b, Ref) and len(a.path) == len(b.path) and a.root == b.root:
            out = []
            pairs = list(zip(a.path, b.path))
            for x, y in pairs:
                if x[0] != y[0]:
                    return True
                if x[0] == "i":
                    d = self.differs(I, st, x[1], y[1])
                    if d is True:
                        return True
                    if d:
                        out += d
                elif x != y:
                    return True
            fa, fb = a.fat, b.fat
            if fa and fb:
                for x, y in zip(fa, fb):
                    d = self.differs(I, st, x, y)
                    if d is True:
                        return True
                    if d:
                        out += d
            return out or False
        if isinstance(a, ArrV) and isinstance(b, ArrV) and a.base[0] == "list" and b.base[0] == "list" and not a.w and not b.w:
            if len(a.base[1]) != len(b.base[1]):
                return True
            out = []
            for x, y in zip(a.base[1], b.base[1]):
                d = self.differs(I, st, x, y)
                if d is True:
                    return True
                if d:
                    out += d
            return out or False
        if isinstance(a, StrV) and isinstance(b, StrV):
            return a != b
        if isinstance(a, Model) and isinstance(b, Model):
            if a.k != b.k or len(a.f) != len(b.f):
                return True
            out = []
            for x, y in zip(a.f, b.f):
                d = True if (x is None) != (y is None) else self.differs(I, st, x, y) if x is not None else False
                if d is True:
                    return True
                if d:
                    out += d
            return out or False
        if isinstance(a, Opq) and isinstance(b, Opq):
            ta, tb = st.facts.normterm(a.term), st.facts.normterm(b.term)
            if ta == tb:
                return False
            return [(a, b)]
        return [(a, b)]

    def isfree(self, st, x, names):
        """An opaque value that can be anything whatever the facts of the partition say: a part of an input about which they say nothing"""
        if x.ty.k != "param":
            return False

        def path(t):
            if isinstance(t, str):
                return t in names
            if isinstance(t, tuple) and t and t[0] in (".", "*", "elem"):
                return path(t[1])
            return False
        return (path(x.term) or x.term == ("op", "core::default::Default::default")) and not st.facts.mentions(x.term)

    def implies(self, I, st, a, b):
        s = st.copy()
        return not I.assume(s.facts, a) or I.decide(s, b) is True

    def equal(self, I, st, name, got, want, where=""):
        """Obligation: got == want in this partition"""
        d = self.differs(I, st, got, want)
        if d is False:
            return True
        if d is True:
            env = self.real(st)
        else:
            def pred(env):
                return any(evalue(x, env) != evalue(y, env) for x, y in d)
            ex = [x for pr in d for x in pr if isinstance(x, Poly)]
            bad = any(tainted(term(x)) if not isinstance(x, (ArrV,)) else False for pr in d for x in pr)
            free = getattr(I, "argnames", ())
            opq = any(not isinstance(x, (Poly, BoolV)) and not (isinstance(x, Opq) and self.isfree(st, x, free)) for pr in d for x in pr)
            env = None if bad or opq else self.real(st, ex, pred, n=60)
        if env is None:
            self.add(name, "open", "cannot relate %r and %r under %s" % (got, want, st.facts.describe()[:12]))
            return None
        self.violation(name, "%s: result is %s where %s is required, for %s%s" % (
            name, fmt(got, env), fmt(want, env), point(env), (" (%s)" % where) if where else ""))
        return False

    def cases(self, prog, root, spec, args=None, cvals=None, mutate=None, overrides=(), name=None, pre=(), delay=0, vecs=False):
        """spec: function (I, a) -> list of (conditions, expected): expected is a value, "panic", Any, or a function
        (I, outcome) -> value. Every outcome of the root must agree with every case it is compatible with."""
        name = name or root
        k, self.loose = len(self.obs), False
        r = self.cases1(prog, root, spec, args, cvals, mutate, overrides, name, pre, delay, vecs)
        if self.loose and not any(v == "violated" for _, v, _ in self.obs[k:]):
            # a generalised loop stands between: what of it is visible in the first iterations?
            n = len(self.obs)
            self.cases1(prog, root, spec, args, cvals, mutate, overrides, name, pre, max(delay, 5), vecs, budget=20000)
            self.obs[n:] = [x for x in self.obs[n:] if x[1] == "violated"]
        new = [v for _, v, _ in self.obs[k:]]
        if "open" in new and "violated" not in new:
            self.sizes(prog, root, lambda cv: self.cases1(prog, root, spec, args, cv, mutate, overrides, name, pre, delay, vecs, budget=20000), cvals)
        return r

    SIZES = ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (3, 4), (7, 7), (31, 0), (32, 1), (255, 0), (0, 255), (255, 255), (65534, 0), (0, 65534), (65534, 65534))

    def sizes(self, prog, root, go, cvals):
        """What could not be decided for all sizes: definite differences at particular sizes"""
        gen = [g["name"] for g in prog.roots[root]["generics"] if g["name"] not in (cvals or {})]
        if not {"XMAX", "YMAX"} & set(gen):
            return
        t = time.time()
        for x, y in self.SIZES:
            if self.sized + time.time() - t > 40:
                break
            cv = dict(cvals or {})
            for g, v in (("XMAX", x), ("YMAX", y), ("W", x + 1), ("SIZE", (x + 1) * (y + 1)), ("WORDS", (x + 1) * (y + 1) // 32 + 1)):
                if g in gen:
                    cv[g] = v
            n = len(self.obs)
            go(cv)
            self.obs[n:] = [o for o in self.obs[n:] if o[1] == "violated"]
            if len(self.obs) > n:
                break
        self.sized += time.time() - t

    def cases1(self, prog, root, spec, args, cvals, mutate, overrides, name, pre, delay, vecs, budget=60000):
        r = self.run(prog, root, args, cvals, mutate, overrides, name=name, delay=delay, vecs=vecs, budget=budget)
        if r is None:
            return None
        I, outs = r
        try:
            return self.check_cases(I, outs, spec, name, pre)
        except Exception as e:
            if not isinstance(e, Undetermined) and os.environ.get("SQV_DEBUG"):
                raise
            self.add(name, "open", "specification not evaluated: %s %s" % (type(e).__name__, e))
            return None

    def check_cases(self, I, outs, spec, name, pre=()):
        a = I.argvals
        names = {}
        ok = True
        n = 0
        for o in outs:
            todo = []
            base = o.st.copy()
            cs = spec(I, a, o) if nparams(spec) >= 3 else spec(I, a)
            for conds, want in cs:
                todo.append((base.copy(), list(pre(I, a) if callable(pre) else pre) + list(conds), want))
            while todo:
                st, conds, want = todo.pop()
                try:
                    feasible = True
                    for c in conds:
                        if isinstance(c, BoolV):
                            if not I.assume(st.facts, c):
                                feasible = False
                                break
                        elif not c(st.facts):
                            feasible = False
                            break
                    if not feasible:
                        continue
                    w = want(I, o, st) if callable(want) and want is not Any else want
                    if w is Any:
                        n += 1
                        continue
                    where = rel(o.at)
                    if w == "panic" or o.kind == "panic":
                        if w == "panic" and o.kind == "panic":
                            n += 1
                            continue
                        env = self.real(st)
                        if env is None:
                            self.add(name, "open", "panic case not decided: %s %s" % (o.msg, st.facts.describe()[:12]))
                            ok = False
                            continue
                        if o.kind == "panic":
                            self.violation(name, "%s: panics (%s at %s) for %s" % (name, o.msg, rel(o.at), point(env)))
                        else:
                            self.violation(name, "%s: returns %s where a panic is required, for %s" % (name, fmt(o.v, env), point(env)))
                        ok = False
                        continue
                    r = self.equal(I, st, name, o.v, w, where)
                    if r:
                        n += 1
                    else:
                        ok = False
                except Split as e:
                    for s in I.split(st, e):
                        todo.append((s, conds, want))
        if ok:
            if n == 0:
                self.add(name, "open", "no feasible path")
            else:
                self.add(name, "proved", "%d path/case pairs" % n)
        return ok


def nparams(f):
    """Number of positional parameters without default"""
    return f.__code__.co_argcount - len(f.__defaults__ or ())


def point(env):
    r = []
    for a, v in sorted(env.v.items(), key=lambda x: x[0].id):
        r.append("%s=%d" % (a, v))
    for k, v in list(env.uf.items())[:6]:
        r.append("%s=%s" % (show(k[0]) if len(k) < 2 else show(k[1]), v))
    return ", ".join(r) or "every input"


def fmt(v, env):
    try:
        return repr(plain(evalue(v, env)))
    except Exception:
        return repr(v)


def plain(x):
    if isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], str):
        return x[0]
    return x
