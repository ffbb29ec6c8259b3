"""Overrides and helpers for the searches: position maps and sets given by a type parameter as ideal ones, the movement function as
one that leads to unknown positions in chosen directions, and the priority queue as one that hands out unknown entries"""

import re

from .common import *
from .ideal import same as samekey, look
from .walk import *
from .seq import seqs, vec, known, values


def key_of(I, st, a):
    return tuple(leaves(behind(I, st, a)))


def asideal(I, st, r):
    v = I.read(st, r.root, r.path)
    if not (isinstance(v, Model) and v.k == "ideal"):
        v = Model("ideal", (("was", term(v)), ()), getattr(v, "ty", None))
    if not isinstance(v.f[1], tuple):
        raise Undetermined("a collection after a loop")
    return v


def stores(I, st, call):
    """Override: SetPos and MapPos implementations given by a type parameter, as an ideal set and an ideal map"""
    p = call.path
    if call.dty.k == "param" and p.endswith("Default::default"):
        return [Outcome("ret", st.copy(), Model("ideal", (("default",), ()), call.dty))]
    m = re.search(r"::(SetPos|MapPos)::(new|get|set|insert|remove|contains)$", p)
    if not m or p.startswith("<"):
        return None
    kind, op = m.groups()
    st = st.copy()
    if op == "new":
        return [Outcome("ret", st, Model("ideal", (("fill", call.args[0]), ()), call.dty))]
    r = call.args[0]
    if not isinstance(r, Ref):
        return None
    v = asideal(I, st, r)
    key = key_of(I, st, call.args[1])
    unit = Agg(call.dty, 0, []) if call.dty.elems() == [] else None

    def put(x):
        I.write(st, r.root, r.path, Model("ideal", (v.f[0], v.f[1] + ((key, x),)), v.ty), call.at, call.fr.body.path)
        return [Outcome("ret", st, unit)]
    if op == "set":
        return put(call.args[2])
    if op in ("insert", "remove"):
        return put(boolv(op == "insert"))
    if op == "contains":
        return [Outcome("ret", st, member(I, st, v, key))]
    x = value(I, st, v, key, call.dty.to())
    root = ("V", next(I.ids))
    st.mem[root] = x
    return [Outcome("ret", st, Ref(root, ()))]


def canon(I, st, key):
    """The first key read that is equal to this one, so that what is read for equal keys is equal"""
    for k, in logged(st, "key"):
        if samekey(I, st, k, key):
            return k
    log(st, "key", key)
    return key


def member(I, st, v, key):
    """Condition: the key is in the set"""
    how, x = look(I, st, v, key)
    if how == "w":
        return x
    if x == ("default",):
        return FALSE
    return BoolV("t", ("has", x) + canon(I, st, key), True)


def value(I, st, v, key, ty):
    """What the map holds for the key"""
    how, x = look(I, st, v, key)
    if how == "w":
        return x
    if x[0] == "fill":
        return x[1]
    if x[0] == "default":
        return Agg(ty, ty.vindex("None"), []) if ty.isenum() else P(0) if ty.isint() else I.fresh(ty, ("defaultof",), st)
    return I.fresh(ty, ("valueof", x) + canon(I, st, key), st)


def initial(I, st, v, key, ty):
    """What the map held before any of its writes"""
    return value(I, st, Model("ideal", (v.f[0], ()), v.ty), key, ty)


def param_fn(I, st, a):
    f = behind(I, st, a)
    return isinstance(f, Opq) and f.ty.k == "param"


def steps(some, result):
    """Override: the movement function. some(n, p, d): whether its n-th use leads somewhere; result(I, st, call, n) is where"""
    def ov(I, st, call):
        if not re.match(r"^core::ops::function::Fn(Mut|Once)?::call(_mut|_once)?$", call.path) or not param_fn(I, st, call.args[0]):
            return None
        a = call.args[1].f
        if len(a) != 2:
            return None
        st = st.copy()
        p, d = behind(I, st, a[0]), I.resolve(st, a[1])
        n = len(logged(st, "go"))
        t = call.dty
        if not isinstance(d, Agg):
            raise Undetermined("a move in an unknown direction")
        if some(n, p, d):
            q = result(I, st, t.vfields(t.vindex("Some"))[0], n)
            v = Agg(t, t.vindex("Some"), [q])
        else:
            v = Agg(t, t.vindex("None"), [])
        log(st, "go", p, d, v)
        return [Outcome("ret", st, v)]
    return ov


def fresh_step(I, st, t, n):
    return I.fresh(t, "q%d" % n, st)


HEAP = re.compile(r"^(?:<)?(?:alloc|std)::collections::(?:binary_heap::)?BinaryHeap(?:::)?<.*?>(?: as .*>)?::(\w+)$")


def heaps(entries, extra=None):
    """Override: the priority queue. A queue with unknown content hands out so many unknown entries, then it is empty"""
    def ov(I, st, call):
        m = HEAP.match(call.path)
        if not m:
            return None
        op = m.group(1)
        if op in ("new", "default", "with_capacity"):
            return [Outcome("ret", st.copy(), Model("heap", (("empty",), ()), call.dty))]
        r = call.args[0]
        if not isinstance(r, Ref):
            return I.opaque(st, call)
        st = st.copy()
        v = I.read(st, r.root, r.path)
        if not (isinstance(v, Model) and v.k == "heap"):
            v = Model("heap", (("was", term(v)), ()), getattr(v, "ty", None))
        t = call.dty
        size = sym("queue.len", 0, 1 << 40)
        taken = sum(1 for x, in logged(st, "pop") if x is not None)
        if op == "push":
            I.write(st, r.root, r.path, Model("heap", (v.f[0], v.f[1] + (call.args[1],)), v.ty), call.at, call.fr.body.path)
            log(st, "push", call.args[1])
            return [Outcome("ret", st, Agg(t, 0, []) if t.elems() == [] else None)]
        if op == "pop" and v.f[0][0] == "was" and not v.f[1]:
            n = len(logged(st, "pop"))
            if n >= entries or not st.copy().facts.add_le(P(taken + 1) - size):
                if not st.facts.add_eq(P(size) - taken):
                    return []
                log(st, "pop", None)
                return [Outcome("ret", st, Agg(t, t.vindex("None"), []))]
            e = I.fresh(t.vfields(t.vindex("Some"))[0], "e%d" % n, st)
            if not st.facts.add_le(P(taken + 1) - size):
                return []
            if extra:
                extra(I, st, n, e, r)
            log(st, "pop", e)
            return [Outcome("ret", st, Agg(t, t.vindex("Some"), [e]))]
        if op == "pop" and v.f[0][0] == "empty" and len(v.f[1]) < 2:
            # the only entry there is
            e = v.f[1][0] if v.f[1] else None
            I.write(st, r.root, r.path, Model("heap", (v.f[0], ()), v.ty), call.at, call.fr.body.path)
            log(st, "pop", e)
            return [Outcome("ret", st, Agg(t, t.vindex("Some"), [e]) if e else Agg(t, t.vindex("None"), []))]
        if op in ("is_empty", "len") and v.f[0][0] == "empty":
            n = len(v.f[1])
            return [Outcome("ret", st, boolv(not n) if op == "is_empty" else P(n))]
        if op in ("is_empty", "len") and v.f[0][0] == "was":
            n = P(size) - taken + len(v.f[1])
            return [Outcome("ret", st, eq(n, 0) if op == "is_empty" else n)]
        return I.opaque(st, call)
    return ov


def find(v, pred, path=()):
    """Paths of the parts of a structured value for which pred holds, outermost first"""
    if pred(v):
        return [path]
    if isinstance(v, Agg):
        return [p for i, x in enumerate(v.f) for p in find(x, pred, path + (i,))]
    return []


def at(v, path):
    for i in path:
        v = v.f[i]
    return v


def isdir(v):
    return hasattr(v, "ty") and v.ty is not None and v.ty.path.endswith("::Dir")


def ispos(v):
    return isinstance(v, Agg) and v.ty.path.endswith("pos::Pos")


def split_all(I, st, fn):
    """fn(state) in every partition of st it needs: [(state, result)]; an Undetermined is a result, too"""
    todo, out = [st.copy()], []
    while todo:
        s = todo.pop()
        try:
            out.append((s, fn(s)))
        except Split as e:
            todo += I.split(s, e)
        except Undetermined as e:
            out.append((s, e))
    return out


def equalpos(I, st, p, q):
    return samekey(I, st, leaves(p), leaves(q))


def truth(I, st, b):
    """Decides a condition in a partition, splitting it when needed"""
    return I.truth(st, b)


def wrong(c, name, st, why):
    """A behaviour that contradicts the property, when the partition is not empty"""
    if not isinstance(why, Undetermined) and c.real(st) is not None:
        c.violation(name, why)
    else:
        c.add(name, "open", str(why))
    return False


ITERS = r"sqrid::sqrid::(bf::BfIterator|ucs::UcsIterator|astar::AstarIterator)"
NEXT = re.compile(r"^<%s<.*> as core::iter::(?:traits::iterator::)?Iterator>::next$" % ITERS)
MAKE = re.compile(r"^sqrid::sqrid::(?:(bf|ucs|astar)::(?:bf_iter|\w+Iterator::<.*>::new)|(ucs|astar|bf)::\w+Iterator::new)$")


FLAT = re.compile(r"^<core::iter::adapters::flatten::Flatten<.*> as core::iter::(?:traits::iterator::)?Iterator>::next$")


def isiter(v):
    return hasattr(v, "ty") and v.ty is not None and re.match(ITERS, v.ty.path)


def script(batches, batched):
    """Override: the iterator of a search yields the given positions and directions, then it ends. batches(I, st, ty): the items"""
    def ov(I, st, call):
        if MAKE.match(call.path):
            st = st.copy()
            log(st, "make", [behind(I, st, a) for a in call.args], [I.konst(a["c"], st) for a in call.callee["args"] if "c" in a])
            return [Outcome("ret", st, I.fresh(call.dty, "iter", st))]
        one = FLAT.match(call.path) and isinstance(call.args[0], Ref) and find(behind(I, st, call.args[0]), isiter)
        if not NEXT.match(call.path) and not one:
            return None
        st = st.copy()
        t = call.dty
        n = len(logged(st, "yield"))
        it = t.vfields(t.vindex("Some"))[0]
        items = batches(I, st, it.targs()[0] if batched and not one else it)
        if one:
            items = flat(items)
        if n >= len(items):
            log(st, "yield", None)
            return [Outcome("ret", st, Agg(t, t.vindex("None"), []))]
        v = vec(it, items[n]) if batched and not one else items[n]
        log(st, "yield", v)
        return [Outcome("ret", st, Agg(t, t.vindex("Some"), [v]))]
    return ov


def foundfn(I, st, call):
    """Override: the predicate of the destination"""
    if not re.match(r"^core::ops::function::Fn(Mut|Once)?::call(_mut|_once)?$", call.path) or not param_fn(I, st, call.args[0]) or call.dty.k != "bool":
        return None
    p = behind(I, st, call.args[1].f[0])
    return [Outcome("ret", st.copy(), BoolV("t", ("found",) + tuple(leaves(p)), True))]


def searches(c, pr, root, batched, D):
    """The search records the moves of the positions the iterator yields, in order, until the destination"""
    name = "%s %s diagonals" % (root, "with" if D else "without")
    items = []

    def batches(I, st, ty):
        if not items:
            out = []
            for i in range(3):
                v = I.fresh(ty, "y%d" % i, st)
                if i == 0 and not batched:
                    # the cheapest position is the origin
                    v = Agg(v.ty, 0, [behind(I, st, I.argvals[1])] + list(v.f[1:]))
                out.append(v)
            items.extend([out[:2], out[2:]] if batched else out)
        for a, b in combos(flat(items)):
            st.facts.add_ne(leaves(a.f[0])[0] - leaves(b.f[0])[0])
        return items
    res = c.run(pr, root, name=name, cvals={"D": int(D)}, delay=12, overrides=[script(batches, batched), stores, foundfn, negs, seqs])
    if res is None:
        return
    I, outs = res
    seq_ = flat(items)
    orig = behind(I, outs[0].st, I.argvals[1])

    def judge(o, s):
        """None: right, or what is wrong"""
        v = I.resolve(s, o.v)
        gone = [x.f[0] for x in seq_]
        stop = None
        for i, p in enumerate(gone):
            if batched:
                hit = truth(I, s, BoolV("t", ("found",) + tuple(leaves(p)), True))
            else:
                hit = equalpos(I, s, p, behind(I, s, I.argvals[2]))
            if hit:
                stop = i
                break
        got = v.ty.vname(v.v)
        if stop is None:
            if got == "Ok":
                return "succeeds although no position it comes to is the destination"
            e = I.resolve(s, v.f[0])
            return None if e.ty.vname(e.v) == "DestinationUnreachable" else "fails with %s when the destination is not reached" % e.ty.vname(e.v)
        if got != "Ok":
            return "fails although it comes to the destination"
        x = v.f[0]
        m = x
        front = [k for k, b in enumerate(items) for _ in b] if batched else list(range(len(gone)))
        if batched:
            if c.differs(I, s, x.f[0], gone[stop]) is not False:
                if not equalpos(I, s, x.f[0], gone[stop]):
                    # another one of the same distance is as good
                    for k in range(len(gone)):
                        if front[k] == front[stop] and equalpos(I, s, x.f[0], gone[k]) and truth(I, s, BoolV("t", ("found",) + tuple(leaves(gone[k])), True)):
                            stop = k
                            break
                    else:
                        return "returns %r although %r is the first destination it comes to" % (x.f[0], gone[stop])
            m = x.f[1]
        if not (isinstance(m, Model) and m.k == "ideal"):
            raise Undetermined("the recorded moves are %r" % (m,))
        if m.f[0][0] not in ("default", "fill"):
            raise Undetermined("the recorded moves are based on %r" % (m.f[0],))
        for i, it in enumerate(seq_[:stop + 1]):
            if front[i] == front[stop] and i != stop:
                continue
            p, d = it.f[0], it.f[1]
            e = I.resolve(s, value(I, s, m, tuple(leaves(p)), optdir(I)))
            if not isinstance(e, Agg):
                raise Undetermined("the recorded move is %r" % (e,))
            if e.ty.vname(e.v) == "None":
                return "does not record the move of the position %d" % (i + 1)
            if (i or batched) and term(e.f[0]) != term(d):
                x, y = I.resolve(s, e.f[0]), I.resolve(s, d)
                if not (isinstance(x, Agg) and isinstance(y, Agg)):
                    x, y = x if isinstance(x, Agg) else I.variant_split(s, x), y
                    raise Undetermined("the recorded direction %r" % (e.f[0],))
                if x.v != y.v:
                    return "records another direction than the one back"
        came = sum(len(values(I, s, y)) if known(y) else 1 for y, in logged(s, "yield") if y is not None)
        for k, x in m.f[1]:
            if not any(samekey(I, s, k, leaves(p)) for p in gone[:max(came, stop + 1)]):
                return "records a move of a position it has not come to"
        return None
    good = 0
    for o in outs:
        made = logged(o.st, "make")
        if o.kind != "ret":
            c.add(name, "open", "may panic: " + o.msg)
            continue
        if not made and isinstance(o.v, Agg) and o.v.ty.vname(o.v.v) == "Err" and not any(e.k == "call" for e in o.st.events):
            wrong(c, name, o.st, "fails without looking for a way")
            continue
        if len(made) != 1:
            c.add(name, "open", "%d iterators" % len(made))
            continue
        made, modes = made[0]
        if [I.argterm(o.st, x) for x in made] != [I.argterm(o.st, behind(I, o.st, a)) for a in I.argvals[:len(made)]]:
            if len(made) == 3 and c.differs(I, o.st, made[1], behind(I, o.st, I.argvals[2])) is False and c.differs(I, o.st, made[2], orig) is False:
                wrong(c, name, o.st, "searches from the destination to the origin")
            else:
                c.add(name, "open", "the iterator is made with %r" % (made,))
            continue
        if modes[:1] != [P(int(D))]:
            wrong(c, name, o.st, "searches with the diagonal mode %r" % (modes[:1],))
            continue
        try:
            for s, why in split_all(I, o.st, lambda s: judge(o, s)):
                if why:
                    wrong(c, name, s, why)
                else:
                    good += 1
        except Undetermined as e:
            c.add(name, "open", str(e))
    if good:
        c.add(name, "proved", "%d ways" % good)


def optdir(I):
    return next(t for t in I.prog.types if t.isenum() and t.path.endswith("option::Option") and t.vfields(t.vindex("Some")) and isdir_ty(t.vfields(t.vindex("Some"))[0]))


def isdir_ty(t):
    return t.path.endswith("::Dir")


def flat(items):
    out = []
    for x in items:
        out += x if isinstance(x, list) else [x]
    return out


def combos(xs):
    return [(a, b) for i, a in enumerate(xs) for b in xs[:i]]


def paths(c, pr, root, mod, batched):
    """The path is the reconstruction of what the search recorded"""
    def cut(I, st, call):
        for k, p in (("search", "::%s::search_mapmov" % mod), ("walk", "::mappos::camefrom_into_path")):
            if call.path.startswith("sqrid::") and call.path.endswith(p):
                st = st.copy()
                v = I.fresh(call.dty, (k,), st)
                modes = [I.konst(a["c"], st) for a in call.callee["args"] if "c" in a]
                log(st, k, [behind(I, st, a) for a in call.args], v, modes)
                return [Outcome("ret", st, v)]
        return None
    res = c.run(pr, root, overrides=[cut])
    if res is None:
        return
    I, outs = res
    D = param(I, "D")
    n = 0

    def sameargs(st, xs, ys):
        return len(xs) == len(ys) and all(I.argterm(st, x) == I.argterm(st, y) or c.differs(I, st, x, y) is False for x, y in zip(xs, ys))
    for o in outs:
        st = o.st
        ss, ws = logged(st, "search"), logged(st, "walk")
        if o.kind != "ret" or len(ss) != 1 or len(ws) > 1:
            c.add(root, "open", "%d searches, %d reconstructions" % (len(ss), len(ws)))
            continue
        args, v, modes = ss[0]
        if modes[:1] != [D]:
            wrong(c, root, st, "searches with the diagonal mode %r" % (modes[:1],))
            continue
        if not sameargs(st, args, I.argvals):
            c.add(root, "open", "searches with %r" % (args,))
            continue
        v, r = I.resolve(st, v), I.resolve(st, o.v)
        if not isinstance(v, Agg):
            c.add(root, "open", "the result of the search is not looked at")
            continue
        if v.ty.vname(v.v) == "Err":
            d = isinstance(r, Agg) and (r.ty.vname(r.v) == "Ok" or c.differs(I, st, r.f[0], v.f[0]))
            if not isinstance(r, Agg):
                d = ()
            if d is False:
                n += 1
            elif d is True:
                wrong(c, root, st, "does not return the error of the search")
            else:
                c.add(root, "open", "the error is %r" % (r,))
            continue
        if len(ws) != 1:
            wrong(c, root, st, "the recorded moves are not turned into a path")
            continue
        wargs, w, _ = ws[0]
        found = v.f[0]
        m, dest = (found.f[1], found.f[0]) if batched else (found, behind(I, st, I.argvals[2]))
        orig = behind(I, st, I.argvals[1])
        if not sameargs(st, wargs, [m, orig, dest]):
            if sameargs(st, wargs, [m, dest, orig]):
                wrong(c, root, st, "reconstructs the path from the destination to the origin")
            else:
                c.add(root, "open", "reconstructs from %r" % (wargs,))
            continue
        w = I.resolve(st, w)
        if not batched:
            ok = term(w) == term(r) or (isinstance(w, Agg) and c.differs(I, st, w, r) is False)
        else:
            ok = isinstance(w, Agg) and isinstance(r, Agg) and r.ty.vname(r.v) == w.ty.vname(w.v)
            if ok and r.ty.vname(r.v) == "Err":
                ok = c.differs(I, st, r.f[0], w.f[0]) is False
            elif ok:
                x = r.f[0]
                ok = c.differs(I, st, x.f[0], dest) is False and term(x.f[1]) == term(w.f[0])
        if ok:
            n += 1
        elif isinstance(w, Agg) and isinstance(r, Agg) and r.ty.vname(r.v) != w.ty.vname(w.v):
            wrong(c, root, st, "returns %s when the reconstruction returns %s" % (r.ty.vname(r.v), w.ty.vname(w.v)))
        else:
            c.add(root, "open", "returns %r, the reconstruction %r" % (r, w))
    if n:
        c.add(root, "proved", "%d ways" % n)
