"""Override: the maps and sets of the standard library with known contents, entry by entry, for short histories at particular
positions. Keys are compared and ordered by their integers, which is what the comparisons of the key types decide (C02); a hash
table is iterated in the order of its insertions, one of the orders it can have. What is not modelled is undecided."""

import re

from .common import *
from .seq import drain
from ..interp import Outcome
from ..models import truths

C = r"(?:std|alloc)::collections::(?:hash::|btree::|hash_map::|hash_set::|btree_map::|btree_set::)?(?:map::|set::)?"
KIND = r"(HashMap|BTreeMap|HashSet|BTreeSet)"
NEW = re.compile(r"^(?:%s%s::<.*>::(?:new|with_capacity|with_hasher|with_capacity_and_hasher)|<%s%s<.*> as core::default::Default>::default)$" % (C, KIND, C, KIND))
OP = re.compile(r"^%s%s::<.*>::(\w+)$" % (C, KIND))
TRAIT = re.compile(r"^<(?:&'a (?:mut )?)?%s%s<.*> as core::(?:\w+::)*(\w+)(?:<.*>)?>::(\w+)$" % (C, KIND))
WALK = re.compile(r"^<?(?:std|alloc)::collections::(?:hash|btree)::(?:map|set)::(?:Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Range|RangeMut|Drain)\b.*::(\w+)$")
ENTRY = re.compile(r"^(?:std|alloc)::collections::(?:hash::map::|btree::map::entry::|hash_map::|btree_map::)(OccupiedEntry|VacantEntry|Entry)::<.*>::(\w+)$")
ANY = re.compile(r"^<?(?:&'a (?:mut )?)?(?:std|alloc)::collections::(?:hash|btree)\w*::(?!.* as sqrid::)")


def isfin(v, k="fin"):
    return isinstance(v, Model) and v.k == k


def behind(I, st, v):
    while isinstance(v, Ref):
        v = I.read(st, v.root, v.path)
    return v


def keyof(I, st, k):
    r = []
    for x in leaves(behind(I, st, k)):
        n = st.facts.norm(x).const() if isinstance(x, Poly) else None
        if n is None:
            raise Undetermined("key %r" % (x,))
        r.append(n)
    return tuple(r)


def cell(I, st, v):
    root = ("F", next(I.ids))
    st.mem[root] = v
    return root


def finite(I, st, call):
    if call.dty.k == "never":
        return None
    r = operation(I, st.copy(), call)
    if r is NotImplemented:
        return I.opaque(st, call)
    if r is None and ANY.match(call.path) and any(isfin(behind(I, st, a)) or isfin(behind(I, st, a), "finwalk") for a in call.args):
        return I.opaque(st, call)
    return r


def operation(I, st, call):
    t = call.dty

    def ret(v):
        return [Outcome("ret", st, v)]

    def opt(v):
        return ret(Agg(t, t.vindex("None"), []) if v is None else Agg(t, t.vindex("Some"), [v]))

    def tup(ty, xs):
        return Agg(ty, 0, xs)

    def inner():
        return t.vfields(t.vindex("Some"))[0]

    m = NEW.match(call.path)
    if m:
        kind = m.group(1) or m.group(2)
        return ret(Model("fin", (kind, ()), t))
    m = ENTRY.match(call.path)
    if m:
        e = behind(I, st, call.args[0])
        if m.group(1) == "Entry":
            return eitherop(I, st, call, m.group(2), e)
        return entryop(I, st, call, m.group(1), m.group(2), e) if isfin(e, "finentry") else None
    m = WALK.match(call.path)
    if m:
        return walkop(I, st, call, m.group(1))
    m = TRAIT.match(call.path)
    if m:
        kind, trait, op = m.groups()
        if op == "from_iter":
            got = drain(I, st, call, call.args[0]) if "next" in call.callee else None
            if got is None:
                return NotImplemented
            out = []
            for s, xs in got[0]:
                v = Model("fin", (kind, ()), t)
                for x in xs:
                    v = add(I, s, v, x)
                out.append(Outcome("ret", s, v))
            return out + got[1]
        a = call.args[0]
        v = behind(I, st, a)
        if not isfin(v):
            return None
        if op == "into_iter":
            return ret(Model("finwalk", (v.f[1], 0, len(v.f[1]), "ref" if isinstance(a, Ref) else "own", kind), t))
        if op == "clone":
            return ret(copied(I, st, v))
        if op == "index":
            i = find(I, st, v, call.args[1])
            return None if i is None else ret(Ref(v.f[1][i][1], ()))
        if op == "extend":
            return extend(I, st, call, a, v)
        return None
    m = OP.match(call.path)
    if not m or not call.args:
        return None
    kind, op = m.groups()
    isset = kind.endswith("Set")
    ref = call.args[0] if isinstance(call.args[0], Ref) else None
    while ref is not None and isinstance(I.read(st, ref.root, ref.path), Ref):
        ref = I.read(st, ref.root, ref.path)
    v = behind(I, st, call.args[0])
    if not isfin(v):
        return None
    es = v.f[1]
    unit = I.unit(t)

    def put(es, s=st):
        I.write(s, ref.root, ref.path, Model("fin", (v.f[0], tuple(es)), v.ty), call.at, call.fr.body.path)

    def walk(what, es=es):
        return ret(Model("finwalk", (tuple(es), 0, len(es), what, kind), t))

    def pair(i, mk):
        k, x = es[i]
        ty = inner()
        return mk(k) if isset else tup(ty, [mk(k), mk(x)])

    def own(r):
        return st.mem[r]

    def to(r):
        return Ref(r, ())
    if op in ("len", "is_empty"):
        return ret(P(len(es)) if op == "len" else boolv(not es))
    if op == "clear":
        put(())
        return ret(unit)
    if op in ("reserve", "shrink_to_fit", "shrink_to"):
        return ret(unit)
    if op in ("iter", "iter_mut", "range_all"):
        return walk("ref")
    if op == "drain":
        put(())
        return walk("own")
    if op in ("keys", "values", "values_mut", "into_keys", "into_values"):
        return walk(("own" if op.startswith("into") else "ref") + (":k" if "key" in op else ":v"))
    if op in ("range", "range_mut"):
        xs = within(I, st, v, call.args[1])
        return NotImplemented if xs is None else walk("ref", xs)
    if op in ("first_key_value", "last_key_value", "first", "last", "pop_first", "pop_last"):
        if not es:
            return opt(None)
        i = 0 if "first" in op else len(es) - 1
        if op.startswith("pop"):
            put(es[:i] + es[i + 1:])
        return opt(pair(i, own if op.startswith("pop") else to))
    if op == "retain":
        live, done = [(st, ())], []
        f = call.args[1]
        if not isinstance(f, Ref):
            f = Ref(cell(I, st, f), ())
        bt = next((x for x in I.prog.types if x.k == "bool"), None)
        for k, x in es:
            nxt = []
            for s, kept in live:
                for o in I.call_value(s, f, [Ref(k, ())] if isset else [Ref(k, ()), Ref(x, ())], bt, call.at, call.fr):
                    if o.kind != "ret":
                        done.append(o)
                        continue
                    for s2, yes in truths(I, o.st, o.v):
                        nxt.append((s2, kept + ((k, x),) if yes else kept))
            live = nxt
        for s, kept in live:
            put(kept, s)
            done.append(Outcome("ret", s, unit))
        return done
    if op in ("split_off",):
        n = keyof(I, st, call.args[1])
        put([e for e in es if keyof(I, st, st.mem[e[0]]) < n])
        return ret(Model("fin", (kind, tuple(e for e in es if keyof(I, st, st.mem[e[0]]) >= n)), t))
    if op == "append":
        q = call.args[1]
        w = behind(I, st, q)
        if not isfin(w) or not isinstance(q, Ref):
            return NotImplemented
        I.write(st, q.root, q.path, Model("fin", (w.f[0], ()), w.ty), call.at, call.fr.body.path)
        n = v
        for k, x in w.f[1]:
            n = insert(I, st, n, st.mem[k], st.mem[x] if x else None)
        put(n.f[1])
        return ret(unit)
    if op not in ("get", "get_mut", "contains", "contains_key", "insert", "replace", "remove", "take", "get_key_value", "remove_entry", "entry", "try_insert"):
        return NotImplemented
    i = find(I, st, v, call.args[1])
    if op in ("contains", "contains_key"):
        return ret(boolv(i is not None))
    if op in ("get", "get_mut"):
        return opt(None if i is None else Ref(es[i][0] if isset else es[i][1], ()))
    if op == "get_key_value":
        return opt(None if i is None else pair(i, to))
    if op in ("insert", "replace"):
        key = behind(I, st, call.args[1])
        put(insert(I, st, v, key, None if isset else call.args[2]).f[1])
        if isset and op == "insert":
            return ret(boolv(i is None))
        return opt(None if i is None else own(es[i][0] if isset else es[i][1]))
    if op in ("remove", "take", "remove_entry"):
        old = None
        if i is not None:
            put(es[:i] + es[i + 1:])
            old = pair(i, own) if op == "remove_entry" else own(es[i][0] if isset else es[i][1])
        if isset and op == "remove":
            return ret(boolv(i is not None))
        return opt(old)
    if op == "entry":
        n = "Vacant" if i is None else "Occupied"
        ty = t.vfields(t.vindex(n))[0]
        return ret(Agg(t, t.vindex(n), [Model("finentry", (ref, behind(I, st, call.args[1])), ty)]))
    return NotImplemented


def find(I, st, v, key):
    n = keyof(I, st, key)
    for i, (k, x) in enumerate(v.f[1]):
        if keyof(I, st, st.mem[k]) == n:
            return i
    return None


def insert(I, st, v, key, val):
    es = list(v.f[1])
    i = find(I, st, v, key)
    if i is not None:
        # the old value may still be looked at: the new one has a place of its own
        es[i] = (es[i][0], cell(I, st, val) if val is not None else None)
    else:
        e = (cell(I, st, key), cell(I, st, val) if val is not None else None)
        n = keyof(I, st, key)
        j = len(es)
        if v.f[0].startswith("BTree"):
            j = sum(1 for k, _ in es if keyof(I, st, st.mem[k]) < n)
        es.insert(j, e)
    return Model("fin", (v.f[0], tuple(es)), v.ty)


def add(I, st, v, item):
    item = behind(I, st, item)
    if v.f[0].endswith("Set"):
        return insert(I, st, v, item, None)
    k, x = item.f
    return insert(I, st, v, behind(I, st, k), x)


def copied(I, st, v):
    return Model("fin", (v.f[0], tuple((cell(I, st, st.mem[k]), None if x is None else cell(I, st, st.mem[x])) for k, x in v.f[1])), v.ty)


def extend(I, st, call, a, v):
    got = drain(I, st, call, call.args[1]) if "next" in call.callee else None
    if got is None or not isinstance(a, Ref):
        return NotImplemented
    out = []
    for s, xs in got[0]:
        w = v
        for x in xs:
            w = add(I, s, w, x)
        I.write(s, a.root, a.path, w, call.at, call.fr.body.path)
        out.append(Outcome("ret", s, I.unit(call.dty)))
    return out + got[1]


def within(I, st, v, rng):
    """The entries of a range of keys"""
    rng = behind(I, st, rng)
    if not isinstance(rng, Agg):
        return None
    n = rng.ty.path.split("::")[-1]
    lo = hi = None
    if n in ("Range", "RangeInclusive", "RangeFrom"):
        lo = keyof(I, st, rng.f[0])
    if n in ("Range", "RangeInclusive"):
        hi = keyof(I, st, rng.f[1])
    if n in ("RangeTo", "RangeToInclusive"):
        hi = keyof(I, st, rng.f[0])
    if n not in ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive", "RangeFull"):
        return None
    if lo is not None and hi is not None and lo > hi:
        return None
    out = []
    for e in v.f[1]:
        k = keyof(I, st, st.mem[e[0]])
        if lo is not None and k < lo or hi is not None and (k > hi if "Inclusive" in n else k >= hi):
            continue
        out.append(e)
    return out


def walkop(I, st, call, op):
    ref = call.args[0] if call.args and isinstance(call.args[0], Ref) else None
    v = I.read(st, ref.root, ref.path) if ref is not None else call.args[0] if call.args else None
    if not isfin(v, "finwalk"):
        return None
    es, s, e, what, kind = v.f
    t = call.dty
    what, _, part = what.partition(":")

    def mk(r, st):
        return Ref(r, ()) if what == "ref" else st.mem[r]

    def item(i, ty, st=st):
        k, x = es[i]
        if kind.endswith("Set") or part == "k":
            return mk(k, st)
        if part == "v":
            return mk(x, st)
        return Agg(ty, 0, [mk(k, st), mk(x, st)])
    if op in ("next", "next_back", "last", "min", "max"):
        if op in ("min", "max") and (not kind.startswith("BTree") or part == "v" or kind.endswith("Map") and not part):
            return NotImplemented
        if s >= e:
            return [Outcome("ret", st, Agg(t, t.vindex("None"), []))]
        i = s if op in ("next", "min") else e - 1
        if ref is not None:
            I.write(st, ref.root, ref.path, Model("finwalk", (es, s + (i == s and op == "next"), e - (op == "next_back"), v.f[3], kind), v.ty), call.at, call.fr.body.path)
        return [Outcome("ret", st, Agg(t, t.vindex("Some"), [item(i, t.vfields(t.vindex("Some"))[0])]))]
    if op in ("len", "count"):
        return [Outcome("ret", st, P(e - s))]
    if op == "into_iter":
        return [Outcome("ret", st, v)]
    if op == "size_hint":
        el = t.elems()
        return [Outcome("ret", st, Agg(t, 0, [P(e - s), Agg(el[1], el[1].vindex("Some"), [P(e - s)])]))]
    if op in ("fold", "for_each"):
        f = call.args[-1]
        if not isinstance(f, Ref):
            f = Ref(cell(I, st, f), ())
        ty = next((x for x in I.prog.types if x.k == "tuple" and len(x.elems()) == 2), None)
        live, done = [(st, call.args[1] if op == "fold" else None)], []
        for i in range(s, e):
            nxt = []
            for s1, acc in live:
                x = item(i, ty, s1)
                for o in I.call_value(s1, f, [acc, x] if op == "fold" else [x], t, call.at, call.fr):
                    if o.kind != "ret":
                        done.append(o)
                    else:
                        nxt.append((o.st, o.v))
            live = nxt
        return done + [Outcome("ret", s1, acc if op == "fold" else I.unit(t)) for s1, acc in live]
    return None


def entryop(I, st, call, which, op, e):
    ref, key = e.f
    v = I.read(st, ref.root, ref.path)
    if not isfin(v):
        return NotImplemented
    t = call.dty
    i = find(I, st, v, key)

    def put(w):
        I.write(st, ref.root, ref.path, w, call.at, call.fr.body.path)

    def ret(x):
        return [Outcome("ret", st, x)]
    if op == "key":
        return ret(Ref(cell(I, st, key), ()))
    if op == "into_key":
        return ret(key)
    if which == "VacantEntry":
        if op != "insert" or i is not None:
            return NotImplemented
        w = insert(I, st, v, key, call.args[1])
        put(w)
        return ret(Ref(w.f[1][find(I, st, w, key)][1], ()))
    if i is None:
        return NotImplemented
    k, x = v.f[1][i]
    if op in ("get", "get_mut", "into_mut"):
        return ret(Ref(x, ()))
    if op == "insert":
        put(insert(I, st, v, key, call.args[1]))
        return ret(st.mem[x])
    if op in ("remove", "remove_entry"):
        put(Model("fin", (v.f[0], v.f[1][:i] + v.f[1][i + 1:]), v.ty))
        return ret(st.mem[x] if op == "remove" else Agg(t, 0, [st.mem[k], st.mem[x]]))
    return NotImplemented


def eitherop(I, st, call, op, e):
    """Methods of an entry that may be vacant or not"""
    if not isinstance(e, Agg) or not isfin(e.f[0], "finentry"):
        return None
    ref, key = e.f[0].f
    v = I.read(st, ref.root, ref.path)
    if not isfin(v):
        return NotImplemented
    i = find(I, st, v, key)

    def put(s, x):
        w = insert(I, s, v, key, x)
        I.write(s, ref.root, ref.path, w, call.at, call.fr.body.path)
        return Outcome("ret", s, Ref(w.f[1][find(I, s, w, key)][1], ()))
    if op == "key":
        return [Outcome("ret", st, Ref(cell(I, st, key), ()))]
    if op == "and_modify":
        if i is None:
            return [Outcome("ret", st, e)]
        outs = I.call_value(st, call.args[1], [Ref(v.f[1][i][1], ())], call.dty, call.at, call.fr)
        return [Outcome("ret", o.st, e) if o.kind == "ret" else o for o in outs]
    if op in ("or_insert", "or_insert_with") and i is not None:
        return [Outcome("ret", st, Ref(v.f[1][i][1], ()))]
    if op == "or_insert":
        return [put(st, call.args[1])]
    if op == "or_insert_with":
        outs = I.call_value(st, call.args[1], [], call.dty.to(), call.at, call.fr)
        return [put(o.st, o.v) if o.kind == "ret" else o for o in outs]
    return NotImplemented
