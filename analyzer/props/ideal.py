"""Override: the maps and sets of the standard library as ideal ones. A collection is what it was initially followed by its
writes, oldest first; keys are compared by their integers, which is what the comparisons of the key types decide (C02, C03)."""

import re

from .common import *
from ..interp import Outcome, Event, Split, term
from .. import interp

OPS = re.compile(r"^(?:std|alloc)::collections::(?:hash::|btree::|hash_map::|hash_set::|btree_map::|btree_set::)?(?:map::|set::)?(HashMap|BTreeMap|HashSet|BTreeSet)::<.*>::"
                 r"(new|get|insert|remove|contains|contains_key|replace|take|clear|is_empty|entry|get_mut|extend)$")
COLLECTION = re.compile(r"^<?(?:&'a (?:mut )?)?(?:std|alloc)::collections::(?!.* as sqrid::)")
DEFAULT = re.compile(r"^<(?:std|alloc)::collections::\S*(HashMap|BTreeMap|HashSet|BTreeSet)<.*> as core::default::Default>::default$")


def same(I, st, a, b):
    """Are two keys equal? Splits the partition when that is not decided"""
    for x, y in zip(a, b):
        c = eq(x, y) if isinstance(x, Poly) else None
        if c is None:
            raise Undetermined("key %r" % (x,))
        d = I.decide(st, c)
        if d is False:
            return False
        if d is None:
            raise Split([lambda f, c=c: I.assume(f, c), lambda f, c=c: I.assume(f, c.neg())])
    return True


def look(I, st, v, key):
    """('w', value | None) for the newest write of the key, ('base', base) when there is none"""
    for k, x in reversed(v.f[1]):
        if same(I, st, k, key):
            return "w", x
    return "base", v.f[0]


def ideal(I, st, call):
    r = operation(I, st, call)
    if r is None and COLLECTION.match(call.path) and call.dty.k != "never":
        # not modelled: whatever depends on it stays undecided
        return I.opaque(st, call)
    return r


def operation(I, st, call):
    m = DEFAULT.match(call.path)
    if m or OPS.match(call.path) and call.path.endswith("::new"):
        return [Outcome("ret", st.copy(), Model("ideal", ("empty", ()), call.dty))]
    m = OPS.match(call.path)
    if not m or not call.args or not isinstance(call.args[0], Ref):
        return None
    kind, op = m.groups()
    st = st.copy()
    r = call.args[0]
    v = I.read(st, r.root, r.path)
    if not (isinstance(v, Model) and v.k == "ideal"):
        v = Model("ideal", (("was", term(v)), ()), getattr(v, "ty", None))
    if op in ("clear", "is_empty", "entry", "get_mut", "extend", "replace", "take"):
        return None
    key = call.args[1]
    while isinstance(key, Ref):
        key = I.read(st, key.root, key.path)
    key = tuple(leaves(key))
    t = call.dty
    isset = kind.endswith("Set")
    how, x = look(I, st, v, key)

    def has():
        if how == "w":
            return boolv(x is not None)
        if x == "empty":
            return FALSE
        return BoolV("t", ("has", x) + key, True)

    def put(val):
        I.write(st, r.root, r.path, Model("ideal", (v.f[0], v.f[1] + ((key, val),)), v.ty), call.at, call.fr.body.path)
    if op in ("contains", "contains_key"):
        if not isset and how == "base" and x != "empty":
            return None
        return [Outcome("ret", st, has())]
    if op == "get" and not isset:
        if how == "base" and x != "empty":
            return [Outcome("ret", st, I.fresh(t, ("valueof", x) + key, st))]
        if how == "base" or x is None:
            return [Outcome("ret", st, Agg(t, t.vindex("None"), []))]
        root = ("V", next(I.ids))
        st.mem[root] = x
        return [Outcome("ret", st, Agg(t, t.vindex("Some"), [Ref(root, ())]))]
    if op == "insert":
        if isset:
            h = has()
            put(TRUE)
            return [Outcome("ret", st, h.neg())]
        old = I.fresh(t, ("old", next(I.ids)), st)
        put(call.args[2])
        return [Outcome("ret", st, old)]
    if op == "remove":
        h = has() if isset else I.fresh(t, ("old", next(I.ids)), st)
        put(None)
        return [Outcome("ret", st, h)]
    return None
