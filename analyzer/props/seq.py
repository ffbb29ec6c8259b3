"""Override: vectors and double-ended queues of the standard library whose elements are known one by one, as finite sequences.
An operation that is not modelled makes whatever depends on it undecided."""

import re

from .common import *
from ..interp import Call, Outcome, Event, term
from ..models import box_content

VEC = r"(?:alloc|std)::vec::Vec(?:::)?<[^>]*>"
NEW = re.compile(r"^(?:alloc::vec::Vec|alloc::collections::vec_deque::VecDeque)::<T>::(?:new|with_capacity)$"
                 r"|^<alloc::(?:vec::Vec|collections::vec_deque::VecDeque)<.*> as core::default::Default>::default$")
OP = re.compile(r"^alloc::(?:vec::Vec|collections::vec_deque::VecDeque)::<T, A>::(push|pop|push_back|push_front|pop_back|pop_front|len|is_empty|clear|"
                r"insert|append|truncate|reserve|into_boxed_slice|iter|iter_mut|as_slice|as_mut_slice|front|back|make_contiguous|extend_from_slice)$")
FROM = re.compile(r"^<alloc::(?:vec::Vec|collections::vec_deque::VecDeque)<.*> as core::convert::From<.*alloc::(?:vec::Vec|collections::vec_deque::VecDeque)<.*>>>::from$"
                  r"|.*impl core::convert::From<alloc::collections::vec_deque::VecDeque<.*>> for alloc::vec::Vec<.*>>::from$")
ANY = re.compile(r"^<?(?:&'a (?:mut )?)?alloc::(?:vec|collections::vec_deque)::(?!.* as sqrid::)")
PASS = re.compile(r"::into_iter$|::deref(?:_mut)?$|::index(?:_mut)?$|Iterator>::next(?:_back)?$|as_ref$|as_mut$")


def known(v):
    return isinstance(v, ArrV) and v.ty.path.startswith("alloc::") and v.base[0] == "list" and v.len.const() is not None


def values(I, st, v):
    return [I.arr_read(st, v, P(i)) for i in range(v.len.const())]


def plain(v):
    """A value whose clone is the same value: integers, directions and positions of them"""
    if isinstance(v, Poly) or isinstance(v, BoolV):
        return True
    if isinstance(v, Agg):
        return (v.ty.elems() is not None or v.ty.isenum()) and (v.ty.k == "tuple" or v.ty.path.startswith(("sqrid::", "core::option"))) and all(plain(x) for x in v.f)
    return isinstance(v, Opq) and v.ty.path.startswith("sqrid::") and v.ty.isenum()


def vec(ty, xs):
    return ArrV(ty, ("list", tuple(xs)), P(len(xs)))


def drain(I, st, call, it, limit=160):
    """The items of an iterator, by its own next, until it ends: [(state, items)] and the outcomes that end otherwise; None when it
    is not known to end"""
    c = call.callee
    if "next" not in c:
        return None
    ity, oty = I.prog.types[c["iter"]], I.prog.types[c["item"]]
    done, live, ends = [], [], []
    for o in I.call(st.copy(), Call(c["into"], [it], [ity], ity, call.at, call.fr)):
        if o.kind != "ret":
            done.append(o)
            continue
        root = ("B", next(I.ids))
        o.st.mem[root] = o.v
        live.append((o.st, root, ()))
    for _ in range(limit):
        nxt = []
        for s, root, xs in live:
            for o in I.call(s, Call(c["next"], [Ref(root, ())], [None], oty, call.at, call.fr)):
                if o.kind != "ret":
                    done.append(o)
                    continue
                v = I.resolve(o.st, o.v)
                if not isinstance(v, Agg):
                    return None
                if v.ty.vname(v.v) == "None":
                    ends.append((o.st, xs))
                else:
                    nxt.append((o.st, root, xs + (v.f[0],)))
        live = nxt
        if not live:
            return ends, done
        if len(live) + len(ends) + len(done) > 60:
            return None
    return None


TAKES = re.compile(r"^<alloc::(?:vec::Vec|collections::vec_deque::VecDeque)<.*> as core::iter::traits::collect::(FromIterator|Extend)<.*>>::(?:from_iter|extend)$")


def seqs(I, st, call):
    m = TAKES.match(call.path)
    if m and "next" in call.callee:
        r = call.args[0] if m.group(1) == "Extend" else None
        old = I.read(st, r.root, r.path) if r is not None else None
        if r is not None and not known(old):
            return None
        try:
            got = drain(I, st, call, call.args[-1])
        except Undetermined:
            got = None
        if got is None:
            return I.opaque(st, call)
        ends, done = got
        res = []
        for s, xs in ends:
            if r is None:
                res.append(Outcome("ret", s, vec(call.dty, xs)))
            else:
                old = I.read(s, r.root, r.path)
                I.write(s, r.root, r.path, vec(old.ty, values(I, s, old) + list(xs)), call.at, call.fr.body.path)
                res.append(Outcome("ret", s, I.unit(call.dty)))
        return res + done
    if NEW.match(call.path):
        return [Outcome("ret", st.copy(), vec(call.dty, []))]
    if call.path == "alloc::boxed::box_assume_init_into_vec_unsafe":
        a = box_content(st, call.args[0])
        if isinstance(a, ArrV) and a.len.const() is not None:
            return [Outcome("ret", st.copy(), vec(call.dty, values(I, st, a)))]
        return I.opaque(st, call)
    if re.match(r"^<alloc::(vec::Vec|collections::vec_deque::VecDeque)<.*> as core::clone::Clone>::clone$", call.path) and isinstance(call.args[0], Ref):
        v = I.read(st, call.args[0].root, call.args[0].path)
        if known(v) and all(plain(x) for x in values(I, st, v)):
            return [Outcome("ret", st.copy(), vec(v.ty, values(I, st, v)))]
    if call.path == "core::mem::take" and re.match(r"alloc::(vec::Vec|collections::vec_deque::VecDeque)$", call.dty.path) and isinstance(call.args[0], Ref):
        st = st.copy()
        r = call.args[0]
        old = I.read(st, r.root, r.path)
        I.write(st, r.root, r.path, vec(call.dty, []), call.at, call.fr.body.path)
        return [Outcome("ret", st, old)]
    if FROM.match(call.path) and known(call.args[0]):
        return [Outcome("ret", st.copy(), vec(call.dty, values(I, st, call.args[0])))]
    if call.path == "core::slice::<impl [T]>::reverse":
        r = call.args[0]
        v = I.read(st, r.root, r.path) if isinstance(r, Ref) else None
        if known(v) and r.fat and st.facts.norm(r.fat[1] - v.len).const() == 0 and st.facts.norm(r.fat[0]).const() == 0:
            st = st.copy()
            I.write(st, r.root, r.path, vec(v.ty, values(I, st, v)[::-1]), call.at, call.fr.body.path)
            return [Outcome("ret", st, I.unit(call.dty))]
        return None
    m = OP.match(call.path)
    if m and call.args and isinstance(call.args[0], Ref):
        r = call.args[0]
        v = I.read(st, r.root, r.path)
        if known(v):
            st = st.copy()
            xs = values(I, st, v)
            op, t = m.group(1), call.dty
            ret = Agg(t, 0, []) if t.elems() == [] else None

            def put(xs):
                I.write(st, r.root, r.path, vec(v.ty, xs), call.at, call.fr.body.path)

            def opt(x):
                return Agg(t, t.vindex("None"), []) if x is None else Agg(t, t.vindex("Some"), [x])
            if op in ("push", "push_back"):
                put(xs + [call.args[1]])
            elif op == "push_front":
                put([call.args[1]] + xs)
            elif op in ("pop", "pop_back"):
                ret = opt(xs[-1] if xs else None)
                put(xs[:-1])
            elif op == "pop_front":
                ret = opt(xs[0] if xs else None)
                put(xs[1:])
            elif op == "insert" and call.args[1].const() is not None and 0 <= call.args[1].const() <= len(xs):
                i = call.args[1].const()
                put(xs[:i] + [call.args[2]] + xs[i:])
            elif op == "append":
                q = call.args[1]
                w = I.read(st, q.root, q.path)
                if not known(w):
                    return I.opaque(st, call)
                put(xs + values(I, st, w))
                I.write(st, q.root, q.path, vec(w.ty, []), call.at, call.fr.body.path)
            elif op == "clear":
                put([])
            elif op == "reserve":
                pass
            elif op in ("len", "is_empty"):
                return [Outcome("ret", st, v.len if op == "len" else boolv(not xs))]
            elif op in ("as_slice", "as_mut_slice", "iter", "iter_mut"):
                return None
            else:
                return I.opaque(st, call)
            return [Outcome("ret", st, ret)]
    if ANY.match(call.path) and not PASS.search(call.path) and call.dty.k != "never" and "sqrid" not in call.path.split(" as ")[-1].split("<")[0]:
        seen = [a if not isinstance(a, Ref) else I.read(st, a.root, a.path) for a in call.args]
        if any(known(x) for x in seen):
            return I.opaque(st, call)
    return None
