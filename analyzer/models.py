"""Models of the library functions the analysed code calls but whose bodies are not analysed.

A model either gives the exact semantics of the function on abstract values, or declares it an operation on
an opaque value (a collection): its result is a function of its arguments and an event is recorded."""

import re

from .expr import P, ZERO, ONE, app, bounds
from . import interp as I_
from . import bits
from .interp import Agg, Opq, Model, Ref, ArrV, BoolV, StrV, Outcome, Event, Undetermined, Split, TRUE, FALSE, le, lt, eq, boolv, term


def ret(st, v):
    return [Outcome("ret", st, v)]


def some(ty, v):
    return Agg(ty, ty.vindex("Some"), [v])


def none(ty):
    return Agg(ty, ty.vindex("None"), [])


MODELS = {}
PATTERNS = []


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def pattern(rx):
    def deco(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return deco


_cache = {}


def lookup(path):
    f = _cache.get(path, False)
    if f is False:
        f = MODELS.get(path)
        if f is None:
            for rx, g in PATTERNS:
                if rx.search(path):
                    f = g
                    break
        _cache[path] = f
    return f


def dispatch(I, st, call):
    f = lookup(call.path)
    if f is None and call.path != call.callee.get("path"):
        if call.callee["res"] in ("extern", "opaque"):
            f = lookup(call.callee["path"])
    if f is None:
        return None
    return f(I, st.copy(), call)


def fresh_model(I, ty, t, st):
    return None


def index_read(I, st, v, idx):
    raise Undetermined("index of %r" % (v,))


# memory --------------------------------------------------------------------------------------


def target(I, a):
    if not isinstance(a, Ref):
        raise Undetermined("not a reference: %r" % (a,))
    return a


@model("core::mem::replace")
def m_replace(I, st, c):
    r = target(I, c.args[0])
    old = I.read(st, r.root, r.path)
    I.write(st, r.root, r.path, c.args[1], c.at, c.fr.body.path)
    return ret(st, old)


@model("core::mem::swap")
def m_swap(I, st, c):
    a, b = target(I, c.args[0]), target(I, c.args[1])
    x, y = I.read(st, a.root, a.path), I.read(st, b.root, b.path)
    I.write(st, a.root, a.path, y, c.at, c.fr.body.path)
    I.write(st, b.root, b.path, x, c.at, c.fr.body.path)
    return ret(st, I.unit(c.dty))


def default_of(ty):
    p = ty.path
    if ty.isint() and ty.k == "int":
        return ZERO
    if ty.k == "bool":
        return FALSE
    if p.endswith("option::Option"):
        return none(ty)
    return Opq(ty, ("new", ty.name))


@model("core::mem::take")
def m_take(I, st, c):
    r = target(I, c.args[0])
    old = I.read(st, r.root, r.path)
    ty = c.dty
    I.write(st, r.root, r.path, default_of(ty), c.at, c.fr.body.path)
    st.events = st.events + (Event("op", ("core::mem::take", tuple(c.args), (old,), old), c.at, c.fr.body.path),)
    return ret(st, old)


# vec![...] is a box of uninitialised memory that is written and turned into a vector
@pattern(r"^alloc::boxed::Box::<.*>::new_uninit$")
def m_box_uninit(I, st, c):
    root = ("B", next(I.ids))
    st.mem[root] = Agg(c.dty, 0, [None, Agg(c.dty, 0, [None])])
    return ret(st, Agg(c.dty, 0, [Ref(root, ()), None]))


def box_content(st, b):
    a = None
    if isinstance(b, Agg) and b.f and isinstance(b.f[0], Ref):
        a = st.mem.get(b.f[0].root)
        while isinstance(a, Agg) and a.f:
            a = a.f[-1]
    return a


@pattern(r"^alloc::boxed::box_assume_init_into_vec_unsafe$")
def m_box_into_vec(I, st, c):
    a = box_content(st, c.args[0])
    if not isinstance(a, ArrV):
        raise Undetermined("vector from a box of %r" % (a,))
    if I.vecs and c.dty.path == "alloc::vec::Vec":
        return ret(st, ArrV(c.dty, a.base, a.len, a.w))
    return I.opaque(st, c)


@model("core::mem::drop", "core::mem::forget")
def m_unit(I, st, c):
    return ret(st, I.unit(c.dty))


@model("core::hint::must_use", "core::hint::black_box", "core::convert::identity", "core::intrinsics::likely", "core::intrinsics::unlikely")
def m_id(I, st, c):
    return ret(st, c.args[0])


@model("core::intrinsics::cold_path", "core::intrinsics::assert_inhabited", "core::intrinsics::assume")
def m_nop(I, st, c):
    if c.path.endswith("assume") and c.args and isinstance(c.args[0], BoolV):
        if not I.assume(st.facts, c.args[0]):
            return []
    return ret(st, I.unit(c.dty))


@model("core::intrinsics::const_eval_select", "core::intrinsics::is_val_statically_known", "core::intrinsics::ub_checks",
       "core::intrinsics::const_eval::is_const", "core::ub_checks::check_language_ub", "core::intrinsics::contract_checks")
def m_false(I, st, c):
    if c.dty.k == "bool":
        return ret(st, FALSE)
    return None


@model("core::intrinsics::unreachable", "core::hint::unreachable_unchecked")
def m_unreachable(I, st, c):
    return [Outcome("panic", st, None, "undefined behaviour: unreachable_unchecked is reached", c.at)]


# integers ------------------------------------------------------------------------------------


def ity(c):
    for t in c.atys:
        if t is not None and t.isint():
            return t
    return c.dty


@model("core::intrinsics::saturating_add", "core::intrinsics::saturating_sub")
def m_saturating(I, st, c):
    a, b = c.args
    ty = ity(c)
    p = a + b if c.path.endswith("add") else a - b
    lo, hi = ty.range()
    x, y = I.decide(st, le(lo, p)), I.decide(st, le(p, hi))
    if x and y:
        return ret(st, p)
    if x is False:
        return ret(st, P(lo))
    if y is False:
        return ret(st, P(hi))
    raise Split([lambda f: f.add_le(P(lo) - p) and f.add_le(p - hi), lambda f: f.add_le(p - lo + 1), lambda f: f.add_le(P(hi) - p + 1)])


@model("core::intrinsics::wrapping_add", "core::intrinsics::wrapping_sub", "core::intrinsics::wrapping_mul",
       "core::intrinsics::unchecked_add", "core::intrinsics::unchecked_sub", "core::intrinsics::unchecked_mul")
def m_wrapping(I, st, c):
    a, b = c.args
    p = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b}[c.path[-3:]]()
    return ret(st, I.int_in(st, p, ity(c)))


@model("core::intrinsics::add_with_overflow", "core::intrinsics::sub_with_overflow", "core::intrinsics::mul_with_overflow")
def m_overflowing(I, st, c):
    a, b = c.args
    n = c.path.split("::")[-1][:3]
    p = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b}[n]()
    v, o = I.checked(st, p, ity(c))
    return ret(st, Agg(c.dty, 0, [v, boolv(o)]))


@model("core::intrinsics::unchecked_div", "core::intrinsics::exact_div")
def m_div(I, st, c):
    return ret(st, I.binop(st, "Div", c.args[0], c.args[1], ity(c), c.dty))


@model("core::intrinsics::unchecked_rem")
def m_rem(I, st, c):
    return ret(st, I.binop(st, "Rem", c.args[0], c.args[1], ity(c), c.dty))


@model("core::intrinsics::unchecked_shl")
def m_shl(I, st, c):
    return ret(st, I.binop(st, "Shl", c.args[0], c.args[1], ity(c), c.dty))


@model("core::intrinsics::unchecked_shr")
def m_shr(I, st, c):
    return ret(st, I.binop(st, "Shr", c.args[0], c.args[1], ity(c), c.dty))


@model("core::intrinsics::bitreverse", "core::intrinsics::bswap", "core::intrinsics::rotate_left", "core::intrinsics::rotate_right")
def m_bitperm(I, st, c):
    op = c.path.split("::")[-1]
    ty = c.atys[0] if c.atys and c.atys[0] is not None else c.dty
    if ty.signed:
        return I.opaque(st, c)
    n, x = ty.bits, c.args[0]
    if op.startswith("rotate"):
        k = st.facts.norm(c.args[1]).const()
        if k is None:
            return I.opaque(st, c)
        return ret(st, bits.permuted("rot%d" % ((k if op == "rotate_left" else n - k) % n), x, n))
    return ret(st, bits.permuted("brev" if op == "bitreverse" else "bswap", x, n))


@model("core::intrinsics::ctlz", "core::intrinsics::cttz", "core::intrinsics::ctlz_nonzero", "core::intrinsics::cttz_nonzero")
def m_zeros(I, st, c):
    op = c.path.split("::")[-1]
    ty = c.atys[0] if c.atys and c.atys[0] is not None else c.dty
    x = st.facts.norm(c.args[0])
    if ty.signed or x.const() is None and not bits.isword(x):
        return I.opaque(st, c)
    for j in range(ty.bits):
        n = P(ty.bits - 1 - j if op.startswith("ctlz") else j)
        if not I.truth(st, eq(bits.bitof(I, st, x, n, ty.bits), 0)):
            return ret(st, P(j))
    return ret(st, P(ty.bits))


@model("core::intrinsics::ctpop")
def m_ctpop(I, st, c):
    ty = c.atys[0] if c.atys and c.atys[0] is not None else c.dty
    x = st.facts.norm(c.args[0]).const()
    if x is None:
        return I.opaque(st, c)
    return ret(st, P(bin(x & ((1 << ty.bits) - 1)).count("1")))


@model("core::intrinsics::three_way_compare")
def m_cmp(I, st, c):
    return ret(st, I.binop(st, "Cmp", c.args[0], c.args[1], ity(c), c.dty))


@model("core::intrinsics::integer_max", "core::intrinsics::integer_min")
def m_max(I, st, c):
    a, b = c.args
    t = I.truth(st, le(a, b))
    return ret(st, (b if t else a) if c.path.endswith("max") else (a if t else b))


@model("core::intrinsics::discriminant_value")
def m_discr(I, st, c):
    r = target(I, c.args[0])
    v = I.read(st, r.root, r.path)
    ty = v.ty
    if not ty.isenum():
        raise Undetermined("discriminant of %r" % (v,))
    return ret(st, P(ty.discr(I.variant(st, v))))


@model("core::mem::discriminant")
def m_discriminant(I, st, c):
    return None


@pattern(r"^core::num::<impl [iu](8|16|32|64|128|size)>::(pow|isqrt|count_ones)$")
def m_numop(I, st, c):
    a = c.args[0]
    n = c.path.split("::")[-1]
    ca = a.const()
    cb = c.args[1].const() if len(c.args) > 1 else 0
    if ca is not None and cb is not None and n == "pow":
        return ret(st, I.int_in(st, P(ca ** cb), ity(c)))
    if n == "count_ones" and ca is not None and ca >= 0:
        return ret(st, P(bin(ca).count("1")))
    return None


# PhantomData ---------------------------------------------------------------------------------


@pattern(r"^<core::marker::PhantomData<T> as core::clone::Clone>::clone$")
def m_phclone(I, st, c):
    return ret(st, Agg(c.dty, 0, []))


@pattern(r"^<core::marker::PhantomData<T> as core::(cmp|default)::")
def m_phantom(I, st, c):
    if c.dty.k == "bool":
        return ret(st, boolv(c.path.endswith("::eq")))
    n = c.path.split("::")[-1]
    if n == "cmp":
        return ret(st, Agg(c.dty, c.dty.vindex("Equal"), []))
    if n == "partial_cmp":
        ot = c.dty.vfields(c.dty.vindex("Some"))[0]
        return ret(st, some(c.dty, Agg(ot, ot.vindex("Equal"), [])))
    if n == "default":
        return ret(st, Agg(c.dty, 0, []))
    return None


# slices and arrays ---------------------------------------------------------------------------


def slice_of(I, st, a):
    """-> (root, path, start, len)"""
    r = target(I, a)
    if r.fat:
        return r.root, r.path, r.fat[0], r.fat[1]
    v = I.read(st, r.root, r.path)
    if isinstance(v, ArrV):
        I.noghost(v)
        return r.root, r.path, ZERO, v.len
    raise Undetermined("slice of %r" % (v,))


@model("core::slice::<impl [T]>::len")
def m_len(I, st, c):
    return ret(st, slice_of(I, st, c.args[0])[3])


@model("core::slice::<impl [T]>::is_empty")
def m_isempty(I, st, c):
    return ret(st, eq(slice_of(I, st, c.args[0])[3], 0))


@model("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr", "core::array::<impl [T; N]>::as_slice", "core::array::<impl [T; N]>::as_mut_slice")
def m_asslice(I, st, c):
    root, path, s, n = slice_of(I, st, c.args[0])
    return ret(st, Ref(root, path, (s, n)))


def aindex(path, i):
    return tuple(path) + (("i", i),)


def slice_range(i, n):
    """Bounds of a range value that indexes a slice of length n"""
    nm = i.ty.path.split("::")[-1]
    lo, hi = ZERO, n
    if nm == "Range":
        lo, hi = i.f
    elif nm == "RangeFrom":
        lo = i.f[0]
    elif nm == "RangeTo":
        hi = i.f[0]
    elif nm == "RangeFull":
        pass
    elif nm == "RangeToInclusive":
        hi = i.f[0] + 1
    elif nm == "RangeInclusive" and len(i.f) == 3:
        lo, hi = i.f[0], i.f[1] + 1
    else:
        raise Undetermined("slice index " + nm)
    return lo, hi


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def m_getunchecked(I, st, c):
    root, path, s, n = slice_of(I, st, c.args[0])
    i = c.args[1]
    if isinstance(i, Agg):
        lo, hi = slice_range(i, n)
        ok = I.decide(st, le(lo, hi)) is True and I.decide(st, le(hi, n)) is True
        st.events = st.events + (Event("unchecked", (hi - 1, n, ok, st.facts), c.at, c.fr.body.path),)
        return ret(st, Ref(root, path, (s + lo, hi - lo)))
    if not hasattr(i, "t"):
        raise Undetermined("get_unchecked with %r" % (i,))
    i = st.facts.norm(i)
    ok = I.decide(st, lt(i, n)) is True and I.decide(st, le(0, i)) is True
    st.events = st.events + (Event("unchecked", (i, n, ok, st.facts), c.at, c.fr.body.path),)
    return ret(st, Ref(root, aindex(path, s + i)))


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def m_get(I, st, c):
    root, path, s, n = slice_of(I, st, c.args[0])
    i = c.args[1]
    if isinstance(i, Agg):
        lo, hi = slice_range(i, n)
        if not I.truth(st, le(lo, hi)) or not I.truth(st, le(hi, n)):
            return ret(st, none(c.dty))
        return ret(st, some(c.dty, Ref(root, path, (s + lo, hi - lo))))
    if not hasattr(i, "t"):
        raise Undetermined("get with a range")
    if I.truth(st, lt(i, n)):
        return ret(st, some(c.dty, Ref(root, aindex(path, s + i))))
    return ret(st, none(c.dty))


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut")
def m_first(I, st, c):
    root, path, s, n = slice_of(I, st, c.args[0])
    if I.truth(st, eq(n, 0)):
        return ret(st, none(c.dty))
    i = s if "first" in c.path else s + n - 1
    return ret(st, some(c.dty, Ref(root, aindex(path, i))))


@model("core::slice::<impl [T]>::swap")
def m_sswap(I, st, c):
    root, path, s, n = slice_of(I, st, c.args[0])
    i, j = st.facts.norm(c.args[1]), st.facts.norm(c.args[2])
    for x in (i, j):
        if not I.truth(st, lt(x, n)):
            return [Outcome("panic", st, None, "slice::swap index out of bounds", c.at)]
    x = I.read(st, root, aindex(path, s + i))
    y = I.read(st, root, aindex(path, s + j))
    I.write(st, root, aindex(path, s + i), y, c.at, c.fr.body.path)
    I.write(st, root, aindex(path, s + j), x, c.at, c.fr.body.path)
    st.events = st.events + (Event("swap", (Ref(root, path), s + i, s + j), c.at, c.fr.body.path),)
    return ret(st, I.unit(c.dty))


@pattern(r"core::ops::index::Index(Mut)?<I>>? for \[T(; N)?\]>::index(_mut)?$")
def m_index(I, st, c):
    root, path, s, n = slice_of(I, st, c.args[0])
    i = c.args[1]
    if hasattr(i, "t"):
        if I.truth(st, lt(i, n)):
            return ret(st, Ref(root, aindex(path, s + i)))
        return [Outcome("panic", st, None, "index out of bounds", c.at)]
    if isinstance(i, Agg):
        lo, hi = slice_range(i, n)
        if not I.truth(st, le(lo, hi)) or not I.truth(st, le(hi, n)):
            return [Outcome("panic", st, None, "slice range out of bounds", c.at)]
        return ret(st, Ref(root, path, (s + lo, hi - lo)))
    raise Undetermined("slice index %r" % (i,))


@pattern(r"^core::slice::<impl \[T\]>::(fill)$")
def m_fill(I, st, c):
    root, path, s, n = slice_of(I, st, c.args[0])
    a = I.read(st, root, path)
    if I.decide(st, eq(s, 0)) and I.decide(st, eq(n, a.len)):
        I.write(st, root, path, ArrV(a.ty, ("repeat", c.args[1]), a.len), c.at, c.fr.body.path)
        return ret(st, I.unit(c.dty))
    k = few(st, n)
    for j in range(k):
        I.write(st, root, aindex(path, s + j), c.args[1], c.at, c.fr.body.path)
    return ret(st, I.unit(c.dty))


def few(st, n):
    """A number of elements that can be treated one by one"""
    k = st.facts.norm(n).const()
    if k is None or k > 4096:
        raise Undetermined("operation on a whole slice of %s elements" % (n,))
    return k


@pattern(r"^core::slice::<impl \[T\]>::split_at(_mut)?(_unchecked)?$")
def m_splitat(I, st, c):
    root, path, s, n = slice_of(I, st, c.args[0])
    i = c.args[1]
    if not I.truth(st, le(i, n)):
        return [Outcome("panic", st, None, "split index out of bounds", c.at)]
    return ret(st, Agg(c.dty, 0, [Ref(root, path, (s, i)), Ref(root, path, (s + i, n - i))]))


def rearrange(I, st, c, dst, vals):
    root, path, s, n = dst
    for j, v in vals:
        I.write(st, root, aindex(path, s + j), v, c.at, c.fr.body.path)
    return ret(st, I.unit(c.dty))


def items_of(I, st, sl):
    root, path, s, n = sl
    return [I.read(st, root, aindex(path, s + j)) for j in range(few(st, n))]


@pattern(r"^core::slice::<impl \[T\]>::(reverse|rotate_left|rotate_right|swap_with_slice|copy_from_slice|clone_from_slice|copy_within)$")
def m_rearrange(I, st, c):
    op = c.path.split("::")[-1]
    d = slice_of(I, st, c.args[0])
    if op in ("swap_with_slice", "copy_from_slice", "clone_from_slice"):
        o = slice_of(I, st, c.args[1])
        if op == "clone_from_slice" and not copyable(c):
            return None
        if not I.truth(st, eq(d[3], o[3])):
            return [Outcome("panic", st, None, "slices of different lengths", c.at)]
        x, y = items_of(I, st, d), items_of(I, st, o)
        if op == "swap_with_slice":
            rearrange(I, st, c, o, list(enumerate(x)))
        return rearrange(I, st, c, d, list(enumerate(y)))
    if op == "copy_within":
        lo, hi = slice_range(c.args[1], d[3])
        to = c.args[2]
        if not I.truth(st, le(lo, hi)) or not I.truth(st, le(hi, d[3])) or not I.truth(st, le(to + hi - lo, d[3])):
            return [Outcome("panic", st, None, "slice range out of bounds", c.at)]
        k = few(st, hi - lo)
        x = [I.read(st, d[0], aindex(d[1], d[2] + lo + j)) for j in range(k)]
        return rearrange(I, st, c, d, [(to + j, v) for j, v in enumerate(x)])
    x = items_of(I, st, d)
    k = len(x)
    if op == "reverse":
        return rearrange(I, st, c, d, list(enumerate(reversed(x))))
    if not I.truth(st, le(c.args[1], d[3])):
        return [Outcome("panic", st, None, "rotation by more than the length", c.at)]
    by = few(st, c.args[1])
    if op == "rotate_right":
        by = k - by
    return rearrange(I, st, c, d, list(enumerate(x[by:] + x[:by])))


def copyable(c):
    t = c.atys[0].to()
    return I_.elemty(t).k in ("int", "uint", "bool", "char")


# chunks of a slice: chunks(ref to array, next index, end index, size, exact)


@pattern(r"^core::slice::<impl \[T\]>::chunks(_exact)?(_mut)?$")
def m_chunks(I, st, c):
    root, path, s, n = slice_of(I, st, c.args[0])
    size = c.args[1]
    if I.truth(st, eq(size, 0)):
        return [Outcome("panic", st, None, "chunk size must be non-zero", c.at)]
    exact = "_exact" in c.path
    nn, k = st.facts.norm(n).const(), st.facts.norm(size).const()
    if exact and nn is not None and k is not None:
        n = P(nn - nn % k)
    return ret(st, Model("chunks", (Ref(root, path), s, s + n, size, 1 if exact else 0)))


@pattern(r"^<core::slice::iter::Chunks(Exact)?(Mut)?<'a, T> as core::iter::traits::(iterator::Iterator>::next|double_ended::DoubleEndedIterator>::next_back)$")
def m_chunksnext(I, st, c):
    r = target(I, c.args[0])
    v = I.read(st, r.root, r.path)
    if not (isinstance(v, Model) and v.k == "chunks"):
        return opaque_op(I, st, c)
    a, s, e, k, exact = v.f
    if c.path.endswith("next_back"):
        n, kk = st.facts.norm(e - s).const(), st.facts.norm(k).const()
        if n is None or kk is None:
            raise Undetermined("chunks from the back")
        if n == 0:
            return ret(st, none(c.dty))
        last = n % kk or kk
        I.write(st, r.root, r.path, Model("chunks", (a, s, e - last, k, exact)))
        return ret(st, some(c.dty, Ref(a.root, a.path, (e - last, P(last)))))
    if I.truth(st, le(s + k, e)):
        I.write(st, r.root, r.path, Model("chunks", (a, s + k, e, k, exact)))
        return ret(st, some(c.dty, Ref(a.root, a.path, (s, k))))
    if exact or not I.truth(st, lt(s, e)):
        return ret(st, none(c.dty))
    I.write(st, r.root, r.path, Model("chunks", (a, e, e, k, exact)))
    return ret(st, some(c.dty, Ref(a.root, a.path, (s, e - s))))


# slice iterators: sliceiter(ref to array, next index, end index, skipped)


def sliceiter(root, path, s, e):
    return Model("sliceiter", (Ref(root, path), s, e))


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter",
       "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter")
def m_iter(I, st, c):
    root, path, s, n = slice_of(I, st, c.args[0])
    return ret(st, sliceiter(root, path, s, s + n))


@pattern(r"core::iter::traits::collect::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$")
def m_iter2(I, st, c):
    return m_iter(I, st, c)


@pattern(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::(iterator::Iterator>::next|double_ended::DoubleEndedIterator>::next_back)$")
def m_iternext(I, st, c):
    r = target(I, c.args[0])
    v = I.read(st, r.root, r.path)
    if not (isinstance(v, Model) and v.k == "sliceiter"):
        return opaque_op(I, st, c)
    a, s, e = v.f
    if not I.truth(st, lt(s, e)):
        return ret(st, none(c.dty))
    if c.path.endswith("next_back"):
        I.write(st, r.root, r.path, Model("sliceiter", (a, s, e - 1)))
        i = e - 1
    else:
        I.write(st, r.root, r.path, Model("sliceiter", (a, s + 1, e)))
        i = s
    return ret(st, some(c.dty, Ref(a.root, aindex(a.path, i))))


@pattern(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::clone::Clone>::clone$")
def m_iterclone(I, st, c):
    r = target(I, c.args[0])
    return ret(st, I.read(st, r.root, r.path))


@pattern(r"^<core::(slice::iter::Iter(Mut)?<'a, T>|array::iter::IntoIter<T, N>) as core::iter::traits::iterator::Iterator>::size_hint$")
def m_itersize(I, st, c):
    r = target(I, c.args[0])
    v = I.read(st, r.root, r.path)
    if not (isinstance(v, Model) and v.k in ("sliceiter", "arriter")):
        return opaque_op(I, st, c)
    n = v.f[2] - v.f[1]
    t = c.dty.elems()[1]
    return ret(st, Agg(c.dty, 0, [n, some(t, n)]))


# by-value array iterators: arriter(array, next index, end index)


@pattern(r"^core::array::iter::<impl core::iter::traits::collect::IntoIterator for \[T; N\]>::into_iter$")
def m_ainto(I, st, c):
    a = c.args[0]
    if not isinstance(a, ArrV):
        raise Undetermined("into_iter of %r" % (a,))
    I.noghost(a)
    root = ("B", next(I.ids))
    st.mem[root] = a
    return ret(st, Model("arriter", (Ref(root, ()), ZERO, a.len)))


@pattern(r"^<core::array::iter::IntoIter<T, N> as core::iter::traits::(iterator::Iterator>::next|double_ended::DoubleEndedIterator>::next_back)$")
def m_arrnext(I, st, c):
    r = target(I, c.args[0])
    v = I.read(st, r.root, r.path)
    if not (isinstance(v, Model) and v.k == "arriter"):
        return opaque_op(I, st, c)
    a, s, e = v.f
    if not I.truth(st, lt(s, e)):
        return ret(st, none(c.dty))
    back = c.path.endswith("next_back")
    i = e - 1 if back else s
    I.write(st, r.root, r.path, Model("arriter", (a, s, e - 1) if back else (a, s + 1, e)))
    return ret(st, some(c.dty, I.read(st, a.root, aindex(a.path, i))))


@pattern(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked$")
def m_getunchecked(I, st, c):
    r = target(I, c.args[0])
    v = I.read(st, r.root, r.path)
    if not (isinstance(v, Model) and v.k == "sliceiter"):
        return I.opaque(st, c)
    return ret(st, itemof(I, st, v, v.f[1] + c.args[1]))


def unknown(I, v, st):
    """Any value of the type (the interior of an iterator or a closure: of its parts)"""
    t = getattr(v, "ty", None)
    if isinstance(v, Agg):
        return Agg(t, v.v, [unknown(I, x, st) for x in v.f]) if not t.isenum() else I.fresh(t, ("from_fn", next(I.ids)), st)
    if isinstance(v, (Opq, ArrV)):
        return I.fresh(t, ("from_fn", next(I.ids)), st)
    if isinstance(v, I_.Poly):
        return P(I_.sym("u%d" % next(I.ids)))
    if isinstance(v, Ref):
        return v
    return Model("unknown", ())


def unrolled(I, st, c, f, n):
    """Element by element, when there are few and the closure changes what it captures; None: too many"""
    if n.const() is None or n.const() > 40:
        return None
    root = ("B", next(I.ids))
    s = st.copy()
    s.mem[root] = f
    done, live = [], [(s, ())]
    for j in range(n.const()):
        nxt = []
        for s, vs in live:
            for o in I.call_value(s, Ref(root, ()), [P(j)], c.dty.elem(), c.at, c.fr):
                if o.kind == "ret":
                    nxt.append((o.st, vs + (o.v,)))
                else:
                    done.append(o)
        live = nxt
        if len(live) + len(done) > 60:
            return None
    return done + [Outcome("ret", s, ArrV(c.dty, ("list", vs), n)) for s, vs in live]


@model("core::array::from_fn")
def m_fromfn(I, st, c):
    """Run the closure for a symbolic index; the result is an array whose element at any index is described by the recorded outcomes"""
    f = c.args[0]
    ty = c.dty
    n = I.constlen(ty.d["len"], st)
    k = I_.sym("i%d" % next(I.ids), 0, None)
    s2 = st.copy()
    s2.events = ()
    if not s2.facts.add_le(P(k) + 1 - n):
        # an array without elements
        return ret(st, ArrV(ty, ("list", ()), n))
    root = ("B", next(I.ids))
    s2.mem[root] = f
    havoc = {}
    while True:
        before = dict(s2.mem)
        outs = I.call_value(s2, Ref(root, ()), [P(k)], ty.elem(), c.at, c.fr)
        changed = [rt for o in outs if o.kind == "ret" for rt, v in o.st.mem.items()
                   if rt in before and rt not in havoc and before[rt] is not v and before[rt] != v]
        if not changed:
            break
        exact = unrolled(I, st, c, f, n) if not havoc else None
        if exact is not None:
            return exact
        # what earlier elements may have changed is unknown
        for rt in changed:
            if rt not in havoc:
                v = before[rt]
                havoc[rt] = unknown(I, v, s2)
                s2.mem[rt] = havoc[rt]
    res = []
    rets = []
    loose = (Event("havoc", tuple(havoc), c.at, c.fr.body.path),) if havoc else ()
    for o in outs:
        if o.kind == "ret":
            rets.append(o)
        else:
            o.st.events = st.events + loose + (Event("from_fn_panic", (k,), c.at, c.fr.body.path),) + o.st.events
            res.append(o)
    # what the closure may have changed is unknown afterwards
    for rt in havoc:
        if rt != root:
            st.mem[rt] = unknown(I, st.mem[rt], st)
    st.events = st.events + loose
    ev = Event("from_fn", (P(k), n, tuple(rets)), c.at, c.fr.body.path)
    st.events = st.events + (ev,)
    t = ("from_fn", next(I.ids))
    one = None
    if len(rets) == 1 and not I_.mentions(rets[0].v, k):
        one = rets[0].v
    if one is not None:
        res.append(Outcome("ret", st, ArrV(ty, ("repeat", one), n)))
    else:
        res.append(Outcome("ret", st, ArrV(ty, ("sym", t, I.elemsym(ty.elem())), n)))
    return res


@pattern(r"^core::array::<impl \[T; N\]>::map$")
def m_amap(I, st, c):
    """Element by element when their number is known"""
    a = c.args[0]
    if not isinstance(a, ArrV):
        return None
    n = st.facts.norm(a.len).const()
    if n is None or n > 600:
        return None
    root = ("B", next(I.ids))
    s = st.copy()
    s.mem[root] = c.args[1]
    done, live = [], [(s, ())]
    for j in range(n):
        nxt = []
        for s, vs in live:
            for o in I.call_value(s, Ref(root, ()), [I.arr_read(s, a, P(j))], c.dty.elem(), c.at, c.fr):
                if o.kind == "ret":
                    nxt.append((o.st, vs + (o.v,)))
                else:
                    done.append(o)
        live = nxt
        if len(live) + len(done) > 60:
            raise Undetermined("too many ways through the elements of an array")
    return done + [Outcome("ret", s, ArrV(c.dty, ("list", vs), P(n))) for s, vs in live]


@pattern(r"^core::slice::<impl \[T\]>::contains$")
def m_contains(I, st, c):
    """Numbers, characters and booleans; anything else by its own equality"""
    ref = target(I, c.args[1])
    sl = slice_of(I, st, c.args[0])
    ty = c.atys[1].to()
    own = None
    if ty.k not in ("int", "char"):
        own = next((b for b in I.prog.bodies.values() if not b.error and b.nargs == 2 and b.path.endswith("core::cmp::PartialEq>::eq") and
                    all(t.k == "ref" and t.to() is ty for t in b.locals[1:3])), None)
        if own is None:
            return None
    root, path, s, n = sl
    done, live = [], [st]
    for j in range(few(st, n)):
        nxt = []
        for q in live:
            if own is None:
                q = q.copy()
                if I.truth(q, eq(I.read(q, root, aindex(path, s + j)), I.read(q, ref.root, ref.path))):
                    done.append(Outcome("ret", q, TRUE))
                else:
                    nxt.append(q)
                continue
            for o in I.call_body(q, own, [Ref(root, aindex(path, s + j)), ref], c.fr.depth + 1):
                if o.kind != "ret":
                    done.append(o)
                elif isinstance(o.v, BoolV):
                    # true: found; false: go on
                    for v in (True, False):
                        t = o.st.copy()
                        if I.assume(t.facts, o.v if v else o.v.neg()):
                            if v:
                                done.append(Outcome("ret", t, TRUE))
                            else:
                                nxt.append(t)
                else:
                    raise Undetermined("equality %r" % (o.v,))
        live = nxt
    return done + [Outcome("ret", q, FALSE) for q in live]


@pattern(r"^core::array::<impl core::clone::Clone for \[T; N\]>::clone$")
def m_aclone(I, st, c):
    r = target(I, c.args[0])
    return ret(st, I.read(st, r.root, r.path))


@model("core::intrinsics::raw_eq")
def m_raweq(I, st, c):
    a, b = target(I, c.args[0]), target(I, c.args[1])
    x, y = I.read(st, a.root, a.path), I.read(st, b.root, b.path)
    return ret(st, struct_eq(I, st, x, y, "eq"))


def struct_eq(I, st, x, y, n):
    if x == y:
        return TRUE
    if isinstance(x, ArrV) and isinstance(y, ArrV) and x.base[0] == "list" and y.base[0] == "list" and not x.w and not y.w and len(x.base[1]) == len(y.base[1]):
        for p, q in zip(x.base[1], y.base[1]):
            if hasattr(p, "t") and hasattr(q, "t"):
                if not I.truth(st, eq(p, q)):
                    return FALSE
            else:
                return BoolV("t", ("eq", term(x), term(y)), True)
        return TRUE
    return BoolV("t", ("eq", term(x), term(y)), True)


# vectors as sequences: the value of a Vec is an ArrV when its elements are known (Interp.vecs)


def vec_of(I, st, a):
    r = target(I, a)
    v = I.read(st, r.root, r.path)
    return (r, v) if isinstance(v, ArrV) else (r, None)


@pattern(r"^<alloc::vec::Vec<T, A> as core::ops::deref::Deref(Mut)?>::deref(_mut)?$|^alloc::vec::Vec::<T, A>::as_(mut_)?slice$|^<alloc::vec::Vec<T, A> as core::convert::As(Ref|Mut)<\[T\]>>::as_(ref|mut)$")
def m_vderef(I, st, c):
    r, v = vec_of(I, st, c.args[0])
    if v is None:
        return m_opaque(I, st, c)
    return ret(st, Ref(r.root, r.path, (ZERO, v.len)))


@pattern(r"^alloc::vec::Vec::<T, A>::(len|is_empty)$")
def m_vlen(I, st, c):
    r, v = vec_of(I, st, c.args[0])
    if v is None:
        return m_opaque(I, st, c)
    return ret(st, v.len if c.path.endswith("::len") else eq(v.len, 0))


@pattern(r"^<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?$")
def m_vindex(I, st, c):
    r, v = vec_of(I, st, c.args[0])
    return m_opaque(I, st, c) if v is None else m_index(I, st, c)


@pattern(r"^<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter$")
def m_vinto(I, st, c):
    return m_ainto(I, st, c) if isinstance(c.args[0], ArrV) else m_opaque(I, st, c)


@pattern(r"^<&'a (mut )?alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter$")
def m_vinto2(I, st, c):
    r, v = vec_of(I, st, c.args[0])
    return m_opaque(I, st, c) if v is None else m_iter(I, st, c)


@pattern(r"^<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::(iterator::Iterator>::next|double_ended::DoubleEndedIterator>::next_back)$")
def m_vnext(I, st, c):
    return m_arrnext(I, st, c)


ITER = r"(?:core::slice::iter::Iter(?:Mut)?<'a, T>|core::array::iter::IntoIter<T, N>|alloc::vec::into_iter::IntoIter<T, A>)"
GOES_ON = ("Continue", "Some", "Ok")


def itemof(I, st, v, i):
    """Item number i of a walk over a sequence"""
    a = v.f[0]
    return Ref(a.root, aindex(a.path, i)) if v.k == "sliceiter" else I.read(st, a.root, aindex(a.path, i))


def payload(v):
    return v.f[0] if v.f else None


@pattern(r"^<%s as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator)>::"
         r"(?:try_fold|try_rfold|fold|rfold|for_each|find|find_map|rfind|position|rposition|nth|nth_back|last|count|advance_by)$" % ITER)
def m_consume(I, st, c):
    """Consuming methods of the iterators over sequences, item by item when their number is known and small"""
    op = c.path.rsplit("::", 1)[-1]
    r = c.args[0] if isinstance(c.args[0], Ref) else None
    v = I.read(st, r.root, r.path) if r is not None else c.args[0]
    if not (isinstance(v, Model) and v.k in ("sliceiter", "arriter")):
        return m_opaque(I, st, c)
    a, s, e = v.f
    t = c.dty

    def move(st, s, e):
        if r is not None:
            I.write(st, r.root, r.path, Model(v.k, (a, s, e)))

    if op == "count":
        return ret(st, e - s)
    if op == "last":
        return ret(st, some(t, itemof(I, st, v, e - 1)) if I.truth(st, lt(s, e)) else none(t))
    if op in ("nth", "nth_back", "advance_by"):
        k = c.args[1]
        if op == "advance_by":
            # only the whole advance is modelled
            if not I.truth(st, le(s + k, e)):
                return m_opaque(I, st, c)
            move(st, s + k, e)
            u = t.vfields(t.vindex("Ok"))[0]
            return ret(st, Agg(t, t.vindex("Ok"), [Agg(u, 0, [])]))
        if not I.truth(st, lt(s + k, e)):
            move(st, e, e) if op == "nth" else move(st, s, s)
            return ret(st, none(t))
        i = s + k if op == "nth" else e - 1 - k
        x = itemof(I, st, v, i)
        move(st, *((i + 1, e) if op == "nth" else (s, i)))
        return ret(st, some(t, x))
    n = st.facts.norm(e - s).const()
    if n is None or n > (160 if isknown(I, st, a) else 8):
        return m_opaque(I, st, c)
    f = c.args[2 if "fold" in op else 1]
    if not isinstance(f, Ref):
        root = ("B", next(I.ids))
        st.mem[root] = f
        f = Ref(root, ())
    back = op in ("try_rfold", "rfold", "rfind", "rposition")
    rt = c.dty if op not in ("find", "rfind", "position", "rposition") else next((x for x in I.prog.types if x.k == "bool"), c.dty)
    live, done = [(st, c.args[1] if "fold" in op else None)], []
    for j in range(n):
        i = e - 1 - j if back else s + j
        rest = (s, i) if back else (i + 1, e)
        nxt = []
        for x, acc in live:
            item = itemof(I, x, v, i)
            move(x, *rest)
            args = [acc, item] if "fold" in op else [item]
            if op in ("find", "rfind"):
                root = ("B", next(I.ids))
                x.mem[root] = item
                args = [Ref(root, ())]
            for o in I.call_value(x, f, args, rt, c.at, c.fr):
                if o.kind != "ret":
                    done.append(o)
                elif op in ("fold", "rfold", "for_each"):
                    nxt.append((o.st, o.v))
                elif op in ("find", "rfind", "position", "rposition"):
                    for s2, yes in truths(I, o.st, o.v):
                        if not yes:
                            nxt.append((s2, None))
                        else:
                            done.append(Outcome("ret", s2, some(t, item if "find" in op else P(j) if op == "position" else i - s)))
                else:
                    w = I.resolve(o.st, o.v)
                    if not isinstance(w, Agg):
                        return m_opaque(I, st, c)
                    on = w.ty.vname(w.v) in GOES_ON
                    if op == "find_map":
                        on = not on
                    if on:
                        nxt.append((o.st, payload(w) if op != "find_map" else None))
                    else:
                        done.append(Outcome("ret", o.st, w))
        live = nxt
        if len(live) + len(done) > 200:
            raise Undetermined("too many ways through a sequence")
    for x, acc in live:
        if op in ("fold", "rfold"):
            w = acc
        elif op == "for_each":
            w = I.unit(t)
        elif op in ("try_fold", "try_rfold"):
            k = [i for i, d in enumerate(t.d["variants"]) if d["name"] in GOES_ON][0]
            w = Agg(t, k, [acc])
        else:
            w = none(t)
        done.append(Outcome("ret", x, w))
    return done


@pattern(r"^<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::(any|all)$")
def m_anyall(I, st, c):
    """Some (every) element of a sequence of unknown length: the closure is run for an arbitrary element and recorded"""
    r = target(I, c.args[0])
    v = I.read(st, r.root, r.path)
    if not (isinstance(v, Model) and v.k == "sliceiter"):
        return m_opaque(I, st, c)
    a, s, e = v.f
    n = st.facts.norm(e - s).const()
    allq = c.path.endswith("all")
    if n is not None and n <= (64 if isknown(I, st, a) else 8):
        # element by element
        done, live = [], [st]
        f = c.args[1]
        if not isinstance(f, Ref):
            root = ("B", next(I.ids))
            st.mem[root] = f
            f = Ref(root, ())
        for j in range(n):
            nxt = []
            for x in live:
                for o in I.call_value(x, f, [Ref(a.root, aindex(a.path, s + j))], c.dty, c.at, c.fr):
                    if o.kind != "ret":
                        done.append(o)
                        continue
                    for s2, t in truths(I, o.st, o.v):
                        if t != allq:
                            done.append(Outcome("ret", s2, boolv(t)))
                        else:
                            nxt.append(s2)
            live = nxt
        return done + [Outcome("ret", x, boolv(allq)) for x in live]
    k = I_.sym("k%d" % next(I.ids), 0, None)
    s2 = st.copy()
    s2.events = ()
    if not s2.facts.add_le(s - P(k)) or not s2.facts.add_le(P(k) + 1 - e):
        return ret(st, boolv(allq))
    outs = I.call_value(s2, c.args[1], [Ref(a.root, aindex(a.path, P(k)))], c.dty, c.at, c.fr)
    if any(o.kind != "ret" for o in outs):
        raise Undetermined("a predicate over a sequence may panic")
    b = BoolV("t", ("any", term(v), next(I.ids)), True)
    st.taint = st.taint + ("any",)
    st.events = st.events + (Event("any", (v, P(k), tuple(outs), b, allq), c.at, c.fr.body.path),)
    return ret(st, b)


def isknown(I, st, a):
    x = I.node(st, a.root, a.path)
    return isinstance(x, ArrV) and x.base[0] == "list"


def truths(I, st, b):
    r = []
    for t in (True, False):
        s = st.copy()
        if I.assume(s.facts, b if t else b.neg()):
            r.append((s, t))
    return r


# strings -------------------------------------------------------------------------------------


@model("core::str::<impl str>::chars")
def m_chars(I, st, c):
    a = c.args[0]
    if isinstance(a, StrV):
        return ret(st, Model("chars", (a, ZERO)))
    v = I.read(st, a.root, a.path) if isinstance(a, Ref) else a
    if isinstance(v, StrV):
        return ret(st, Model("chars", (v, ZERO)))
    return ret(st, Model("chars", (strterm(v), ZERO)))


def strterm(v):
    """The characters behind a string reference, or the string itself"""
    if v.ty.k == "str":
        return v
    return Opq(v.ty.to(), ("*", v.term))


@pattern(r"^<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::next$")
def m_charsnext(I, st, c):
    r = target(I, c.args[0])
    v = I.read(st, r.root, r.path)
    if not (isinstance(v, Model) and v.k == "chars"):
        return opaque_op(I, st, c)
    s, i = v.f
    if isinstance(s, StrV):
        n = i.const()
        if n is None:
            raise Undetermined("position in string")
        if n >= len(s.s):
            return ret(st, none(c.dty))
        I.write(st, r.root, r.path, Model("chars", (s, i + 1)))
        return ret(st, some(c.dty, P(ord(s.s[n]))))
    # characters of an unknown string: length nchars, character i
    n = P(app("uf", (("nchars", term(s)),), 0, (1 << 63) - 1))
    if not I.truth(st, lt(i, n)):
        return ret(st, none(c.dty))
    I.write(st, r.root, r.path, Model("chars", (s, i + 1)))
    return ret(st, some(c.dty, P(app("uf", (("char", term(s), i),), 0, 0x10FFFF))))


def nchars(s):
    return P(len(s.s)) if isinstance(s, StrV) else P(app("uf", (("nchars", term(s)),), 0, (1 << 63) - 1))


@pattern(r"^<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::count$")
def m_charscount(I, st, c):
    v = c.args[0]
    if not (isinstance(v, Model) and v.k == "chars"):
        return opaque_op(I, st, c)
    s, i = v.f
    return ret(st, nchars(s) - i)


@pattern(r"^core::str::<impl str>::(len|is_empty)$")
def m_strlen(I, st, c):
    a = c.args[0]
    v = a if isinstance(a, StrV) else I.read(st, a.root, a.path) if isinstance(a, Ref) else a
    if isinstance(v, StrV):
        n = P(len(v.s.encode()))
        return ret(st, n if c.path.endswith("len") else eq(n, P(0)))
    k = nchars(strterm(v))
    if c.path.endswith("is_empty"):
        return ret(st, eq(k, P(0)))
    # between 1 and 4 bytes per character
    n = P(app("uf", (("nbytes", term(strterm(v))),), 0, (1 << 63) - 1))
    st.facts.add_le(k - n)
    st.facts.add_le(n - k * 4)
    return ret(st, n)


ASCII = {
    "is_ascii": [(0, 127)], "is_ascii_alphabetic": [(65, 90), (97, 122)], "is_ascii_uppercase": [(65, 90)], "is_ascii_lowercase": [(97, 122)],
    "is_ascii_digit": [(48, 57)], "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)], "is_ascii_hexdigit": [(48, 57), (65, 70), (97, 102)],
    "is_ascii_punctuation": [(33, 47), (58, 64), (91, 96), (123, 126)], "is_ascii_graphic": [(33, 126)],
    "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)], "is_ascii_control": [(0, 31), (127, 127)], "is_control": [(0, 31), (127, 159)],
    "is_whitespace": [(9, 13), (32, 32), (133, 133), (160, 160), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)],
}


def within(I, st, x, ranges):
    for a, b in ranges:
        if I.truth(st, le(P(a), x)) and I.truth(st, le(x, P(b))):
            return True
    return False


def number(I, st, v):
    while isinstance(v, Ref) and not v.fat:
        v = I.read(st, v.root, v.path)
    return v if isinstance(v, I_.Poly) else None


@pattern(r"^core::(?:char::methods::<impl char>|num::<impl u8>)::(?:is_ascii\w*|is_control|is_whitespace)$")
def m_asciitest(I, st, c):
    x = number(I, st, c.args[0])
    rs = ASCII.get(c.path.rsplit("::", 1)[-1])
    if x is None or rs is None:
        return I.opaque(st, c)
    return ret(st, boolv(within(I, st, x, rs)))


@pattern(r"^core::(?:char::methods::<impl char>|num::<impl u8>)::(?:to_ascii_(?:upper|lower)case|eq_ignore_ascii_case)$")
def m_asciicase(I, st, c):
    def fold(x, up):
        return (x - 32 if up else x + 32) if within(I, st, x, [(97, 122) if up else (65, 90)]) else x
    xs = [number(I, st, a) for a in c.args]
    if any(x is None for x in xs):
        return I.opaque(st, c)
    if c.path.endswith("eq_ignore_ascii_case"):
        return ret(st, eq(fold(xs[0], False), fold(xs[1], False)))
    return ret(st, fold(xs[0], "upper" in c.path))


@pattern(r"^(?:<char as core::convert::From<u8>>|<(?:u32|u64|u128) as core::convert::From<char>>|core::char::convert::<impl core::convert::From<(?:u8|char)> for (?:char|u32|u64|u128)>)::from$")
def m_fromu8(I, st, c):
    x = number(I, st, c.args[0])
    return I.opaque(st, c) if x is None else ret(st, x)


@pattern(r"^core::char::(?:methods::<impl char>|convert)::from_u32$")
def m_fromu32(I, st, c):
    x = number(I, st, c.args[0])
    if x is None:
        return I.opaque(st, c)
    ok = within(I, st, x, [(0, 0xd7ff), (0xe000, 0x10ffff)])
    return ret(st, some(c.dty, x) if ok else none(c.dty))


def string(I, st, v):
    """The text of a string that is known"""
    while isinstance(v, Ref) and not v.fat:
        v = I.read(st, v.root, v.path)
    return v.s if isinstance(v, StrV) else None


def pattern_text(I, st, v):
    n = number(I, st, v)
    if n is not None:
        n = st.facts.norm(n).const()
        return None if n is None else chr(n)
    return string(I, st, v)


SPACE = "".join(chr(x) for a, b in ASCII["is_whitespace"] for x in range(a, b + 1))


def strip_all(s, p, left, right):
    while left and p and s.startswith(p):
        s = s[len(p):]
    while right and p and s.endswith(p):
        s = s[:-len(p)]
    return s


@pattern(r"^core::str::<impl str>::(trim\w*|strip_prefix|strip_suffix|starts_with|ends_with|contains|as_bytes|eq_ignore_ascii_case|is_ascii)$")
def m_strop(I, st, c):
    """Operations on a string that is known"""
    op = c.path.rsplit("::", 1)[-1]
    s = string(I, st, c.args[0])
    if s is None:
        return I.opaque(st, c)
    t = c.dty
    if op in ("trim", "trim_start", "trim_end", "trim_left", "trim_right"):
        a, b = op in ("trim", "trim_start", "trim_left"), op in ("trim", "trim_end", "trim_right")
        return ret(st, StrV(s.strip(SPACE) if a and b else s.lstrip(SPACE) if a else s.rstrip(SPACE)))
    if op == "is_ascii":
        return ret(st, boolv(s.isascii()))
    if op == "as_bytes":
        bs = s.encode()
        root = ("B", next(I.ids))
        st.mem[root] = ArrV(t.to(), ("list", tuple(P(b) for b in bs)), P(len(bs)))
        return ret(st, Ref(root, (), (ZERO, P(len(bs)))))
    p = pattern_text(I, st, c.args[1])
    if p is None:
        return I.opaque(st, c)
    if op == "eq_ignore_ascii_case":
        low = lambda x: "".join(chr(ord(y) + 32) if "A" <= y <= "Z" else y for y in x)
        return ret(st, boolv(low(s) == low(p)))
    if op in ("starts_with", "ends_with", "contains"):
        return ret(st, boolv(s.startswith(p) if op == "starts_with" else s.endswith(p) if op == "ends_with" else p in s))
    if op == "strip_prefix":
        return ret(st, some(t, StrV(s[len(p):])) if s.startswith(p) else none(t))
    if op == "strip_suffix":
        return ret(st, some(t, StrV(s[:len(s) - len(p)])) if s.endswith(p) else none(t))
    if op in ("trim_matches", "trim_start_matches", "trim_end_matches", "trim_left_matches", "trim_right_matches"):
        return ret(st, StrV(strip_all(s, p, "end" not in op and "right" not in op, "start" not in op and "left" not in op)))
    return I.opaque(st, c)


@pattern(r"^<core::str::iter::Chars<'a> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back$|^core::str::iter::Chars::<'a>::as_str$")
def m_charsback(I, st, c):
    r = target(I, c.args[0])
    v = I.read(st, r.root, r.path)
    if not (isinstance(v, Model) and v.k == "chars" and isinstance(v.f[0], StrV) and v.f[1].const() is not None):
        return I.opaque(st, c)
    s, n = v.f[0].s, v.f[1].const()
    if c.path.endswith("as_str"):
        return ret(st, StrV(s[n:]))
    if n >= len(s):
        return ret(st, none(c.dty))
    I.write(st, r.root, r.path, Model("chars", (StrV(s[:-1]), v.f[1])))
    return ret(st, some(c.dty, P(ord(s[-1]))))


@pattern(r"^<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::last$")
def m_charslast(I, st, c):
    v = c.args[0]
    if not (isinstance(v, Model) and v.k == "chars" and isinstance(v.f[0], StrV) and v.f[1].const() is not None):
        return I.opaque(st, c)
    s = v.f[0].s[v.f[1].const():]
    return ret(st, some(c.dty, P(ord(s[-1]))) if s else none(c.dty))


@pattern(r"^core::str::traits::<impl core::cmp::PartialEq for str>::(eq|ne)$|^<str as core::cmp::PartialEq>::(eq|ne)$")
def m_streq(I, st, c):
    """Whether a string is a known one: the number of characters and each of them"""
    def of(v):
        while isinstance(v, Ref) and not v.fat:
            v = I.read(st, v.root, v.path)
        return v
    a, b = of(c.args[0]), of(c.args[1])
    if isinstance(a, StrV) and not isinstance(b, StrV):
        a, b = b, a
    if not isinstance(b, StrV):
        return I.opaque(st, c)
    yes = not c.path.endswith("ne")
    if isinstance(a, StrV):
        return ret(st, boolv((a.s == b.s) == yes))
    if not isinstance(a, Opq):
        return I.opaque(st, c)
    s = strterm(a)
    if not I.truth(st, eq(nchars(s), P(len(b.s)))):
        return ret(st, boolv(not yes))
    for i, x in enumerate(b.s):
        if not I.truth(st, eq(P(app("uf", (("char", term(s), P(i)),), 0, 0x10FFFF)), P(ord(x)))):
            return ret(st, boolv(not yes))
    return ret(st, boolv(yes))


# function values ------------------------------------------------------------------------------


@pattern(r"^core::ops::function::Fn(Mut|Once)?::call(_mut|_once)?$")
def m_fncall(I, st, c):
    return I.call_value(st, c.args[0], list(c.args[1].f), c.dty, c.at, c.fr)


# collections -----------------------------------------------------------------------------------
# Opaque values; each operation is an event and a function of its arguments.


def opaque_op(I, st, c):
    n = len(st.taint)
    outs = I.opaque(st, c)
    for o in outs:
        o.st.taint = o.st.taint[:n]
    I.unmodelled.discard(c.path)
    return outs


KNOWN_OPAQUE = [
    r"^alloc::collections::", r"^<alloc::collections::", r"^alloc::vec::", r"^<alloc::vec::", r"^<&'a (mut )?alloc::(vec|collections)::",
    r"^std::collections::", r"^<std::collections::", r"^<&'a (mut )?std::collections::", r"^alloc::boxed::", r"^<alloc::string::", r"^alloc::string::",
    r"^alloc::slice::", r"^<T as alloc::string::ToString>", r"^core::fmt::Formatter", r"^core::fmt::Arguments", r"^core::fmt::rt::", r"^alloc::fmt::format$",
    r"^core::hash::", r"^<core::marker::PhantomData<T> as core::hash", r"^core::array::<impl core::hash", r"^core::array::<impl core::cmp",
    r"^core::fmt::", r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::(any|all|count|size_hint|fold|position|nth)",
]


@pattern("^(?!<.* as sqrid::)(%s)" % "|".join(KNOWN_OPAQUE))
def m_opaque(I, st, c):
    if c.dty.k == "never":
        return None
    return opaque_op(I, st, c)


@model("core::slice::<impl [T]>::into_vec")
def m_intovec(I, st, c):
    return opaque_op(I, st, c)
