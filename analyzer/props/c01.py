"""C01: bounded integers never hold a value outside [MIN, MAX]"""

from .common import *
from . import common
BOUNDED = {"BoundedU8": "u8", "BoundedU16": "u16", "BoundedU32": "u32", "BoundedU64": "u64", "BoundedU128": "u128", "BoundedIsize": "isize",
           "BoundedI8": "i8", "BoundedI16": "i16", "BoundedI32": "i32", "BoundedI64": "i64", "BoundedI128": "i128"}


def harness():
    h = ["use sqrid::*;"]
    for b, t in BOUNDED.items():
        g = "const MIN: %s, const MAX: %s" % (t, t)
        B = "%s<MIN, MAX>" % b
        h.append("""
pub fn {t}_new<{g}>(v: {t}) -> Result<{B}, Error> {{ <{B}>::new(v) }}
pub fn {t}_new_unwrap<{g}>(v: {t}) -> {B} {{ <{B}>::new_unwrap(v) }}
pub fn {t}_new_static<{g}, const V: {t}>() -> {B} {{ <{B}>::new_static::<V>() }}
pub fn {t}_into_inner<{g}>(v: {B}) -> {t} {{ v.into_inner() }}
pub fn {t}_tinto_inner<{g}>(v: {B}) -> {t} {{ BoundedInt::into_inner(v) }}
pub fn {t}_as_ref<{g}>(v: &{B}) -> {t} {{ *BoundedInt::as_ref(v) }}
pub fn {t}_from<{g}>(v: {B}) -> {t} {{ <{t}>::from(v) }}
pub fn {t}_min<{g}>() -> {B} {{ <{B} as BoundedInt>::MIN }}
pub fn {t}_max<{g}>() -> {B} {{ <{B} as BoundedInt>::MAX }}
pub fn {t}_add<{g}>(v: {B}, w: {B}) -> Option<{B}> {{ v.checked_add(w) }}
pub fn {t}_sub<{g}>(v: {B}, w: {B}) -> Option<{B}> {{ v.checked_sub(w) }}
pub fn {t}_inc<{g}>(v: {B}) -> Option<{B}> {{ v.inc() }}
pub fn {t}_dec<{g}>(v: {B}) -> Option<{B}> {{ v.dec() }}
pub fn {t}_one<{g}>() -> {B} {{ <{B} as BoundedInt>::one() }}
pub fn {t}_default<{g}>() -> {B} {{ <{B}>::default() }}
pub fn {t}_bool<{g}>(v: bool) -> {B} {{ <{B}>::from(v) }}
pub fn {t}_tousize<{g}>(v: {B}) -> Result<usize, Error> {{ usize::try_from(v) }}
pub fn {t}_eq<{g}>(v: {B}, w: {B}) -> bool {{ v == w }}
pub fn {t}_cmp<{g}>(v: {B}, w: {B}) -> core::cmp::Ordering {{ v.cmp(&w) }}
pub fn {t}_pcmp<{g}>(v: {B}, w: {B}) -> Option<core::cmp::Ordering> {{ v.partial_cmp(&w) }}
pub fn {t}_clone<{g}>(v: &{B}) -> {B} {{ v.clone() }}
""".format(t=t, g=g, B=B))
        for u in INTS:
            h.append("pub fn {t}_try_{u}<{g}>(v: {u}) -> Result<{B}, Error> {{ <{B}>::try_from(v) }}".format(t=t, u=u, g=g, B=B))
    for t in INTS:
        h.append("""
pub fn b_{t}_min() -> {t} {{ <{t} as BoundedInt>::MIN }}
pub fn b_{t}_max() -> {t} {{ <{t} as BoundedInt>::MAX }}
pub fn b_{t}_inner(v: {t}) -> {t} {{ <{t} as BoundedInt>::into_inner(v) }}
pub fn b_{t}_as_ref(v: {t}) -> {t} {{ *<{t} as BoundedInt>::as_ref(&v) }}
pub fn b_{t}_add(v: {t}, w: {t}) -> Option<{t}> {{ <{t} as BoundedInt>::checked_add(v, w) }}
pub fn b_{t}_sub(v: {t}, w: {t}) -> Option<{t}> {{ <{t} as BoundedInt>::checked_sub(v, w) }}
pub fn b_{t}_inc(v: {t}) -> Option<{t}> {{ <{t} as BoundedInt>::inc(v) }}
pub fn b_{t}_dec(v: {t}) -> Option<{t}> {{ <{t} as BoundedInt>::dec(v) }}
pub fn b_{t}_one() -> {t} {{ <{t} as BoundedInt>::one() }}
""".format(t=t))
    return "\n".join(h)


def check(c):
    pr = c.load("c01", harness())
    R = common.Rust(pr)

    def bounds(I):
        return I.konst({"k": "param", "name": "MIN"}, None), I.konst({"k": "param", "name": "MAX"}, None)

    def inside(mn, mx, v):
        return [le(mn, v), le(v, mx)]

    def either(mn, mx, v, yes, no):
        return [(inside(mn, mx, v), yes), ([lt(v, mn)], no), ([le(mn, v), lt(mx, v)], no)]

    for b, t in BOUNDED.items():
        B = "%s_" % t
        bty = R.root_ty(B + "new_unwrap")

        def val(v, ty=bty):
            return Agg(ty, 0, [v])

        def constructor(v):
            def spec(I, a):
                mn, mx = bounds(I)
                x = v(I, a)
                return either(mn, mx, x, R.ok(B + "new", val(x)), R.err(B + "new", "OutOfBounds"))
            return spec

        def unwrapping(v):
            def spec(I, a):
                mn, mx = bounds(I)
                x = v(I, a)
                return either(mn, mx, x, val(x), "panic")
            return spec

        def arith(v):
            def spec(I, a):
                mn, mx = bounds(I)
                x = v(I, a)
                return either(mn, mx, x, R.some(B + "add", val(x)), R.none(B + "add"))
            return spec

        def ordered(I, a):
            mn, mx = bounds(I)
            return [le(mn, mx)]
        c.cases(pr, B + "new", constructor(lambda I, a: a[0]))
        c.cases(pr, B + "new_unwrap", unwrapping(lambda I, a: a[0]))
        c.cases(pr, B + "new_static", unwrapping(lambda I, a: I.konst({"k": "param", "name": "V"}, None)))
        for u in INTS:
            c.cases(pr, B + "try_" + u, constructor(lambda I, a: a[0]))
        for n in ("into_inner", "tinto_inner", "from"):
            c.cases(pr, B + n, lambda I, a: [([], a[0].f[0])])
        c.cases(pr, B + "as_ref", lambda I, a: [([], I.init_mem[a[0].root].f[0])])
        c.cases(pr, B + "clone", lambda I, a: [([], I.init_mem[a[0].root])])
        c.cases(pr, B + "min", lambda I, a: [([], val(bounds(I)[0]))], pre=ordered)
        c.cases(pr, B + "max", lambda I, a: [([], val(bounds(I)[1]))], pre=ordered)
        c.cases(pr, B + "add", arith(lambda I, a: a[0].f[0] + a[1].f[0]))
        c.cases(pr, B + "sub", arith(lambda I, a: a[0].f[0] - a[1].f[0]))
        c.cases(pr, B + "inc", arith(lambda I, a: a[0].f[0] + 1))
        c.cases(pr, B + "dec", arith(lambda I, a: a[0].f[0] - 1))
        c.cases(pr, B + "one", unwrapping(lambda I, a: P(1)))

        def default(I, a):
            mn, mx = bounds(I)
            return [([le(mn, 0), le(0, mx)], val(P(0))), ([lt(0, mn)], val(mn)), ([lt(mx, 0)], val(mx))]
        c.cases(pr, B + "default", default, pre=ordered)

        def frombool(I, a):
            mn, mx = bounds(I)
            r = []
            for v, cond in ((0, a[0].neg()), (1, a[0])):
                r += [([cond] + x, w) for x, w in either(mn, mx, P(v), val(P(v)), "panic")]
            return r
        c.cases(pr, B + "bool", frombool)
        c.cases(pr, B + "tousize", lambda I, a: either(P(0), P((1 << 64) - 1), a[0].f[0], R.ok(B + "tousize", a[0].f[0]), R.err(B + "tousize", "OutOfBounds")))
        common.comparisons(c, pr, B, lambda a: (a[0].f[0], a[1].f[0]), R)
    for t in INTS:
        B = "b_%s_" % t
        ity = R.root_ty(B + "inner")
        lo, hi = ity.range()
        c.cases(pr, B + "min", lambda I, a: [([], P(lo))])
        c.cases(pr, B + "max", lambda I, a: [([], P(hi))])
        c.cases(pr, B + "inner", lambda I, a: [([], a[0])])
        c.cases(pr, B + "as_ref", lambda I, a: [([], a[0])])
        c.cases(pr, B + "one", lambda I, a: [([], P(1))])
        for n, f in (("add", lambda a: a[0] + a[1]), ("sub", lambda a: a[0] - a[1]), ("inc", lambda a: a[0] + 1), ("dec", lambda a: a[0] - 1)):
            c.cases(pr, B + n, lambda I, a: either(P(lo), P(hi), f(a), R.some(B + n, f(a)), R.none(B + n)))
