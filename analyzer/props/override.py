"""Iterator methods an iterator of the library implements itself (nth, last, count, ...) instead of taking the provided ones:
they have to agree with taking the items one by one. Nothing is done for an iterator that only implements next and next_back."""

import re

from .common import *

OVER = re.compile(r"^<sqrid::(?:\w+::)*(\w+)<.* as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator)>::(\w+)$")
PLAIN = ("next", "next_back", "size_hint")


class It:
    """An iterator: its type, whether it has two ends, generic parameters, arguments, expression, item type, sizes to try"""

    def __init__(self, ty, two, g, args, expr, item, cvals):
        self.ty, self.two, self.g, self.args, self.expr, self.item, self.cvals = ty, two, g, args, expr, item, cvals


P2 = [{"XMAX": 0, "YMAX": 0}, {"XMAX": 1, "YMAX": 0}, {"XMAX": 1, "YMAX": 2}]
PGEN, PTY = "const XMAX: u16, const YMAX: u16", "Pos<XMAX, YMAX>"
BOUNDED = {
    "h": It("PosTIter", True, PGEN, "", "<%s as PosT>::iter()" % PTY, PTY, P2),
    "v": It("PosTIter", True, PGEN, "", "<%s as PosT>::iter_vertical()" % PTY, PTY, P2),
    "b": It("BoundedIntIterator", True, "const MIN: i8, const MAX: i8", "", "<BoundedI8<MIN, MAX> as BoundedInt>::iter()", "BoundedI8<MIN, MAX>",
            [{"MIN": 0, "MAX": 0}, {"MIN": -2, "MAX": 1}, {"MIN": 126, "MAX": 127}, {"MIN": -128, "MAX": -127}]),
}
RANGES = {
    "range": It("PosTIterRange", False, PGEN, "p: %s, q: %s" % (PTY, PTY), "<%s as PosT>::iter_range(p, q)" % PTY, PTY, P2),
    "x": It("PosTIterInX", False, PGEN, "x: BoundedU16<0, XMAX>", "<%s as PosT>::iter_in_x(x)" % PTY, PTY, P2),
    "y": It("PosTIterInY", False, PGEN, "y: BoundedU16<0, YMAX>", "<%s as PosT>::iter_in_y(y)" % PTY, PTY, P2),
}
DIRS_ = {"d": It("DirIter", False, "const D: bool", "", "Dir::iter::<D>()", "Dir", [{"D": True}, {"D": False}])}

NINE = "(%s)" % ", ".join(["Option<T>"] * 9)
GIVE = "(%s)" % ", ".join("s[%d]" % i for i in range(9))

# method -> (two ends needed, result type, expression on a, the same on b by next and next_back)
WHOLE = {
    "last": ("Option<T>", "a.last()", "{ let mut l = None; while let Some(x) = b.next() { l = Some(x); } l }"),
    "count": ("usize", "a.count()", "{ let mut n = 0usize; while b.next().is_some() { n += 1; } n }"),
    "fold": (NINE, "{ let s = a.fold(([None; 9], 0usize), |mut s, x| { if s.1 < 9 { s.0[s.1] = Some(x); } s.1 += 1; s }).0; %s }" % GIVE,
             "{ let mut s = [None; 9]; let mut n = 0usize; while let Some(x) = b.next() { if n < 9 { s[n] = Some(x); } n += 1; } %s }" % GIVE),
    "for_each": (NINE, "{ let mut s = [None; 9]; let mut n = 0usize; a.for_each(|x| { if n < 9 { s[n] = Some(x); } n += 1; }); %s }" % GIVE,
                 "{ let mut s = [None; 9]; let mut n = 0usize; while let Some(x) = b.next() { if n < 9 { s[n] = Some(x); } n += 1; } %s }" % GIVE),
    "min": ("Option<T>", "a.min()", "{ let mut m: Option<T> = None; while let Some(x) = b.next() { m = Some(match m { Some(y) if y <= x => y, _ => x }); } m }"),
    "max": ("Option<T>", "a.max()", "{ let mut m: Option<T> = None; while let Some(x) = b.next() { m = Some(match m { Some(y) if y > x => y, _ => x }); } m }"),
    "rfold": (NINE, "{ let s = a.rfold(([None; 9], 0usize), |mut s, x| { if s.1 < 9 { s.0[s.1] = Some(x); } s.1 += 1; s }).0; %s }" % GIVE,
              "{ let mut s = [None; 9]; let mut n = 0usize; while let Some(x) = b.next_back() { if n < 9 { s[n] = Some(x); } n += 1; } %s }" % GIVE),
}
TAKEN = (0, 1, 2, 7)


def harness(its):
    h = []
    for k, i in its.items():
        for back in ("", "_back") if i.two else ("",):
            for taken in (0, 1):
                for n in (0, 1, 2):
                    one = "b.next%s()" % back
                    h.append("pub fn over_%s_nth%s_%d%d<%s>(%s) -> (Option<T>, Option<T>, Option<T>, Option<T>) { let mut a = %s; let mut b = %s; %s let x = a.nth%s(%d); let y = { %s }; (x, a.next(), y, b.next()) }".replace("Option<T>", "Option<%s>" % i.item) % (
                        k, back, taken, n, i.g, i.args, i.expr, i.expr, "a.next(); b.next(); " * taken, back, n, "; ".join([one] * (n + 1))))
        for m, (t, x, y) in WHOLE.items():
            if m == "rfold" and not i.two:
                continue
            for taken in TAKEN:
                h.append("pub fn over_%s_%s_%d<%s>(%s) -> (R, R) { let mut a = %s; let mut b = %s; %s (%s, %s) }".replace("R", t).replace("Option<T>", "Option<%s>" % i.item) % (
                    k, m, taken, i.g, i.args, i.expr, i.expr, "a.next(); b.next(); " * taken, x.replace("Option<T>", "Option<%s>" % i.item), y.replace("Option<T>", "Option<%s>" % i.item)))
    return "\n" + "\n".join(h)


def check(c, pr, its):
    own = {}

    def pre(I, a):
        # rectangles whose corners are swapped are not specified
        return [le(x, y) for x, y in zip(leaves(a[0]), leaves(a[1]))] if len(a) == 2 else []
    for b in pr.bodies.values():
        m = None if b.error else OVER.match(b.path)
        if m and m.group(2) not in PLAIN:
            own.setdefault(m.group(1), set()).add(m.group(2))
    for k, i in its.items():
        for m in sorted(own.get(i.ty, ())):
            name = "%s of %s" % (m, i.ty)
            if m in ("nth", "nth_back"):
                for taken in (0, 1):
                    for n in (0, 1, 2):
                        r = "over_%s_%s_%d%d" % (k, m, taken, n)
                        c.cases(pr, r, lambda I, a, o: [([], Agg(o.v.ty, 0, [o.v.f[2], o.v.f[3], o.v.f[2], o.v.f[3]]) if o.kind == "ret" else Any)], name=name, pre=pre)
            elif m in WHOLE:
                for cv in i.cvals:
                    for taken in TAKEN:
                        r = "over_%s_%s_%d" % (k, m, taken)
                        c.cases(pr, r, lambda I, a, o: [([], Agg(o.v.ty, 0, [o.v.f[1], o.v.f[1]]) if o.kind == "ret" else Any)], cvals=cv, name=name, delay=20, pre=pre)
            else:
                c.add(name, "open", "not compared with taking the items one by one")
