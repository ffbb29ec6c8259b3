"""C29: failures are reported as the error that names their cause, and each error prints its own fixed text. Decided by abstract
interpretation: the set of errors each fallible operation can return over all its inputs, for all sizes, and what every error
writes to a formatter."""

from .common import *
from .text import pieces

XY = "const XMAX: u16, const YMAX: u16"
TYPES = [("BoundedU8", "u8"), ("BoundedU16", "u16"), ("BoundedU32", "u32"), ("BoundedU64", "u64"), ("BoundedI8", "i8"), ("BoundedI16", "i16"),
         ("BoundedI32", "i32"), ("BoundedI64", "i64"), ("BoundedIsize", "isize"), ("BoundedU128", "u128"), ("BoundedI128", "i128")]
FEW = """
pub struct Few<T, const N: usize>(core::array::IntoIter<T, N>);
impl<T, const N: usize> Iterator for Few<T, N> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }
"""


def operations():
    """[(root, errors it may return, harness text)]"""
    out = []
    for b, t in TYPES:
        g = "const MIN: %s, const MAX: %s" % (t, t)
        out.append(("new_" + b, "OutOfBounds", "pub fn new_%s<%s>(v: %s) -> Result<%s<MIN, MAX>, Error> { %s::new(v) }" % (b, g, t, b, b)))
        for s in ("usize", "i8", "u128", "i128"):
            out.append(("from_%s_%s" % (s, b), "OutOfBounds", "pub fn from_%s_%s<%s>(v: %s) -> Result<%s<MIN, MAX>, Error> { %s::try_from(v) }" % (s, b, g, s, b, b)))
    r = "Result<Pos<XMAX, YMAX>, Error>"
    for t in ("u16", "i32"):
        out.append(("pos_" + t, "OutOfBounds", "pub fn pos_%s<%s>(x: %s, y: %s) -> %s { Pos::try_from((x, y)) }" % (t, XY, t, t, r)))
    out += [("pos_new", "OutOfBounds", "pub fn pos_new<%s>(x: u16, y: u16) -> %s { Pos::new(x, y) }" % (XY, r)),
            ("pos_tnew", "OutOfBounds", "pub fn pos_tnew<%s>(x: u16, y: u16) -> %s { <Pos<XMAX, YMAX> as PosT>::new(x, y) }" % (XY, r)),
            ("tuple_tnew", "OutOfBounds", "pub fn tuple_tnew(x: u16, y: u16) -> Result<(u8, u8), Error> { <(u8, u8) as PosT>::new(x, y) }"),
            ("move_pos", "OutOfBounds", "pub fn move_pos<%s>(p: Pos<XMAX, YMAX>, d: Dir) -> %s { p + d }" % (XY, r)),
            ("move_tuple", "OutOfBounds", "pub fn move_tuple(p: (i16, i16), d: Dir) -> Result<(i16, i16), Error> { p + d }"),
            ("dir_tuple", "InvalidDirection", "pub fn dir_tuple(a: (i8, i8)) -> Result<Dir, Error> { Dir::try_from(&a) }"),
            ("dir_char", "DirParseError", "pub fn dir_char(c: char) -> Result<Dir, Error> { Dir::try_from(c) }"),
            ("dir_str", "DirParseError", "pub fn dir_str(s: &str) -> Result<Dir, Error> { <Dir as std::str::FromStr>::from_str(s) }"),
            ("box0", "Empty", "pub fn box0<%s>() -> Result<(Pos<XMAX, YMAX>, Pos<XMAX, YMAX>), Error> { <Pos<XMAX, YMAX> as PosT>::tlbr_of(Few([].into_iter())) }" % XY),
            ("grid_vec", "OutOfBounds", "pub fn grid_vec<T: Default + Copy, %s, const SIZE: usize>(v: Vec<Vec<T>>) -> Result<Grid<T, Pos<XMAX, YMAX>, SIZE>, Error> { Grid::try_from(v) }" % XY)]
    return out


def check(c):
    ops = operations()
    disp = "pub fn disp(e: &Error, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(e, f) }\n"
    pr = c.load("c29", "use sqrid::*;\n" + FEW + disp + "\n".join(t for _, _, t in ops))
    R = Rust(pr)
    et = R.arg_ty("disp", 0).to()
    for name, want, _ in ops:
        seen = set()

        def spec(I, a, o, name=name, want=want, seen=seen):
            if o.kind != "ret":
                return [([], Any)]
            v = I.resolve(o.st, o.v)
            if isinstance(v, Opq):
                raise Undetermined("result %r" % (v,))
            if v.ty.vname(v.v) == "Ok":
                seen.add("Ok")
                return [([], Any)]
            e = v.f[0]
            if isinstance(e, Agg):
                seen.add(e.ty.vname(e.v))
            return [([], Agg(v.ty, v.v, [Agg(et, et.vindex(want), [])]))]
        kw = {"vecs": True} if name == "grid_vec" else {}
        c.cases(pr, name, spec, **kw)
    # texts
    res = c.run(pr, "disp")
    texts = {}
    if res:
        I, outs = res
        for o in outs:
            k = [o.st.facts.variants[t] for t in o.st.facts.variants if t == ("*", "e")]
            p = pieces(o.st) if o.kind == "ret" else None
            if len(k) != 1 or p is None:
                c.add("disp", "open", "not understood how %s is printed" % (k,))
                continue
            n = et.vname(k[0])
            if any(x[0] != "lit" for x in p):
                c.add("text " + n, "open", "prints more than fixed text")
                continue
            s = "".join(x[1] for x in p)
            if n in texts and texts[n] != s:
                c.violation("text " + n, "%s prints both %r and %r" % (n, texts[n], s))
            texts[n] = s
        for n in sorted(texts):
            same = [m for m in texts if m != n and texts[m] == texts[n]]
            if not texts[n].strip():
                c.violation("text " + n, "%s prints nothing" % n)
            elif same:
                c.violation("text " + n, "%s prints %r like %s" % (n, texts[n], same[0]))
            else:
                c.add("text " + n, "proved", repr(texts[n]))
    c.floor("fallible operations", len(c.roots), 65)
