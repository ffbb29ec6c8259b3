"""C27: a printed grid shows its cells line by line, in reading order, each padded by the formatter's own options, with the numbers
of the columns above and below and the number of each line before it. Decided by abstract interpretation of the printing of small
grids whose cells are unknowns and of a formatter with unknown options: the pieces that are written, in order, and the way each of
them is written (as it is, or padded by the formatter)."""

import re

from .common import *
from .seq import seqs
from .text import options
from ..interp import Event, Outcome, StrV, term

F = "f: &mut std::fmt::Formatter<'_>"
MARK = 0xF0000      # characters that stand for the text of an unknown cell


def codes(I):
    if not hasattr(I, "marks"):
        I.marks = {}
    return I.marks


def mark(I, v):
    m = codes(I)
    t = term(v)
    if t not in m:
        m[t] = chr(MARK + len(m))
    return m[t]


def plainly(s):
    return all(ord(x) < MARK for x in s)


def valueof(I, st, v):
    while isinstance(v, Ref) and not v.fat:
        v = I.resolve(st, I.read(st, v.root, v.path))
    return v


def text(I, st, v, ty):
    """The text of a value of the given type, and its kind: text (left aligned, padded by pad), number, or cell (text of its own)"""
    while ty.k == "ref":
        ty = ty.to()
    v = valueof(I, st, v)
    if isinstance(v, StrV):
        return "text", v.s
    if ty.k == "int" and isinstance(v, Poly):
        n = st.facts.norm(v).const()
        return None if n is None else ("number", str(n))
    if ty.k == "char" and isinstance(v, Poly):
        n = st.facts.norm(v).const()
        return None if n is None else ("text", chr(n))
    if ty.k == "param":
        return "cell", mark(I, v)
    return None


def padded(s, kind, opt):
    """A text under explicit options; None: not known"""
    if opt is None:
        return s
    if opt.get("precision") is not None or opt.get("flags"):
        return None
    w = opt.get("width")
    if w is None:
        return s
    if not plainly(s) or kind == "cell":
        return None
    fill, align = opt["fill"], opt["align"] or (">" if kind == "number" else "<")
    n = max(0, w - len(s))
    left = n if align == ">" else n // 2 if align == "^" else 0
    return fill * left + s + fill * (n - left)


def build(I, st, tpl, args):
    """The pieces of a template with its arguments: [text]"""
    out = []
    i = 0
    for p in tpl:
        if isinstance(p, str):
            out.append(p)
            continue
        k = p.get("arg", i)
        i = k + 1
        a = args[k] if k < len(args) else None
        if not (isinstance(a, Model) and a.k == "farg") or a.f[0] != "display":
            return None
        opt = dict(p)
        if p.get("dynwidth"):
            w = args[p["width"]] if p["width"] < len(args) else None
            if not (isinstance(w, Model) and w.k == "fcount"):
                return None
            opt["width"] = st.facts.norm(w.f[0]).const()
            if opt["width"] is None:
                return None
        s = padded(a.f[2], a.f[1], opt)
        if s is None:
            return None
        out.append(s)
    return out


STR = re.compile(r"^alloc::string::String::(new|with_capacity|push|push_str|as_str|len|is_empty|clear|reserve)$")
SAME = re.compile(r"^<alloc::string::String as (?:core::ops::deref::Deref|core::clone::Clone|core::borrow::Borrow<.*>|core::convert::AsRef<str>)>::\w+$"
                  r"|^<alloc::string::String as core::convert::From<&(?:'\w+ )?str>>::from$|^alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned$"
                  r"|^core::hint::must_use$|^<str as alloc::string::SpecToString>::spec_to_string$")
SHOW = re.compile(r"^(?:<.*(?:String|str|char|i\d+|u\d+|isize|usize|&.*T|T) as core::fmt::Display>::fmt|core::fmt::(?:num::imp|num)::<impl core::fmt::Display for \w+>::fmt)$")


def texts(I, st, call):
    """Override: strings whose text is known, and what is written to the formatter"""
    p = call.path
    a = call.args

    def ok():
        t = call.dty
        u = t.vfields(t.vindex("Ok"))[0]
        return Agg(t, t.vindex("Ok"), [Agg(u, 0, [])])

    def ret(v, s=None):
        return [Outcome("ret", s or st.copy(), v)]

    def wrote(kind, s):
        n = st.copy()
        n.events = n.events + (Event("out", (kind, s), call.at, call.fr.body.path),)
        return ret(ok(), n)

    def unknown():
        n = st.copy()
        n.events = n.events + (Event("out", ("?", p), call.at, call.fr.body.path),)
        return ret(ok(), n)

    m = re.match(r"^core::fmt::rt::Argument::<'_>::new_(\w+)$", p)
    if m:
        ty = call.atys[0]
        g = text(I, st, a[0], ty) if ty is not None else None
        return ret(Model("farg", (m.group(1), g[0], g[1]) if g else ("?", "?", "?"), call.dty))
    if p == "core::fmt::rt::Argument::<'_>::from_usize":
        return ret(Model("fcount", (valueof(I, st, a[0]),), call.dty))
    if p == "core::fmt::Arguments::<'a>::from_str":
        v = valueof(I, st, a[0])
        return ret(Model("fargs", (v.s,) if isinstance(v, StrV) else ("?",), call.dty)) if isinstance(v, StrV) else None
    if p == "core::fmt::Arguments::<'a>::new":
        tpl = options(a[0])
        r = a[1]
        v = I.read(st, r.root, r.path) if isinstance(r, Ref) else None
        args = [I.arr_read(st, v, P(i)) for i in range(v.len.const())] if isinstance(v, ArrV) and v.len.const() is not None else None
        out = build(I, st, tpl, args) if tpl is not None and args is not None else None
        return ret(Model("fargs", ("".join(out),) if out is not None else (), call.dty))
    if p == "alloc::fmt::format":
        v = a[0]
        return ret(StrV(v.f[0])) if isinstance(v, Model) and v.k == "fargs" and v.f else None
    if p.endswith("::write_fmt") and "Formatter" in p:
        v = a[1]
        return wrote("lit", v.f[0]) if isinstance(v, Model) and v.k == "fargs" and v.f else unknown()
    if p.endswith(("::write_str", "::pad", "::write_char")) and "Formatter" in p:
        v = valueof(I, st, a[1])
        if isinstance(v, Poly) and st.facts.norm(v).const() is not None:
            v = StrV(chr(st.facts.norm(v).const()))
        if not isinstance(v, StrV):
            return unknown()
        return wrote("pad" if p.endswith("::pad") else "lit", v.s)
    if call.callee.get("trait") == "core::fmt::Display" and call.callee["name"] == "fmt" and call.callee["res"] != "item":
        ty = call.atys[0]
        g = text(I, st, a[0], ty) if ty is not None else None
        if g is None:
            return unknown()
        return wrote({"text": "pad", "number": "num", "cell": "own"}[g[0]], g[1])
    m = re.match(r"^core::fmt::Formatter::<'\w+>::(width|precision|fill|align|alternate|sign_plus|sign_minus|sign_aware_zero_pad)$", p)
    if m:
        # an option of the formatter: not known, but always the same
        s = st.copy()
        v = I.fresh(call.dty, "formatter_" + m.group(1), s)
        return ret(v, s)
    if "core::fmt::Formatter" in p:
        return unknown() if any(v["name"] == "Ok" for v in call.dty.d.get("variants") or ()) else None
    if p == "<T as alloc::string::ToString>::to_string":
        g = text(I, st, a[0], call.atys[0]) if call.atys[0] is not None else None
        return ret(StrV(g[1])) if g else None
    if SAME.match(p):
        v = valueof(I, st, a[0])
        return ret(v) if isinstance(v, StrV) else None
    if p == "alloc::str::<impl str>::repeat":
        v, n = valueof(I, st, a[0]), st.facts.norm(a[1]).const()
        return ret(StrV(v.s * n)) if isinstance(v, StrV) and n is not None and n < 1000 else None
    m = STR.match(p)
    if m:
        op = m.group(1)
        if op in ("new", "with_capacity"):
            return ret(StrV(""))
        v = valueof(I, st, a[0])
        if not isinstance(v, StrV):
            return None
        if op == "as_str":
            return ret(v)
        if op in ("len", "is_empty"):
            if not plainly(v.s):
                return None
            return ret(P(len(v.s.encode())) if op == "len" else boolv(not v.s))
        if op == "reserve":
            return ret(I.unit(call.dty))
        x = ""
        if op == "push":
            n = st.facts.norm(a[1]).const()
            x = chr(n) if n is not None else None
        elif op == "push_str":
            w = valueof(I, st, a[1])
            x = w.s if isinstance(w, StrV) else None
        if x is None:
            return None
        s = st.copy()
        r = a[0]
        I.write(s, r.root, r.path, StrV("" if op == "clear" else v.s + x), call.at, call.fr.body.path)
        return ret(I.unit(call.dty), s)
    return None


def merge(ps):
    r = []
    for k, s in ps:
        if k == "lit" and not s:
            continue
        if k == "lit" and r and r[-1][0] == "lit":
            r[-1] = ("lit", r[-1][1] + s)
        else:
            r.append((k, s))
    return r


def required(w, h, cell):
    """What a grid has to print"""
    nx, ny = len(str(w - 1)), len(str(h - 1))
    head = []
    for d in range(nx):
        head.append(("lit", " " * ny + " "))
        head += [("pad", str(i).rjust(nx)[d]) for i in range(w)]
        head.append(("lit", "\n"))
    body = []
    for y in range(h):
        body.append(("lit", str(y).rjust(ny) + " "))
        body += [("pad", cell(x, y)) for x in range(w)]
        body.append(("lit", "\n"))
    return merge(head + body + head)


def show(ps):
    return "".join(s if k == "lit" else "{%s}" % s if k == "pad" else "<%s %s>" % (k, s) for k, s in ps).replace("\n", "/")


def joined(ps):
    return "".join(s for k, s in ps)


def readable(s):
    return "".join(x if ord(x) < MARK else "#%d" % (ord(x) - MARK) for x in s)


def check(c):
    H = """use sqrid::*;
pub fn grid<T: std::fmt::Display, const XMAX: u16, const YMAX: u16, const SIZE: usize>(g: &Grid<T, Pos<XMAX, YMAX>, SIZE>, [F]) -> std::fmt::Result { std::fmt::Display::fmt(g, f) }
pub fn bools<const N: usize, const XMAX: u16, const YMAX: u16, const WORDS: usize>(a: [bool; N], [F]) -> std::fmt::Result {
    let mut g = Gridbool::<Pos<XMAX, YMAX>, WORDS>::repeat(false);
    let mut i = 0;
    for p in Pos::<XMAX, YMAX>::iter() { g.set(&p, a[i]); i += 1; }
    std::fmt::Display::fmt(&g, f)
}
pub fn bool_repeat<const XMAX: u16, const YMAX: u16, const WORDS: usize>([F]) -> std::fmt::Result { std::fmt::Display::fmt(&Gridbool::<Pos<XMAX, YMAX>, WORDS>::repeat(false), f) }
""".replace("[F]", F)
    pr = c.load("c27", H)
    n = 0
    sizes = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (9, 1), (10, 1), (11, 1), (1, 9), (1, 10), (2, 11)]
    if c.tier == "thorough":
        sizes += [(12, 11), (101, 1), (1, 101)]
    for w, h in sizes:
        n += one(c, pr, "grid", w, h, w * h)
    for w, h in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)]:
        n += one(c, pr, "bools", w, h, 1)
    for w, h in [(11, 2), (2, 11)]:
        n += one(c, pr, "bool_repeat", w, h, 1)
    c.floor("printed grids", n, len(sizes) + 7)
    c.floor("printing operations", len(c.roots), 3)


def one(c, pr, root, w, h, size):
    where = "%s of %dx%d" % (root, w, h)
    cv = {"XMAX": w - 1, "YMAX": h - 1, "SIZE" if root == "grid" else "WORDS": size}
    if root == "bools":
        cv["N"] = w * h
    k = len(c.obs)
    res = c.run(pr, root, cvals=cv, delay=400, budget=400000, overrides=(texts, seqs), name=root, vecs=True)
    if res is None:
        c.obs[k] = (root, "open", where + ": " + c.obs[k][2])
        return 1
    I, outs = res
    for o in outs:
        if o.kind != "ret":
            if c.real(o.st) is None:
                c.add(root, "open", "%s: path ends by %s" % (where, o.kind))
            else:
                c.violation(root, "%s of a %dx%d grid panics: %s" % (root, w, h, o.msg))
            continue
        got = merge([e.a for e in o.st.events if e.k == "out"])
        v = I.resolve(o.st, o.v)
        fails = isinstance(v, Agg) and v.ty.vname(v.v) == "Err"
        if any(x[0] == "?" for x in got) or not isinstance(v, Agg):
            c.add(root, "open", "%s: what is written is not understood: %s" % (where, [x[1] for x in got if x[0] == "?"][:1]))
            return 1
        if root == "grid":
            g = deref(I, I.argvals[0])
            ps = arrays(I, g)
            a = g
            for _, i in ps[0]:
                a = a.f[i]
            want = required(w, h, lambda x, y: mark(I, I.arr_read(o.st, a, P(y * w + x))))
        elif root == "bools":
            bits = content(I, o.st, w * h)
            if bits is None:
                c.add(root, "open", "%s: a path for several contents" % where)
                continue
            want = required(w, h, lambda x, y: "#" if bits[y * w + x] else ".")
        else:
            want = required(w, h, lambda x, y: ".")
        if got == want and not fails:
            c.add(root, "proved", "%s: %d pieces" % (where, len(got)))
            continue
        if c.real(o.st) is None or "formatter_" in repr(o.st.facts.describe()) and joined(got) == joined(want) and not fails:
            c.add(root, "open", "%s: prints %s" % (where, show(got)[:200]))
            continue
        i = next((i for i, (p, q) in enumerate(zip(got + [None], want + [None])) if p != q), 0)
        gi = readable(show(got[i:i + 1])) if i < len(got) else "nothing"
        wi = readable(show(want[i:i + 1])) if i < len(want) else "nothing"
        c.violation(root, "%s of a %dx%d grid: %s" % (root, w, h, "returns an error that the formatter did not report" if got == want else
                    "writes %s where %s is required" % (gi, wi)))
    return 1


def content(I, st, n):
    """The values the boolean grid was filled with on a path"""
    r = []
    for i in range(n):
        v = I.arr_read(st, I.argvals[0], P(i))
        yes, no = st.copy(), st.copy()
        a, b = I.assume(yes.facts, v), I.assume(no.facts, v.neg())
        if a and b:
            return None
        r.append(a)
    return r
