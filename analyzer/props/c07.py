"""C07: the textual and numeric forms of directions are consistent: each direction maps to its unit vector for every integer
type, exactly the eight unit vectors and exactly the documented characters convert back (to that same direction), every other
vector, character or string is rejected, and all name tables agree. Decided by abstract interpretation over all variants,
with the vector, the character and the string as unknowns."""

from .common import *
from ..spec import StrV

SIGNED = ["isize", "i8", "i16", "i32", "i64", "i128"]
CARD = DIRS
UTF8 = "\u2191\u2197\u2192\u2198\u2193\u2199\u2190\u2196"
ASCII = "^7>\\vL<`"
PARSE = {}
for i, ch in enumerate(UTF8):
    PARSE[ch] = i
for i, ch in enumerate(ASCII):
    PARSE[ch] = i
for ch, i in (("N", 0), ("E", 2), ("S", 4), ("W", 6)):
    PARSE[ch] = i
    PARSE[ch.lower()] = i


def harness():
    h = ["""
use sqrid::*;
pub fn card(d: Dir) -> &'static str { d.name_cardinal() }
pub fn utf8(d: Dir) -> &'static str { d.name_utf8() }
pub fn utf8c(d: Dir) -> char { d.name_utf8_char() }
pub fn ascii(d: Dir) -> &'static str { d.name_ascii() }
pub fn asciic(d: Dir) -> char { d.name_ascii_char() }
pub fn t_card(d: Dir) -> &'static str { Dir::NAMES_CARDINAL[d as usize] }
pub fn t_utf8(d: Dir) -> &'static str { Dir::NAMES_UTF8[d as usize] }
pub fn t_utf8c(d: Dir) -> char { Dir::NAMES_UTF8_CHAR[d as usize] }
pub fn t_ascii(d: Dir) -> &'static str { Dir::NAMES_ASCII[d as usize] }
pub fn t_asciic(d: Dir) -> char { Dir::NAMES_ASCII_CHAR[d as usize] }
pub fn fromchar(c: char) -> Result<Dir, Error> { Dir::try_from(c) }
pub fn fromstr(s: &str) -> Result<Dir, Error> { <Dir as core::str::FromStr>::from_str(s) }
pub fn rt_utf8(d: Dir) -> Result<Dir, Error> { Dir::try_from(d.name_utf8_char()) }
pub fn rt_ascii(d: Dir) -> Result<Dir, Error> { Dir::try_from(d.name_ascii_char()) }
pub fn rts_utf8(d: Dir) -> Result<Dir, Error> { <Dir as core::str::FromStr>::from_str(d.name_utf8()) }
pub fn rts_ascii(d: Dir) -> Result<Dir, Error> { <Dir as core::str::FromStr>::from_str(d.name_ascii()) }
pub fn rts_card(d: Dir) -> Result<Dir, Error> { <Dir as core::str::FromStr>::from_str(d.name_cardinal()) }
"""]
    for t in SIGNED:
        h.append("""
pub fn T_to(d: Dir) -> (T, T) { d.into() }
pub fn T_from(x: T, y: T) -> Result<Dir, Error> { Dir::try_from((x, y)) }
pub fn T_fromr(x: T, y: T) -> Result<Dir, Error> { Dir::try_from(&(x, y)) }
pub fn T_rt(d: Dir) -> Result<Dir, Error> { Dir::try_from(<(T, T)>::from(d)) }
""".replace("T_", t + "_").replace("T,", t + ",").replace(" T)", " %s)" % t))
    return "\n".join(h)


EXTRA = "\0 \t\n\r.+-_01279aAxXlL'\"/\u007f\u0080\u00a0\u00b4\u2190\u2196\u2198\u219a\u21d1\u2028\ufeff\ufe0f\U0010ffff"


def texts(c, pr, R, D):
    """Strings that are known: no character, one, two and three, around those that are accepted"""
    words = ["", "north", "North", "NORTH", "up", "NE", "ne", "Ne", "NW", "SE", "sw", "North-East", "N/E", "0", "7 ", "\u2191\ufe0f", "\ufeffN", "NN", "NS", "^^", "`'", "\\\\"]
    for p in PARSE:
        words.append(p)
        words += [p + x for x in EXTRA] + [x + p for x in EXTRA] + [" " + p + " ", "\0" + p + "\0", "\"%s\"" % p]
    words += list(EXTRA)
    k = len(c.obs)
    for w in words:
        if not enough(c, k):
            break
        c.cases(pr, "fromstr", lambda I, a: [([], R.ok("fromstr", D(PARSE[w])) if w in PARSE else R.err("fromstr", "DirParseError"))],
                args={"s": lambda I, st, ty: StrV(w)}, name="fromstr of known text")
    squeeze(c, k, "known strings", len(words))
    if all(v == "proved" for n, v, _ in c.obs if n == "fromchar"):
        return
    k = len(c.obs)
    codes = list(range(0, 0x180)) + list(range(0x2180, 0x2230)) + [0x3bd, 0x435, 0x2c7, 0x2c4, 0x2c6, 0xff2e, 0xff3e, 0xff1e, 0xff37, 0x10000 + 78, 0x10ffff] + [0x100 * i + 78 for i in range(2, 9)]
    for x in codes:
        if not enough(c, k):
            break
        c.cases(pr, "fromchar", lambda I, a: [([], R.ok("fromchar", D(PARSE[chr(x)])) if chr(x) in PARSE else R.err("fromchar", "DirParseError"))],
                args={"c": lambda I, st, ty: P(x)}, name="fromchar of a known character")
    squeeze(c, k, "known characters", len(codes))


def enough(c, k):
    """Go on? Not after a few that are not decided"""
    return sum(v != "proved" for _, v, _ in c.obs[k:]) < 6


def squeeze(c, k, name, n):
    """One line for those that are proved"""
    rest = [x for x in c.obs[k:] if x[1] != "proved"]
    del c.obs[k:]
    c.obs += rest
    if not rest:
        c.add(name, "proved", "%d of them" % n)


def check(c):
    pr = c.load("c07", harness())
    R = Rust(pr)
    dty = R.okty("fromchar")

    def D(i):
        return enumv(dty, DIRS[i])
    for p in ("", "t_"):
        c.cases(pr, p + "card", lambda I, a: [([k], StrV(CARD[i])) for i, k in dirs(a[0])])
        c.cases(pr, p + "utf8", lambda I, a: [([k], StrV(UTF8[i])) for i, k in dirs(a[0])])
        c.cases(pr, p + "ascii", lambda I, a: [([k], StrV(ASCII[i])) for i, k in dirs(a[0])])
        c.cases(pr, p + "utf8c", lambda I, a: [([k], P(ord(UTF8[i]))) for i, k in dirs(a[0])])
        c.cases(pr, p + "asciic", lambda I, a: [([k], P(ord(ASCII[i]))) for i, k in dirs(a[0])])

    def none_of(x, vals):
        return lambda f: all(f.add_ne(x - v) for v in vals)

    def chars(I, a, o):
        x = a[0]
        r = [([eq(x, ord(ch))], R.ok("fromchar", D(i))) for ch, i in PARSE.items()]
        return r + [([none_of(x, [ord(ch) for ch in PARSE])], R.err("fromchar", "DirParseError"))]
    c.cases(pr, "fromchar", chars)

    def strs(I, a, o):
        from ..expr import app
        s = ("*", a[0].term)
        n = P(app("uf", (("nchars", s),), 0, (1 << 63) - 1))
        ch = P(app("uf", (("char", s, P(0)),), 0, 0x10FFFF))
        err = R.err("fromstr", "DirParseError")
        r = [([eq(n, 0)], err), ([lt(1, n)], err)]
        r += [([eq(n, 1), eq(ch, ord(k))], R.ok("fromstr", D(i))) for k, i in PARSE.items()]
        return r + [([eq(n, 1), none_of(ch, [ord(k) for k in PARSE])], err)]
    k, j = len(c.obs), len(c.viol)
    c.cases(pr, "fromstr", strs)
    # the number of bytes and of characters of an unknown string are not related: known strings decide
    blurred = lambda d: "nbytes" in d or "op(" in d
    c.obs[k:] = [(n, "open", d) if v == "violated" and blurred(d) else (n, v, d) for n, v, d in c.obs[k:]]
    c.viol[j:] = [x for x in c.viol[j:] if not blurred(x[1])]
    texts(c, pr, R, D)
    for r in ("rt_utf8", "rt_ascii", "rts_utf8", "rts_ascii"):
        c.cases(pr, r, lambda I, a: [([k], R.ok(r, D(i))) for i, k in dirs(a[0])])
    # two-letter names are not single characters
    c.cases(pr, "rts_card", lambda I, a: [([k], R.ok("rts_card", D(i)) if i % 2 == 0 else R.err("rts_card", "DirParseError")) for i, k in dirs(a[0])])
    for t in SIGNED:
        T = t + "_"
        c.cases(pr, T + "to", lambda I, a: [([k], R.val(T + "to", [P(DELTA[i][0]), P(DELTA[i][1])])) for i, k in dirs(a[0])])
        c.cases(pr, T + "rt", lambda I, a: [([k], R.ok(T + "rt", D(i))) for i, k in dirs(a[0])])
        for r in ("from", "fromr"):
            def spec(I, a):
                x, y = a
                r0 = [([eq(x, dx), eq(y, dy)], R.ok(T + r, D(i))) for i, (dx, dy) in enumerate(DELTA)]
                e = R.err(T + r, "InvalidDirection")
                return r0 + [([lt(x, -1)], e), ([lt(1, x)], e), ([lt(y, -1)], e), ([lt(1, y)], e), ([eq(x, 0), eq(y, 0)], e)]
            c.cases(pr, T + r, spec)
    c.floor("conversions of directions", len(c.roots), 41)
