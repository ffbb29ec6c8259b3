"""C28: operations on valid values never panic. Decided by abstract interpretation of every operation over all its inputs and all
grid sizes: no path reaches a panic, a failed assertion or an arithmetic operation that overflows."""

import re

from .common import *
from ..interp import Event, Outcome
from ..spec import point, rel
from .c24 import each, nested, seqs, shapes
from .perm import BOOLOP

XY = "const XMAX: u16, const YMAX: u16"
TYPES = [("BoundedU8", "u8"), ("BoundedU16", "u16"), ("BoundedU32", "u32"), ("BoundedU64", "u64"), ("BoundedI8", "i8"), ("BoundedI16", "i16"),
         ("BoundedI32", "i32"), ("BoundedI64", "i64"), ("BoundedIsize", "isize"), ("BoundedU128", "u128"), ("BoundedI128", "i128")]

# operations of every kind of position: (name, text with [P] the position, [A] its coordinate types, result)
ANY = """
tuple [P] (p: [P]) -> ([X], [Y]) { PosT::tuple(&p) }
into_tuple [P] (p: [P]) -> ([X], [Y]) { p.into_tuple() }
new_ [P] (x: [X], y: [Y]) -> [P] { <[P] as PosT>::new_((x, y)) }
first [P] () -> [P] { <[P]>::first() }
last [P] () -> [P] { <[P]>::last() }
is_corner [P] (p: [P]) -> bool { p.is_corner() }
is_side [P] (p: [P]) -> bool { p.is_side() }
inside [P] (p: [P], q: [P], r: [P]) -> bool { p.inside(&q, &r) }
next [P] (p: [P]) -> Option<[P]> { p.next() }
next_y [P] (p: [P]) -> Option<[P]> { p.next_y() }
prev [P] (p: [P]) -> Option<[P]> { p.prev() }
prev_y [P] (p: [P]) -> Option<[P]> { p.prev_y() }
move [P] (p: [P], d: Dir) -> Result<[P], Error> { p + d }
mover [P] (p: &[P], d: Dir) -> Result<[P], Error> { p + d }
iter [P] (i: &mut PosTIter<true, [P]>) -> Option<[P]> { i.next() }
iter_v [P] (i: &mut PosTIter<false, [P]>) -> Option<[P]> { i.next() }
iter_back [P] (i: &mut PosTIter<true, [P]>) -> Option<[P]> { i.next_back() }
iter_v_back [P] (i: &mut PosTIter<false, [P]>) -> Option<[P]> { i.next_back() }
iter_range [P] (i: &mut PosTIterRange<[P]>) -> Option<[P]> { i.next() }
range_new [P] (p: [P], q: [P]) -> PosTIterRange<[P]> { <[P]>::iter_range(p, q) }
iter_in_x [P] (i: &mut PosTIterInX<[P]>) -> Option<[P]> { i.next() }
iter_in_y [P] (i: &mut PosTIterInY<[P]>) -> Option<[P]> { i.next() }
in_x [P] (x: [X]) -> PosTIterInX<[P]> { <[P]>::iter_in_x(x) }
in_y [P] (y: [Y]) -> PosTIterInY<[P]> { <[P]>::iter_in_y(y) }
iter_new [P] () -> PosTIter<true, [P]> { <[P]>::iter() }
iter_x [P] () -> Option<[X]> { <[P]>::iter_x().next() }
iter_y [P] () -> Option<[Y]> { <[P]>::iter_y().next() }
new_i32 [P] (x: i32, y: i32) -> Result<[P], Error> { <[P] as PosT>::new(x, y) }
new_u128 [P] (x: u128, y: u128) -> Result<[P], Error> { <[P] as PosT>::new(x, y) }
tryfrom_i32 [P] (p: (i32, i32)) -> Result<[P], Error> { <[P]>::tryfrom_pos(p) }
tlbr2 [P] (p: [P], q: [P]) -> Result<([P], [P]), Error> { <[P]>::tlbr_of(Few([p, q].into_iter())) }
tlbr0 [P] () -> Result<([P], [P]), Error> { <[P]>::tlbr_of(Few([].into_iter())) }
eq [P] (p: [P], q: [P]) -> bool { p == q }
cmp [P] (p: [P], q: [P]) -> std::cmp::Ordering { p.cmp(&q) }
direction [P] (p: [P], q: [P]) -> Option<Dir> { direction_to::<[P], true>(&p, &q) }
"""
# coordinates that start at 0
NAT = """
flip_h [P] (p: [P]) -> [P] { p.flip_h() }
flip_v [P] (p: [P]) -> [P] { p.flip_v() }
"""
# and whose numbers are within usize
FIT = """
width [P] () -> usize { <[P]>::width() }
height [P] () -> usize { <[P]>::height() }
to_usize [P] (p: [P]) -> usize { p.to_usize() }
tryfrom_usize [P] (i: usize) -> Result<[P], Error> { <[P]>::tryfrom_usize(i) }
manhattan [P] (p: [P], q: [P]) -> usize { PosT::manhattan(&p, &q) }
"""
DIM = """
dimensions [P] () -> usize { <[P]>::dimensions() }
size_hint [P] (i: &PosTIter<true, [P]>) -> (usize, Option<usize>) { i.size_hint() }
size_hint_range [P] (i: &PosTIterRange<[P]>) -> (usize, Option<usize>) { i.size_hint() }
size_hint_x [P] (i: &PosTIterInX<[P]>) -> (usize, Option<usize>) { i.size_hint() }
size_hint_y [P] (i: &PosTIterInY<[P]>) -> (usize, Option<usize>) { i.size_hint() }
"""
SQUARE = """
rotate_cw [P] (p: [P]) -> [P] { p.rotate_cw() }
rotate_cc [P] (p: [P]) -> [P] { p.rotate_cc() }
"""
POS = """
x (p: [P]) -> u16 { p.x() }
y (p: [P]) -> u16 { p.y() }
ptuple (p: [P]) -> (u16, u16) { p.tuple() }
new (x: u16, y: u16) -> Result<[P], Error> { Pos::new(x, y) }
from_b (x: BoundedU16<0, XMAX>, y: BoundedU16<0, YMAX>) -> [P] { Pos::from((x, y)) }
from_br (x: &(BoundedU16<0, XMAX>, BoundedU16<0, YMAX>)) -> [P] { Pos::from(x) }
from_u16 (x: (u16, u16)) -> Result<[P], Error> { Pos::try_from(x) }
from_u16r (x: &(u16, u16)) -> Result<[P], Error> { Pos::try_from(x) }
from_i32 (x: (i32, i32)) -> Result<[P], Error> { Pos::try_from(x) }
from_i32r (x: &(i32, i32)) -> Result<[P], Error> { Pos::try_from(x) }
from_usize (i: usize) -> Result<[P], Error> { Pos::try_from(i) }
to_u16 (p: [P]) -> (u16, u16) { p.into() }
to_u16r (p: &[P]) -> (u16, u16) { p.into() }
to_i32 (p: [P]) -> (i32, i32) { p.into() }
to_i32r (p: &[P]) -> (i32, i32) { p.into() }
into_usize (p: [P]) -> usize { p.into() }
into_usizer (p: &[P]) -> usize { p.into() }
default () -> [P] { Pos::default() }
consts () -> [[P]; 8] { [<[P]>::FIRST, <[P]>::LAST, <[P]>::TOP_LEFT, <[P]>::TOP_RIGHT, <[P]>::BOTTOM_LEFT, <[P]>::BOTTOM_RIGHT, <[P]>::CENTER, <[P]>::FIRST] }
add_fn (p: [P], d: Dir) -> Option<[P]> { pos_dir_add(p, d).ok() }
add_ok (p: [P], d: Dir) -> Option<[P]> { pos_dir_add_ok(p, d) }
"""
DIR = """
flip (d: Dir) -> Dir { d.flip() }
neg (d: Dir) -> Dir { -d }
rotate (d: Dir, e: Dir) -> Dir { d.rotate(&e) }
dadd (d: Dir, e: Dir) -> Dir { d + e }
dadd_assign (d: &mut Dir, e: Dir) { *d += e; }
is_diagonal (d: Dir) -> bool { d.is_diagonal() }
names (d: Dir) -> (&'static str, &'static str, char, &'static str, char) { (d.name_cardinal(), d.name_utf8(), d.name_utf8_char(), d.name_ascii(), d.name_ascii_char()) }
dnext_t (d: Dir) -> Option<Dir> { d.next::<true>() }
dnext_f (d: Dir) -> Option<Dir> { d.next::<false>() }
diter_t (i: &mut DirIter<true>) -> Option<Dir> { i.next() }
diter_f (i: &mut DirIter<false>) -> Option<Dir> { i.next() }
diter_th (i: &DirIter<true>) -> (usize, Option<usize>) { i.size_hint() }
diter_fh (i: &DirIter<false>) -> (usize, Option<usize>) { i.size_hint() }
char (c: char) -> Result<Dir, Error> { Dir::try_from(c) }
str (s: &str) -> Result<Dir, Error> { <Dir as std::str::FromStr>::from_str(s) }
ddefault () -> Dir { Dir::default() }
"""
GRID = """
get <GG> (g: &[G], p: [P]) -> &T { g.get(&p) }
get_mut <GG> (g: &mut [G], p: [P]) -> &mut T { g.get_mut(&p) }
index <GG> (g: &[G], p: [P]) -> &T { &g[p] }
indexr <GG> (g: &[G], p: [P]) -> &T { &g[&p] }
index_mut <GG> (g: &mut [G], p: [P]) -> &mut T { &mut g[p] }
index_mutr <GG> (g: &mut [G], p: [P]) -> &mut T { &mut g[&p] }
line <GG> (g: &[G], y: BoundedU16<0, YMAX>) -> &[T] { g.line(y) }
line_mut <GG> (g: &mut [G], y: BoundedU16<0, YMAX>) -> &mut [T] { g.line_mut(y) }
giter <GG> (g: &[G]) -> std::slice::Iter<'_, T> { g.iter() }
giter_mut <GG> (g: &mut [G]) -> std::slice::IterMut<'_, T> { g.iter_mut() }
ginto <GG> (g: [G]) -> std::array::IntoIter<T, SIZE> { g.into_iter() }
ginner <GG> (g: [G]) -> [T; SIZE] { g.into_inner() }
garr <GG> (g: &[G]) -> &[T; SIZE] { g.as_array() }
garrm <GG> (g: &mut [G]) -> &mut [T; SIZE] { g.as_array_mut() }
giter_pos <GG> (g: &[G]) -> Option<([P], &T)> { g.iter_pos().next() }
gflip_h <GG> (g: &mut [G]) { g.flip_h() }
gflip_v <GG> (g: &mut [G]) { g.flip_v() }
gdefault <GD> () -> [G] { Default::default() }
grepeat <GD> (v: T) -> [G] { Grid::repeat(v) }
gvec <GD> (v: Vec<Vec<T>>) -> Result<[G], Error> { Grid::try_from(v) }
gext <GD> (g: &mut [G], v: Vec<Vec<T>>) -> Result<(), Error> { g.extend_from_vecvec(v) }
gextp <GD> (g: &mut [G], i: Many<FP>) { g.extend(i) }
geq <GE> (g: &[G], h: &[G]) -> bool { g == h }
bget <BG> (g: &[B], p: [P]) -> bool { g.get(&p) }
bset <BG> (g: &mut [B], p: [P], v: bool) { g.set(&p, v) }
gext_r <GC> (g: &mut [G], i: Many<FR>) { g.extend(i) }
gneg <GN> (g: [G]) -> [G] { -g }
mapget <GG> (g: &[G], p: [P]) -> &T { MapPos::<T, [P], WORDS, SIZE>::get(g, &p) }
mapset <GG> (g: &mut [G], p: [P], v: T) { MapPos::<T, [P], WORDS, SIZE>::set(g, p, v) }
sset <BG> (g: &mut [B], p: [P], v: bool) { SetPos::<[P], WORDS, 0>::set(g, p, v) }
scontains <BG> (g: &[B], p: [P]) -> bool { SetPos::<[P], WORDS, 0>::contains(g, &p) }
sinsert <BG> (g: &mut [B], p: [P]) { SetPos::<[P], WORDS, 0>::insert(g, p) }
sremove <BG> (g: &mut [B], p: [P]) { SetPos::<[P], WORDS, 0>::remove(g, &p) }
bset_t <BG> (g: &mut [B], p: [P]) { g.set_t(&p) }
bset_f <BG> (g: &mut [B], p: [P]) { g.set_f(&p) }
bindex <BG> (g: &[B], p: [P]) -> &bool { &g[p] }
bindexr <BG> (g: &[B], p: [P]) -> &bool { &g[&p] }
brepeat <BG> (v: bool) -> [B] { Gridbool::repeat(v) }
bdefault <BG> () -> [B] { Gridbool::default() }
binner <BG> (g: [B]) -> [u32; WORDS] { g.into_inner() }
binnr <BG> (g: &[B]) -> &[u32; WORDS] { g.as_inner() }
binnm <BG> (g: &mut [B]) -> &mut [u32; WORDS] { g.as_inner_mut() }
bflip_h <BG> (g: &mut [B]) { g.flip_h() }
bflip_v <BG> (g: &mut [B]) { g.flip_v() }
bset_iter_t <BF> (g: &mut [B], i: Many<FP>) { g.set_iter_t(i) }
bset_iter_f <BF> (g: &mut [B], i: Many<FP>) { g.set_iter_f(i) }
biter <BG> (g: &[B]) -> Option<bool> { g.iter().next() }
biter_pos <BG> (g: &[B]) -> Option<([P], bool)> { g.iter_pos().next() }
biter_t <BG> (g: &[B]) -> Option<[P]> { g.iter_t().next() }
biter_f <BG> (g: &[B]) -> Option<[P]> { g.iter_f().next() }
beq <BG> (g: &[B], h: &[B]) -> bool { g == h }
"""
SQGRID = """
grotate_cw (g: &mut Grid<T, Pos<W, W>, SIZE>) { g.rotate_cw() }
grotate_cc (g: &mut Grid<T, Pos<W, W>, SIZE>) { g.rotate_cc() }
"""
SQBOOL = """
brotate_cw (g: &mut Gridbool<Pos<W, W>, WORDS>) { g.rotate_cw() }
brotate_cc (g: &mut Gridbool<Pos<W, W>, WORDS>) { g.rotate_cc() }
"""
BOUNDED = """
new_[B] (v: [I]) -> Result<[B]<MIN, MAX>, Error> { [B]::new(v) }
inner_[B] (v: [B]<MIN, MAX>) -> [I] { BoundedInt::into_inner(v) }
innerf_[B] (v: [B]<MIN, MAX>) -> [I] { v.into_inner() }
asref_[B] (v: &[B]<MIN, MAX>) -> &[I] { BoundedInt::as_ref(v) }
add_[B] (v: [B]<MIN, MAX>, w: [B]<MIN, MAX>) -> Option<[B]<MIN, MAX>> { v.checked_add(w) }
sub_[B] (v: [B]<MIN, MAX>, w: [B]<MIN, MAX>) -> Option<[B]<MIN, MAX>> { v.checked_sub(w) }
inc_[B] (v: [B]<MIN, MAX>) -> Option<[B]<MIN, MAX>> { v.inc() }
dec_[B] (v: [B]<MIN, MAX>) -> Option<[B]<MIN, MAX>> { v.dec() }
default_[B] () -> [B]<MIN, MAX> { if MIN <= MAX { [B]::default() } else { loop {} } }
iter_[B] (i: &mut BoundedIntIterator<[B]<MIN, MAX>>) -> Option<[B]<MIN, MAX>> { i.next() }
iterb_[B] (i: &mut BoundedIntIterator<[B]<MIN, MAX>>) -> Option<[B]<MIN, MAX>> { i.next_back() }
tousize_[B] (v: [B]<MIN, MAX>) -> Result<usize, Error> { v.try_into() }
into_[B] (v: [B]<MIN, MAX>) -> [I] { v.into() }
"""
FROM = ["usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128"]


def parse(text, gen="", prefix=""):
    out = []
    for line in text.strip().splitlines():
        name, rest = line.split(" ", 1)
        g = gen
        if rest.startswith("<"):
            g, rest = rest.split("> ", 1)
            g = {"<GG": GG, "<GD": GG.replace("T,", "T: Default + Copy,", 1), "<GE": GG.replace("T,", "T: PartialEq,", 1), "<BG": BG, "<GN": GG.replace("T,", "T: Default + Copy + core::ops::Neg<Output = T>,", 1), "<GC": GG, "<BF": "FP: Iterator<Item = Pos<XMAX, YMAX>>, " + BG}[g]
            if name == "gext_r":
                g = "FR: Iterator<Item = (Pos<XMAX, YMAX>, &'static T)>, T: Copy + 'static, " + GG[3:]
                rest = rest.replace("FP", "FR")
            if name.startswith("map"):
                g = GG.replace("T,", "T: Copy,", 1) + ", const WORDS: usize"
            if name == "gextp":
                g = "FQ: Iterator<Item = (Pos<XMAX, YMAX>, T)>, " + g
                rest = rest.replace("FP", "FQ")
        elif rest.startswith("[P] "):
            rest = rest[4:]
        out.append((prefix + name, g, rest))
    return out


def operations():
    ops = []
    P_ = "Pos<XMAX, YMAX>"

    def add(text, gen, P, X, Y, prefix):
        for n, g, r in parse(text, gen, prefix):
            ops.append((n, g, r.replace("[P]", P).replace("[X]", X).replace("[Y]", Y)))
    for t in (ANY, NAT, FIT, DIM, POS):
        add(t, XY, P_, "BoundedU16<0, XMAX>", "BoundedU16<0, YMAX>", "p_")
    add(SQUARE, "const XMAX: u16", "Pos<XMAX, XMAX>", "", "", "p_")
    for t in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32"):
        T = "(%s, %s)" % (t, t)
        add(ANY, "", T, t, t, t + "_")
        if t[0] == "u":
            add(NAT, "", T, t, t, t + "_")
            add(SQUARE, "", T, t, t, t + "_")
        if t in ("u8", "u16", "u32"):
            add(FIT, "", T, t, t, t + "_")
        if t in ("u8", "u16"):
            add(DIM, "", T, t, t, t + "_")
    ops += parse(DIR)
    for n, g, r in parse(GRID):
        ops.append((n, g, expand(r)))
    ops += parse(SQGRID, "T, const W: u16, const SIZE: usize")
    ops += parse(SQBOOL, "const W: u16, const WORDS: usize")
    for b, t in TYPES:
        for n, g, r in parse(BOUNDED, "const MIN: %s, const MAX: %s" % (t, t)):
            ops.append((n.replace("[B]", b), g, r.replace("[B]", b).replace("[I]", t)))
        for f in FROM:
            ops.append(("from_%s_%s" % (f, b), "const MIN: %s, const MAX: %s" % (t, t), "(v: %s) -> Result<%s<MIN, MAX>, Error> { %s::try_from(v) }" % (f, b, b)))
    for t in ("i8", "i16", "i32", "i64", "i128", "isize"):
        ops.append(("dir_into_" + t, "", "(d: Dir) -> (%s, %s) { d.into() }" % (t, t)))
        ops.append(("dir_from_" + t, "", "(a: (%s, %s)) -> Result<Dir, Error> { Dir::try_from(a) }" % (t, t)))
        ops.append(("dir_fromr_" + t, "", "(a: &(%s, %s)) -> Result<Dir, Error> { Dir::try_from(a) }" % (t, t)))
    return ops


HEAD = """
use sqrid::*;
pub struct Few<T, const N: usize>(core::array::IntoIter<T, N>);
impl<T, const N: usize> Iterator for Few<T, N> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }
pub struct Many<F>(F);
impl<T, F: Iterator<Item = T>> Iterator for Many<F> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }
"""


# operations of whole boolean grids: a call of a single-cell accessor is a use of an operation whose own root is judged above
BULK = ("bflip_h", "bflip_v", "brotate_cw", "brotate_cc", "bset_iter_t", "bset_iter_f", "biter", "biter_pos", "biter_t", "biter_f")
VECS = ("gvec", "gext")
SMALL = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1)]
LOOPS = BULK + ("gflip_h", "gflip_v", "grotate_cw", "grotate_cc", "gext", "gextp", "gext_r")


def accessors(I, st, call):
    m = BOOLOP.search(call.path)
    if not m or "sqrid::" not in call.path or not call.args or not isinstance(call.args[0], Ref):
        return None
    st = st.copy()
    if m.group(1) == "get":
        n = sum(1 for e in st.events if e.k == "cell")
        v = I.fresh(call.dty, "cell%d" % n, st)
        st.events = st.events + (Event("cell", (v,), call.at, call.fr.body.path),)
        return [Outcome("ret", st, v)]
    return [Outcome("ret", st, I.unit(call.dty))]


# library operations that panic for some arguments and are not modelled
MAY = re.compile(r"::(index|index_mut|remove|swap_remove|insert|swap|split_at|split_at_mut|split_off|drain|truncate|copy_from_slice|clone_from_slice|chunks"
                 r"|chunks_exact|windows|rotate_left|rotate_right|unwrap|expect|step_by|from_digit|to_digit|borrow|borrow_mut|abs|pow|rem_euclid|div_euclid)$")
SAFE = re.compile(r"collections|hash|Set|Map")


def panics(c, pr, name, **kw):
    """[(outcome, input it happens for or None)], number of paths"""
    r = c.run(pr, name, **kw)
    if r is None:
        return None
    out = []
    for o in r[1]:
        for e in o.st.events:
            if e.k == "op" and MAY.search(e.a[0]) and not (SAFE.search(e.a[0]) and re.search("::(insert|remove)$", e.a[0])):
                out.append((Outcome("panic", o.st, None, "%s may panic" % e.a[0], e.at), None))
        # the counter of Enumerate overflows only after usize::MAX items, which no collection in memory has
        if o.kind == "panic" and "adapters/enumerate.rs" not in str(o.at):
            out.append((o, None if loops(o.st.events) else c.real(o.st)))
    return out, len(r[1])


def judge(c, pr, name):
    kw = {"overrides": [accessors]} if name in BULK else {}
    if name in VECS:
        kw = {"overrides": [seqs], "vecs": True}
    r = panics(c, pr, name, **kw)
    if r is None:
        return
    bad, n = r
    if not bad:
        return c.add(name, "proved", "%d paths" % n)
    if name in LOOPS and all(e is None for o, e in bad):
        # the generalised loop does not exclude it: is it real in the first iterations?
        r = panics(c, pr, name, delay=2, **kw)
        if r is not None:
            bad = [x for x in r[0] if x[1] is not None] or bad
    if name in VECS and all(e is None for o, e in bad):
        # is it real for small vectors?
        for X, Y in SMALL:
            for sh in shapes(X, Y, False):
                kw["overrides"] = [seqs, each]
                r = panics(c, pr, name, cvals={"XMAX": X, "YMAX": Y, "SIZE": (X + 1) * (Y + 1)}, args={"v": nested(sh)}, **kw)
                hits = [x for x in r[0] if x[1] is not None] if r is not None else []
                if hits:
                    o, env = hits[0]
                    return c.violation(name, "%s: panics (%s at %s) for XMAX=%d, YMAX=%d and lines of lengths %s" % (name, o.msg, rel(o.at), X, Y, sh))
    for o, env in bad:
        if env is None:
            c.add(name, "open", "a panic is not excluded: %s at %s" % (o.msg, rel(o.at)))
        else:
            c.violation(name, "%s: panics (%s at %s) for %s" % (name, o.msg, rel(o.at), point(env)))


def check(c):
    ops = operations()
    text = HEAD + "\n".join("pub fn %s%s%s" % (n, "<%s>" % g if g else "", r if r.startswith("(") else " " + r) for n, g, r in ops)
    pr = c.load("c28", text)
    for name, g, r in ops:
        judge(c, pr, name)
    c.floor("operations", len(c.roots), 600)
