"""C04: memory safety of grids. Every access without bounds check is inside of the storage, for every grid size, position and
element type; a grid whose declared storage does not fit its positions cannot be constructed by any public constructor; and
the library contains no other unsafe operation. Decided by abstract interpretation (index < length at every unchecked access
that is reachable from the entry points; size equation entailed by the compile-time constants each constructor requires), an
inventory of unsafe operations in the MIR of the whole crate, and compile-fail witnesses per constructor."""

from .common import *
from ..mir import Program

# library code the compiler generates inside safe macros
MACRO = ("core::fmt::Arguments", "core::fmt::rt::", "core::panicking::")

MAKERS = ["Pos::<XMAX, YMAX>::new(x, y)", "Pos::<XMAX, YMAX>::try_from((x, y))", "Pos::<XMAX, YMAX>::try_from((i32::from(x), i32::from(y)))",
          "Pos::<XMAX, YMAX>::try_from(&(x, y))", "Pos::<XMAX, YMAX>::tryfrom_usize(usize::from(x))", "Pos::<XMAX, YMAX>::tryfrom_pos((x, y))",
          "<Pos<XMAX, YMAX> as PosT>::new(i, j)", "Pos::<XMAX, YMAX>::try_from((i, j))", "Pos::<XMAX, YMAX>::tryfrom_usize(u)",
          "Pos::<XMAX, YMAX>::tryfrom_pos(Pos::<0xfffe, 0xfffe>::new_unwrap(x, y))"]
MOVERS = ["Ok::<_, ()>(p.flip_h())", "Ok::<_, ()>(p.flip_v())", "p.next().ok_or(())", "p.prev().ok_or(())", "(p + d)", "Ok::<_, ()>(Pos::<XMAX, YMAX>::first())",
          "Ok::<_, ()>(Pos::<XMAX, YMAX>::last())", "Ok::<_, ()>(Pos::<XMAX, YMAX>::CENTER)", "Ok::<_, ()>(Pos::<XMAX, YMAX>::default())", "Ok::<_, ()>(Pos::<XMAX, YMAX>::BOTTOM_RIGHT)",
          "<Pos<XMAX, YMAX>>::tlbr_of(Few([p, q].into_iter())).map(|x| x.1)"]
TUPLES = {"u8": 256 * 256, "u16": 65536 * 65536, "i8": 256 * 256, "i16": 65536 * 65536}
USED = {"u8": 256 * 256, "u16": 65536 * 65536, "i8": 128 * 128, "i16": 32768 * 32768}    # number of linear indices


def harness():
    h = ["use sqrid::*; use core::convert::TryFrom;",
         "pub struct Few<T, const N: usize>(core::array::IntoIter<T, N>);",
         "impl<T, const N: usize> Iterator for Few<T, N> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }",
         "pub struct Many<F>(F);",
         "impl<T, F: Iterator<Item = T>> Iterator for Many<F> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }"]
    for m in ("get(&p)", "get_mut(&p)"):
        n = m.split("(")[0]
        h.append("pub fn %s<GG>(g: &mut [G], p: [P]) -> &T { &*g.%s }" % (n, m))
        for t, z in TUPLES.items():
            h.append("pub fn %s_%s<T>(g: &mut Grid<T, (%s, %s), %d>, p: (%s, %s)) -> &T { &*g.%s }" % (n, t, t, t, z, t, t, m))
    h.append("pub fn index<GG>(g: &[G], p: [P]) -> &T { &g[p] }")
    h.append("pub fn index_mut<GG>(g: &mut [G], p: [P], v: T) { g[p] = v; }")
    h.append("pub fn line<GG>(g: &[G], y: BoundedU16<0, YMAX>) -> &[T] { g.line(y) }")
    h.append("pub fn line_mut<GG>(g: &mut [G], y: BoundedU16<0, YMAX>) -> &mut [T] { g.line_mut(y) }")
    h.append("pub fn iter_pos<GG>(g: &[G]) -> Option<([P], &T)> { g.iter_pos().next() }")
    h.append("pub fn ext<GG>(g: &mut [G], p: [P], v: T) { g.extend(Few([(p, v)].into_iter())); }")
    h.append("pub fn vecs<GC>(g: &mut [G], v: Vec<Vec<T>>) -> Result<(), Error> { g.extend_from_vecvec(v) }")
    h.append("pub fn flip_h<GG>(g: &mut [G]) { g.flip_h() }")
    h.append("pub fn flip_v<GG>(g: &mut [G]) { g.flip_v() }")
    h.append("pub fn rot_cw<T, const W: u16, const SIZE: usize>(g: &mut Grid<T, Pos<W, W>, SIZE>) { g.rotate_cw() }")
    h.append("pub fn rot_cc<T, const W: u16, const SIZE: usize>(g: &mut Grid<T, Pos<W, W>, SIZE>) { g.rotate_cc() }")
    h.append("pub fn clone<GC>(g: [G]) -> [G] { g.clone() }")
    h.append("pub fn bclone<BG>(g: [B]) -> [B] { g.clone() }")
    for m in ("set_t(&p)", "set_f(&p)", "set(&p, b)"):
        h.append("pub fn b%s<BG>(g: &mut [B], p: [P], b: bool) { g.%s }" % (m.split("(")[0], m))
    h.append("pub fn bget<BG>(g: &[B], p: [P]) -> bool { g.get(&p) }")
    h.append("pub fn bindex<BG>(g: &[B], p: [P]) -> bool { g[p] }")
    for i, m in enumerate(MAKERS):
        h.append("pub fn make%d<GG>(g: &[G], x: u16, y: u16, i: i32, j: i32, u: usize) -> Option<&T> { (%s).ok().map(|p| g.get(&p)) }" % (i, m))
    for i, m in enumerate(MOVERS):
        h.append("pub fn move%d<GG>(g: &[G], p: [P], q: [P], d: Dir) -> Option<&T> { (%s).ok().map(|p| g.get(&p)) }" % (i, m))
    # constructors: no grid among the arguments
    h.append("pub fn n_repeat<GC>(v: T) -> [G] { <[G]>::repeat(v) }")
    h.append("pub fn n_default<T: Default, const XMAX: u16, const YMAX: u16, const SIZE: usize>() -> [G] { <[G]>::default() }")
    h.append("pub fn n_collect<I: Iterator<Item = i32>, const XMAX: u16, const YMAX: u16, const SIZE: usize>(it: I) -> Grid<i32, [P], SIZE> { Many(it).collect() }")
    h.append("pub fn n_collectr<'a, I: Iterator<Item = &'a i32>, const XMAX: u16, const YMAX: u16, const SIZE: usize>(it: I) -> Grid<i32, [P], SIZE> { Many(it).collect() }")
    h.append("pub fn n_vecs<T: Default, const XMAX: u16, const YMAX: u16, const SIZE: usize>(v: Vec<Vec<T>>) -> Result<[G], Error> { <[G]>::try_from(v) }")
    h.append("pub fn n_neg<const XMAX: u16, const YMAX: u16, const SIZE: usize>(v: Grid<i32, [P], SIZE>) -> Grid<i32, [P], SIZE> { -v }")
    for t in TUPLES:
        h.append("pub fn n_repeat_%s<T: Copy, const SIZE: usize>(v: T) -> Grid<T, (%s, %s), SIZE> { Grid::repeat(v) }" % (t, t, t))
        h.append("pub fn n_default_%s<T: Default, const SIZE: usize>() -> Grid<T, (%s, %s), SIZE> { Grid::default() }" % (t, t, t))
    h.append("pub fn b_repeat<BG>(v: bool) -> [B] { <[B]>::repeat(v) }")
    h.append("pub fn b_true<BG>() -> [B] { <[B]>::ALL_TRUE }")
    h.append("pub fn b_false<BG>() -> [B] { <[B]>::ALL_FALSE }")
    h.append("pub fn b_default<BG>() -> [B] { <[B]>::default() }")
    h.append("pub fn b_collect<I: Iterator<Item = bool>, const XMAX: u16, const YMAX: u16, const WORDS: usize>(it: I) -> [B] { Many(it).collect() }")
    h.append("pub fn b_collectp<const XMAX: u16, const YMAX: u16, const WORDS: usize>(p: [P]) -> [B] { Few([p].into_iter()).collect() }")
    return expand("\n".join(h))


WITNESS = [
    ("repeat", "pub fn f() -> G { G::repeat(1) }"),
    ("default", "pub fn f() -> G { G::default() }"),
    ("collect", "pub fn f(v: Vec<i32>) -> G { v.into_iter().collect() }"),
    ("collect_ref", "pub fn f(v: &[i32]) -> G { v.iter().collect() }"),
    ("vecvec", "pub fn f(v: Vec<Vec<i32>>) -> G { G::try_from(v).unwrap() }"),
]
BWITNESS = [
    ("repeat", "pub fn f() -> G { G::repeat(true) }"),
    ("all_true", "pub fn f() -> G { G::ALL_TRUE }"),
    ("all_false", "pub fn f() -> G { G::ALL_FALSE }"),
    ("default", "pub fn f() -> G { G::default() }"),
    ("collect", "pub fn f(v: Vec<bool>) -> G { v.into_iter().collect() }"),
    ("collect_pos", "pub fn f(v: Vec<Pos<6, 5>>) -> G { v.into_iter().collect() }"),
]


def unchecked(c, I, outs, root):
    """Obligation per access without bounds check on the paths of a root"""
    seen = set()
    for o in outs:
        for e in flat(o.st.events):
            if e.k != "unchecked":
                continue
            i, n, ok, facts = e.a
            k = (repr(i), repr(n), e.at, ok)
            if k in seen:
                continue
            seen.add(k)
            nm = "%s: unchecked access in %s" % (root, e.fn)
            if ok:
                c.add(nm, "proved", "%s < %s at %s" % (i, n, e.at))
                c.sites.setdefault("unchecked accesses proved in bounds", 0)
                c.sites["unchecked accesses proved in bounds"] += 1
                continue
            if i is None:
                c.add(nm, "open", "an unchecked assumption at %s is not proved" % e.at)
                continue
            st = o.st.copy()
            st.facts = facts.copy()
            s2 = st.copy()
            env = None
            for cond in (lambda f: f.add_le(n - i), lambda f: f.add_le(i + 1)):
                s2 = st.copy()
                if cond(s2.facts):
                    env = env or c.real(s2, [i, n])
            if env is not None:
                from ..spec import point
                c.violation(nm, "%s: access without bounds check to cell %s of %s, at %s, for %s" % (root, env.poly(i), env.poly(n), e.at, point(env)))
            else:
                c.add(nm, "open", "%s < %s is not proved at %s" % (i, n, e.at))


def flat(events):
    for e in events:
        yield e
        if e.k == "loop":
            for p in e.a[0].paths:
                for x in flat(p.st.events):
                    yield x


def sized(c, I, outs, root, bits):
    """Every grid a constructor returns fits its storage, as a consequence of the constants it requires"""
    ok = n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        v = I.resolve(o.st, o.v)
        if isinstance(v, Agg) and v.ty.path.endswith("result::Result"):
            if v.v != v.ty.vindex("Ok"):
                continue
            v = v.f[0]
        t = v.ty
        pos = t.targs()[-1]
        size = I.konst(t.cargs()[0], o.st)
        if pos.k == "tuple":
            need = P(USED[pos.elems()[0].name])
            eq_ = False
        else:
            eq_ = not bits
            X, Y = (I.konst(x, o.st) for x in pos.cargs())
            need = (X + 1) * (Y + 1)
        n += 1
        conds = [le(need, size * 32)] if bits else [le(need, size), le(size, need)] if eq_ else [le(need, size)]
        for k in conds:
            d = I.decide(o.st, k)
            if d is True:
                ok += 1
                continue
            st = o.st.copy()
            env = c.real(st, [size, need], n=8) if I.assume(st.facts, k.neg()) else None
            if env is not None:
                from ..spec import point
                c.violation(root, "%s: a grid of %s positions with storage for %s can be constructed: %s" % (root, env.poly(need), env.poly(size), point(env)))
            else:
                c.add(root, "open", "the size of the storage is not related to the number of positions")
            return
    if n:
        c.add(root, "proved", "storage size entailed in %d outcomes" % n)
        c.sites["constructors"] = c.sites.get("constructors", 0) + 1
    else:
        c.add(root, "open", "no grid is returned")


def check(c):
    pr = c.load("c04", harness())
    for r in sorted(pr.roots):
        if r not in pr.roots or "::" in r or r == "next":
            continue
        name = r
        build_ = r.startswith(("n_", "b_"))
        res = c.run(pr, r, delay=3 if r in ("ext", "b_collectp") else 0, vecs=True)
        if res is None:
            continue
        I, outs = res
        if build_ and r != "n_neg":
            sized(c, I, outs, name, r.startswith("b_"))
        unchecked(c, I, outs, name)
        bad = [o for o in outs if o.kind == "panic" and "undefined behaviour" in o.msg]
        for o in bad:
            env = c.real(o.st)
            if env is not None:
                c.violation(name, "%s: %s at %s" % (name, o.msg, o.at))
            else:
                c.add(name, "open", o.msg)
        if not build_ and not bad:
            c.add(name, "proved", "no undefined behaviour on %d paths" % len(outs))

    inventory(c)

    use = "use sqrid::*; use core::convert::TryFrom;\n"
    for what, body in WITNESS:
        good = use + "type G = Grid<i32, Pos<6, 5>, 42>;\n" + body
        for bad in (41, 43, 30, 36, 1):
            witness(c, "c04_%s_%d" % (what, bad), good, use + "type G = Grid<i32, Pos<6, 5>, %d>;\n" % bad + body,
                    "a grid of 7x6 positions with storage for %d cells is constructed with %s" % (bad, what))
    for what, body in BWITNESS:
        good = use + "type G = Gridbool<Pos<6, 5>, 2>;\n" + body
        for bad in (1, 4):
            witness(c, "c04_b%s_%d" % (what, bad), good, use + "type G = Gridbool<Pos<6, 5>, %d>;\n" % bad + body,
                    "a boolean grid of 7x6 positions with %d words is constructed with %s" % (bad, what))
    witness(c, "c04_raw", use + "pub fn f(a: [i32; 4]) -> Grid<i32, Pos<1, 1>, 4> { let g = Grid::repeat(a[0]); g }",
            use + "pub fn f(a: [i32; 4]) -> Grid<i32, Pos<1, 1>, 4> { let g = Grid(a, core::marker::PhantomData); g }", "the storage of a grid can be given directly")
    witness(c, "c04_field", use + "pub fn f(mut a: Grid<i32, Pos<1, 1>, 4>) -> i32 { a.as_array_mut()[0] = 1; 0 }",
            use + "pub fn f(mut a: Grid<i32, Pos<1, 1>, 4>) -> i32 { a.0[0] = 1; 0 }", "the storage of a grid is a public field")
    c.floor("entry points", len(c.roots), 60)


def inventory(c):
    """Unsafe operations in the MIR of the whole crate, and functions that build a grid value"""
    cr = Program(build.dump_crate())
    n = 0

    def short(p):
        return p.replace("sqrid::sqrid::", "sqrid::")
    reached = {short(f) for f in c.functions}
    verdict = {}
    for a, v, _ in c.obs:
        if ": unchecked access in " in a:
            verdict.setdefault(short(a.split(": unchecked access in ")[1]), set()).add(v)
    seen, sites = set(), []
    for key, b in sorted(cr.bodies.items()):
        if b.error or b.krate != "sqrid" or b.path in seen:
            continue
        seen.add(b.path)
        n += 1
        for blk in b.blocks:
            if not blk:
                continue
            t = blk["t"]
            if t["k"] == "call" and t["callee"].get("unsafe"):
                p = t["callee"]["path"]
                if p.startswith(MACRO):
                    continue
                nm = "unsafe call in " + b.path
                file, line = t["at"].rsplit(":", 1)
                sites.append((file, int(line), p))
                v = verdict.get(b.path, set())
                if "violated" in v:
                    continue
                if p.startswith("core::slice::<impl [T]>::get_unchecked") and v == {"proved"}:
                    c.add(nm, "proved", "%s, every reached instance is in bounds" % p)
                else:
                    c.add(nm, "open", "%s at %s is not covered by the bounds proof" % (p, t["at"]))
            for s in blk["s"]:
                if s["k"] != "assign":
                    continue
                r = s["r"]
                if r["k"] == "agg" and r.get("ak") == "adt" and cr.types[r["ty"]].path in ("sqrid::grid::Grid", "sqrid::gridbool::Gridbool"):
                    nm = "grid built in " + b.path
                    if b.path in reached:
                        c.add(nm, "proved", "covered by the constructors analysed")
                    else:
                        c.add(nm, "open", "not reached from any constructor analysed")
    spans = build.unsafe_code()
    for f, a, b in spans:
        inside_ = [x for x in sites if x[0] == f and a <= x[1] <= b]
        c.add("unsafe code at %s:%d" % (f.split("/src/")[-1], a), "proved" if inside_ else "open",
              "contains the operations " + ", ".join(sorted({x[2] for x in inside_})) if inside_ else "no known operation in it")
    c.sites["unsafe blocks in the source"] = len(spans)
    c.sites["library functions searched for unsafe operations"] = n
    c.floor("library functions", n, 200)
