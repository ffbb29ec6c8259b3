"""C30: sending, sharing and borrowing follow the contents. Decided by the type checker on client programs generic in the content:
auto traits of every public type hold when those of its contents hold and are rejected when they do not; for every accessor that
gives out a reference, programs that obtain two live mutable paths, a mutable path through a shared grid, a write during a read
or a reference that outlives its owner are rejected, while their twins, which differ only by the offending construct, are
accepted. And by a rule over every function signature of the library: a reference it returns has the lifetime of an input."""

import concurrent.futures
import json
import os
import re

from .common import *

LEVEL = "proof"

HEAD = """#![allow(unused)]
use sqrid::*;
use std::rc::Rc;
use std::cell::Cell;
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn stat<T: 'static>() {}
fn copy<T: Copy>() {}
type P4 = Pos<3, 3>;
type Gr<T> = Grid<T, P4, 16>;
type Gb = Gridbool<P4, 1>;
fn use_<T>(_: T) {}
"""

# what has to follow: (name, type, parameters it is made of)
XY = "const X: u16, const Y: u16"
TYPES = [
    ("Grid", "Grid<T, Pos<X, Y>, N>", ["T"], XY + ", const N: usize"),
    ("Gridbool", "Gridbool<Pos<X, Y>, N>", [], XY + ", const N: usize"),
    ("Pos", "Pos<X, Y>", [], XY),
    ("Dir", "Dir", [], ""),
    ("Error", "Error", [], ""),
    ("BoundedU16", "BoundedU16<X, Y>", [], XY),
    ("BoundedI64", "BoundedI64<X, Y>", [], "const X: i64, const Y: i64"),
    ("PosTIter", "PosTIter<D, T>", ["T"], "const D: bool"),
    ("PosTIter of Pos", "PosTIter<D, Pos<X, Y>>", [], "const D: bool, " + XY),
    ("PosTIterRange", "PosTIterRange<Pos<X, Y>>", [], XY),
    ("PosTIterInX", "PosTIterInX<Pos<X, Y>>", [], XY),
    ("PosTIterInY", "PosTIterInY<Pos<X, Y>>", [], XY),
    ("BoundedIntIterator", "BoundedIntIterator<BoundedU16<X, Y>>", [], XY),
    ("BfIterator", "bf::BfIterator<T, U, Pos<X, Y>, D, N, N>", ["T", "U"], "const D: bool, const N: usize, " + XY),
    ("UcsIterator", "ucs::UcsIterator<T, U, Pos<X, Y>, D, N, N>", ["T", "U"], "const D: bool, const N: usize, " + XY),
    ("AstarIterator", "astar::AstarIterator<T, U, Pos<X, Y>, D, N, N>", ["T", "U"], "const D: bool, const N: usize, " + XY),
]

# accessors that give out shared references, as expressions in g; those that give out mutable ones
P0, P1 = "&P4::FIRST", "&P4::LAST"
SHARED = {
    "get": "g.get(%s)" % P0, "as_array": "g.as_array()", "as_ref": "AsRef::<[T; 16]>::as_ref(g)", "line": "g.line(BoundedU16::<0, 3>::new_static::<1>())",
    "iter": "g.iter()", "iter_pos": "g.iter_pos()", "into_iter": "(&*g).into_iter()", "index": "&g[P4::FIRST]", "index_ref": "&g[%s]" % P0,
}
MUTABLE = {
    "get_mut": "g.get_mut(%s)" % P0, "as_array_mut": "g.as_array_mut()", "as_mut": "AsMut::<[T; 16]>::as_mut(g)",
    "line_mut": "g.line_mut(BoundedU16::<0, 3>::new_static::<1>())", "iter_mut": "g.iter_mut()", "into_iter_mut": "(&mut *g).into_iter()",
    "index_mut": "&mut g[P4::FIRST]", "index_mut_ref": "&mut g[%s]" % P0,
}
BSHARED = {"as_inner": "g.as_inner()", "iter": "g.iter()", "iter_pos": "g.iter_pos()", "iter_t": "g.iter_t()", "iter_f": "g.iter_f()"}
BMUTABLE = {"as_inner_mut": "g.as_inner_mut()"}


def programs():
    """[(name, why, accepted program, rejected program)]: functions"""
    r = []
    for name, ty, params, gen in TYPES:
        for tr, f in (("Send", "send"), ("Sync", "sync")):
            def fn(missing):
                gs = ["%s%s" % (p, "" if p == missing else ": " + tr) for p in params]
                if params and missing is None:
                    gs = ["%s: %s" % (p, tr) for p in params]
                # grids and iterators of positions need a position
                if name == "PosTIter":
                    gs = [g + (" + PosT" if ":" in g else ": PosT") for g in gs]
                return "pub fn f<%s>() { %s::<%s>() }" % (", ".join(gs + ([gen] if gen else [])), f, ty)
            if not params:
                r.append(("%s %s" % (name, tr), "%s is %s" % (ty, tr), fn(None), None))
            for p in params:
                r.append(("%s %s %s" % (name, tr, p), "%s is %s although %s is not" % (ty, tr, p), fn(None), fn(p)))
        if "T" in params and name == "Grid":
            r.append(("%s 'static" % name, "%s outlives what it contains" % ty, "pub fn f<T: 'static, %s>() { stat::<%s>() }" % (gen, ty), "pub fn f<T, %s>() { stat::<%s>() }" % (gen, ty)))
            r.append(("%s Copy" % name, "%s is copied although its content is not" % ty, "pub fn f<T: Copy, %s>() { copy::<%s>() }" % (gen, ty), "pub fn f<T, %s>() { copy::<%s>() }" % (gen, ty)))
            r.append(("%s Clone" % name, "%s is cloned although its content is not" % ty, "pub fn f<T: Clone, %s>(g: &%s) -> %s { g.clone() }" % (gen, ty, ty), "pub fn f<T, %s>(g: &%s) -> %s { g.clone() }" % (gen, ty, ty)))
    r.append(("Grid of Rc", "a grid of Rc is sent", "pub fn f() { send::<Gr<u8>>() }", "pub fn f() { send::<Gr<Rc<u8>>>() }"))
    r.append(("Grid of Cell", "a grid of Cell is shared", "pub fn f() { sync::<Gr<u8>>() }", "pub fn f() { sync::<Gr<Cell<u8>>>() }"))

    for kind, T, shared, mutable in (("Grid", "Gr<T>", SHARED, MUTABLE), ("Gridbool", "Gb", BSHARED, BMUTABLE)):
        gen = "<T>" if kind == "Grid" else ""
        la = "<'a, T>" if kind == "Grid" else "<'a>"
        write = "g[P4::LAST] = v;" if kind == "Grid" else "g.set(&P4::LAST, true);"
        arg = ", v: T" if kind == "Grid" else ""
        two = "%s.get(%s)" % ("g", P1)
        for n, e in shared.items():
            # a write while the reference is alive
            r.append(("%s::%s write" % (kind, n), "a %s is written while what %s returned is alive" % (kind, n),
                      "pub fn f%s(g: &mut %s%s) { let r = %s; use_(r); %s }" % (gen, T, arg, e, write),
                      "pub fn f%s(g: &mut %s%s) { let r = %s; %s use_(r); }" % (gen, T, arg, e, write)))
            # beyond the life of the owner
            if "iter" in n:
                r.append(("%s::%s outlives" % (kind, n), "what %s returned outlives the %s" % (n, kind),
                          "pub fn f%s(g: %s) { let g = &g; let mut r = %s; use_(r.next()); }" % (gen, T, e),
                          "pub fn f%s(h: %s) { let mut r; { let k = h; let g = &k; r = %s; } use_(r.next()); }" % (gen, T, e)))
            else:
                r.append(("%s::%s outlives" % (kind, n), "what %s returned outlives the %s" % (n, kind),
                          "pub fn f%s(h: %s) { let r; let k = h; let g = &k; r = %s; use_(r); }" % (gen, T, e),
                          "pub fn f%s(h: %s) { let r; { let k = h; let g = &k; r = %s; } use_(r); }" % (gen, T, e)))
            # moved out while borrowed (a boolean grid is Copy: what is left behind stays valid)
            if kind == "Grid":
                r.append(("%s::%s move" % (kind, n), "a %s is moved while what %s returned is alive" % (kind, n),
                          "pub fn f%s(h: %s) { let g = &h; let r = %s; use_(r); use_(h); }" % (gen, T, e),
                          "pub fn f%s(h: %s) { let g = &h; let r = %s; use_(h); use_(r); }" % (gen, T, e)))
        for n, e in mutable.items():
            r.append(("%s::%s twice" % (kind, n), "two live mutable paths into a %s through %s" % (kind, n),
                      "pub fn f%s(g: &mut %s) { let a = %s; use_(a); let b = %s; use_(b); }" % (gen, T, e, e),
                      "pub fn f%s(g: &mut %s) { let a = %s; let b = %s; use_(a); use_(b); }" % (gen, T, e, e)))
            r.append(("%s::%s read" % (kind, n), "a %s is read while a mutable path from %s is alive" % (kind, n),
                      "pub fn f%s(g: &mut %s) { let a = %s; use_(a); use_(%s); }" % (gen, T, e, two),
                      "pub fn f%s(g: &mut %s) { let a = %s; use_(%s); use_(a); }" % (gen, T, e, two)))
            r.append(("%s::%s shared" % (kind, n), "a mutable path from %s through a shared %s" % (n, kind),
                      "pub fn f%s(g: &mut %s) { let a = %s; use_(a); }" % (gen, T, e),
                      "pub fn f%s(g: &%s) { let a = %s; use_(a); }" % (gen, T, e)))
            r.append(("%s::%s outlives" % (kind, n), "a mutable path from %s outlives the %s" % (n, kind),
                      "pub fn f%s(h: %s) { let a; let mut k = h; let g = &mut k; a = %s; use_(a); }" % (gen, T, e),
                      "pub fn f%s(h: %s) { let a; { let mut k = h; let g = &mut k; a = %s; } use_(a); }" % (gen, T, e)))
    # items of the mutable iterators keep the borrow
    r.append(("Grid::iter_mut item", "a cell from iter_mut is alive while the grid is written", "pub fn f<T>(g: &mut Gr<T>, v: T) { let a = g.iter_mut().next(); use_(a); g[P4::LAST] = v; }",
              "pub fn f<T>(g: &mut Gr<T>, v: T) { let a = g.iter_mut().next(); g[P4::LAST] = v; use_(a); }"))
    # the position is not part of the borrow
    r.append(("position", "a reference to a cell that depends on the grid only", "pub fn f<'a, T>(g: &'a Gr<T>, p: P4) -> &'a T { g.get(&p) }", "pub fn f<'a, T>(g: &Gr<T>, p: &'a P4) -> &'a T { g.get(p) }"))
    r.append(("position mut", "a mutable reference to a cell that depends on the grid only", "pub fn f<'a, T>(g: &'a mut Gr<T>, p: P4) -> &'a mut T { g.get_mut(&p) }",
              "pub fn f<'a, T>(g: &mut Gr<T>, p: &'a P4) -> &'a mut T { g.get_mut(p) }"))
    # stores of the searches
    for n, ty in (("Grid", "Gr<usize>"), ("HashMap", "(std::collections::HashMap<P4, usize>, usize)"), ("BTreeMap", "(std::collections::BTreeMap<P4, usize>, usize)")):
        e = "MapPos::<usize, P4, 1, 16>::"
        r.append(("MapPos %s write" % n, "a map of positions is written while an item is borrowed",
                  "pub fn f(m: &mut %s) { let r = %sget(m, %s); use_(r); %sset(m, P4::LAST, 1); }" % (ty, e, P0, e),
                  "pub fn f(m: &mut %s) { let r = %sget(m, %s); %sset(m, P4::LAST, 1); use_(r); }" % (ty, e, P0, e)))
        r.append(("MapPos %s shared" % n, "a map of positions is written through a shared reference",
                  "pub fn f(m: &mut %s) { %sset(m, P4::LAST, 1); }" % (ty, e), "pub fn f(m: &%s) { %sset(m, P4::LAST, 1); }" % (ty, e)))
    for n, ty in (("Gridbool", "Gb"), ("HashSet", "std::collections::HashSet<P4>"), ("BTreeSet", "std::collections::BTreeSet<P4>")):
        e = "SetPos::<P4, 1, 16>::"
        r.append(("SetPos %s shared" % n, "a set of positions is changed through a shared reference",
                  "pub fn f(m: &mut %s) { %sinsert(m, P4::LAST); }" % (ty, e), "pub fn f(m: &%s) { %sinsert(m, P4::LAST); }" % (ty, e)))
    # values inside bounded integers
    r.append(("bounded shared", "the inside of a bounded integer outlives it", "pub fn f<'a>(b: &'a BoundedU16<0, 9>) -> &'a u16 { BoundedInt::as_ref(b) }",
              "pub fn f<'a>(b: BoundedU16<0, 9>) -> &'a u16 { BoundedInt::as_ref(&b) }"))
    r.append(("shared set", "a boolean grid is changed through a shared reference", "pub fn f(g: &mut Gb) { g.set_t(&P4::FIRST); g.set_f(&P4::FIRST); g.flip_h(); }", "pub fn f(g: &Gb) { g.set_t(&P4::FIRST); }"))
    r.append(("shared flip", "a grid is changed through a shared reference", "pub fn f<T>(g: &mut Gr<T>) { g.flip_h(); }", "pub fn f<T>(g: &Gr<T>) { g.flip_h(); }"))
    return r


def check(c):
    ps = programs()
    good = HEAD + "\n".join("mod w%d { use super::*; %s }" % (i, p[2]) for i, p in enumerate(ps))
    ok, diag = build.compiles("c30_good", good)
    goods = {}
    if not ok:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda ip: build.compiles("c30_g%d" % ip[0], HEAD + ip[1][2]), enumerate(ps)))
        for i, (g, d) in enumerate(rs):
            if not g:
                goods[i] = d
        if not goods:
            c.violation("twins", "the accepted programs do not compile together:\n" + diag[:3000])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        bad = list(ex.map(lambda ip: build.compiles("c30_b%d" % ip[0], HEAD + ip[1][3]) if ip[1][3] else (False, ""), enumerate(ps)))
    nbad = 0
    for i, (name, why, g, b) in enumerate(ps):
        if i in goods:
            c.violation(name, "%s: a program that has to be accepted is rejected:\n%s\n%s" % (name, g, goods[i][:1500]))
            continue
        if b is None:
            c.add(name, "proved", "accepted: " + why)
            continue
        nbad += 1
        if bad[i][0]:
            c.violation(name, "%s: a program that has to be rejected compiles (%s):\n%s" % (name, why, b))
        else:
            codes = sorted(set(re.findall(r"error\[(E\d+)\]", bad[i][1])))
            c.add(name, "proved", "rejected (%s): %s" % (", ".join(codes) or "lifetimes", why))
    c.sites["programs accepted"] = len(ps) - len(goods)
    c.sites["programs rejected"] = nbad
    signatures(c)
    c.floor("programs", len(ps), 120)


# signatures ------------------------------------------------------------------------------------


def lifetimes(t, out, mut):
    """Lifetimes of the references in a type (rustdoc JSON)"""
    if isinstance(t, dict):
        if "borrowed_ref" in t:
            b = t["borrowed_ref"]
            inner = b["type"]
            # a constant text or table does not depend on a content
            const = "primitive" in inner or "slice" in inner and "primitive" in inner["slice"]
            out.append((b["lifetime"], const))
            if b["is_mutable"]:
                mut.append(b["lifetime"])
        if "lifetime" in t and isinstance(t["lifetime"], str) and "is_mutable" not in t:
            out.append((t["lifetime"], False))
        for k, x in t.items():
            if k == "outlives" and isinstance(x, str):
                out.append((x, False))
            lifetimes(x, out, mut)
    elif isinstance(t, list):
        for x in t:
            lifetimes(x, out, mut)


def signatures(c):
    d = build.rustdoc()
    if d is None:
        c.add("signatures", "open", "no machine-readable documentation")
        return
    idx = d["index"]
    n = refs = 0
    outer = {}
    for v in idx.values():
        im = v["inner"].get("impl") if isinstance(v["inner"], dict) else None
        if im:
            for m in im["items"]:
                outer[str(m)] = im
    for k, v in idx.items():
        fn = v["inner"].get("function")
        im = outer.get(k)
        if not fn or im and (im.get("is_synthetic") or im.get("blanket_impl")):
            continue
        if v.get("crate_id", 0) != 0:
            continue
        n += 1
        sig = fn["sig"]
        where = "%s:%s" % (v["span"]["filename"].split("/src/")[-1], v["span"]["begin"][0]) if v.get("span") else "?"
        fname = "%s (%s)" % (v["name"], where)
        o, om = [], []
        lifetimes(sig["output"], o, om)
        i, imut = [], []
        lifetimes(sig["inputs"], i, imut)
        if im:
            # 'a of impl<'a> ... for &'a T
            lifetimes(im["for"], i, imut)
            i += [(g["name"], False) for g in im["generics"]["params"] if "lifetime" in g["kind"]]
        if not o:
            continue
        refs += 1
        names = {x for x, _ in i}
        for lt_, const in o:
            if lt_ in (None, "'_"):
                # elided: the compiler takes it from an input
                continue
            if lt_ == "'static":
                if not const:
                    c.violation("signature " + v["name"], "%s returns a reference with the lifetime 'static to something that is not constant" % fname)
                continue
            if lt_ not in names and not any(lt_ in json.dumps(g) for g in [x for x in fn["generics"]["params"] if "type" in x["kind"]]):
                c.violation("signature " + v["name"], "%s returns a reference with the lifetime %s, which none of its inputs has" % (fname, lt_))
        if om and not imut and "Self" not in json.dumps(sig["inputs"]):
            c.violation("signature " + v["name"], "%s returns a mutable reference without taking one" % fname)
        elif om and not imut and any("borrowed_ref" in json.dumps(x) for x in sig["inputs"]):
            c.violation("signature " + v["name"], "%s returns a mutable reference although it takes shared references only" % fname)
    c.sites["signatures"] = n
    c.add("signatures", "proved", "%d functions, %d return references or borrowing types" % (n, refs))
    c.floor("functions that return references", refs, 20)
