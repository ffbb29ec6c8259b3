"""C23: results depend only on the arguments. Decided by an effect analysis over the type-checked program (MIR of every function,
closure, constant and static of the library, with the callees the compiler resolved): no operation that reaches a clock, randomness,
the environment, input or output, threads, mutable statics or thread-locals; no change behind a shared reference; no address used as a
value; and a dataflow analysis of everything that comes out of the iteration of a hash table, whose order differs from run to run."""

import json
import re

from .. import build
from ..mir import Program

LEVEL = "proof"

# functions outside of the library whose result or effect is not a function of their arguments: (path, what they are)
IMPURE = [
    ("std::time::", "reads the clock"), ("std::env::", "reads the environment"), ("std::fs::", "uses files"), ("std::io::", "does input or output"),
    ("std::net::", "uses the network"), ("std::process::", "uses processes"), ("std::os::", "uses the system"), ("std::sys::", "uses the system"),
    ("std::thread::local::", "uses a thread-local variable"), ("std::thread::current", "depends on the thread"), ("std::thread::id", "depends on the thread"),
    ("std::thread::sleep", "sleeps"), ("std::thread::functions::current", "depends on the thread"), ("std::thread::available_parallelism", "depends on the machine"),
    ("std::backtrace::", "reads the stack"), ("std::panic::set_hook", "changes global state"), ("std::panic::take_hook", "changes global state"),
    ("std::panicking::set_hook", "changes global state"), ("std::panicking::take_hook", "changes global state"),
    ("std::hash::random::RandomState::", "draws random keys"), ("std::hash::random::<impl", "hashes with random keys"),
    ("core::arch::", "uses instructions of the machine"), ("std::alloc::set_alloc_error_hook", "changes global state"),
]
PURE_AFTER_ALL = re.compile(r"^std::(time::Duration|time::<impl|env::VarError|io::error|io::Error|process::ExitCode)|DefaultHasher")
ADDRESS = re.compile(r"::(addr|expose_provenance|expose_addr|to_bits|align_offset|is_aligned)$")
OPENLY = re.compile(r"^std::thread::|::caller$|::ptr::(eq|addr_eq|hash)$|catch_unwind|read_volatile|write_volatile|::type_name|fmt::Pointer")

# the inside of a value changes behind a shared reference
CELLS = re.compile(r"core::cell::(Cell|RefCell|UnsafeCell|SyncUnsafeCell)\b|core::sync::atomic::Atomic|std::sync::(poison::)?(mutex::Mutex|rwlock::RwLock|nonpoison|reentrant_lock)")
ONCE = re.compile(r"core::cell::(once::OnceCell|lazy::LazyCell)|std::sync::(once_lock::OnceLock|lazy_lock::LazyLock|once::Once)")
LAZY = re.compile(r"LazyLock|LazyCell")
CELLOPS = {"set", "replace", "take", "swap", "update", "borrow_mut", "try_borrow_mut", "replace_with", "as_ptr", "get", "store", "lock", "try_lock", "write",
           "compare_exchange", "compare_exchange_weak", "fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "fetch_max", "fetch_min", "fetch_update",
           "fetch_nand", "compare_and_swap", "get_or_init", "get_or_try_init", "set_once"}
CELLREADS = {"get"}

HASHTY = re.compile(r"\b(std::collections::hash::(map|set)::\w+|hashbrown::\w+)")
# operations of tables (and of their entries) that do not depend on the order inside
TABLE = {"new", "with_capacity", "with_hasher", "with_capacity_and_hasher", "default", "insert", "get", "get_mut", "get_key_value", "get_or_insert_with", "contains", "contains_key",
         "remove", "remove_entry", "entry", "len", "is_empty", "clear", "capacity", "reserve", "try_reserve", "shrink_to_fit", "shrink_to", "clone", "clone_from", "eq", "ne", "index",
         "replace", "take", "try_insert", "hasher", "extend", "from_iter", "from", "is_subset", "is_superset", "is_disjoint", "or_insert", "or_insert_with", "or_default",
         "or_insert_with_key", "and_modify", "key", "into_mut", "insert_entry", "drop", "get_disjoint_mut", "into_key", "borrow", "borrow_mut", "as_ref", "assert_receiver_is_total_eq",
         "assert_fields_are_eq", "get_many_mut", "remove_entry", "into", "size_hint"}
# results keep the order of the table
FLOWS = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter", "extract_if", "union", "intersection", "difference",
         "symmetric_difference", "map", "filter", "filter_map", "flat_map", "flatten", "copied", "cloned", "by_ref", "next", "deref", "deref_mut", "borrow", "as_ref", "as_mut", "unwrap",
         "expect", "clone", "inspect", "peekable", "peek", "fuse", "to_owned", "into", "from", "unwrap_or", "unwrap_or_default", "chain", "branch", "ok", "ok_or", "and_then", "map_or",
         "min_by_key", "max_by_key", "find", "find_map", "position", "last", "nth", "reduce", "take", "skip", "step_by", "rev", "enumerate", "zip", "take_while", "skip_while", "map_while",
         "collect", "from_iter", "sort_by_key", "tuple", "x", "y", "as_str", "as_slice", "try_from", "try_into", "fold"}
# the order does not matter to these
BLIND = {"count", "len", "any", "all", "sum", "product", "min", "max", "is_empty", "contains", "contains_key", "size_hint", "is_some", "is_none", "remove", "eq", "ne", "lt", "le", "gt", "ge", "cmp",
         "partial_cmp", "capacity", "hash", "sort", "sort_unstable", "is_some_and", "is_none_or"}
UNORDERED = re.compile(r"(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap|Gridbool|SetPos|MapPos)\b")
SEQUENCES = re.compile(r"alloc::(vec::Vec|collections::vec_deque::VecDeque|string::String|collections::linked_list::LinkedList)\b|core::fmt::")


def last(path):
    return re.sub(r"::<[^<>]*>$", "", path).split("::")[-1]


class Effects:
    def __init__(self, c):
        self.c = c
        with open(build.dump_crate()) as f:
            self.d = json.load(f)
        self.types = self.d["types"]
        self.bodies = {k: b for k, b in self.d["bodies"].items() if not b.get("error")}
        self.own = {k: b for k, b in self.bodies.items() if b["krate"] == "sqrid"}
        self.calls = 0
        self.outside = set()
        self._cells = {}
        self.flows = {}

    def violation(self, fn, rule, text):
        self.c.violation(rule, "%s (%s): %s" % (fn["path"], fn["span"].split("/src/")[-1], text), key="%s in %s" % (rule, fn["path"]))

    # types

    def tyname(self, i):
        return self.types[i]["name"]

    def cells(self, i, seen=()):
        """Names of the types with interior mutability inside a type"""
        if i in self._cells:
            return self._cells[i]
        if i in seen:
            return set()
        t = self.types[i]
        r = set()
        p = t.get("path", "")
        if t["k"] == "adt":
            if CELLS.search(p) or ONCE.search(p):
                r.add(p)
            else:
                for a in t.get("args", []):
                    if "ty" in a and "PhantomData" not in p:
                        r |= self.cells(a["ty"], seen + (i,))
                for v in t.get("variants", []):
                    for f in v["fields"]:
                        r |= self.cells(f["ty"], seen + (i,))
        else:
            for k in ("to", "elem"):
                if isinstance(t.get(k), int):
                    r |= self.cells(t[k], seen + (i,))
            for k in ("elems", "upvars"):
                for x in t.get(k, []):
                    r |= self.cells(x, seen + (i,))
        if not seen:
            self._cells[i] = r
        return r

    # walking

    def consts(self, x):
        """Constants inside a statement or terminator"""
        if isinstance(x, dict):
            if x.get("k") == "const" and isinstance(x.get("c"), dict):
                yield x["c"]
            for v in x.values():
                yield from self.consts(v)
        elif isinstance(x, list):
            for v in x:
                yield from self.consts(v)

    def callees(self, b):
        """(callee, argument types, result type, where) of every call and every function used as a value"""
        for bb in b["blocks"]:
            if not bb:
                continue
            t = bb["t"]
            if t["k"] == "call":
                yield t["callee"], t["aty"], t["dty"], t["at"]
            for x in bb["s"] + [t]:
                for k in self.consts(x if x is not t else {q: v for q, v in t.items() if q not in ("f", "callee")}):
                    ty = self.types[k["ty"]] if isinstance(k.get("ty"), int) else None
                    if ty and ty["k"] == "fndef":
                        yield ty["callee"], [], None, t["at"]

    def rules(self):
        c = self.c
        for key, b in sorted(self.own.items()):
            before = len(c.viol)
            for cal, aty, dty, at in self.callees(b):
                self.call(b, cal, aty, at)
            for bb in b["blocks"]:
                if not bb:
                    continue
                if bb["t"]["k"] == "other" and "asm" in bb["t"].get("dbg", "").lower():
                    self.violation(b, "assembly", "inline assembly")
                for s in bb["s"] + [bb["t"]]:
                    for k in self.consts(s):
                        if k.get("s") == "static":
                            self.static(b, k)
                    r = s.get("r") or {}
                    if r.get("tls"):
                        self.violation(b, "thread-local", "uses the thread-local %s" % r["tls"])
                    if r.get("k") == "cast":
                        self.cast(b, r)
            if len(c.viol) == before:
                c.add(b["path"], "proved", "no effect outside of its arguments")
        c.sites["functions, closures, constants"] = len(self.own)
        c.sites["calls"] = self.calls
        c.sites["distinct functions outside of the library"] = len(self.outside)

    def call(self, b, cal, aty, at):
        self.calls += 1
        if cal.get("res") == "indirect":
            return
        path = cal.get("rpath") or cal.get("path", "")
        krate = cal.get("rkrate") or cal.get("krate")
        if cal.get("res") == "extern" and krate == "sqrid":
            return self.violation(b, "foreign", "calls the foreign function %s" % path)
        if krate == "sqrid":
            return
        self.outside.add(path)
        if krate not in ("core", "alloc", "std") and krate:
            return self.c.add("%s calls %s" % (b["path"], path), "open", "function of another crate")
        plain = re.sub(r"^<(&'?\w* ?(mut )?)?", "", path)
        for p, why in IMPURE:
            if plain.startswith(p) and not PURE_AFTER_ALL.search(plain):
                if p.startswith("std::hash::random") and last(path) in ("new", "default", "clone"):
                    break  # the keys of a new table
                return self.violation(b, "effect", "calls %s, which %s" % (path, why))
        if "RandomState" in path and last(path) in ("hash_one", "build_hasher"):
            return self.violation(b, "effect", "calls %s, which hashes with random keys" % path)
        if last(path) in ("hash_one", "build_hasher"):
            for t in aty[:1]:
                if "RandomState" in self.tyname(t):
                    return self.violation(b, "effect", "hashes with random keys (%s)" % self.tyname(t))
        if re.search(r"(ptr|NonNull)", path) and ADDRESS.search(path):
            return self.violation(b, "address", "uses an address as a value (%s)" % path)
        if OPENLY.search(path):
            self.c.add("%s calls %s" % (b["path"], path), "open", "effect not known")
        # changes behind a shared reference
        m = CELLS.search(plain)
        if m and last(path) in CELLOPS - CELLREADS:
            self.behind(b, path)

    def behind(self, b, path):
        """A cell changes: it belongs to the function, or to something it was given a shared reference to"""
        for i in range(b["args"]):
            t = self.types[b["locals"][i + 1]]
            if t["k"] == "ref" and not t["mut"]:
                to = self.types[t["to"]]
                if to.get("path", "").startswith("sqrid::") and self.cells(t["to"]):
                    return self.violation(b, "shared", "changes %s behind a shared reference (%s)" % (to["path"], path))

    def static(self, b, k):
        if k["mut"]:
            return self.violation(b, "static", "uses the mutable static %s" % k["path"])
        t = self.types[k["ty"]]
        inner = self.cells(t["to"] if "to" in t else k["ty"])
        if inner and not all(LAZY.search(x) for x in inner):
            self.violation(b, "static", "uses the static %s, which is changed behind a shared reference (%s)" % (k["path"], ", ".join(sorted(inner))))

    def cast(self, b, r):
        ty, fr = self.types[r["ty"]], self.types[r["from"]]
        if "Expose" in r["ck"] or r["ck"] == "Transmute" and ty["k"] == "int" and fr["k"] in ("ref", "ptr"):
            self.violation(b, "address", "turns an address into a number")

    # the order of hash tables

    def hashy(self, i):
        return bool(HASHTY.search(self.tyname(i))) and "RandomState" not in self.tyname(i).split("<")[0]

    def kind(self, cal, aty, dty):
        """What a call does with hash tables: None (nothing), "table", "order" """
        path = cal.get("rpath") or cal.get("path", "")
        n = last(path)
        own = bool(HASHTY.search(path.split(" as ")[0]))
        tables = [t for t in aty if self.hashy(t)]
        if not own and not tables:
            return None
        krate = cal.get("rkrate") or cal.get("krate")
        if krate == "sqrid" and cal.get("res") == "item":
            return None
        if own and n in TABLE and n not in ("iter", "drain"):
            return "table"
        if UNORDERED.search(path.split(" as ")[0]) and n in ("extend", "from_iter", "from", "eq"):
            return "table"
        if not own and cal.get("res") == "opaque" and cal.get("trait", "").startswith("sqrid::"):
            return "table"
        if not own and n in ("clone", "eq", "ne", "take", "replace", "swap", "drop", "deref", "borrow", "as_ref", "into", "must_use", "unwrap", "expect", "branch", "new", "default", "forget"):
            return "table"
        return "order"

    def order(self):
        n = src = 0
        for key, b in sorted(self.own.items()):
            if b.get("const"):
                continue
            n += 1
            s, bad, maybe = self.flow(key, frozenset())
            src += s
            if bad and not b.get("closure") and self.ordinary(b):
                self.violation(b, "hash order", bad)
            elif bad or maybe:
                self.c.add("hash order in " + b["path"], "open", bad or maybe)
        self.c.sites["functions searched for hash iteration"] = n
        self.c.sites["sources of hash order"] = src
        self.c.add("hash order", "proved", "%d functions, %d sources" % (n, src))

    def ordinary(self, b):
        """Printing a table for debugging is not a result"""
        return not re.search(r" as core::fmt::Debug>", b["path"])

    def roots_of(self, place, alias):
        return alias.get(place["l"], {place["l"]})

    def flow(self, key, tainted):
        """(sources, why the order of a table decides a result, what is not understood) with the given arguments in table order"""
        k = (key, tainted)
        if k in self.flows:
            return self.flows[k]
        self.flows[k] = (0, None, None)
        b = self.bodies[key]
        T = set(tainted)       # locals whose value depends on the order
        V = set()              # the same through arithmetic: sums do not depend on it
        bad = maybe = None
        sources = set()

        def op_local(o):
            return o["place"]["l"] if o.get("k") in ("copy", "move") else None

        def uses(r):
            out = set()
            if isinstance(r, dict):
                if r.get("k") in ("copy", "move") and "place" in r:
                    out.add(r["place"]["l"])
                if r.get("k") in ("ref", "discr") and "place" in r:
                    out.add(r["place"]["l"])
                for v in r.values():
                    out |= uses(v)
            elif isinstance(r, list):
                for v in r:
                    out |= uses(v)
            return out
        args = set(range(1, b["args"] + 1))
        reach = set()          # locals that are references to what the caller sees
        for i in args:
            t = self.types[b["locals"][i]]
            if t["k"] == "ref" and t["mut"]:
                reach.add(i)
        once, many = {}, set()  # locals assigned once, and more than once

        def result(t):
            """A reference that a call returns points into what it was given first"""
            isref = t["dty"] is not None and self.types[t["dty"]]["k"] == "ref"
            return {"k": "assign", "p": t["dest"], "r": {"k": "use", "o": t["args"][0]} if isref and t["args"] else None}
        for bb in b["blocks"]:
            for x in (bb["s"] + ([result(bb["t"])] if bb["t"]["k"] == "call" else []) if bb else []):
                if x["k"] == "assign" and not x["p"]["p"]:
                    (many.add(x["p"]["l"]) if x["p"]["l"] in once else once.__setitem__(x["p"]["l"], x["r"]))

        def origin(l):
            """The variable a temporary is a copy of, or a reference to"""
            for _ in range(20):
                r = once.get(l)
                if l in many or not r or r.get("k") not in ("use", "ref"):
                    break
                pl = r["place"] if r["k"] == "ref" else r["o"].get("place")
                if not pl:
                    break
                l = pl["l"]
                if any(e["k"] == "field" for e in pl["p"]):
                    return (l, json.dumps(pl["p"]))
            return l
        compared = set()
        for bb in b["blocks"]:
            if not bb:
                continue
            for x in bb["s"]:
                if x["k"] == "assign" and x["r"].get("k") == "bin" and x["r"]["op"] in ("Lt", "Le", "Gt", "Ge"):
                    compared.add(frozenset(origin(op_local(x["r"][q])) for q in "ab" if op_local(x["r"][q]) is not None))
            if bb["t"]["k"] == "call" and last(bb["t"]["callee"].get("path", "")) in ("lt", "le", "gt", "ge", "cmp", "partial_cmp"):
                compared.add(frozenset(origin(op_local(a)) for a in bb["t"]["args"] if op_local(a) is not None))
        for _ in range(12):
            size = (len(T), len(V))
            for bi, bb in enumerate(b["blocks"]):
                if not bb:
                    continue
                for s in bb["s"]:
                    if s["k"] != "assign":
                        continue
                    u = uses(s["r"])
                    d = s["p"]["l"]
                    if s["r"].get("k") == "discr":
                        continue  # is there another item: the same in any order
                    if s["r"].get("k") in ("bin", "un"):
                        if u & T and not u & V and not any(origin(x) in many for x in u if x not in T):
                            T.add(d)
                        elif u & (T | V):
                            V.add(d)
                        continue
                    if u & T:
                        if d in many and any(frozenset((origin(x), d)) in compared for x in u & T):
                            V.add(d)  # the smallest or largest so far
                        else:
                            T.add(d)
                    elif u & V:
                        V.add(d)
                t = bb["t"]
                if t["k"] != "call":
                    continue
                cal = t["callee"]
                if cal.get("res") == "indirect":
                    continue
                path = cal.get("rpath") or cal.get("path", "")
                nm = last(path)
                d = t["dest"]["l"]
                ls = [op_local(a) for a in t["args"]]
                kind = self.kind(cal, t["aty"], t["dty"])
                hot = [l for l in ls if l in T]
                warm = [l for l in ls if l in V]
                if kind == "order":
                    sources.add(bi)
                    if nm == "retain" or nm in ("for_each", "try_for_each"):
                        maybe = maybe or "%s over a hash table" % nm
                    elif "fmt" in path or nm.startswith("new_debug"):
                        bad = bad or "prints a hash table (%s)" % path
                    elif nm in BLIND or UNORDERED.search(self.tyname(t["dty"]) if t["dty"] is not None else "") and nm in ("collect", "from_iter"):
                        pass
                    elif nm in ("extend", "append") and SEQUENCES.search(self.tyname(t["aty"][0]) if t["aty"] else path):
                        bad = bad or "adds the contents of a hash table to a sequence (%s)" % path
                    else:
                        T.add(d)
                    continue
                if not hot:
                    if warm and kind != "table":
                        if nm not in BLIND:
                            V.add(d)
                    continue
                if kind == "table":
                    continue
                if cal.get("res") == "item" and cal.get("rkrate") == "sqrid" or "{closure" in path and cal.get("key") in self.bodies:
                    if cal.get("key") in self.bodies:
                        st = frozenset(i + 1 for i, l in enumerate(ls) if l in T)
                        s2, b2, m2 = self.flow(cal["key"], st)
                        bad = bad or (b2 and "%s: %s" % (last(path), b2))
                        maybe = maybe or m2
                        if b2 is None and self.returns(cal["key"], st):
                            T.add(d)
                        continue
                recv = self.tyname(t["aty"][0]) if t["aty"] else ""
                if nm in ("collect", "from_iter"):
                    if not UNORDERED.search(self.tyname(t["dty"])):
                        T.add(d)
                elif nm in ("insert", "set", "set_t", "set_f", "remove", "get", "get_mut", "extend") and UNORDERED.search(recv + path.split(" as ")[0]) or nm in BLIND:
                    if nm in ("get", "get_mut"):
                        V.add(d)
                elif SEQUENCES.search(path) and nm not in FLOWS or SEQUENCES.search(recv) and nm in ("push", "push_back", "push_front", "insert", "extend", "push_str", "write_fmt", "write_str"):
                    bad = bad or "%s takes items in the order of a hash table" % path
                elif nm in ("for_each", "try_for_each", "retain", "try_fold"):
                    clos = [self.types[x] for x in t["aty"] if self.types[x]["k"] == "closure"]
                    r = self.closures(clos)
                    bad = bad or r[0]
                    maybe = maybe or r[1]
                    if nm == "try_fold":
                        V.add(d)
                elif nm == "fold":
                    r = self.closures([self.types[x] for x in t["aty"] if self.types[x]["k"] == "closure"])
                    bad = bad or r[0]
                    V.add(d)
                elif nm in FLOWS or cal.get("krate") in ("core", "alloc", "std") and nm not in BLIND:
                    T.add(d)
                    for l, ty in zip(ls, t["aty"]):  # what it is told to change
                        if l is not None and l not in T and self.types[ty]["k"] == "ref" and self.types[ty]["mut"] and not HASHTY.search(self.tyname(ty)):
                            for _ in range(6):
                                T.add(l)
                                r = once.get(l) or {}
                                nxt = [x for x in ([r["place"]["l"]] if r.get("k") == "ref" else [op_local(r["o"])] if r.get("k") in ("use", "cast") else [])]
                                if not nxt or nxt[0] is None:
                                    break
                                l = nxt[0]
                elif nm in ("call", "call_mut", "call_once"):
                    T.add(d)
                else:
                    maybe = maybe or "%s is given items in the order of a hash table" % path
                    V.add(d)
            if (len(T), len(V)) == size:
                break
        # does it get out
        rets = self.escapes(b, T, reach, uses)
        if rets and not tainted and not HASHTY.search(self.tyname(b["locals"][0])):
            bad = bad or rets
        elif 0 in V:
            maybe = maybe or "a number computed from the contents of a hash table"
        self.flows[k] = (len(sources), bad, maybe)
        self._ret = getattr(self, "_ret", {})
        self._ret[k] = 0 in T
        return self.flows[k]

    def returns(self, key, st):
        return getattr(self, "_ret", {}).get((key, st), False)

    def escapes(self, b, T, reach, uses):
        for bb in b["blocks"]:
            if not bb:
                continue
            for s in bb["s"]:
                if s["k"] != "assign" or s["r"].get("k") in ("bin", "un", "discr"):
                    continue
                if s["p"]["l"] in reach and any(e["k"] == "deref" for e in s["p"]["p"]) and uses(s["r"]) & T:
                    return "stores a value that depends on the order of a hash table"
        if 0 in T:
            return "returns a value that depends on the order of a hash table"
        return None

    def closures(self, clos):
        bad = maybe = None
        for t in clos:
            for key, b in self.bodies.items():
                if b.get("closure") and b["path"] == t["def"]:
                    st = frozenset(range(2, b["args"] + 1))
                    _, b2, m2 = self.flow(key, st)
                    bad, maybe = bad or b2, maybe or m2
                    break
            else:
                maybe = maybe or "a closure over the contents of a hash table"
        return bad, maybe


def check(c):
    e = Effects(c)
    e.rules()
    e.order()
    c.functions |= set(b["path"] for b in e.own.values())
    c.floor("functions of the library", sum(1 for b in e.own.values() if not b.get("const")), 800)
    c.floor("calls", e.calls, 2500)
