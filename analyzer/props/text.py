"""What a path prints: the pieces written to a formatter, in order, from the events of the path"""

import ast

from .common import *
from ..interp import StrV, term


def template(v):
    """Pieces of a format template: literal text and None for each argument printed without options; None: not understood"""
    t = v
    while isinstance(t, Ref):
        t = t.root
    s = t
    while isinstance(s, tuple) and s and s[0] != "constant" and isinstance(s[-1], tuple):
        s = s[-1]
    if not (isinstance(s, tuple) and s and s[0] == "constant"):
        return None
    w = ast.literal_eval(s[1]) if isinstance(s[1], str) else s[1]
    d = dict(x for x in w if isinstance(x, tuple) and len(x) == 2) if isinstance(w, (tuple, list)) else {}
    b = d.get("v")
    if b is None:
        return None
    b = list(b)
    out, i = [], 0
    while i < len(b):
        n = b[i]
        if n == 0:
            return out if i == len(b) - 1 else None
        if n < 128:
            out.append(bytes(b[i + 1:i + 1 + n]).decode())
            i += 1 + n
        elif n == 192:
            out.append(None)
            i += 1
        else:
            return None
    return None


def options(v):
    """Pieces of a format template: text, and for each argument a dict: arg, width (dynwidth: the argument that has it), precision,
    fill, align, flags; None: not understood"""
    t = v
    while isinstance(t, Ref):
        t = t.root
    while isinstance(t, tuple) and t and t[0] != "constant" and isinstance(t[-1], tuple):
        t = t[-1]
    if not (isinstance(t, tuple) and t and t[0] == "constant"):
        return None
    w = ast.literal_eval(t[1]) if isinstance(t[1], str) else t[1]
    d = dict(x for x in w if isinstance(x, tuple) and len(x) == 2) if isinstance(w, (tuple, list)) else {}
    if d.get("v") is None:
        return None
    b = list(d["v"])
    out, i = [], 0

    def num(k):
        nonlocal i
        i += k
        return int.from_bytes(bytes(b[i - k:i]), "little")
    while i < len(b):
        n = num(1)
        if n == 0:
            return out if i == len(b) else None
        if n < 0xC0:
            if n > 0x80:
                return None
            k = num(2) if n == 0x80 else n
            i += k
            out.append(bytes(b[i - k:i]).decode())
            continue
        o = {"fill": " ", "align": None, "flags": 0}
        if n & 1:
            f = num(4)
            o["fill"] = chr(f & 0x1FFFFF)
            o["align"] = ("<", ">", "^", None)[f >> 29 & 3]
            o["flags"] = f >> 21 & 0x3F
        if n & 2:
            o["width"] = num(2)
        if n & 4:
            o["precision"] = num(2)
        if n & 8:
            o["arg"] = num(2)
        if n & 16:
            o["dynwidth"] = True
        if n & 32:
            return None
        out.append(o)
    return None


def pieces(st):
    """[("lit", text) | (trait, value)] written to formatters on the path; None when something written is not understood"""
    made, args = {}, {}
    out = []
    for e in st.events:
        if e.k != "op":
            continue
        name, a, olds, v = e.a[0], e.a[1], e.a[2], e.a[3]
        if "fmt::rt::Argument" in name and "::new_" in name:
            args[term(v)] = (name.split("::new_")[-1], olds[0])
        elif name.endswith("::from_str") and "Arguments" in name:
            made[term(v)] = [("lit", olds[0].s)] if isinstance(olds[0], StrV) else None
        elif name.endswith("::new") and "Arguments" in name:
            t = template(a[0])
            vals = olds[1].base[1] if isinstance(olds[1], ArrV) and olds[1].base[0] == "list" else None
            if t is None or vals is None or sum(x is None for x in t) != len(vals):
                made[term(v)] = None
                continue
            it = iter(vals)
            made[term(v)] = [("lit", x) if x is not None else args.get(term(next(it)), ("?", None)) for x in t]
        elif "Formatter" in name and name.endswith("::write_fmt"):
            p = made.get(term(olds[1]))
            if p is None:
                return None
            out += p
        elif "Formatter" in name and (name.endswith("::write_str") or name.endswith("::pad")):
            s = olds[1] if len(olds) > 1 else None
            if isinstance(s, Ref):
                s = None
            if not isinstance(s, StrV):
                return None
            out.append(("lit", s.s))
        elif name.endswith("Display>::fmt") or name.endswith("Debug>::fmt") or name.endswith("Display::fmt") or name.endswith("Debug::fmt"):
            out.append(("display" if "Display" in name else "debug", olds[0]))
        elif "Formatter" in name or "fmt::" in name:
            return None
    # merge
    r = []
    for k, x in out:
        if k == "display" and isinstance(x, StrV):
            k, x = "lit", x.s
        if k == "lit" and r and r[-1][0] == "lit":
            r[-1] = ("lit", r[-1][1] + x)
        else:
            r.append((k, x))
    return r
