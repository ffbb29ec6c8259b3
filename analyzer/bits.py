"""Words as vectors of bits.

A mask with a single bit is an atom pow2(n), a bit of a word is an atom bitof(word, n); the bit of a word made by and, or, xor,
shifts and complements is computed from the bits of its operands, so that two ways to write one bit operation agree in form."""

from .expr import P, Poly, ZERO, ONE, app, bounds, Atom, EVAL
from .interp import BoolV, eq, lt, le

WORDOPS = ("brev", "bswap", "and", "or", "xor", "shl", "shr", "select", "pow2", "bitof")


def _pow2(env, a):
    return 1 << max(0, min(env.poly(a.args[0]), 4096))


def _bitof(env, a):
    n = env.poly(a.args[1])
    return (env.poly(a.args[0]) >> n) & 1 if n >= 0 else 0


EVAL["pow2"] = _pow2
EVAL["bitof"] = _bitof


def moved(op, n, bits):
    """Where bit n of a permuted word comes from"""
    if op == "brev":
        return bits - 1 - n
    if op == "bswap":
        return (bits // 8 - 1 - n // 8) * 8 + n % 8
    return (n - int(op[3:])) % bits


def permuted(op, x, bits):
    """The word x with its bits reversed (brev), its bytes reversed (bswap) or turned left by k (rotk)"""
    c = x.const()
    if c is not None:
        return P(sum(1 << n for n in range(bits) if c >> moved(op, n, bits) & 1))
    EVAL.setdefault(op, lambda env, a: sum(1 << n for n in range(bits) if env.poly(a.args[0]) >> moved(op, n, bits) & 1))
    return P(app(op, (x,), 0, (1 << bits) - 1))


def pow2(n, bits):
    c = n.const()
    if c is not None:
        return P(1 << c)
    return P(app("pow2", (n,), 1, 1 << (bits - 1)))


def log2(x):
    """n when x is the mask 2^n"""
    c = x.const()
    if c is not None:
        return P(c.bit_length() - 1) if c > 0 and c & (c - 1) == 0 else None
    a = single(x)
    return a.args[0] if a is not None and a.kind == "app" and a.op == "pow2" else None


def single(x):
    """The atom a when x is a"""
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1:
            return m[0]
    return None


def isword(x):
    """Is x built by bit operations, or an element of an array?"""
    if x.const() is not None:
        return False
    return all(m == () or any(a.kind == "app" and (a.op in WORDOPS or a.op.startswith("rot")) for a in m) for m in x.t)


def bitof(I, st, x, n, bits):
    """Bit n (0: least significant) of the unsigned word x, as a polynomial with value 0 or 1"""
    x, n = st.facts.norm(x), st.facts.norm(n)
    full = (1 << bits) - 1
    c, nc = x.const(), n.const()
    if c is not None:
        if c == 0 or c == full:
            return P(int(c != 0))
        if nc is not None:
            return P((c >> nc) & 1)
        if c & (c - 1) == 0:
            return P(int(I.truth(st, eq(n, c.bit_length() - 1))))
        if c & (c + 1) == 0:
            return P(int(I.truth(st, lt(n, c.bit_length()))))
        return P(app("bitof", (x, n), 0, 1))
    if len(x.t) == 1:
        (m, k), = x.t.items()
        # factors with value 0 or 1 times one mask
        rest, mask = [], None
        if k > 1 and k & (k - 1) == 0:
            mask = P(k.bit_length() - 1)
        ok = k == 1 or mask is not None
        for a in m:
            if (a.lo, a.hi) == (0, 1):
                rest.append(a)
            elif a.kind == "app" and a.op == "pow2":
                mask = a.args[0] if mask is None else mask + a.args[0]
            else:
                ok = False
        if ok and (rest or mask is not None):
            if not I.truth(st, eq(n, mask if mask is not None else ZERO)):
                return ZERO
            r = ONE
            for a in rest:
                r = r * P(a)
            return r
        a = single(x)
        if a is not None and a.kind == "app":
            if a.op in ("and", "or", "xor"):
                p, q = bitof(I, st, a.args[0], n, bits), bitof(I, st, a.args[1], n, bits)
                return square(p * q if a.op == "and" else p + q - p * q if a.op == "or" else p + q - 2 * p * q)
            if (a.op in ("brev", "bswap") or a.op.startswith("rot")) and a.hi == full:
                if nc is not None:
                    return bitof(I, st, a.args[0], P(moved(a.op, nc, bits)), bits)
                if a.op == "brev":
                    return bitof(I, st, a.args[0], bits - 1 - n, bits)
            if a.op == "shr":
                if I.truth(st, lt(n + a.args[1], bits)):
                    return bitof(I, st, a.args[0], n + a.args[1], bits)
                return ZERO
            if a.op == "shl":
                if I.truth(st, le(a.args[1], n)):
                    return bitof(I, st, a.args[0], n - a.args[1], bits)
                return ZERO
            if a.op == "div":
                k = log2(a.args[1])
                if k is not None and bounds(a.args[0])[0] == 0:
                    if I.truth(st, lt(n + k, bits)):
                        return bitof(I, st, a.args[0], n + k, bits)
                    return ZERO
    y = P(full) - x
    if sum(c for c in x.t.values() if c < 0) and bounds(y)[0] is not None and bounds(y)[0] >= 0 and len(y.t) < len(x.t):
        return ONE - bitof(I, st, y, n, bits)
    b = bounds(x)
    if b == (0, 1):
        return x if I.truth(st, eq(n, 0)) else ZERO
    return P(app("bitof", (x, n), 0, 1))


def square(p):
    """b*b = b for the atoms with value 0 or 1"""
    r = ZERO
    for m, c in p.t.items():
        k = []
        for a in m:
            if not ((a.lo, a.hi) == (0, 1) and a in k):
                k.append(a)
        r = r + Poly({tuple(k): c})
    return r


def land(I, st, a, b, bits):
    """a & b when one of them is a mask with a single bit; None otherwise"""
    for x, y in ((a, b), (b, a)):
        n = log2(y)
        if n is not None and isword(x):
            return bitof(I, st, x, n, bits) * pow2(n, bits)
    return None


def shl(I, st, a, s, bits):
    n = log2(a)
    if n is not None:
        if I.truth(st, lt(n + s, bits)):
            return pow2(n + s, bits)
        return ZERO
    return None


def shr(I, st, a, s, bits):
    n = log2(a)
    if n is not None:
        if I.truth(st, le(s, n)):
            return pow2(n - s, bits)
        return ZERO
    return None
