"""C09: the direction from one position to another is none exactly when they are equal; with diagonals it is the direction
whose components are the signs of the differences, without diagonals it is a cardinal direction that gets closer to the
target. Decided by abstract interpretation for every grid size and pair of positions."""

from .common import *

PG = "const XMAX: u16, const YMAX: u16"
PT = "Pos<XMAX, YMAX>"


def harness():
    return """
use sqrid::*;
pub fn pos<PG, const D: bool>(p: PT, q: PT) -> Option<Dir> { direction_to::<PT, D>(&p, &q) }
pub fn tup<const D: bool>(p: (i16, i16), q: (i16, i16)) -> Option<Dir> { direction_to::<(i16, i16), D>(&p, &q) }
pub fn tup8<const D: bool>(p: (u8, u8), q: (u8, u8)) -> Option<Dir> { direction_to::<(u8, u8), D>(&p, &q) }
""".replace("PG", PG).replace("PT,", PT + ",").replace("PT)", PT + ")").replace(": PT", ": " + PT).replace("<PT", "<" + PT)


def check(c):
    pr = c.load("c09", harness())
    R = Rust(pr)
    for root in ("pos", "tup", "tup8"):
        dty = R.okty(root)

        def sign(x, y, s):
            return {1: lt(x, y), 0: eq(x, y), -1: lt(y, x)}[s]

        def some(i):
            return R.some(root, enumv(dty, DIRS[i]))

        def diag(I, a):
            (x, y), (u, v) = leaves(a[0]), leaves(a[1])
            r = [([eq(x, u), eq(y, v)], R.none(root))]
            return r + [([sign(x, u, dx), sign(y, v, dy)], some(i)) for i, (dx, dy) in enumerate(DELTA)]

        def card(I, a, o):
            (x, y), (u, v) = leaves(a[0]), leaves(a[1])
            r = [([eq(x, u), eq(y, v)], R.none(root))]
            for dx in (-1, 0, 1):
                for dy in (-1, 0, 1):
                    if (dx, dy) == (0, 0):
                        continue
                    ok = [some(i) for i, d in enumerate(DELTA) if d in ((dx, 0), (0, dy)) and d != (0, 0)]

                    def want(I, o, st, ok=ok):
                        for w in ok:
                            if o.kind == "ret" and o.v == w:
                                return w
                        return ok[0]
                    r.append(([sign(x, u, dx), sign(y, v, dy)], want))
            return r
        c.cases(pr, root, diag, cvals={"D": 1}, name=root + " with diagonals")
        c.cases(pr, root, card, cvals={"D": 0}, name=root + " without diagonals")
    c.floor("position types", len(c.roots), 3)
