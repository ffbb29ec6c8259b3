"""C13: flips and rotations of a grid move the content of every cell to its mirrored or turned place. Decided by abstract
interpretation of the loops with symbolic sizes and an inductive rule: one iteration moves the content of the cells it touches
to their images and touches nothing else, different iterations touch different cells, and every cell that has to move is touched
by an iteration."""

from .common import *
from .perm import permutation, SIGMA


def harness():
    return expand("""
use sqrid::*;
pub fn flip_h<GG>(g: &mut [G]) { g.flip_h() }
pub fn flip_v<GG>(g: &mut [G]) { g.flip_v() }
pub fn rotate_cw<T, const W: u16, const SIZE: usize>(g: &mut Grid<T, Pos<W, W>, SIZE>) { g.rotate_cw() }
pub fn rotate_cc<T, const W: u16, const SIZE: usize>(g: &mut Grid<T, Pos<W, W>, SIZE>) { g.rotate_cc() }
pub fn abool(b: bool) -> bool { b }
""")


def check(c):
    pr = c.load("c13", harness())
    for r, s in SIGMA.items():
        permutation(c, pr, r, s, False, r.startswith("rotate"))
    c.floor("grid permutations", len(c.roots), 4)
