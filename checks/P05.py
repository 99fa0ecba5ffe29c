"""Uniform motion, free fall, Galilean invariance."""
from vf.steps import step_check, sym_check


def check(c):
    step_check(c, [(2, c.n(6, 50)), (7, c.n(6, 50))], ["P05."], nsteps=2, need=["P05.velocity", "P05.position", "P05.undeformed"])
    sym_check(c, [("boost", c.n(8, 60))], ["P05."], need=["P05.galilean"])
