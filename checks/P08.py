"""Blending, advection and speed limit."""
from vf.steps import step_check


def check(c):
    step_check(c, [(5, c.n(18, 120)), (0, c.n(4, 40))], ["P08."], nsteps=c.n(1, 3),
               need=["P08.velocity", "P08.position", "P08.speedlimit"])
