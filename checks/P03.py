"""Particle-to-grid transfer conserves and superposes."""
from vf.steps import step_check


def check(c):
    step_check(c, [(0, c.n(10, 60)), (4, c.n(12, 80)), (1, c.n(4, 30))], ["P03."], nsteps=c.n(1, 3),
               need=["P03.mass", "P03.momentum", "P03.force", "P03.totalmass", "P03.totalmomentum", "P03.internalforcesum"])
