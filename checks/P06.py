"""Velocity gradients and affine transfer."""
from vf.steps import step_check


def check(c):
    step_check(c, [(3, c.n(16, 100)), (0, c.n(6, 60))], ["P06."], nsteps=c.n(1, 3),
               need=["P06.L", "P06.affine", "P06.exactgradient", "P06.exacttransfer"])
