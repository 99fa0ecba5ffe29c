"""Momentum balance of a step."""
from vf.steps import step_check


def check(c):
    step_check(c, [(1, c.n(8, 40)), (7, c.n(6, 30)), (8, c.n(8, 50)), (6, c.n(6, 30))], ["P04.", "P03.internalforcesum"], nsteps=c.n(1, 3),
               need=["P04.conserved", "P04.balance", "P04.integrate", "P04.nocontact"])
