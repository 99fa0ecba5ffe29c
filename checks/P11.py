"""Every force acts exactly on its targets."""
from vf.steps import step_check


def check(c):
    step_check(c, [(6, c.n(36, 200))], ["P11.", "P04.integrate"], nsteps=c.n(1, 3), need=["P11.gridforce", "P11.pointforce"])
