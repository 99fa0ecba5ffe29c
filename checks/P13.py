"""Contact keeps material out and obeys Coulomb friction."""
from vf.steps import step_check


def check(c):
    step_check(c, [(9, c.n(36, 200))], ["P13.", "P14."], nsteps=c.n(1, 3),
               need=["P13.velocity", "P13.nopenetration", "P13.noadhesion", "P13.coulomb", "P13.separating", "P13.untouched", "P14.centre"])
