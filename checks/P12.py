"""A solver works on exactly what it was given."""
from vf.steps import step_check


def check(c):
    step_check(c, [(6, c.n(22, 140))], ["P12.", "P03.", "P06.", "P07.", "P08.", "P11.stress"], nsteps=c.n(1, 3), need=["P12.frozen", "P12.bystanders", "P11.stress", "P03.mass"])
