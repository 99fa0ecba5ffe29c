"""Kinematics of deformation."""
from vf.steps import step_check


def check(c):
    step_check(c, [(0, c.n(12, 80)), (3, c.n(4, 40))], ["P07."], nsteps=c.n(2, 5),
               need=["P07.F", "P07.volume", "P07.history", "P07.planestrain", "P07.vol_is_detF"])
