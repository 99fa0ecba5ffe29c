"""Rigid objects move rigidly."""
from vf.sdfs import sdf_check


def check(c):
    n = c.n(20, 200)
    sdf_check(c, [(2, n), (3, n)], ["P14.", "P15."], nsteps=c.n(3, 6),
              need=["P14.centre", "P14.orientation", "P14.unit", "P14.velocities", "P14.wallvelocity", "P14.domain"])
