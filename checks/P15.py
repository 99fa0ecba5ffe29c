"""Signed distances describe the shapes."""
from vf.sdfs import sdf_check


def check(c):
    n = c.n(30, 300)
    sdf_check(c, [(2, n), (3, n)], ["P15."], nsteps=c.n(2, 4),
              need=["P15.distance", "P15.normal", "P15.unit", "P15.friction", "P15.surface", "P15.lipschitz", "P15.finite"])
