"""Builders and generators give points with the requested properties."""
from vf.bodies import body_check


def check(c):
    n = c.n(36, 400)
    body_check(c, [(2, n), (3, n)], c.n(7, 9), ["P30."], need=["P30." + q for q in (
        "index sizes rigid given default mass volume store density pressure q kinetic strain rate "
        "lattice bounds inside distinct complete sampled spread repeatable").split()])
