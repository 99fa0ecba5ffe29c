"""Shape functions partition unity and reproduce linear fields."""
from vf.maps import map_check


def check(c):
    n = c.n(45, 500)
    map_check(c, [(2, n), (3, n // 2)], ["P01."], nsteps=c.n(2, 4),
              need=["P01.value", "P01.gradient", "P01.nonnegative", "P01.unity", "P01.linear", "P01.gradsum", "P01.gradlinear", "P01.affine"])
