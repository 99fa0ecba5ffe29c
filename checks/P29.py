"""Grid geometry and numbering agree."""
from vf.maps import map_check


def check(c):
    n = c.n(80, 900)
    map_check(c, [(2, n), (3, n)], ["P29."], nsteps=0,
              need=["P29.cell", "P29.origin", "P29.covers", "P29.snug", "P29.end", "P29.count", "P29.mesh", "P29.arrays", "P29.position"])
