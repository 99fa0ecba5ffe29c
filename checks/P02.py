"""Every interaction couples a particle with the node it names."""
from vf.maps import map_check


def check(c):
    n = c.n(45, 500)
    # a node that should be reached and is not, or with another weight, is a value at the wrong node
    map_check(c, [(2, n), (3, n // 2)], ["P02.", "P01.value"], nsteps=c.n(2, 4),
              need=["P02.points", "P02.node", "P02.once", "P02.distance", "P02.scatter", "P02.average", "P02.empty", "P02.gather", "P02.shape"])
