"""Objectivity and locality of the laws."""
from vf.laws import law_check


def check(c):
    law_check(c, [("gen_law_0", c.n(4, 40)), ("gen_law_1", c.n(4, 40)), ("gen_law_2", c.n(5, 40)), ("gen_law_3", c.n(14, 140)), ("gen_law_4", c.n(14, 140))],
              ["P23."], nsteps=c.n(6, 10), rotate=1,
              need=["P23.rotation", "P23.rotatedstate", "P23.spin", "P23.onlystress"])
