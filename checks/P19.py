"""Drucker-Prager."""
from vf.laws import law_check


def check(c):
    law_check(c, [("gen_law_3", c.n(40, 500))], ["P19."], nsteps=c.n(7, 12),
              need=["P19.elastic", "P19.cone", "P19.apex", "P19.vacuum", "P19.flow", "P19.hardening", "P19.admissible"])
