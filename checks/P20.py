"""Modified Cam clay."""
from vf.laws import law_check


def check(c):
    law_check(c, [("gen_law_4", c.n(40, 400))], ["P20."], nsteps=c.n(7, 12),
              need=["P20.vacuum", "P20.elastic", "P20.wet", "P20.dry", "P20.hardening", "P20.admissible", "P20.onsurface"])
