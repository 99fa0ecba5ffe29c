"""Critical time steps."""
from vf.laws import law_check


def check(c):
    law_check(c, [("gen_init_all", c.n(60, 600))], ["P25."], need=["P25.dtcrit"])
