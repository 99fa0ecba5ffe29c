"""Initial states."""
from vf.laws import law_check


def check(c):
    law_check(c, [("gen_init_all", c.n(40, 400)), ("gen_init_mcc", c.n(30, 300))], ["P24."],
              need=["P24.ocr", "P24.stress", "P24.density", "P24.points", "P24.kept", "P24.reference"])
