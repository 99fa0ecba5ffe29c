"""Tensor helpers agree with continuum mechanics."""
from vf.maths import math_check


def check(c):
    math_check(c, c.n(400, 6000), ["P31."], need=["P31." + q for q in (
        "spin sym skew jaumann contraction pressure deviator J2 q tau volumetric rate eqstrain devstrain gamma kinetic plastic small voids balance "
        "lithostatic reconstruct rotate turn turn2 inverse slope norm hencky inertial robust stack").split()])
