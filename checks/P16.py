"""Sampled objects have the distance their samples define."""
from vf.voxels import vox_check


def check(c):
    vox_check(c, c.n(28, 280), c.n(2, 4), ["P16."], need=["P16." + q for q in "distance normal friction bounds refuses body inside cloud union cloudnormal".split()])
