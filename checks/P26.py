"""Element tests impose their boundary conditions."""
from vf.elems import elem_check


def check(c):
    elem_check(c, c.n(30, 200), [c.n(8, 60), c.n(4, 30), c.n(4, 30), c.n(14, 120), c.n(14, 120)], ["P26."], need=["P26." + q for q in (
        "deformation volume mass gradient law untouched records finite rate lateral axial undrained meanstress drained still stride").split()])
