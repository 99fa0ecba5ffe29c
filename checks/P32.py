"""Exported views show the state."""
from vf.views import view_check


def check(c):
    n = c.n(24, 240)
    view_check(c, [(2, n), (3, n)], c.n(7, 9), ["P32."], need=["P32." + q for q in (
        "complete position radius absent values shades time step domain surface window connected whole normal kept separate beside saves").split()])
