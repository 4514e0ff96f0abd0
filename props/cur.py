"""A cursor as its users see it: position, remembered column, shared text."""
from .buf import *
from absint.world import coff, coff_cases

MOVES = ("move_to", "move_up", "move_down", "move_left", "move_right", "move_to_start_of_line", "move_to_end_of_line", "move_to_last_line", "move_to_first_line")


class Cur:
    def __init__(self, ctx, I, st, ref):
        lc = ctx.layout_cursor()
        v = I.force(st, I.val(st, ref))
        self.ok = v.op == "adt" and None not in (lc["data"], lc["position"], lc["sticky"])
        if not self.ok:
            return
        self.data = I.project(st, v, ("f", lc["data"]))
        self.pos = position(I, st, I.force(st, I.project(st, v, ("f", lc["position"]))))
        self.sticky = I.project(st, v, ("f", lc["sticky"]))
        self.text = None
        if self.data.op == "rc":
            c = I.read(st, self.data.args[0], (("cell",),))
            if c.op == "gb":
                self.text = c.args[0]


def same_pos(I, st, p, q):
    r = [equal(I, st, p[0], q[0]), equal(I, st, p[1], q[1])]
    return False if False in r else (None if None in r else True)


def in_bounds(I, st, text, p):
    """[(state, bool)]"""
    return [(s2, x is not None) for s2, x in coff_cases(I, st, text, p[0], p[1])]


def lines_of(text):
    return T("lines", text)


def graphemes_of(s):
    return T("graphemes", s, TRUE)
