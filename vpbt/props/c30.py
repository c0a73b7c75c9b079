"""C30 surface processes: diffusion, filling below a base level, incision of a valley, sediment markers"""
from ..engine import Part
from . import c15

ID = "C30"
RULE = ("the worlds of C15 with diffusion of the surface, filling of basins with sediment markers, and incision of a valley, at rates from one to a few hundred substeps per step; "
        "heights, surface markers, sediment markers, tags and rock markers are recomputed from the previous output; non-trivial: at least one step in which the surface moved was compared")
ASSUMPTIONS = ["steps in which a decision lies within rounding (a height on the base level) are compared up to that decision only"]
PARTS = [Part("processes", c15.cases(processes=True), c15.check, 900, 12000)]
