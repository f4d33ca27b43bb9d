"""C22: shapefile polygons become obstacles unaltered (Python layer, decided by dv/pyvc.py)."""
from .pylayer import SHAPES, GENERATE

TARGETS = []
HARNESS = False
PY = [SHAPES, GENERATE]
ASSUMES = ['pyshp: shapes() lists the shapes in file order; a shape\'s parts start at 0 and increase strictly within its points; points of a polygon are (x, y) pairs',
           'positions pass the native binding as they are given (rounding to microdegrees is C18)']
