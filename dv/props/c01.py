"""C01: reported sight lines never cross an obstacle."""
from ..driver import Target
from . import sweep

TARGETS = [Target('scan', lambda E: sweep.scan(E, 'C01'))] + sweep.COMMON

ASSUMES = list(sweep.ASSUMES)
NEEDS = dict(sweep.NEEDS)
