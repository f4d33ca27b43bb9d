"""C02: every unobstructed vertex is reported."""
from ..driver import Target
from . import sweep

TARGETS = [Target('scan', lambda E: sweep.scan(E, 'C02'))] + sweep.COMMON

ASSUMES = list(sweep.ASSUMES)
NEEDS = dict(sweep.NEEDS, c16=['normalise'])
