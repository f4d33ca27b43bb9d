"""C10: every byte written and read lies in the file."""
from .serial import TARGETS as ALL

_of = {t.name: t for t in ALL}
TARGETS = [_of[n] for n in ('words', 'places', 'crossing edges', 'size', 'writer under faults', 'any file')]
ASSUMES = ['at most 2^20 vertices and as many polygons when writing; files loaded of any length, counts in them arbitrary',
           'open, ftruncate, mmap and close keep their documented contracts and may fail at any call',
           'reading or writing a byte is an access to the mapped range; the range checks are those of the functions under contract',
           'the Polygon and Graph constructors, given arbitrary coordinates, yield some object or throw (C15, C11 for inputs in the domain)',
           'axioms of bits: x >> k, x & 1 and x | (1 << k) read and set the bit they name']
NEEDS = {'c11': ['cells of the matrix', 'queries']}
