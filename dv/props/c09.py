"""C09: a saved graph is loaded back.  What the writer proves of the file is what the reader assumes of it."""
from .serial import TARGETS as ALL

_of = {t.name: t for t in ALL}
TARGETS = [_of[n] for n in ('words', 'places', 'crossing edges', 'size', 'writer', 'reader')]
ASSUMES = ['at most 2^20 vertices and as many polygons; files of at most 2^44 bytes',
           'open, ftruncate, mmap and close keep their documented contracts: the mapped bytes are the bytes of the file, a fresh file reads as zeros',
           'the graph has the vertices of its polygons in their order, and adjacency and crossing flags are symmetric (the property quantifies over such graphs)',
           'the Polygon constructor, given the normalised vertices of a polygon, yields a polygon with the same vertices (C15, also discharged here)',
           'axioms of bits: x >> k, x & 1 and x | (1 << k) read and set the bit they name']
# contracts of the graph and polygon functions the writer and the reader call, proved of their bodies
NEEDS = {'c11': ['cells of the matrix', 'add edge', 'queries', 'construct'], 'c15': ['construct', 'again']}
