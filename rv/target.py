"""Bridge between specs and the library under test (rene.exact)."""
from __future__ import annotations

from fractions import Fraction

from rene import exact
from rene.enums import Location, Orientation, Relation  # noqa: F401

LOCATIONS = {'B': Location.BOUNDARY, 'I': Location.INTERIOR,
             'E': Location.EXTERIOR}


def point(p):
    return exact.Point(p[0], p[1])


def contour(ring):
    return exact.Contour([point(p) for p in ring])


def polygon(border, holes):
    return exact.Polygon(contour(border), [contour(h) for h in holes])


def build(spec):
    kind = spec[0]
    if kind == 'E':
        return exact.Empty()
    if kind == 'S':
        return exact.Segment(point(spec[1]), point(spec[2]))
    if kind == 'M':
        return exact.Multisegment(
            [exact.Segment(point(p), point(q)) for p, q in spec[1]])
    if kind == 'C':
        return contour(spec[1])
    if kind == 'P':
        return polygon(spec[1], spec[2])
    return exact.Multipolygon([polygon(b, hs) for b, hs in spec[1]])


def number(value):
    numerator, denominator = int(value.numerator), int(value.denominator)
    return numerator if denominator == 1 else Fraction(numerator, denominator)


def read_point(p):
    return (number(p.x), number(p.y))


def read_ring(c):
    return [read_point(v) for v in c.vertices]


def read(obj):
    if isinstance(obj, exact.Empty):
        return ('E',)
    if isinstance(obj, exact.Segment):
        return ('S', read_point(obj.start), read_point(obj.end))
    if isinstance(obj, exact.Multisegment):
        return ('M', [(read_point(s.start), read_point(s.end))
                      for s in obj.segments])
    if isinstance(obj, exact.Contour):
        return ('C', read_ring(obj))
    if isinstance(obj, exact.Polygon):
        return ('P', read_ring(obj.border), [read_ring(h) for h in obj.holes])
    if isinstance(obj, exact.Multipolygon):
        return ('MP', [(read_ring(p.border), [read_ring(h) for h in p.holes])
                       for p in obj.polygons])
    raise TypeError(f'unexpected result type {type(obj)!r}')
