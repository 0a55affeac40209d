"""C13: constrained Delaunay triangulation against its definition."""
from rene import exact

from .. import gen, ref, target
from ..base import Property
from .c12 import counterclockwise, in_circle, overlapping


def sub_edges(spec):
    """Polygon edges, split at polygon vertices lying on them."""
    points = set(ref.points(spec))
    result = set()
    for p, q in ref.segments(spec):
        spots = sorted(v for v in points if ref.on_segment(p, q, v))
        result.update(zip(spots, spots[1:]))
    return result


class C13(Property):
    id = 'C13'
    rule = ('one valid Polygon (holes touching the border or each other at '
            'points included) under rational affine maps; triangles and '
            'border compared with area, edges, separating lines, location '
            'of centroids and circumcircles of neighbours; non-trivial with '
            'at least 2 triangles')
    quick = (20000, 240)
    thorough = (250000, 3000)

    def make(self, src):
        if src.chance(1, 80):
            spec = gen.large_geometry(src)
            if not ref.is_shaped(spec):
                spec = gen.large_polygon(src)
            spec = gen.transformed(src, spec)[0]
            return ('P', *src.choice(ref.polygons(spec)))
        if src.chance(1, 4):
            return gen.transformed(src, gen.large_polygon(src))[0]
        spec = gen.transformed(src, gen.sound(gen.region(
            src, gen.size(src))))[0]
        return ('P', *src.choice(ref.polygons(spec)))

    def enumerated(self, tier):
        for seed in range(4):
            yield 'P', gen.huge_ring(300, seed), []
        holes = [[(3 * i + 1, 3 * j + 1), (3 * i + 3, 3 * j + 1),
                  (3 * i + 1, 3 * j + 2)] for i in range(7) for j in range(7)]
        yield 'P', [(0, 0), (25, 0), (25, 25), (0, 25)], holes

    def run(self, case, ctx):
        spec = case
        points = set(ref.points(spec))
        polygon = target.build(spec)
        result = exact.ConstrainedDelaunayTriangulation.from_polygon(polygon)
        triangles = [tuple(target.read_ring(t)) for t in result.triangles]
        ctx.nontrivial = len(triangles) > 1
        ctx.tag(f'{min(len(spec[2]), 3)} holes')
        if target.read(polygon) != spec:
            return 'polygon changed'
        if bool(result) is not True:
            return 'bool is False'
        for t in triangles:
            if len(t) != 3 or ref.orient(*t) == 0:
                return f'degenerate triangle {t}'
            if not set(t) <= points:
                return f'triangle {t} has a corner that is not a vertex'
        triangles = [counterclockwise(t) for t in triangles]
        if sum(map(ref.area2, triangles)) != ref.spec_area2(spec):
            return 'areas of triangles do not sum up to the polygon'
        pair = overlapping(triangles)
        if pair is not None:
            return f'triangles {pair} overlap'
        for t in triangles:
            middle = tuple(gen._div(t[0][i] + t[1][i] + t[2][i], 3)
                           for i in (0, 1))
            if ref.locate(spec, middle) != 'I':
                return f'triangle {t} is not inside'
        owners = {}
        for t in triangles:
            for i in range(3):
                edge = tuple(sorted((t[i - 1], t[i])))
                owners.setdefault(edge, []).append(t[i - 2])
        walls = sub_edges(spec)
        for edge in sorted(walls):
            if len(owners.get(edge, ())) != 1:
                return (f'polygon edge {edge} is on '
                        f'{len(owners.get(edge, ()))} triangles')
        for edge, opposite in owners.items():
            if edge in walls:
                continue
            if len(opposite) != 2:
                return f'inner edge {edge} is on {len(opposite)} triangles'
            t = counterclockwise((*edge, opposite[0]))
            if in_circle(*t, opposite[1]) > 0:
                return f'{opposite[1]} is inside the circle of {t}'
        border = target.read_ring(result.border)
        if ref.ring_form(border) != ref.ring_form(spec[1]):
            return f'border is {border}, not {spec[1]}'
        return None


PROPERTY = C13()
