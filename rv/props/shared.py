"""Steps on things several users may hold at once (C27, C28).

Beside the geometries themselves: a trapezoidation, a triangulation, the
sequence views, the boxes and a list of points given to `from_points`, all
made before the steps begin.
"""
from rene import exact

from .. import ref, target
from .c20 import C20, perform as perform_plain

EXTRA = ('graph', 'graph', 'mesh', 'views', 'boxes', 'corners', 'points')


def _views(spec, obj):
    kind = spec[0]
    if kind == 'S':
        return [(obj.start, obj.end)]
    if kind == 'M':
        return [obj.segments]
    if kind == 'C':
        return [obj.vertices, obj.segments]
    if kind == 'P':
        return [obj.holes, obj.border.vertices, obj.border.segments,
                *[hole.vertices for hole in obj.holes]]
    return [obj.polygons, *[polygon.border.vertices
                            for polygon in obj.polygons]]


class Held:
    """One geometry and what was made of it."""

    def __init__(self, spec):
        self.obj = obj = target.build(spec)
        self.box = self.graph = self.mesh = None
        self.views, self.points = (), []
        if spec[0] == 'E':
            return
        self.box = obj.bounding_box
        self.views = _views(spec, obj)
        self.points = [target.point(p) for p in ref.points(spec)]
        if spec[0] == 'P':
            self.graph = exact.Trapezoidation.from_polygon(
                obj, seeder=lambda: 7)
            self.mesh = exact.ConstrainedDelaunayTriangulation.from_polygon(
                obj)
        elif spec[0] == 'M':
            self.graph = exact.Trapezoidation.from_multisegment(
                obj, seeder=lambda: 11)
        if self.mesh is None:
            self.mesh = exact.DelaunayTriangulation.from_points(
                list(self.points))

    def snapshot(self):
        return (target.read(self.obj),
                [target.read_point(p) for p in self.points])


def hold(specs):
    return [Held(spec) for spec in specs]


def unchanged(specs, held):
    return [one.snapshot() for one in held] == [
        (spec, ref.points(spec) if spec[0] != 'E' else [])
        for spec in specs]


def _boxes(box, other):
    return (box.covers(other), box.disjoint_with(other),
            box.enclosed_by(other), box.encloses(other),
            box.equals_to(other), box.overlaps(other), box.touches(other),
            box.within(other), box.relate_to(other), box == other,
            hash(box) == hash(other), repr(box))


def perform(step, specs, held):
    name, i, j, point = step
    if name not in EXTRA:
        return perform_plain(step, specs, [one.obj for one in held])
    one, other = held[i], held[j % len(held)]
    if specs[i][0] == 'E':
        return repr(one.obj)
    if name == 'graph' and one.graph is not None:
        place = target.point(point)
        return (one.graph.locate(place), place in one.graph,
                one.graph.height)
    if name == 'mesh' or name == 'graph':
        triangles = [target.read_ring(t) for t in one.mesh.triangles]
        return triangles, triangles and target.read_ring(one.mesh.border)
    if name == 'views':
        result = []
        for view in one.views:
            result += [len(view), list(map(repr, view)), hash(tuple(view))]
            if len(view):
                result += [repr(view[-1]), view.index(view[-1]),
                           view.count(view[0]), view[0] in view]
        return result
    if name == 'boxes' and other.box is not None:
        return _boxes(one.box, other.box)
    if name == 'points':
        result = exact.DelaunayTriangulation.from_points(one.points)
        return [target.read_ring(t) for t in result.triangles]
    return [target.read_point(p) for p in sorted(one.points)]


def make(src):
    """(specs, steps) as C20 makes them, some steps on the things held."""
    specs, found = C20().make(src)
    result = []
    for step in found:
        if step[0] == 'foreign' or src.chance(1, 3):
            step = (src.choice(EXTRA), *step[1:])
        result.append(step)
    return specs, tuple(result)
