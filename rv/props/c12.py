"""C12: Delaunay triangulation against its definition."""
from rene import exact

from .. import gen, ref, target
from ..base import Property
from .common import Own


def in_circle(a, b, c, p):
    """> 0 when p is strictly inside the circle of counterclockwise abc."""
    ax, ay, bx, by = a[0] - p[0], a[1] - p[1], b[0] - p[0], b[1] - p[1]
    cx, cy = c[0] - p[0], c[1] - p[1]
    return ((ax * ax + ay * ay) * (bx * cy - by * cx)
            - (bx * bx + by * by) * (ax * cy - ay * cx)
            + (cx * cx + cy * cy) * (ax * by - ay * bx))


def counterclockwise(triangle):
    return triangle if ref.orient(*triangle) > 0 else triangle[::-1]


def interiors_meet(s, t):
    """Counterclockwise triangles have a common interior point."""
    for k in (0, 1):
        if (max(p[k] for p in s) <= min(p[k] for p in t)
                or max(p[k] for p in t) <= min(p[k] for p in s)):
            return False
    for u, v in ((s, t), (t, s)):
        for i in range(3):
            if all(ref.orient(u[i - 1], u[i], p) <= 0 for p in v):
                return False
    return True


def overlapping(triangles):
    for i in range(len(triangles)):
        for j in range(i):
            if interiors_meet(triangles[i], triangles[j]):
                return triangles[i], triangles[j]
    return None


def not_delaunay(triangles, hull, points):
    """What is wrong, read off pairs of neighbours (linear in the size).

    Counterclockwise triangles whose inner edges have one on either side,
    whose outer edges are those of the hull and whose areas add up to it are
    a tiling, and a tiling is Delaunay when every two neighbours are.
    """
    sides = {}
    for t in triangles:
        for i in range(3):
            if (t[i - 1], t[i]) in sides:
                return f'two triangles on one side of {t[i - 1]}, {t[i]}'
            sides[t[i - 1], t[i]] = t[i - 2]
    hull_edges = set()
    hull = hull if ref.area2(hull) > 0 else hull[::-1]
    for i in range(len(hull)):
        p, q = hull[i - 1], hull[i]
        on = sorted((v for v in points if ref.on_segment(p, q, v)),
                    reverse=p > q)
        hull_edges.update(zip(on, on[1:]))
    for (p, q), opposite in sides.items():
        across = sides.get((q, p))
        if (across is None) is not ((p, q) in hull_edges):
            return f'{p}, {q} is an edge of one triangle only'
        if across is not None and in_circle(p, q, opposite, across) > 0:
            return f'{across} is inside the circle of {(p, q, opposite)}'
    return None


def point_set(src):
    if src.chance(1, 150):
        if src.bool():
            points = list(ref.points(gen.large_geometry(src)))
        else:
            n = src.choice((6, 9, 40, 1000))
            points = [gen.point(src, n)
                      for _ in range(src.choice((25, 40, 70, 90)))]
        f = gen.transform(src)
        return [f(p) for p in src.shuffled(points)]
    kind = src.below(7)
    n = src.choice((3, 2, 5, 9, 30))
    if kind == 0:
        points = [gen.point(src, n) for _ in range(src.int(0, 6))]
    elif kind == 1:
        # on one line, maybe with one more
        dx, dy = src.choice(((1, 0), (0, 1), (1, 1), (2, -3)))
        points = [(k * dx, k * dy)
                  for k in (src.int(0, 9) for _ in range(src.int(1, 8)))]
        if src.bool():
            points += [gen.point(src, n) for _ in range(src.int(1, 2))]
    elif kind == 2:
        # on one circle, maybe with more
        points = src.sample(
            [(0, 5), (5, 0), (-5, 0), (0, -5), (3, 4), (4, 3), (-3, 4),
             (-4, 3), (3, -4), (4, -3), (-3, -4), (-4, -3)], src.int(3, 12))
        if src.bool():
            points += [(src.zigzag(5), src.zigzag(5))
                       for _ in range(src.int(1, 4))]
    elif kind == 3:
        # whole grid
        points = [(i, j) for i in range(src.int(1, 5))
                  for j in range(src.int(1, 5))]
    elif kind == 4:
        points = list(ref.points(gen.region(src, gen.size(src))))
    else:
        points = [gen.point(src, n) for _ in range(src.int(3, 24))]
    if points and src.chance(1, 3):
        points += [src.choice(points) for _ in range(src.int(1, 4))]
    f = gen.transform(src)
    return [f(p) for p in src.shuffled(points)]


class C12(Property):
    id = 'C12'
    rule = ('0 to 28 points: free, collinear, cocircular, whole grids, '
            'polygon vertices, with repeats, under rational affine maps; '
            'triangles and border compared with hull, areas, separating '
            'lines and circumcircles; non-trivial with at least 2 triangles')
    quick = (40000, 240)
    thorough = (300000, 3000)

    def make(self, src):
        return tuple(point_set(src))

    def enumerated(self, tier):
        # all subsets of a small grid
        grid = [(i, j) for i in range(3) for j in range(3)]
        for mask in range(1 << 9):
            yield tuple(p for k, p in enumerate(grid) if mask >> k & 1)
        # more points than a call stack is deep
        for seed in range(4):
            yield tuple(gen.huge_ring(1200, seed))
        yield tuple((i % 34, i // 34) for i in range(1156))
        yield (*((i, 0) for i in range(1200)), (600, 1))
        yield tuple((i * i % 1009, i * i * i % 1013) for i in range(1200))
        yield tuple((0, i * 7 % 1201) for i in range(1201))

    def run(self, case, ctx):
        points = case
        distinct = set(points)
        objects = [target.point(p) for p in points]
        given = list(objects)
        # any sequence will do
        objects = (list, tuple, list, Own)[len(points) % 4](objects)
        result = exact.DelaunayTriangulation.from_points(objects)
        if list(objects) != given or [target.read_point(p)
                                for p in objects] != list(points):
            return 'points changed'
        triangles = [tuple(target.read_ring(t)) for t in result.triangles]
        if [tuple(target.read_ring(t)) for t in result.triangles] != triangles:
            return 'other triangles when asked again'
        ctx.nontrivial = len(triangles) > 1
        hull = gen.hull(points)
        ctx.tag('flat' if hull is None else 'solid')
        if bool(result) is not (len(distinct) > 1):
            return f'bool is {bool(result)} for {len(distinct)} points'
        if hull is None:
            if triangles:
                return f'triangles {triangles} of collinear points'
            try:
                border = result.border
            except ValueError:
                return None
            return f'border {border} of collinear points'
        for t in triangles:
            if len(t) != 3 or ref.orient(*t) == 0:
                return f'degenerate triangle {t}'
            if not set(t) <= distinct:
                return f'triangle {t} has a corner that was not given'
        triangles = [counterclockwise(t) for t in triangles]
        corners = {p for t in triangles for p in t}
        if corners != distinct:
            return f'points {distinct - corners} are in no triangle'
        if sum(map(ref.area2, triangles)) != abs(ref.area2(hull)):
            return 'areas of triangles do not sum up to the hull'
        if len(distinct) > 300:
            message = not_delaunay(triangles, hull, distinct)
            if message is not None:
                return message
        pair = overlapping(triangles[:300])
        if pair is not None:
            return f'triangles {pair} overlap'
        for t in triangles[:300]:
            for p in distinct:
                if p not in t and in_circle(*t, p) > 0:
                    return f'{p} is inside the circle of {t}'
        border = target.read_ring(result.border)
        if ref.ring_form(border) != ref.ring_form(hull):
            return f'border is {border}, not {hull}'
        return None


PROPERTY = C12()
