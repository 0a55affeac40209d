"""Generators of valid geometries, biased to degenerate contact.

Everything is drawn from a Source on a small integer lattice, where touching,
overlapping, vertical, horizontal and concurrent edges are common; a case is
then mapped by one affine bijection (shear, scale, rational or huge
coordinates), which keeps every incidence and changes every sweep order.
"""
from __future__ import annotations

import random
from fractions import Fraction
from itertools import combinations, product

from . import cells, ref


# ------------------------------------------------------------------- rings

def normalize_ring(ring):
    """Drop collinear vertices; None if what remains is not simple."""
    ring = list(ring)
    while True:
        bad = [i for i in range(len(ring))
               if ring[i - 1] == ring[i]
               or ref.orient(ring[i - 1], ring[i],
                             ring[(i + 1) % len(ring)]) == 0]
        if not bad:
            break
        del ring[bad[0]]
        if len(ring) < 3:
            return None
    return ring if ref.ring_error(ring) is None else None


def point(src, n):
    return (src.int(0, n), src.int(0, n))


def distinct_points(src, n, count):
    result = []
    for _ in range(count * 2):
        p = point(src, n)
        if p not in result:
            result.append(p)
            if len(result) == count:
                break
    return result


def triangle(src, n):
    for _ in range(6):
        ring = [point(src, n) for _ in range(3)]
        if ref.orient(*ring):
            return ring
    return [(0, 0), (n, 0), (0, n)]


def rectangle(src, n):
    x, y = src.int(0, n - 1), src.int(0, n - 1)
    w, h = src.int(1, n - x), src.int(1, n - y)
    return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]


def hull(points):
    points = sorted(set(points))
    if len(points) < 3:
        return None

    def half(points):
        chain = []
        for p in points:
            while len(chain) > 1 and ref.orient(chain[-2], chain[-1], p) <= 0:
                chain.pop()
            chain.append(p)
        return chain[:-1]

    ring = half(points) + half(points[::-1])
    return ring if len(ring) > 2 else None


def convex(src, n):
    return hull(distinct_points(src, n, src.int(4, 8))) or triangle(src, n)


def untangled(src, n):
    """Random polygon by 2-opt of a random tour."""
    pts = distinct_points(src, n, src.int(4, 8))
    if len(pts) < 3:
        return triangle(src, n)
    untangle(pts)
    return normalize_ring(pts) or hull(pts) or triangle(src, n)


def untangle(pts):
    """Reverse stretches of the tour while some of its edges meet."""
    for _ in range(40):
        count = len(pts)
        for i in range(count - 1):
            found = False
            for j in range(i + 1, count):
                if i == 0 and j == count - 1:
                    continue
                a, b = pts[i], pts[i + 1]
                c, d = pts[j], pts[(j + 1) % count]
                contact = ref.segments_contact(a, b, c, d)
                if contact is None or (j == i + 1 and contact[0] == 'point'):
                    continue
                pts[i + 1:j + 1] = pts[i + 1:j + 1][::-1]
                found = True
                break
            if found:
                break
        else:
            break


def retied(src, ring):
    """Another ring of the same vertices, if one turns up."""
    for _ in range(3):
        pts = src.shuffled(list(ring))
        if len(pts) > 12:
            break
        untangle(pts)
        new = normalize_ring(pts)
        if new is not None and len(new) == len(ring):
            return new
    return reorder(src, list(ring))


def turned(src, spec):
    """The spec mirrored within its own box."""
    points = ref.points(spec)
    cx = min(x for x, _ in points) + max(x for x, _ in points)
    cy = min(y for _, y in points) + max(y for _, y in points)
    return ref.map_points(spec, src.choice((
        lambda p: (cx - p[0], p[1]), lambda p: (p[0], cy - p[1]),
        lambda p: (cx - p[0], cy - p[1]))))


def comb(src, n):
    """x-monotone comb / staircase polygon: many vertical edges."""
    xs = sorted(set(src.int(0, n) for _ in range(src.int(2, 5))))
    if len(xs) < 2:
        xs = [0, n]
    base = src.int(0, n - 1)
    ring = [(xs[0], base), (xs[-1], base)]
    top = []
    for lo, hi in zip(xs, xs[1:]):
        h = src.int(base + 1, n)
        top += [(lo, h), (hi, h)]
    return normalize_ring(ring + top[::-1]) or triangle(src, n)


def ring(src, n):
    kind = src.weighted([(4, triangle), (3, rectangle), (3, convex),
                         (6, untangled), (2, comb)])
    result = kind(src, n)
    return reorder(src, result)


def reorder(src, ring):
    """Random starting vertex and direction."""
    k = src.below(len(ring))
    ring = ring[k:] + ring[:k]
    return ring[::-1] if src.bool() else ring


# ------------------------------------------------------- triangulated meshes

class Mesh:
    """k x k cells, jittered vertices, random diagonals."""

    def __init__(self, src):
        self.columns = src.int(1, 4)
        self.rows = src.int(1, 4)
        jitter = src.bool()
        self.vertices = {}
        for i in range(self.columns + 1):
            for j in range(self.rows + 1):
                dx, dy = ((src.zigzag(1), src.zigzag(1)) if jitter else (0, 0))
                step = 5 if jitter else 2
                self.vertices[i, j] = (step * i + dx, step * j + dy)
        self.triangles = []
        for i in range(self.columns):
            for j in range(self.rows):
                a, b = (i, j), (i + 1, j)
                c, d = (i + 1, j + 1), (i, j + 1)
                self.triangles += ([(a, b, c), (a, c, d)] if src.bool()
                                   else [(a, b, d), (b, c, d)])
        self.size = max(max(v) for v in self.vertices.values())

    def select(self, src):
        style = src.below(4)
        if style == 0:
            return [t for t in self.triangles if src.bool()]
        if style == 1:
            return [t for t in self.triangles if not src.chance(1, 4)]
        if style == 2:
            keep = []
            for i in range(0, len(self.triangles), 2):
                if src.bool():
                    keep += self.triangles[i:i + 2]
            return keep
        return [t for t in self.triangles if src.chance(1, 4)]

    def region(self, triangles):
        """Spec of the union of mesh triangles."""
        sides = {}
        for t in triangles:
            for i in range(3):
                sides[t[i - 1], t[i]] = t
        parent = {t: t for t in triangles}

        def find(t):
            while parent[t] != t:
                t = parent[t]
            return t

        for (a, b), t in sides.items():
            if (b, a) in sides:
                parent[find(t)] = find(sides[b, a])
        groups = {}
        for t in triangles:
            groups.setdefault(find(t), []).append(t)
        polys = []
        for group in groups.values():
            poly = self._trace(group)
            if poly is not None:
                polys.append(poly)
        return polys

    def _trace(self, triangles):
        edges = set()
        for t in triangles:
            for i in range(3):
                a, b = t[i - 1], t[i]
                if (b, a) in edges:
                    edges.remove((b, a))
                else:
                    edges.add((a, b))
        outgoing = {}
        for a, b in sorted(edges):
            outgoing.setdefault(a, []).append(b)
        loops = []
        while outgoing:
            start = min(outgoing)
            path = [start]
            position = {start: 0}
            while True:
                u = path[-1]
                v = outgoing[u].pop()
                if not outgoing[u]:
                    del outgoing[u]
                if v in position:
                    k = position[v]
                    loop = path[k:]
                    for w in loop[1:]:
                        del position[w]
                    del path[k + 1:]
                    loops.append(loop)
                    if v not in outgoing:
                        break
                    if len(path) == 1 and v != start:
                        break
                else:
                    position[v] = len(path)
                    path.append(v)
            if len(path) > 1:
                return None
        border, holes = None, []
        for loop in loops:
            ring = normalize_ring([self.vertices[v] for v in loop])
            if ring is None:
                return None
            if ref.area2(ring) > 0:
                if border is not None:
                    return None
                border = ring
            else:
                holes.append(ring)
        if border is None:
            return None
        if holes and ref.polygon_error(border, holes) is not None:
            return (border, [])
        return (border, holes)

    def edges(self):
        result = set()
        for t in self.triangles:
            for i in range(3):
                p, q = sorted((self.vertices[t[i - 1]], self.vertices[t[i]]))
                result.add((p, q))
        return sorted(result)


def to_region(polys):
    if not polys:
        return None
    if len(polys) == 1:
        return ('P', polys[0][0], polys[0][1])
    return ('MP', list(polys))


def mesh_region(src, mesh):
    polys = mesh.region(mesh.select(src))[:src.choice((5, 2, 1))]
    polys = [(reorder(src, border), [reorder(src, hole) for hole in holes])
             for border, holes in src.shuffled(polys)]
    return to_region(polys) or ('P', *mesh.region(mesh.triangles[:1])[0])


# ----------------------------------------------------------------- polygons

def grown(src, n, count):
    """Random polygon of many vertices: edges of a triangle dented."""
    ring = triangle(src, n)
    for _ in range(count * 3):
        if len(ring) >= count:
            break
        v = point(src, n)
        if v in ring:
            continue
        i = src.below(len(ring))
        a, b = ring[i - 1], ring[i]
        free = True
        for j in range(len(ring)):
            c, d = ring[j - 1], ring[j]
            if j == i:
                free = not ref.on_segment(a, b, v)
            else:
                for u in (a, b):
                    contact = ref.segments_contact(u, v, c, d)
                    if contact is not None and (
                            u not in (c, d) or contact[0] != 'point'):
                        free = False
            if not free:
                break
        if free:
            ring.insert(i, v)
    return reorder(src, normalize_ring(ring) or triangle(src, n))


def large_polygon(src):
    """Polygon of up to 40 vertices in the border, with holes."""
    n = src.choice((6, 10, 20, 40))
    kind = src.below(3)
    if kind == 0:
        border = [(0, 0), (n, 0), (n, n), (0, n)]
    else:
        border = grown(src, n, src.int(6, 40))
    holes = []
    for _ in range(src.int(0, 4)):
        hole = grown(src, src.choice((3, n // 2, n)), src.int(3, 12))
        dx, dy = src.below(n), src.below(n)
        hole = [(x + dx, y + dy) for x, y in hole]
        if ref.polygon_error(border, [*holes, hole]) is None:
            holes.append(hole)
    return ('P', border, holes)


def holes_for(src, border, count, n):
    holes = []
    if not count:
        return holes
    xs = [p[0] for p in border]
    ys = [p[1] for p in border]
    lo_x, hi_x, lo_y, hi_y = min(xs), max(xs), min(ys), max(ys)
    for _ in range(count):
        for _ in range(4):
            if src.chance(1, 3):
                hole = [(src.int(lo_x, hi_x), src.int(lo_y, hi_y))
                        for _ in range(src.int(3, 4))]
            else:
                x, y = src.int(lo_x, hi_x), src.int(lo_y, hi_y)
                w = src.int(1, 2)
                hole = src.choice((
                    [(x, y), (x + w, y), (x, y + w)],
                    [(x, y), (x + w, y), (x + w, y + w), (x, y + w)],
                    [(x, y), (x + w, y + w), (x - w, y + w)],
                    [(x - w, y), (x, y - w), (x + w, y), (x, y + w)]))
            hole = normalize_ring(hole)
            if hole is None:
                continue
            hole = reorder(src, hole)
            if ref.polygon_error(border, [*holes, hole]) is None:
                holes.append(hole)
                break
    return holes


def polygon(src, n):
    border = ring(src, n)
    count = src.weighted([(5, 0), (3, 1), (2, 2), (1, 3)])
    if count and src.bool():
        m = max(n, 5)
        border = reorder(src, [(0, 0), (m, 0), (m, m), (0, m)])
    return ('P', border, holes_for(src, border, count, n))


def multipolygon(src, n):
    polys = []
    count = src.int(2, 4)
    for _ in range(count * 3):
        _, border, holes = polygon(src, max(2, n // 2))
        dx, dy = src.int(0, n), src.int(0, n)
        _, border, holes = ref.map_points(
            ('P', border, holes), lambda p: (p[0] + dx, p[1] + dy))
        if holes and src.chance(1, 3):
            # an island filling (part of) a hole
            island = holes[0]
            inner = [((island[i][0] * 2 + island[i - 1][0] * 2) // 4,
                      (island[i][1] * 2 + island[i - 1][1] * 2) // 4)
                     for i in range(len(island))]
            inner = normalize_ring(inner)
            if inner is not None and ref.multipolygon_error(
                    [*polys, (border, holes), (inner, [])]) is None:
                polys += [(border, holes), (inner, [])]
                continue
        if ref.multipolygon_error([*polys, (border, holes)]) is None:
            polys.append((border, holes))
            if len(polys) == count:
                break
    return to_region(src.shuffled(polys))


def region(src, n, mesh=None):
    kind = src.below(8)
    if kind < 3:
        return polygon(src, n)
    if kind < 6:
        return mesh_region(src, mesh if mesh is not None else Mesh(src))
    return multipolygon(src, n)


def valid_region(polys):
    """Region spec of those polygons, or None if not valid together."""
    spec = to_region(polys)
    if spec is None or ref.error(spec) is not None:
        return None
    return spec


def inner_point(src, a):
    """A point in the interior of region a (in a hole of it, rarely)."""
    rings_ = ref.rings(a)
    for _ in range(4):
        ring_ = src.choice(rings_)
        i = src.below(len(ring_))
        p, q = ring_[i - 1], ring_[i]
        r = src.choice(ring_)
        if r in (p, q):
            r = ring_[i - 2]
        c = (_div(p[0] + 2 * q[0] + r[0], 4), _div(p[1] + 2 * q[1] + r[1], 4))
        if ref.locate(a, c) == 'I':
            return c
    return _div(p[0] + q[0], 2), _div(p[1] + q[1], 2)


def miniature(src, a, spec):
    """The spec scaled down to around an inner point of region a."""
    c = inner_point(src, a)
    o = src.choice(ref.points(spec))
    k = src.choice((16, 5, 101))
    return ref.map_points(spec, lambda p: (c[0] + _div(p[0] - o[0], k),
                                           c[1] + _div(p[1] - o[1], k)))


def surrounding(src, a):
    """Rectangle around a, maybe with a as a hole or with a hole around a."""
    points = ref.points(a)
    xs, ys = [p[0] for p in points], [p[1] for p in points]
    m = src.int(0, 2)

    def box(k):
        return [(min(xs) - k, min(ys) - k), (max(xs) + k, min(ys) - k),
                (max(xs) + k, max(ys) + k), (min(xs) - k, max(ys) + k)]

    outer = reorder(src, box(m + 1))
    kind = src.below(3)
    if kind == 0:
        return valid_region([(outer, [])])
    if kind == 1:
        return valid_region([(outer, [box(m)])])
    return valid_region([(outer, [reorder(src, border)
                                  for border, _ in ref.polygons(a)])])


def related_region(src, a, n):
    """Region sharing features with region a."""
    polys = ref.polygons(a)
    kind = src.below(14)
    if kind == 0:
        return a
    if kind == 12:
        return turned(src, a)
    if kind == 13:
        index = src.below(len(polys))
        border, holes = polys[index]
        new = retied(src, border)
        rest = polys[:index] + polys[index + 1:]
        return (valid_region([(new, holes), *rest])
                or valid_region([(new, []), *rest])
                or valid_region([(new, [])]) or a)
    if kind == 9:
        return miniature(src, a, src.choice((a, polygon(src, n))))
    if kind == 10:
        return surrounding(src, a) or a
    if kind == 11:
        # a part filling (part of) a hole, or a hole cut around a miniature
        inner = miniature(src, a, ('P', ring(src, n), []))
        parts = [(border, [*holes, inner[1]]) for border, holes in polys]
        return (valid_region([parts[0], *polys[1:]])
                or valid_region([(inner[1], []), *polys]) or inner)
    if kind == 1:
        result = valid_region([(border, []) for border, _ in polys])
    elif kind == 2:
        result = valid_region([(hole, []) for _, holes in polys
                               for hole in holes])
    elif kind == 3:
        result = valid_region([p for p in polys if src.bool()])
    elif kind == 4:
        keep = [(b, [h for h in hs if src.bool()]) for b, hs in polys]
        result = valid_region(keep)
    elif kind == 5:
        dx, dy = src.zigzag(2), src.zigzag(2)
        return ref.map_points(a, lambda p: (p[0] + dx, p[1] + dy))
    elif kind == 6:
        c = src.int(0, n)
        f = src.choice((lambda p: (c - p[0], p[1]),
                        lambda p: (p[0], c - p[1]),
                        lambda p: (p[1], p[0]),
                        lambda p: (2 * p[0] - c, 2 * p[1] - c)))
        return ref.map_points(a, f)
    else:
        # move / drop / insert a vertex of one ring
        index = src.below(len(polys))
        border, holes = polys[index]
        ring_ = list(border)
        i = src.below(len(ring_))
        action = src.below(3)
        if action == 0:
            ring_[i] = (ring_[i][0] + src.zigzag(2),
                        ring_[i][1] + src.zigzag(2))
        elif action == 1:
            del ring_[i]
        else:
            ring_.insert(i, point(src, n))
        new = normalize_ring(ring_) if len(ring_) > 2 else None
        if new is None:
            return a
        rest = [p for k, p in enumerate(polys)
                if k != index and src.bool()]
        result = (valid_region([(new, holes), *rest])
                  or valid_region([(new, [])]))
    return result or a


# ------------------------------------------------------------------- linear

def segment_pair(src, n):
    for _ in range(4):
        p, q = point(src, n), point(src, n)
        if p != q:
            return (p, q)
    return ((0, 0), (n, n))


def compatible(segs, new):
    p, q = new
    for a, b in segs:
        contact = ref.segments_contact(a, b, p, q)
        if contact is None:
            continue
        if contact[0] == 'overlap':
            return False
        if contact[1] not in (a, b) and contact[1] not in new:
            return False
    return True


def to_multisegment(src, candidates, limit=8):
    segs = []
    for p, q in candidates:
        if p != q and compatible(segs, (p, q)):
            segs.append((q, p) if src.bool() else (p, q))
            if len(segs) == limit:
                break
    if not segs:
        return None
    if len(segs) == 1:
        return ('S', *segs[0])
    return ('M', segs)


def lerp(p, q, k, m):
    x, y = p[0] * (m - k) + q[0] * k, p[1] * (m - k) + q[1] * k
    return (_div(x, m), _div(y, m))


def _div(a, b):
    result = Fraction(a) / b
    return int(result) if result.denominator == 1 else result


def contour(src, n, mesh=None):
    if mesh is not None and src.bool():
        polys = mesh.region(mesh.select(src))
        rings = [r for b, hs in polys for r in (b, *hs)]
        if rings:
            return ('C', reorder(src, src.choice(rings)))
    return ('C', ring(src, n))


def multisegment(src, n, mesh=None):
    if mesh is not None and src.bool():
        candidates = [e for e in mesh.edges() if src.bool()]
        candidates = src.shuffled(candidates)[:10]
    else:
        candidates = [segment_pair(src, n) for _ in range(src.int(2, 8))]
    result = to_multisegment(src, candidates)
    return result or ('S', *segment_pair(src, n))


def linear(src, n, mesh=None):
    kind = src.below(6)
    if kind == 0:
        return ('S', *segment_pair(src, n))
    if kind < 4:
        return multisegment(src, n, mesh)
    return contour(src, n, mesh)


def sub_pieces(src, segs):
    """Random collinear relatives of segments: parts, extensions, halves."""
    result = []
    for p, q in segs:
        kind = src.below(6)
        if kind == 0:
            result.append((p, q))
        elif kind == 1:
            result.append((p, lerp(p, q, 1, 2)))
        elif kind == 2:
            result.append((lerp(p, q, 1, 4), lerp(p, q, 3, 4)))
        elif kind == 3:
            result += [(p, lerp(p, q, 1, 2)), (lerp(p, q, 1, 2), q)]
        elif kind == 4:
            result.append((lerp(p, q, -1, 2), lerp(p, q, src.choice(
                (1, 2, 3, -1)), 2)))
        else:
            result.append((lerp(p, q, 1, 2), lerp(p, q, 3, 2)))
    return [s for s in result if s[0] != s[1]]


def related_linear(src, a, n):
    """Linear geometry sharing features with geometry a."""
    segs = ref.segments(a)
    rings_ = ref.rings(a)
    verts = sorted(set(p for s in segs for p in s))
    kind = src.below(14)
    if kind == 12 and rings_:
        return ('C', retied(src, src.choice(rings_)))
    if kind == 13 and ref.is_linear(a):
        return turned(src, a)
    if kind == 10 and ref.is_shaped(a):
        return miniature(src, a, src.choice(
            (linear(src, n), ('C', rings_[0]))))
    if kind == 11 and ref.is_shaped(a):
        # close to a ring, on either side of it
        c = inner_point(src, a)
        ring_ = [lerp(c, p, src.choice((3, 4, 5, 4)), 4)
                 for p in src.choice(rings_)]
        new = normalize_ring(ring_)
        if new is not None:
            return ('C', reorder(src, new))
    if kind == 0 and ref.is_linear(a):
        return a
    if kind == 1 and rings_:
        return ('C', reorder(src, src.choice(rings_)))
    result = None
    if kind in (2, 3):
        result = to_multisegment(src, src.shuffled(
            [s for s in segs if src.bool()]))
    elif kind in (4, 5):
        picked = [s for s in segs if src.bool()] or segs[:1]
        result = to_multisegment(src, src.shuffled(
            sub_pieces(src, picked[:6])))
    elif kind == 6:
        # chords between vertices / edge midpoints
        spots = verts + [lerp(p, q, 1, 2) for p, q in segs]
        candidates = [(src.choice(spots), src.choice(spots))
                      for _ in range(src.int(1, 4))]
        result = to_multisegment(src, candidates)
    elif kind == 7:
        # lines through vertices, starting or ending anywhere
        candidates = []
        for _ in range(src.int(1, 4)):
            p, q = src.choice(verts), point(src, n)
            candidates.append((p, q) if src.bool()
                              else (lerp(p, q, -1, 1), q))
        result = to_multisegment(src, candidates)
    elif kind == 8:
        spots = sorted(set(verts + [point(src, n) for _ in range(3)]))
        chosen = src.sample(spots, min(len(spots), src.int(3, 6)))
        new = normalize_ring(chosen) if len(chosen) > 2 else None
        if new is not None:
            result = ('C', new)
    if result is None:
        candidates = [s for s in segs if src.chance(1, 3)][:4]
        candidates += [segment_pair(src, n) for _ in range(src.int(1, 3))]
        result = to_multisegment(src, src.shuffled(candidates))
    return result or ('S', *segment_pair(src, n))


# --------------------------------------------------------- affine bijections

def transform(src):
    """Random affine bijection of the plane as a point function."""
    kind = src.below(6)
    if kind < 2:
        return lambda p: p
    if kind == 2:
        a, b, c, d = src.choice((
            (0, 1, 1, 0), (0, -1, 1, 0), (-1, 0, 0, 1), (1, 0, 0, -1),
            (1, 1, 0, 1), (1, 0, 1, 1), (2, 1, 1, 1), (1, 2, -1, 1)))
        ox = oy = 0
        m = 1
    elif kind == 3:
        a, b = src.zigzag(5), src.zigzag(5)
        c, d = src.zigzag(5), src.zigzag(5)
        if a * d == b * c:
            a, b, c, d = 1, 2, 3, 5
        ox, oy = src.zigzag(50), src.zigzag(50)
        m = 1
    elif kind == 4:
        a, b, c, d = src.choice(((1, 0, 0, 1), (0, 1, 1, 0), (1, 1, -1, 1),
                                 (3, 1, 1, 2)))
        ox, oy = src.zigzag(9), src.zigzag(9)
        m = src.choice((2, 3, 7, 10, 997))
    else:
        big = src.choice((10 ** 6, 10 ** 9 + 7, 2 ** 53 + 1, 10 ** 20 + 39))
        a, b, c, d = src.choice(((1, 0, 0, 1), (0, 1, -1, 0), (1, 1, -1, 1)))
        ox, oy = big * src.zigzag(3), big * src.zigzag(3)
        scale = src.choice((1, big))
        a, b, c, d = a * scale, b * scale, c * scale, d * scale
        m = src.choice((1, 1, 3, big + 2))
    if m == 1:
        return lambda p: (a * p[0] + b * p[1] + ox, c * p[0] + d * p[1] + oy)
    return lambda p: (Fraction(a * p[0] + b * p[1] + ox) / m,
                      Fraction(c * p[0] + d * p[1] + oy) / m)


def transformed(src, *specs):
    f = transform(src)
    return tuple(ref.map_points(spec, f) for spec in specs)


def size(src):
    return src.choice((3, 4, 6, 2, 8, 12))


def represented(src, spec):
    """The same geometry with other starts, directions and part orders."""
    kind = spec[0]
    if kind == 'S':
        return ('S', spec[2], spec[1]) if src.bool() else spec
    if kind == 'M':
        return ('M', [(q, p) if src.bool() else (p, q)
                      for p, q in src.shuffled(list(spec[1]))])
    if kind == 'C':
        return ('C', reorder(src, list(spec[1])))
    if kind in ('P', 'MP'):
        polys = [(reorder(src, list(border)),
                  [reorder(src, list(hole))
                   for hole in src.shuffled(list(holes))])
                 for border, holes in src.shuffled(list(ref.polygons(spec)))]
        return ('P', *polys[0]) if kind == 'P' else ('MP', polys)
    return spec


def relative(src, spec):
    """Almost the same geometry, or another kind of the same shape."""
    kind = src.below(5)
    segs, rings_ = ref.segments(spec), ref.rings(spec)
    polys = ref.polygons(spec) if spec[0] in ('P', 'MP') else []
    if kind == 0:
        others = [('S', *s) for s in segs[:1]]
        others += [('C', list(ring)) for ring in rings_]
        others += [('P', list(ring), []) for ring in rings_]
        others += [('P', *poly) for poly in polys]
        if len(segs) > 1:
            others.append(('M', list(segs)))
        if spec[0] in ('P', 'C'):
            new = retied(src, spec[1])
            others += [(spec[0], new, *spec[2:])]
        if others:
            return src.choice(others)
    if kind == 4:
        # without some part
        others = []
        if len(polys) > 2:
            others += [('MP', polys[1:]), ('MP', polys[:-1])]
        if spec[0] == 'M' and len(segs) > 2:
            others += [('M', list(segs[1:])), ('M', list(segs[:-1]))]
        for i, (border, holes) in enumerate(polys):
            for part in ([], holes[1:], holes[:-1]) if holes else ():
                others.append(to_region(
                    [*polys[:i], (border, part), *polys[i + 1:]]))
        if others:
            return src.choice(others)
    points = ref.points(spec)
    v = src.choice(points) if points else (0, 0)
    if kind == 1:
        step = src.choice((1, _div(1, 3), _div(1, 10 ** 25), 10 ** 25))
        w = (v[0] + step * src.zigzag(1), v[1] + step * src.zigzag(1))
        return ref.map_points(spec, lambda p: w if p == v else p)
    if kind == 2:
        w = src.choice(points) if points else v
        return ref.map_points(
            spec, lambda p: w if p == v else v if p == w else p)
    f = transform(src)
    return ref.map_points(spec, f)


def hash_twins(src, spec):
    """Different geometries whose coordinates have the same hashes."""
    points = ref.points(spec)
    if not points:
        return []
    modulus = 2 ** 61 - 1
    kind = src.below(3)
    if kind == 0:
        # hash(-1) == hash(-2)
        v = src.choice(points)
        axis = src.below(2)

        def onto(value):
            return tuple(value if k == axis else v[k] for k in (0, 1))

        shift = tuple(onto(-1)[k] - v[k] for k in (0, 1))
        here, there = onto(-1), onto(-2)
        moved = ref.map_points(
            spec, lambda p: (p[0] + shift[0], p[1] + shift[1]))
        return [moved, ref.map_points(
            moved, lambda p: there if p == here else p)]
    dx, dy = src.choice(((1, 0), (0, 1), (1, 1), (-1, 1), (2, 0)))

    def far(p):
        return p[0] + dx * modulus, p[1] + dy * modulus

    if kind == 1 and spec[0] in ('M', 'MP'):
        parts = list(spec[1])
        i = src.below(len(parts))
        kind_ = 'S' if spec[0] == 'M' else 'P'
        parts[i] = ref.map_points((kind_, *parts[i]), far)[1:]
        return [(spec[0], parts)]
    return [ref.map_points(spec, far)]


# ------------------------------------------- contact at one point or line

DIRECTIONS = ((1, 0), (2, 1), (1, 1), (1, 2), (0, 1), (-1, 2), (-1, 1),
              (-2, 1), (-1, 0), (-2, -1), (-1, -1), (-1, -2), (0, -1),
              (1, -2), (1, -1), (2, -1))


def along(center, index, length):
    dx, dy = DIRECTIONS[index % 16]
    return (center[0] + dx * length, center[1] + dy * length)


def star_linear(src, center):
    """Linear geometry with (nearly) all contact at the center."""
    kind = src.below(5)
    if kind == 0:
        i = src.below(16)
        return ('S', along(center, i, src.int(1, 2)),
                src.choice((center, along(center, i + 8, src.int(1, 2)))))
    if kind < 3:
        picked = src.sample(list(range(16)), src.int(2, 6))
        candidates = []
        for i in picked:
            near, far = along(center, i, 1), along(center, i, 2)
            candidates += src.choice((
                [(center, near)], [(center, far)], [(near, far)],
                [(center, near), (near, far)],
                [(far, along(center, i + 8, 1))]))
        result = to_multisegment(src, src.shuffled(candidates))
        if result is not None:
            return result
    i, j = src.sample(list(range(16)), 2)
    ring_ = [along(center, i, src.int(1, 2)), center,
             along(center, j, src.int(1, 2))]
    for _ in range(src.int(0, 2)):
        ring_.append(along(center, src.below(16), src.int(2, 3)))
    ring_ = normalize_ring(ring_)
    if ring_ is None:
        return ('S', center, along(center, i, 1))
    return ('C', reorder(src, ring_))


def star_region(src, center):
    """Sectors around the center, as polygons or as holes."""
    cuts = sorted(src.sample(list(range(16)), src.choice((2, 4, 4, 6))))
    if src.bool():
        cuts = cuts[1:] + [cuts[0] + 16]
    sectors = []
    for i, j in zip(cuts[::2], cuts[1::2]):
        length = src.int(1, 2)
        arc = [along(center, i, length)]
        arc += [along(center, k, 3) for k in range(i + 1, j)
                if j - i >= 8 and (k - i) % 4 == 0]
        arc.append(along(center, j, src.choice((1, 2, length))))
        sector = normalize_ring([center, *arc])
        if sector is not None:
            sectors.append(sector)
    if not sectors:
        return ('P', [center, along(center, 0, 1), along(center, 4, 1)], [])
    if src.chance(1, 4):
        x, y = center
        frame = [(x - 7, y - 7), (x + 7, y - 7), (x + 7, y + 7),
                 (x - 7, y + 7)]
        spec = ('P', frame, sectors)
        if ref.error(spec) is None:
            return represented(src, spec)
    if len(sectors) == 1:
        return represented(src, ('P', sectors[0], []))
    spec = ('MP', [(sector, []) for sector in sectors])
    return (represented(src, spec) if ref.error(spec) is None
            else ('P', sectors[0], []))


def line_pieces(src, p, q, count, attached=True):
    """Linear geometry along the line p-q cut into count equal steps."""
    if src.bool():
        cuts = list(range(count + 1))
    else:
        cuts = sorted(src.sample(list(range(-1, count + 2)),
                                 src.int(2, min(7, count + 3))))
    candidates = [(lerp(p, q, i, count), lerp(p, q, j, count))
                  for i, j in zip(cuts, cuts[1:]) if src.chance(3, 4)]
    if not candidates:
        candidates = [(lerp(p, q, cuts[0], count),
                       lerp(p, q, cuts[1], count))]
    if attached and src.chance(1, 2):
        nx, ny = q[1] - p[1], p[0] - q[0]
        for _ in range(src.int(1, 3)):
            x, y = lerp(p, q, src.int(0, count), count)
            k = src.choice((1, -1))
            candidates.append(((x, y), (x + nx * k, y + ny * k)))
            if src.bool():
                candidates.append(((x, y), (x - nx * k, y - ny * k)))
    return to_multisegment(src, src.shuffled(candidates)) or ('S', p, q)


def focused(src, first, second):
    """Pair of kinds ('l' linear, 'r' region) meeting at a point or line."""
    center = (0, 0)
    if (first, second) == ('l', 'l') and src.chance(1, 3):
        # segment through or from the center against anything with it
        i = src.below(16)
        return (('S', along(center, i, src.int(1, 4)), along(
            center, i + 8, src.int(0, 4))), star_linear(src, center))
    if src.bool() or (first, second) == ('r', 'r'):
        a, b = (star_linear(src, center) if kind == 'l'
                else star_region(src, center) for kind in (first, second))
        return a, b
    if (first, second) == ('l', 'l'):
        count = src.int(2, 6)
        p, q = (0, 0), src.choice(((count, 0), (0, count), (count, count),
                                   (2 * count, -count)))
        a = line_pieces(src, p, q, count)
        b = (line_pieces(src, p, q, count) if src.chance(2, 3) else
             ('S', p, q) if src.bool() else
             ('S', lerp(p, q, src.int(-1, 1), count),
              lerp(p, q, src.int(2, count + 1), count)))
        return a, b
    a = star_region(src, center) if src.bool() else region(src, 4)
    p, q = src.choice(ref.segments(a))
    b = line_pieces(src, p, q, src.choice((1, 2, 3, 4)))
    return (b, a) if first == 'l' else (a, b)


def scattered_cells(src, columns, rows):
    """Cells of a coarse grid one operand uses: sparse, rows or columns."""
    cells = [(x, y) for x in range(columns) for y in range(rows)]
    kind = src.below(4)
    if kind == 0:
        cells = [c for c in cells if src.chance(1, 3)]
    elif kind == 1:
        keep = [src.bool() for _ in range(columns)]
        cells = [c for c in cells if keep[c[0]] and src.bool()]
    elif kind == 2:
        keep = [src.bool() for _ in range(rows)]
        cells = [c for c in cells if keep[c[1]] and src.bool()]
    else:
        cells = src.sample(cells, min(len(cells), src.int(1, 3)))
    return src.shuffled(cells)[:5] or [(0, 0)]


def scattered_region(src, columns, rows, pitch):
    polys = []
    for x, y in scattered_cells(src, columns, rows):
        x, y = pitch * x, pitch * y
        if src.chance(1, 5):
            # strip over several cells
            width, height = src.int(1, columns * pitch), src.int(1, 3)
            if src.bool():
                width, height = height, width
            part = ([(x, y), (x + width, y), (x + width, y + height),
                     (x, y + height)], [])
        else:
            part = (normalize_ring([(x + u, y + v) for u, v in (
                triangle if src.bool() else rectangle)(src, 4)]), [])
            if src.chance(1, 6):
                part = ([(x, y), (x + 4, y), (x + 4, y + 4), (x, y + 4)],
                        [[(x + u, y + v) for u, v in triangle(src, 3)]])
        if part[0] is None:
            continue
        grown_ = valid_region([*polys, part])
        if grown_ is not None:
            polys.append(part)
    return (valid_region(polys) if polys
            else ('P', [(0, 0), (1, 0), (0, 1)], []))


def scattered_linear(src, columns, rows, pitch):
    candidates = []
    for x, y in scattered_cells(src, columns, rows):
        x, y = pitch * x, pitch * y
        for _ in range(src.int(1, 2)):
            p, q = segment_pair(src, 4)
            candidates.append(((x + p[0], y + p[1]), (x + q[0], y + q[1])))
    if src.chance(1, 3):
        # a far or long piece that only stretches the bounding box
        x, y = src.int(0, columns * pitch), src.choice((-5, rows * pitch + 5))
        far = ((x, y), (x + src.int(-9, 9), y + src.int(0, 1)))
        candidates.append(far)
    if src.chance(1, 6):
        x, y = pitch * src.below(columns), pitch * src.below(rows)
        w, h = src.int(1, columns * pitch), src.int(1, 4)
        if src.bool():
            w, h = h, w
        return ('C', reorder(src, [(x, y), (x + w, y), (x + w, y + h),
                                   (x, y + h)]))
    return to_multisegment(src, candidates) or ('S', (0, 0), (1, 0))


def interleaved(src, first, second):
    """Pair of kinds taking turns along a row, each with parts off the row.

    Parts off the row stretch the bounding boxes, so that parts of the row
    lie in the box of the other operand although nothing is near them.  A
    slot both take often holds the same part twice, or one inside another.
    """
    kinds = (first, second)
    slots = src.int(2, 5)
    places = [(5 * k, 0) for k in range(slots)]
    places += [(src.int(-1, slots) * 5 + src.int(0, 2),
                src.choice((-10, 10, 20)) + src.int(0, 4))
               for _ in range(src.int(0, 4))]
    made = ([], [])

    def small(kind, x, y):
        if kind == 'l':
            return tuple((x + u, y + v) for u, v in segment_pair(src, 4))
        ring_ = (triangle if src.bool() else rectangle)(src, 4)
        ring_ = normalize_ring([(x + u, y + v) for u, v in ring_])
        return (ring_, []) if ring_ is not None else None

    def put(own, part):
        if part is not None and (
                kinds[own] == 'l'
                or valid_region([*made[own], part]) is not None):
            made[own].append(part)

    same = src.bool()
    for x, y in src.shuffled(places):
        owner = src.below(4 if y == 0 else 2)
        if owner < 2:
            put(owner, small(kinds[owner], x, y))
        elif owner == 2 or same:
            part = small(kinds[0], x, y)
            put(0, part)
            if first == second and (same or src.bool()):
                if first == 'r' and src.chance(1, 4):
                    part = ([(x, y), (x + 4, y), (x + 4, y + 4), (x, y + 4)],
                            [])
                elif first == 'l' and part is not None and src.chance(1, 3):
                    p, q = part
                    part = (lerp(p, q, src.int(-1, 1), 3),
                            lerp(p, q, src.int(2, 4), 3))
                put(1, part)
            else:
                put(1, small(kinds[1], x, y))
    result = []
    for kind, parts in zip(kinds, made):
        if kind == 'l':
            result.append(to_multisegment(src, parts)
                          or ('S', (0, 0), (1, 0)))
        else:
            result.append(valid_region(parts) if parts
                          else ('P', [(0, 0), (1, 0), (0, 1)], []))
    if src.bool():
        result.reverse()
        if first != second:
            result.reverse()
    return tuple(result)


def scattered(src, first, second):
    """Pair of kinds of many small parts, most of them far from the other."""
    if src.bool():
        return interleaved(src, first, second)
    columns, rows, pitch = src.int(1, 4), src.int(1, 4), src.choice((4, 5, 8))
    return tuple((scattered_region if kind == 'r' else scattered_linear)(
        src, columns, rows, pitch) for kind in (first, second))


def stretched(src, spec, box, side):
    """The geometry with one more small part beyond a side of the box."""
    x0, y0, x1, y1 = box
    far = src.choice((1, 2, 7, 40))
    w, h = src.int(1, 3), src.int(1, 3)
    x, y = src.int(x0, x1), src.int(y0, y1)
    if side == 0:
        x = x1 + far
    elif side == 1:
        x = x0 - far - w
    elif side == 2:
        y = y1 + far
    else:
        y = y0 - far - h
    if ref.is_shaped(spec):
        part = [(x, y), (x + w, y), (x + w, y + h)]
        polys = list(ref.polygons(spec))
        polys.insert(src.below(len(polys) + 1), (part, []))
        return valid_region(polys) or spec
    if spec[0] == 'C':
        return spec
    if src.chance(1, 3):
        w = 0
    elif src.bool():
        h = 0
    segs = list(ref.segments(spec))
    if not compatible(segs, ((x, y), (x + w, y + h))):
        return spec
    segs.insert(src.below(len(segs) + 1), ((x, y), (x + w, y + h)))
    return ('M', segs)


def covering(src, spec):
    """One segment of the geometry and some of the pieces it is cut into."""
    (px, py), (qx, qy) = src.choice(list(ref.segments(spec)))
    count = src.int(2, 4)
    # a multiple of the segment, to have it cut at integer points
    at = [(px + (qx - px) * k, py + (qy - py) * k) for k in range(count + 1)]
    pieces = list(zip(at, at[1:]))
    if src.bool():
        pieces = src.sample(pieces, src.int(1, count))
    whole = ('S', at[0], at[-1])
    if src.chance(1, 4):
        whole = ('S', at[src.below(count)], at[-1])
    if len(pieces) == 1:
        return src.shuffled([whole, ('S', *pieces[0])])
    return src.shuffled([whole, ('M', src.shuffled(pieces))])


def outlying(src, specs):
    """The pair with parts far from the other operand added.

    The parts of each usually lie beyond sides the other has none at, so the
    added parts miss the box of the other, which answers by boxes (the only
    part that counts is inside, is everything inside?) have to get right.
    """
    if any(spec[0] == 'E' for spec in specs):
        return specs
    points = [p for spec in specs for p in ref.points(spec)]
    if any(type(c) is not int for p in points for c in p):
        return specs
    box = (min(p[0] for p in points), min(p[1] for p in points),
           max(p[0] for p in points), max(p[1] for p in points))
    axis, result = src.below(2), []
    if src.bool() and all(map(ref.is_linear, specs)):
        specs = covering(src, specs[0])
    for number, spec in enumerate(specs):
        for _ in range(src.choice((1, 1, 2, 0, 3))):
            if src.chance(7, 8):
                side = 2 * ((axis + number) % 2) + src.below(2)
            else:
                side = src.below(4)
            spec = stretched(src, spec, box, side)
        result.append(spec)
    return tuple(result)


# ------------------------------------------------------------------- pairs

def sound(spec):
    """The spec itself, or (should a construction slip) a plain valid one."""
    if ref.error(spec) is None:
        return spec
    if ref.is_shaped(spec):
        return ('P', [(0, 0), (1, 0), (0, 1)], [])
    return ('S', (0, 0), (1, 0))


def regions(src, count=2):
    if count == 2 and src.chance(1, 5):
        make = focused if src.chance(2, 3) else scattered
        return transformed(src, *map(sound, make(src, 'r', 'r')))
    n = size(src)
    mesh = Mesh(src) if src.bool() else None
    result = [region(src, n, mesh)]
    for _ in range(count - 1):
        if src.bool():
            result.append(related_region(src, src.choice(result), n))
        else:
            result.append(region(src, n, mesh))
    if count == 2 and src.chance(1, 8):
        result = outlying(src, tuple(map(sound, result)))
    return transformed(src, *map(sound, result))


def linears(src, count=2):
    if count == 2 and src.chance(1, 3):
        make = focused if src.chance(2, 3) else scattered
        return transformed(src, *map(sound, src.shuffled(
            list(make(src, 'l', 'l')))))
    n = size(src)
    mesh = Mesh(src) if src.bool() else None
    result = [linear(src, n, mesh)]
    for _ in range(count - 1):
        if src.chance(3, 5):
            result.append(related_linear(src, src.choice(result), n))
        else:
            result.append(linear(src, n, mesh))
    result = src.shuffled(result)
    if count == 2 and src.chance(1, 6):
        result = outlying(src, tuple(map(sound, result)))
    return transformed(src, *map(sound, result))


def mixed(src):
    """(linear, region)."""
    if src.chance(1, 4):
        make = focused if src.chance(2, 3) else scattered
        return transformed(src, *map(sound, make(src, 'l', 'r')))
    n = size(src)
    mesh = Mesh(src) if src.bool() else None
    a = region(src, n, mesh)
    if src.chance(3, 4):
        b = related_linear(src, a, n)
    else:
        b = linear(src, n, mesh)
    result = sound(b), sound(a)
    if src.chance(1, 8):
        result = tuple(map(sound, outlying(src, result)))
    return transformed(src, *result)


def large_geometry(src):
    """Several tens of edges, up to about 150."""
    kind = src.below(8)
    w, h = src.choice((5, 7, 4, 9, 11)), src.choice((5, 7, 4, 9))
    if kind < 2:
        return cells.region(cells.some_cells(src, w, h))
    if kind == 2:
        return cells.linear(cells.some_edges(src, w, h), src.below(16))
    if kind == 3:
        border, holes = src.choice(
            ref.polygons(cells.region(cells.some_cells(src, w, h))))
        return ('C', src.choice([border, *holes]))
    count = src.choice((17, 20, 33, 36, 65, 70, 100))
    if kind == 4:
        ring_ = [(i, i * i) for i in range(count)]
    elif kind == 5:
        ring_ = zigzag(count // 2, src.choice((5, 11, 29)), src.int(1, 9))
        ring_ = ring_ or [(i, i * i) for i in range(count)]
    elif kind == 6:
        # teeth of any heights
        rng = random.Random(src.below(1 << 16))
        ring_ = normalize_ring([*((i, rng.randint(1, 9) * (1 + i % 2))
                                  for i in range(count)),
                                (count - 1, -3), (0, -3)])
        ring_ = ring_ or [(i, i * i) for i in range(count)]
    else:
        rng = random.Random(src.below(1 << 16))
        form = src.below(3)
        if form == 0:  # apart
            segs = [((3 * i, rng.randint(0, 9)),
                     (3 * i + 1 + rng.randint(0, 1), rng.randint(10, 19)))
                    for i in range(count)]
        elif form == 1:  # from one point
            segs = [((0, 0), (count, i - count // 2)) for i in range(count)]
        else:  # chain
            ys = [rng.randint(0, 5) for _ in range(count + 1)]
            segs = [((i, ys[i]), (i + 1, ys[i + 1])) for i in range(count)]
        rng.shuffle(segs)
        return ('M', [(q, p) if rng.random() < .5 else (p, q)
                      for p, q in segs])
    ring_ = reorder(src, ring_)
    return ('P', ring_, []) if src.bool() else ('C', ring_)


def any_geometry(src):
    if src.chance(1, 32):
        return transformed(src, large_geometry(src))[0]
    n = size(src)
    mesh = Mesh(src) if src.bool() else None
    spec = (region(src, n, mesh) if src.bool() else linear(src, n, mesh))
    return transformed(src, sound(spec))[0]


def probe_points(src, specs, count):
    """Points biased to vertices, edge points, and lines through vertices."""
    segs = [s for spec in specs for s in ref.segments(spec)]
    verts = sorted(set(p for s in segs for p in s)) or [(0, 0)]
    result = []
    for _ in range(count):
        kind = src.below(6)
        if kind == 0:
            result.append(src.choice(verts))
        elif kind == 1 and segs:
            p, q = src.choice(segs)
            result.append(lerp(p, q, src.int(-1, 5), 4))
        elif kind == 2:
            result.append((src.choice(verts)[0], src.choice(verts)[1]))
        elif kind == 3:
            p, q = src.choice(verts), src.choice(verts)
            result.append(lerp(p, q, src.int(-1, 3), 2))
        elif kind == 4:
            p, q, r = (src.choice(verts) for _ in range(3))
            result.append((_div(p[0] + q[0] + r[0], 3),
                           _div(p[1] + q[1] + r[1], 3)))
        else:
            xs = sorted(set(v[0] for v in verts))
            ys = sorted(set(v[1] for v in verts))
            i, j = src.below(len(xs)), src.below(len(ys))
            result.append((_div(xs[i] + xs[i - 1], 2),
                           _div(ys[j] + ys[j - 1], 2)))
    return result


# --------------------------------------------------------- large fixed ones

def zigzag(count, height, step, dx=0, dy=0):
    """Ring of two zigzag chains, about 2 * count vertices."""
    low = [(i + dx, (i * i * step) % height + dy) for i in range(count)]
    high = [(x, y + height + 2) for x, y in low]
    return normalize_ring(low + high[::-1])


def huge_ring(count, seed):
    """Valid ring of about that many vertices: teeth, spiral or parabola."""
    rng = random.Random(f'ring {count} {seed}')
    kind = seed % 4
    if kind == 0:
        half = count // 2
        top = [(2 * i, rng.randint(10, 19)) for i in range(half)]
        low = [(2 * i + 1, rng.randint(0, 9)) for i in range(half)]
        result = normalize_ring(low + top[::-1])
    elif kind == 1:
        # a staircase up and back
        up = [(i // 2, (i + 1) // 2) for i in range(count // 2)]
        result = normalize_ring(up + [(x - 2, y + 2) for x, y in up[::-1]])
    elif kind == 2:
        result = [(i, i * i) for i in range(count)]
    else:
        # a rectangular spiral, walked in and back
        line, x, y = [(0, 0)], 0, 0
        dx, dy, length = 1, 0, count
        for _ in range(count // 2 - 1):
            x, y = x + dx * length, y + dy * length
            line.append((x, y))
            dx, dy = -dy, dx
            length -= 2 if dy == 0 else 0
            if length < 3:
                break
        result = _thickened(line)
    return result or [(i, i * i) for i in range(count)]


def _thickened(line):
    """Ring around a rectilinear path, offset by a quarter, scaled by 4."""
    left, right = [], []
    for i, (x, y) in enumerate(line):
        steps = [((b[0] > a[0]) - (b[0] < a[0]), (b[1] > a[1]) - (b[1] < a[1]))
                 for a, b in ((line[i - 1], line[i]) if i else line[:2],
                              line[i:i + 2] if i + 1 < len(line)
                              else line[i - 1:])]
        (ax, ay), (bx, by) = steps
        if (ax, ay) == (bx, by):
            left.append((4 * x - ay, 4 * y + ax))
            right.append((4 * x + ay, 4 * y - ax))
        else:
            left.append((4 * x - ay - by, 4 * y + ax + bx))
            right.append((4 * x + ay + by, 4 * y - ax - bx))
    return normalize_ring(left + right[::-1])


def huge_segments(count, seed):
    """Valid list of that many segments."""
    rng = random.Random(f'segments {count} {seed}')
    kind = seed % 4
    if kind == 0:
        result = [((3 * i, rng.randint(0, 9)),
                   (3 * i + rng.randint(0, 2), rng.randint(10, 19)))
                  for i in range(count)]
    elif kind == 1:
        ys = [rng.randint(0, 5) for _ in range(count + 1)]
        result = [((i, ys[i]), (i + 1, ys[i + 1])) for i in range(count)]
    elif kind == 2:
        result = [((0, 0), (count, i - count // 2)) for i in range(count)]
    else:
        result = [((0, i), (rng.randint(1, 9), i)) for i in range(count)]
    rng.shuffle(result)
    return [(q, p) if rng.random() < .5 else (p, q) for p, q in result]


def huge_geometries():
    """Geometries of more parts than a call stack is deep."""
    for seed in range(4):
        ring = huge_ring(1300, seed)
        yield 'C', ring
        yield 'P', ring, []
        yield 'M', huge_segments(1300, seed)
    squares = [[(x, y), (x + 2, y), (x + 2, y + 2), (x, y + 2)]
               for x in range(0, 99, 3) for y in range(0, 99, 3)]
    yield 'MP', [(square, []) for square in squares]
    yield 'P', [(-1, -1), (100, -1), (100, 100), (-1, 100)], squares


def large_regions():
    """Pairs of regions of several hundred edges."""
    a = ('P', zigzag(60, 29, 7), [])
    b = ('P', zigzag(60, 29, 7, 1, 3), [])
    yield a, b
    yield a, a
    squares = [([(4 * i, 4 * j), (4 * i + 3, 4 * j), (4 * i + 3, 4 * j + 3),
                 (4 * i, 4 * j + 3)],
                [[(4 * i + 1, 4 * j + 1), (4 * i + 2, 4 * j + 1),
                  (4 * i + 2, 4 * j + 2)]] if (i + j) % 3 == 0 else [])
               for i in range(6) for j in range(5)]
    shifted = [([(x + 2, y + 1) for x, y in border],
                [[(x + 2, y + 1) for x, y in hole] for hole in holes])
               for border, holes in squares]
    yield ('MP', squares), ('MP', shifted)
    yield ('MP', squares), a
    frame = ('P', [(-1, -1), (30, -1), (30, 30), (-1, 30)],
             [border for border, _ in squares])
    yield frame, ('MP', squares)
    yield frame, ('MP', shifted)
    yield frame, b


def large_linears():
    for a, b in large_regions():
        a, b = (('C', s[1]) if s[0] == 'P' and not s[2] else
                ('M', ref.segments(s)) for s in (a, b))
        yield a, b
    grid = ('M', [((0, 2 * i), (40, 2 * i)) for i in range(15)])
    yield grid, ('M', [((2 * i, 0), (2 * i, 40)) for i in range(15)])
    yield grid, ('C', zigzag(40, 29, 7))
    yield ('M', [((0, 0), (i, 50 - i)) for i in range(30)]), grid


def large_mixed():
    """(linear, region)."""
    linears_ = [a for pair in large_linears() for a in pair]
    regions_ = [a for pair in large_regions() for a in pair]
    for k, a in enumerate(linears_):
        yield a, regions_[(5 * k + k // 3) % len(regions_)]


def scene(src):
    """2 or 3 related regions and 1 or 2 linear geometries around them."""
    n = size(src)
    mesh = Mesh(src) if src.bool() else None
    regions_ = [region(src, n, mesh)]
    for _ in range(src.int(0, 2)):
        regions_.append(related_region(src, src.choice(regions_), n)
                        if src.bool() else region(src, n, mesh))
    linears_ = [related_linear(src, src.choice(regions_), n)
                for _ in range(src.int(1, 2))]
    return transformed(src, *map(sound, src.shuffled(
        [*regions_, *linears_])))


# ------------------------------------------------------- small scopes, all

EMPTY = ('E',)
SAMPLES = (
    ('S', (0, 0), (2, 1)),
    ('M', [((0, 0), (2, 1)), ((0, 1), (1, 3))]),
    ('C', [(0, 0), (3, 0), (1, 2)]),
    ('P', [(0, 0), (4, 0), (0, 4)], [[(1, 1), (2, 1), (1, 2)]]),
    ('MP', [([(0, 0), (2, 0), (0, 2)], []), ([(3, 3), (5, 3), (5, 4)], [])]))


def with_emptiness(kinds_):
    """Empty against one geometry of each of the kinds, both ways."""
    yield EMPTY, EMPTY
    for spec in SAMPLES:
        if spec[0] in kinds_:
            yield EMPTY, spec
            yield spec, EMPTY


def interval_sets(length):
    """All sets of disjoint intervals between 0 and length, in pieces."""
    def extend(at, pieces):
        if at >= length:
            if pieces:
                yield tuple(pieces)
            return
        yield from extend(at + 1, pieces)
        for end in range(at + 1, length + 1):
            yield from extend(end, [*pieces, (at, end)])
    return list(extend(0, []))


LINES = (lambda t: (t, 0), lambda t: (0, t), lambda t: (t, t),
         lambda t: (2 * t, -t))


def pieces_on(line, pieces, rng):
    segs = [(line(p), line(q)) if rng.random() < .5 else (line(q), line(p))
            for p, q in pieces]
    rng.shuffle(segs)
    return ('S', *segs[0]) if len(segs) == 1 else ('M', segs)


def small_linears(tier):
    """Pieces of one line; segments of a 3x3 grid; ends of a contour."""
    yield from with_emptiness('SMC')
    length = 4 if tier == 'quick' else 5
    sets = interval_sets(length)
    for k, (a, b) in enumerate(product(sets, sets)):
        rng = random.Random(k)
        line = LINES[k % 4] if tier != 'quick' else LINES[k * 7 // 3 % 4]
        yield pieces_on(line, a, rng), pieces_on(line, b, rng)
    grid = [(x, y) for x in range(3) for y in range(3)]
    pairs = list(combinations(grid, 2))
    for k, ((p, q), (r, s)) in enumerate(product(pairs, pairs)):
        yield (('S', p, q) if k % 2 else ('S', q, p),
               ('S', r, s) if k % 3 else ('S', s, r))
    rings_ = [[p, q, r] for p, q, r in combinations(grid, 3)
              if ref.orient(p, q, r)]
    for k, (ring_, (p, q)) in enumerate(product(rings_, pairs)):
        if tier == 'quick' and k % 2:
            continue
        rng = random.Random(k)
        contour_ = ('C', rng.sample(ring_, 3))
        other = ('S', p, q) if k % 2 else ('S', q, p)
        yield (contour_, other) if k % 3 else (other, contour_)


def small_regions(tier):
    """Pairs of triangles of a 3x3 grid and unions of cells of a 3x2 one."""
    yield from with_emptiness(('P', 'MP'))
    grid = [(x, y) for x in range(3) for y in range(3)]
    rings_ = [[p, q, r] for p, q, r in combinations(grid, 3)
              if ref.orient(p, q, r)]
    step = 3 if tier == 'quick' else 1
    for k, (a, b) in enumerate(product(rings_, rings_)):
        if k % step:
            continue
        rng = random.Random(k)
        yield ('P', rng.sample(a, 3), []), ('P', rng.sample(b, 3), [])
    slots = [(5 * x, y) for x in range(3) for y in (0, 9)]
    unit = [(0, 0), (2, 0), (2, 2), (0, 2)]
    owners = product(range(4), repeat=len(slots))
    for k, owner in enumerate(owners):
        if k % (4 * step):
            continue
        made = ([], [])
        for (x, y), who in zip(slots, owner):
            for own in ((), (0,), (1,), (0, 1))[who]:
                made[own].append(([(x + u, y + v) for u, v in unit], []))
        if made[0] and made[1]:
            yield tuple(('P', parts[0][0], []) if len(parts) == 1
                        else ('MP', parts) for parts in made)


def small_mixed(tier):
    """(linear, region): segments against triangles; parts in separate slots."""
    for a, b in with_emptiness('SMC'):
        yield (a, b) if b == EMPTY else (b, EMPTY)
    for a, b in with_emptiness(('P', 'MP')):
        yield EMPTY, b if a == EMPTY else a
    grid = [(x, y) for x in range(3) for y in range(3)]
    pairs = list(combinations(grid, 2))
    rings_ = [[p, q, r] for p, q, r in combinations(grid, 3)
              if ref.orient(p, q, r)]
    step = 2 if tier == 'quick' else 1
    for k, ((p, q), ring_) in enumerate(product(pairs, rings_)):
        if k % step:
            continue
        rng = random.Random(k)
        p, q = rng.sample([p, q], 2)
        linear_ = (('S', p, q) if k % 4 == 0 else
                   ('M', [(q, p), ((3, k % 3), (3 + k % 2, 3))]))
        yield linear_, ('P', rng.sample(ring_, 3), [])
    # boundary pieces of a square against it
    square_ = [(0, 0), (2, 0), (2, 2), (0, 2)]
    halves = [(0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    edges_ = [(halves[i], halves[(i + 1) % 8]) for i in range(8)]
    for k in range(1, 256, 1 if tier != 'quick' else 2):
        segs = [edge for i, edge in enumerate(edges_) if k >> i & 1]
        random.Random(k).shuffle(segs)
        yield (('S', *segs[0]) if len(segs) == 1 else ('M', segs),
               ('P', square_, []))
    slots = [(5 * x, y) for x in range(3) for y in (0, 9)]
    for k, owner in enumerate(product(range(4), repeat=len(slots))):
        if k % (4 * step):
            continue
        made = ([], [])
        for i, ((x, y), who) in enumerate(zip(slots, owner)):
            if who in (1, 3):
                made[0].append(((x, y + (k + i) % 2), (x + 2, y + k % 3)))
            if who in (2, 3):
                made[1].append(([(x + u, y + v) for u, v in square_], []))
        if made[0] and made[1]:
            yield (('S', *made[0][0]) if len(made[0]) == 1
                   else ('M', made[0]),
                   ('P', made[1][0][0], []) if len(made[1]) == 1
                   else ('MP', made[1]))


def small_pairs(tier, step, *rest):
    """A share of all pairs of the small scopes, in both orders."""
    step = step if tier == 'quick' else 1
    for pairs_ in (small_linears, small_regions, small_mixed):
        for k, (a, b) in enumerate(pairs_(tier)):
            if k % step == 0:
                yield (a, b, *rest) if k % 2 else (b, a, *rest)
