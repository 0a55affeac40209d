"""Exact reference geometry, independent of rene (no rene import here).

Specs are plain data:
    ('E',)                         empty
    ('S', p, q)                    segment
    ('M', [(p, q), ...])           multisegment
    ('C', [p, ...])                contour
    ('P', border, [hole, ...])     polygon
    ('MP', [(border, holes), ...]) multipolygon
with points (x, y) of ints / Fractions.
"""
from __future__ import annotations

from fractions import Fraction
from math import gcd

LINEAR = ('S', 'M', 'C')
SHAPED = ('P', 'MP')


# ---------------------------------------------------------------- structure

def rings(spec):
    kind = spec[0]
    if kind == 'C':
        return [spec[1]]
    if kind == 'P':
        return [spec[1], *spec[2]]
    if kind == 'MP':
        return [ring for border, holes in spec[1] for ring in (border, *holes)]
    return []


def ring_segments(ring):
    return [(ring[i - 1], ring[i]) for i in range(len(ring))]


def segments(spec):
    kind = spec[0]
    if kind == 'S':
        return [(spec[1], spec[2])]
    if kind == 'M':
        return list(spec[1])
    return [s for ring in rings(spec) for s in ring_segments(ring)]


def polygons(spec):
    if spec[0] == 'P':
        return [(spec[1], spec[2])]
    if spec[0] == 'MP':
        return list(spec[1])
    return []


def points(spec):
    return [p for s in segments(spec) for p in s]


def is_shaped(spec):
    return spec[0] in SHAPED


def is_linear(spec):
    return spec[0] in LINEAR


def is_empty(spec):
    return spec[0] == 'E'


def map_points(spec, f):
    kind = spec[0]
    if kind == 'E':
        return spec
    if kind == 'S':
        return ('S', f(spec[1]), f(spec[2]))
    if kind == 'M':
        return ('M', [(f(p), f(q)) for p, q in spec[1]])
    if kind == 'C':
        return ('C', [f(p) for p in spec[1]])
    if kind == 'P':
        return ('P', [f(p) for p in spec[1]],
                [[f(p) for p in hole] for hole in spec[2]])
    return ('MP', [([f(p) for p in border],
                    [[f(p) for p in hole] for hole in holes])
                   for border, holes in spec[1]])


def ring_form(ring):
    """The same for the same vertex cycle, whatever start and direction."""
    k = ring.index(min(ring))
    forward = ring[k:] + ring[:k]
    backward = [forward[0], *forward[:0:-1]]
    return tuple(min(forward, backward))


def normal_form(spec):
    """The same for specs equal up to starts, directions and part orders."""
    kind = spec[0]
    if kind == 'E':
        return ('E',)
    if kind == 'S':
        return ('S', *sorted((spec[1], spec[2])))
    if kind == 'M':
        return ('M', tuple(sorted(tuple(sorted(s)) for s in spec[1])))
    if kind == 'C':
        return ('C', ring_form(spec[1]))
    parts = tuple(sorted((ring_form(border),
                          tuple(sorted(map(ring_form, holes))))
                         for border, holes in polygons(spec)))
    return ('P', *parts[0]) if kind == 'P' else ('MP', parts)


def manifold(spec):
    """No point of the ring edges is on more than two of them, as neighbours:
    the region has only one decomposition into rings."""
    arr = Arrangement([segments(spec)])
    return all(len(incident) == 2 for incident in arr.vertices().values())


def same_set(a, b):
    """None, or a message: the (same-dimension) specs differ as sets."""
    if a == b:
        return None
    if not is_empty(a) and not is_empty(b) and is_shaped(a) != is_shaped(b):
        return f'{a[0]} against {b[0]}'
    if is_shaped(a) or is_shaped(b):
        return _check_regions(a, b, [('^', ('E',))])
    return _check_linears(a, b, [('^', ('E',))])


# --------------------------------------------------------------- primitives

def orient(a, b, c):
    """Sign of the cross product (b - a) x (c - a); > 0 counterclockwise."""
    d = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (d > 0) - (d < 0)


def on_segment(p, q, r):
    """r lies on the closed segment pq."""
    return (orient(p, q, r) == 0
            and min(p[0], q[0]) <= r[0] <= max(p[0], q[0])
            and min(p[1], q[1]) <= r[1] <= max(p[1], q[1]))


def segments_contact(a, b, c, d):
    """None, ('point', p) or ('overlap', p, q) for closed segments ab, cd."""
    if (max(a[0], b[0]) < min(c[0], d[0]) or max(c[0], d[0]) < min(a[0], b[0])
            or max(a[1], b[1]) < min(c[1], d[1])
            or max(c[1], d[1]) < min(a[1], b[1])):
        return None
    o1, o2 = orient(a, b, c), orient(a, b, d)
    o3, o4 = orient(c, d, a), orient(c, d, b)
    if o1 == o2 == 0:
        (a, b), (c, d) = sorted((a, b)), sorted((c, d))
        lo, hi = max(a, c), min(b, d)
        if lo > hi:
            return None
        return ('point', lo) if lo == hi else ('overlap', lo, hi)
    if o1 * o2 > 0 or o3 * o4 > 0:
        return None
    if o1 == 0:
        return ('point', c)
    if o2 == 0:
        return ('point', d)
    if o3 == 0:
        return ('point', a)
    if o4 == 0:
        return ('point', b)
    n = (c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])
    m = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
    t = Fraction(n) / m
    return ('point', (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))


def area2(ring):
    return sum(ring[i - 1][0] * ring[i][1] - ring[i][0] * ring[i - 1][1]
               for i in range(len(ring)))


def spec_area2(spec):
    return sum(abs(area2(border)) - sum(abs(area2(h)) for h in holes)
               for border, holes in polygons(spec))


def even_odd(segs, p):
    """Parity of edges strictly above p (p must not lie on any of segs)."""
    x, y = p
    inside = False
    for (x1, y1), (x2, y2) in segs:
        if x1 > x2:
            x1, y1, x2, y2 = x2, y2, x1, y1
        if x1 <= x < x2:
            if (x2 - x1) * (y - y1) < (y2 - y1) * (x - x1):
                inside = not inside
    return inside


def locate(spec, p):
    """'B' boundary, 'I' interior, 'E' exterior."""
    segs = segments(spec)
    for a, b in segs:
        if on_segment(a, b, p):
            return 'B'
    if is_shaped(spec):
        return 'I' if even_odd(segs, p) else 'E'
    return 'E'


# -------------------------------------------------------------- arrangement

class Arrangement:
    """Joint arrangement of several layers of closed segments.

    pieces: {(a, b): mask} elementary pieces between consecutive arrangement
        vertices, a < b, with the bit set of the layers covering them
    vertices are homogeneous integer triples (X, Y, W), W > 0, reduced
    """

    def __init__(self, layers):
        scale = 1
        for layer in layers:
            for p, q in layer:
                for c in (*p, *q):
                    d = c.denominator
                    if d != 1:
                        scale = scale * d // gcd(scale, d)
        self.scale = scale
        self.layers = []
        masks = {}
        for bit, layer in enumerate(layers):
            scaled = []
            for p, q in layer:
                p = (int(p[0] * scale), int(p[1] * scale))
                q = (int(q[0] * scale), int(q[1] * scale))
                if p == q:
                    continue
                seg = (p, q) if p < q else (q, p)
                scaled.append(seg)
                masks[seg] = masks.get(seg, 0) | (1 << bit)
            self.layers.append(scaled)
        segs = sorted(masks)
        cuts = [{(*p, 1), (*q, 1)} for p, q in segs]
        count = len(segs)
        ys = [(min(p[1], q[1]), max(p[1], q[1])) for p, q in segs]
        for i in range(count):
            (ax, ay), (bx, by) = segs[i]
            lo, hi = ys[i]
            dx, dy = bx - ax, by - ay
            for j in range(i + 1, count):
                (cx, cy), (ex, ey) = segs[j]
                if cx > bx:
                    break
                if ys[j][0] > hi or ys[j][1] < lo:
                    continue
                o1 = dx * (cy - ay) - dy * (cx - ax)
                o2 = dx * (ey - ay) - dy * (ex - ax)
                if o1 == 0 and o2 == 0:
                    p, q = segs[i]
                    r, s = segs[j]
                    if p <= r <= q:
                        cuts[i].add((*r, 1))
                    if p <= s <= q:
                        cuts[i].add((*s, 1))
                    if r <= p <= s:
                        cuts[j].add((*p, 1))
                    if r <= q <= s:
                        cuts[j].add((*q, 1))
                    continue
                if (o1 > 0 and o2 > 0) or (o1 < 0 and o2 < 0):
                    continue
                fx, fy = ex - cx, ey - cy
                o3 = fx * (ay - cy) - fy * (ax - cx)
                o4 = fx * (by - cy) - fy * (bx - cx)
                if (o3 > 0 and o4 > 0) or (o3 < 0 and o4 < 0):
                    continue
                if o1 == 0:
                    pt = (cx, cy, 1)
                elif o2 == 0:
                    pt = (ex, ey, 1)
                elif o3 == 0:
                    pt = (ax, ay, 1)
                elif o4 == 0:
                    pt = (bx, by, 1)
                else:
                    # a + t (b - a), t = o3 / (o3 - o4)
                    w = o3 - o4
                    x, y = ax * w + o3 * dx, ay * w + o3 * dy
                    if w < 0:
                        x, y, w = -x, -y, -w
                    g = gcd(gcd(x, y), w)
                    pt = (x // g, y // g, w // g)
                cuts[i].add(pt)
                cuts[j].add(pt)
        pieces = {}
        for seg, cut in zip(segs, cuts):
            if len(cut) == 2:
                ordered = [(*seg[0], 1), (*seg[1], 1)]
            else:
                axis = 1 if seg[0][0] == seg[1][0] else 0
                ordered = list(cut)
                if all(pt[2] == 1 for pt in ordered):
                    ordered.sort(key=lambda pt: pt[axis])
                else:
                    ordered.sort(key=lambda pt: Fraction(pt[axis], pt[2]))
            mask = masks[seg]
            for a, b in zip(ordered, ordered[1:]):
                pieces[(a, b)] = pieces.get((a, b), 0) | mask
        self.pieces = pieces
        self._columns = [
            [(x1, y1, x2, y2) for (x1, y1), (x2, y2) in layer if x1 != x2]
            for layer in self.layers]
        self._rows = [
            [(y1, x1, y2, x2) if y1 < y2 else (y2, x2, y1, x1)
             for (x1, y1), (x2, y2) in layer if y1 != y2]
            for layer in self.layers]

    @staticmethod
    def middle(piece):
        (ax, ay, aw), (bx, by, bw) = piece
        return (ax * bw + bx * aw, ay * bw + by * aw, 2 * aw * bw)

    def sides(self, piece, layers):
        """Bit sets of the given shaped layers holding each side of piece."""
        x, y, w = self.middle(piece)
        (ax, _, aw), (bx, _, bw) = piece
        if ax * bw == bx * aw:
            x, y = y, x
            table = self._rows
        else:
            table = self._columns
        first = second = 0
        for bit in layers:
            above = below = False
            for x1, y1, x2, y2 in table[bit]:
                if x1 * w <= x < x2 * w:
                    d = (x2 - x1) * (y - y1 * w) - (y2 - y1) * (x - x1 * w)
                    if d < 0:
                        above = not above
                        below = not below
                    elif d == 0:
                        below = not below
            if above:
                first |= 1 << bit
            if below:
                second |= 1 << bit
        return first, second

    def inside(self, piece, bit):
        """Middle of the piece (not on the layer) inside the shaped layer."""
        x, y, w = self.middle(piece)
        inside = False
        for x1, y1, x2, y2 in self._columns[bit]:
            if x1 * w <= x < x2 * w:
                if ((x2 - x1) * (y - y1 * w)
                        < (y2 - y1) * (x - x1 * w)):
                    inside = not inside
        return inside

    def vertices(self):
        """{vertex: [(direction, mask), ...]} of the incident pieces."""
        result = {}
        for (a, b), mask in self.pieces.items():
            dx = b[0] * a[2] - a[0] * b[2]
            dy = b[1] * a[2] - a[1] * b[2]
            result.setdefault(a, []).append(((dx, dy), mask))
            result.setdefault(b, []).append(((-dx, -dy), mask))
        return result

    def point(self, piece):
        x, y, w = self.middle(piece)
        w *= self.scale
        return (Fraction(x, w), Fraction(y, w))

    def end_point(self, vertex):
        x, y, w = vertex
        w *= self.scale
        return (Fraction(x, w), Fraction(y, w))


OPS = {
    '&': lambda a, b: a and b,
    '|': lambda a, b: a or b,
    '-': lambda a, b: a and not b,
    '^': lambda a, b: a != b,
}


def _fmt(p):
    return f'({p[0]}, {p[1]})'


def _check_regions(a, b, results):
    arr = Arrangement([segments(a), segments(b),
                       *[segments(r) for _, r in results]])
    layers = range(2 + len(results))
    wanted = [(op, OPS[op], 4 << i) for i, (op, _) in enumerate(results)]
    for piece in arr.pieces:
        for name, side in zip(('one', 'other'), arr.sides(piece, layers)):
            for op, f, bit in wanted:
                want = f(bool(side & 1), bool(side & 2))
                if want != bool(side & bit):
                    return (f'{op}: points next to {_fmt(arr.point(piece))} '
                            f'({name} side): in first={bool(side & 1)}, in '
                            f'second={bool(side & 2)}, in result='
                            f'{not want}, expected {want}')
    return None


def _check_linears(a, b, results):
    """1-dimensional regularised set operation."""
    arr = Arrangement([segments(a), segments(b),
                       *[segments(r) for _, r in results]])
    wanted = [(op, OPS[op], 4 << i) for i, (op, _) in enumerate(results)]
    for piece, mask in arr.pieces.items():
        for op, f, bit in wanted:
            want = f(bool(mask & 1), bool(mask & 2))
            if want != bool(mask & bit):
                return (f'{op}: point {_fmt(arr.point(piece))}: on first='
                        f'{bool(mask & 1)}, on second={bool(mask & 2)}, on '
                        f'result={not want}, expected {want}')
    return None


def _check_mixed(a, b, results):
    """& of linear and shaped (either order), or linear - shaped."""
    linear, shaped = (0, 1) if is_linear(a) else (1, 0)
    arr = Arrangement([segments(a), segments(b),
                       *[segments(r) for _, r in results]])
    wanted = [(op, OPS[op], 4 << i) for i, (op, _) in enumerate(results)]
    for piece, mask in arr.pieces.items():
        in_linear = bool(mask & (1 << linear))
        in_shaped = in_linear and (bool(mask & (1 << shaped))
                                   or arr.inside(piece, shaped))
        for op, f, bit in wanted:
            want = in_linear and (f(True, in_shaped) if linear == 0
                                  else f(in_shaped, True))
            if want != bool(mask & bit):
                return (f'{op}: point {_fmt(arr.point(piece))}: on linear='
                        f'{in_linear}, in shaped={in_shaped}, on result='
                        f'{not want}, expected {want}')
    return None


def check_ops(a, b, results):
    """[(operator, result spec)] against the point sets; None or message."""
    for op, r in results:
        if is_linear(r) and (is_shaped(a) or is_empty(a)) and (
                is_shaped(b) or is_empty(b)):
            return f'{op}: linear result {r[0]} of region operands'
        if is_shaped(r) and not (is_shaped(a) or is_shaped(b)):
            return f'{op}: shaped result {r[0]} of linear operands'
        if is_shaped(r) and (is_linear(a) or is_linear(b)):
            return f'{op}: shaped result {r[0]} of a mixed operation'
    if (is_linear(a) and is_shaped(b)) or (is_shaped(a) and is_linear(b)):
        return _check_mixed(a, b, results)
    if is_shaped(a) or is_shaped(b):
        return _check_regions(a, b, results)
    return _check_linears(a, b, results)


def check_op(op, a, b, r):
    return check_ops(a, b, [(op, r)])


# ---------------------------------------------------------------- relations

def relate(a, b):
    """Name of the relation of a to b."""
    if is_empty(a) or is_empty(b):
        return 'EQUAL' if is_empty(a) and is_empty(b) else 'DISJOINT'
    arr = Arrangement([segments(a), segments(b)])
    if is_shaped(a) and is_shaped(b):
        return _relate_shaped(arr)
    if is_linear(a) and is_linear(b):
        return _relate_linear(arr)
    if is_linear(a):
        return _relate_mixed(arr, 0, 1)
    return COMPLEMENT[_relate_mixed(arr, 1, 0)]


COMPLEMENT = {
    'COMPONENT': 'COMPOSITE', 'COMPOSITE': 'COMPONENT', 'COVER': 'WITHIN',
    'WITHIN': 'COVER', 'ENCLOSED': 'ENCLOSES', 'ENCLOSES': 'ENCLOSED',
    'CROSS': 'CROSS', 'DISJOINT': 'DISJOINT', 'EQUAL': 'EQUAL',
    'OVERLAP': 'OVERLAP', 'TOUCH': 'TOUCH'}


def _touching(arr):
    """Some arrangement vertex lies on both layers."""
    for incident in arr.vertices().values():
        mask = 0
        for _, m in incident:
            mask |= m
        if mask & 3 == 3:
            return True
    return False


def _relate_shaped(arr):
    faces = set()
    a_border_in_b = b_border_in_a = False
    for piece, mask in arr.pieces.items():
        first, second = arr.sides(piece, (0, 1))
        faces.add(first)
        faces.add(second)
        if mask == 1 and first & second & 2:
            a_border_in_b = True
        elif mask == 2 and first & second & 1:
            b_border_in_a = True
    touch = _touching(arr)
    a_only, b_only, both = 1 in faces, 2 in faces, 3 in faces
    if not both:
        return 'TOUCH' if touch else 'DISJOINT'
    if not a_only and not b_only:
        return 'EQUAL'
    if not a_only:
        if not touch:
            return 'WITHIN'
        return 'ENCLOSED' if a_border_in_b else 'COMPONENT'
    if not b_only:
        if not touch:
            return 'COVER'
        return 'ENCLOSES' if b_border_in_a else 'COMPOSITE'
    return 'OVERLAP'


def _half(d):
    return 0 if d[1] > 0 or (d[1] == 0 and d[0] > 0) else 1


def sort_around(incident):
    """Incident (direction, mask) pairs in angular order."""
    from functools import cmp_to_key

    def cmp(u, v):
        (du, _), (dv, _) = u, v
        hu, hv = _half(du), _half(dv)
        if hu != hv:
            return hu - hv
        cross = du[0] * dv[1] - du[1] * dv[0]
        return (cross < 0) - (cross > 0)

    return sorted(incident, key=cmp_to_key(cmp))


def crossing_kind(arr):
    """('none'|'touch'|'cross') for layers without common pieces."""
    touch = False
    for incident in arr.vertices().values():
        mask = 0
        for _, m in incident:
            mask |= m
        if mask & 3 != 3:
            continue
        touch = True
        labels = [m for _, m in sort_around(incident)]
        changes = sum(labels[i] != labels[i - 1] for i in range(len(labels)))
        if changes >= 4:
            return 'cross'
    return 'touch' if touch else 'none'


def _relate_linear(arr):
    masks = set(arr.pieces.values())
    a_only, b_only, both = 1 in masks, 2 in masks, 3 in masks
    if both:
        if not a_only:
            return 'COMPONENT' if b_only else 'EQUAL'
        return 'OVERLAP' if b_only else 'COMPOSITE'
    return {'cross': 'CROSS', 'touch': 'TOUCH',
            'none': 'DISJOINT'}[crossing_kind(arr)]


def _relate_mixed(arr, linear, shaped):
    """Relation of the linear layer to the shaped one."""
    inside = outside = False
    for piece, mask in arr.pieces.items():
        if mask == 1 << linear:
            if arr.inside(piece, shaped):
                inside = True
            else:
                outside = True
    touch = _touching(arr)
    if outside:
        return 'CROSS' if inside else 'TOUCH' if touch else 'DISJOINT'
    if not inside:
        return 'COMPONENT'
    return 'ENCLOSED' if touch else 'WITHIN'


# ----------------------------------------------------------------- validity

def _close_pairs(segs):
    """Pairs i < j of indices of segments whose boxes meet."""
    spans = [(min(p[0], q[0]), max(p[0], q[0]), min(p[1], q[1]),
              max(p[1], q[1])) for p, q in segs]
    order = sorted(range(len(segs)), key=spans.__getitem__)
    for k, i in enumerate(order):
        _, right, bottom, top = spans[i]
        for j in order[k + 1:]:
            other = spans[j]
            if other[0] > right:
                break
            if bottom <= other[3] and other[2] <= top:
                yield (i, j) if i < j else (j, i)


def ring_error(ring):
    """None if the closed ring is a valid simple contour."""
    n = len(ring)
    if n < 3:
        return 'fewer than 3 vertices'
    if len(set(ring)) != n:
        return 'repeated vertex'
    if collinear_vertices(ring):
        return f'collinear vertices {collinear_vertices(ring)}'
    segs = ring_segments(ring)
    for i, j in _close_pairs(segs):
        contact = segments_contact(*segs[i], *segs[j])
        if contact is None:
            continue
        if contact[0] == 'overlap':
            return f'edges {segs[i]} and {segs[j]} overlap'
        adjacent = j == i + 1 or (i == 0 and j == n - 1)
        if not adjacent:
            return f'edges {segs[i]} and {segs[j]} meet'
    return None


def multisegment_error(segs):
    """None if no two segments cross or overlap (touching is allowed)."""
    for p, q in segs:
        if p == q:
            return f'degenerate segment {(p, q)}'
    for i, j in _close_pairs(segs):
        contact = segments_contact(*segs[i], *segs[j])
        if contact is None:
            continue
        if contact[0] == 'overlap':
            return f'segments {segs[i]} and {segs[j]} overlap'
        if contact[1] not in segs[i] and contact[1] not in segs[j]:
            return f'segments {segs[i]} and {segs[j]} cross'
    return None


def collinear_vertices(ring):
    return [ring[i] for i in range(len(ring))
            if orient(ring[i - 1], ring[i], ring[(i + 1) % len(ring)]) == 0]


def polygon_error(border, holes):
    """None if simple rings, holes inside the border and outside each other,
    rings meeting at isolated points only."""
    for ring in (border, *holes):
        error = ring_error(ring)
        if error is not None:
            return error
    rings_ = [border, *holes]
    for i in range(len(rings_)):
        for j in range(i + 1, len(rings_)):
            relation = relate(('P', rings_[i], []), ('P', rings_[j], []))
            arr = Arrangement([ring_segments(rings_[i]),
                               ring_segments(rings_[j])])
            if 3 in arr.pieces.values():
                return 'rings share an edge'
            if i == 0:
                if relation not in ('COVER', 'ENCLOSES'):
                    return f'hole {rings_[j]} is not inside: {relation}'
            elif relation not in ('TOUCH', 'DISJOINT'):
                return f'holes relate {relation}'
    return None


def multipolygon_error(polys):
    for border, holes in polys:
        error = polygon_error(border, holes)
        if error is not None:
            return error
    for i in range(len(polys)):
        for j in range(i + 1, len(polys)):
            first, second = ('P', *polys[i]), ('P', *polys[j])
            relation = relate(first, second)
            if relation not in ('TOUCH', 'DISJOINT'):
                return f'polygons {i} and {j} relate {relation}'
            arr = Arrangement([segments(first), segments(second)])
            if 3 in arr.pieces.values():
                return f'polygons {i} and {j} share an edge'
    return None


def error(spec):
    kind = spec[0]
    if kind == 'E':
        return None
    if kind == 'S':
        return 'degenerate segment' if spec[1] == spec[2] else None
    if kind == 'M':
        if len(spec[1]) < 2:
            return 'too few segments'
        return multisegment_error(spec[1])
    if kind == 'C':
        return ring_error(spec[1])
    if kind == 'P':
        return polygon_error(spec[1], spec[2])
    if len(spec[1]) < 2:
        return 'too few polygons'
    return multipolygon_error(spec[1])


def interior_components(spec):
    """Number of connected components of the interior of a shaped spec."""
    arr = Arrangement([segments(spec)])
    return _components(arr)


def _components(arr):
    # trapezoid cells between consecutive event abscissae
    xs = sorted({Fraction(v[0], v[2]) for piece in arr.pieces
                 for v in piece})
    segs = [(p, q) for p, q in arr.layers[0] if p[0] != q[0]]
    parent = {}

    def find(u):
        while parent[u] != u:
            parent[u] = parent[parent[u]]
            u = parent[u]
        return u

    previous = []
    for lo, hi in zip(xs, xs[1:]):
        mid = (lo + hi) / 2
        spanning = []
        for (x1, y1), (x2, y2) in segs:
            if x1 <= lo and hi <= x2:
                k = Fraction(y2 - y1, x2 - x1)
                spanning.append((y1 + k * (mid - x1), y1 + k * (lo - x1),
                                 y1 + k * (hi - x1)))
        spanning.sort()
        current = []
        for index in range(0, len(spanning) - 1, 2):
            below, above = spanning[index], spanning[index + 1]
            cell = (lo, index)
            parent[cell] = cell
            current.append((cell, below[1], above[1], below[2], above[2]))
        for cell, below_lo, above_lo, _, _ in current:
            for other, _, _, below_hi, above_hi in previous:
                # overlapping openings on the common wall (edges on the wall
                # itself are vertical boundary pieces)
                bottom, top = max(below_lo, below_hi), min(above_lo, above_hi)
                if bottom < top and _wall_open(arr, lo, bottom, top):
                    parent[find(cell)] = find(other)
        previous = current
    return len({find(u) for u in parent})


def _wall_open(arr, x, bottom, top):
    covered = []
    for (x1, y1), (x2, y2) in arr.layers[0]:
        if x1 == x2 == x:
            lo, hi = max(min(y1, y2), bottom), min(max(y1, y2), top)
            if lo < hi:
                covered.append((lo, hi))
    covered.sort()
    reach = bottom
    for lo, hi in covered:
        if lo > reach:
            return True
        reach = max(reach, hi)
    return reach < top
