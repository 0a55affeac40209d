"""C26: a geometry behaves as the union of its parts."""
from rene import exact

from .. import gen, ref, target
from ..base import Property
from .common import kinds

SUB = {'EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN'}
APART = {'DISJOINT', 'TOUCH'}


def parts_of(spec):
    if spec[0] == 'M':
        return [('S', *s) for s in spec[1]]
    if spec[0] == 'C':
        return [('S', *s) for s in ref.segments(spec)]
    return [('P', *poly) for poly in spec[1]] if spec[0] == 'MP' else []


class C26(Property):
    id = 'C26'
    rule = ('a compound of several parts (segments of multisegments and '
            'contours, polygons of multipolygons, rings of polygons) and '
            'another compound, 4 points: locations, bounding boxes, '
            'intersections, differences, unions and relations compared with '
            'those of the parts; a contour against the multisegment of its '
            'edges and a polygon against border minus holes; non-trivial '
            'when at least two parts meet the other operand')
    quick = (5000, 120)
    thorough = (80000, 3000)

    def enumerated(self, tier):
        yield from gen.small_pairs(tier, 5, ((0, 0), (2, 1), (1, 1)))

    def make(self, src):
        kind = src.below(5)
        if kind < 2:
            a, b = gen.regions(src)
        elif kind < 4:
            a, b = gen.linears(src)
        else:
            a, b = gen.mixed(src)
            if src.bool():
                a, b = b, a
        if len(parts_of(b)) > len(parts_of(a)) and src.bool():
            a, b = b, a
        return (a, b, tuple(gen.probe_points(src, [a, b], 4)))

    def run(self, case, ctx):
        a, b, probes = case
        kinds(ctx, a, b)
        if 'E' in (a[0], b[0]):
            return None
        x, y = target.build(a), target.build(b)
        for p in probes:
            message = location_error(a, x, p)
            if message is not None:
                return f'{p}: {message}'
        message = rings_error(a, x) if ref.is_shaped(a) else None
        if message is not None:
            return message
        if a[0] == 'C':
            message = edges_error(a, x, b, y)
            if message is not None:
                return message
        parts = parts_of(a)[:12]
        if len(parts) < 2 or len(parts) < len(parts_of(a)):
            return None
        built = [target.build(part) for part in parts]
        names = [part.relate_to(y).name for part in built]
        ctx.nontrivial = sum(name != 'DISJOINT' for name in names) > 1
        message = relation_error(x.relate_to(y).name, names,
                                 ref.is_shaped(a), ref.is_shaped(b))
        if message is not None:
            return f'{message}: parts relate {names}'
        whole = built[0]
        for part in built[1:]:
            whole = whole | part
        message = differs(whole, x)
        if message is not None:
            return f'union of the parts: {message}'
        met = exact.Empty()
        for part in built:
            met = met | (part & y)
        message = differs(met, x & y)
        if message is not None:
            return f'a & b by parts of a: {message}'
        message = differs(met, y & x)
        if message is not None:
            return f'b & a by parts of a: {message}'
        if ref.is_shaped(a) == ref.is_shaped(b):
            left = y
            for part in built:
                left = left - part
            message = differs(left, y - x)
            if message is not None:
                return f'b - a by parts of a: {message}'
            left = exact.Empty()
            for part in built:
                left = left | (part - y)
            message = differs(left, x - y)
            if message is not None:
                return f'a - b by parts of a: {message}'
        return None


def differs(first, second):
    """None when the two cover the same set."""
    u, v = target.read(first), target.read(second)
    if 'E' in (u[0], v[0]):
        return None if u == v else f'{u} is not {v}'
    return ref.same_set(u, v)


def location_error(a, x, p):
    point = target.point(p)
    actual = x.locate(point).name
    if a[0] in ('M', 'C', 'MP'):
        found = {target.build(part).locate(point).name
                 for part in parts_of(a)}
        expected = ('INTERIOR' if 'INTERIOR' in found else
                    'BOUNDARY' if 'BOUNDARY' in found else 'EXTERIOR')
    elif a[0] == 'P':
        expected = target.polygon(a[1], []).locate(point).name
        for hole in a[2]:
            inner = target.polygon(hole, []).locate(point).name
            if inner == 'INTERIOR':
                expected = 'EXTERIOR'
            elif inner == 'BOUNDARY' and expected != 'EXTERIOR':
                expected = 'BOUNDARY'
        ring = [r for r in x.holes if point in r] or point in x.border
        if bool(ring) is not (actual == 'BOUNDARY'):
            return f'{actual}, rings say {ring}'
    else:
        return None
    return None if actual == expected else f'{actual}, parts say {expected}'


def rings_error(a, x):
    for polygon, (border, holes) in zip(
            x.polygons if a[0] == 'MP' else [x], ref.polygons(a)):
        left = target.polygon(border, [])
        for hole in holes:
            left = left - target.polygon(hole, [])
        message = differs(left, polygon)
        if message is not None:
            return f'border minus holes: {message}'
        box = polygon.bounding_box
        if box != polygon.border.bounding_box:
            return f'bounding box {box} of {polygon}'
    boxes = [p.bounding_box for p in x.polygons] if a[0] == 'MP' else []
    if boxes:
        least = exact.Box(min(b.min_x for b in boxes),
                          max(b.max_x for b in boxes),
                          min(b.min_y for b in boxes),
                          max(b.max_y for b in boxes))
        if least != x.bounding_box:
            return f'bounding box {x.bounding_box}, of parts {least}'
    return None


def edges_error(a, x, b, y):
    edges = exact.Multisegment(list(x.segments))
    if x.relate_to(edges).name != 'EQUAL':
        return f'contour relates {x.relate_to(edges)} to its edges'
    for first, second in ((x.relate_to(y), edges.relate_to(y)),
                          (y.relate_to(x), y.relate_to(edges))):
        if first is not second:
            return f'contour relates {first}, its edges {second}'
    if x.bounding_box != edges.bounding_box:
        return f'bounding boxes {x.bounding_box} and {edges.bounding_box}'
    pairs = [('&', x & y, edges & y), ('reflected &', y & x, y & edges)]
    if not ref.is_shaped(b):
        pairs += [('|', x | y, edges | y), ('-', x - y, edges - y),
                  ('reflected -', y - x, y - edges), ('^', x ^ y, edges ^ y)]
    else:
        pairs += [('-', x - y, edges - y)]
    for name, first, second in pairs:
        message = differs(first, second)
        if message is not None:
            return f'{name} of contour and of its edges: {message}'
    return None


def relation_error(name, names, a_shaped, b_shaped):
    """Contradiction of the relation with those of the parts."""
    if (name == 'DISJOINT') is not all(n == 'DISJOINT' for n in names):
        return f'{name} of the whole'
    if (name in SUB) is not all(n in SUB for n in names):
        return f'{name} of the whole'
    if b_shaped and (name == 'WITHIN') is not all(n == 'WITHIN'
                                                  for n in names):
        return f'{name} of the whole'
    if a_shaped and b_shaped and (name in APART) is not all(
            n in APART for n in names):
        return f'{name} of the whole'
    if b_shaped and not a_shaped:
        # interior met by the whole exactly when by a part
        inside = {'WITHIN', 'ENCLOSED', 'CROSS'}
        if (name in inside) is not any(n in inside for n in names):
            return f'{name} of the whole'
        if (name == 'COMPONENT') is not all(n == 'COMPONENT'
                                            for n in names):
            return f'{name} of the whole'
    if a_shaped and not b_shaped:
        inside = {'COVER', 'ENCLOSES', 'CROSS'}
        if (name in inside) is not any(n in inside for n in names):
            return f'{name} of the whole'
    if not a_shaped and not b_shaped:
        apart = {'DISJOINT', 'TOUCH', 'CROSS'}
        if (name in apart) is not all(n in apart for n in names):
            return f'{name} of the whole'
        if name != 'CROSS' and name in apart and 'CROSS' in names:
            return f'{name} of the whole'
    return None


PROPERTY = C26()
