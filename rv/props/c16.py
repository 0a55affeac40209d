"""C16: equality, hashing and ordering."""
from fractions import Fraction

from rene import exact

from .. import gen, ref, source, target
from ..base import Property
from .common import kinds

FOREIGN = (None, 0, 1.5, '', (), [], object(), exact, ('x', 'y'))


def forms(p):
    """The same point written with other kinds of numbers."""
    yield exact.Point(*p)
    yield exact.Point(Fraction(p[0]), Fraction(p[1]))
    q = target.point(p)
    yield exact.Point(q.x, q.y)
    if float(p[0]) == p[0] and float(p[1]) == p[1]:
        yield exact.Point(float(p[0]), float(p[1]))


def points_error(points):
    objects = [(p, q) for p in points for q in forms(p)]
    for p, x in objects:
        for q, y in objects:
            for name, actual, expected in (
                    ('==', x == y, p == q), ('!=', x != y, p != q),
                    ('<', x < y, p < q), ('<=', x <= y, p <= q),
                    ('>', x > y, p > q), ('>=', x >= y, p >= q)):
                if actual is not expected:
                    return f'{p} {name} {q} is {actual}'
            if p == q and hash(x) != hash(y):
                return f'hashes of equal {p} and {q}'
    if [target.read_point(x) for x in sorted(x for _, x in objects)] != sorted(
            p for p, _ in objects):
        return f'order of {points}'
    if len({x for _, x in objects}) != len(set(points)):
        return f'set of {points}'
    for x in (objects[0][1],):
        for foreign in FOREIGN[:2]:
            for compare in (lambda: x < foreign, lambda: x <= foreign,
                            lambda: x > foreign, lambda: x >= foreign,
                            lambda: foreign < x, lambda: foreign >= x):
                try:
                    compare()
                except TypeError:
                    continue
                return f'point ordered with {foreign!r}'
    return None


class C16(Property):
    id = 'C16'
    rule = ('3 to 7 valid geometries grown from one: the same with other '
            'starts, directions and orders, near copies (also ones with '
            'coordinates of the same hashes) and other kinds of the same '
            'shape; all pairs compared with the canonical forms by ==, !=, '
            'hash, set and dict; and 2 to 5 points in several number '
            'types by all comparisons; non-trivial when some two of '
            'different representation are equal and some two are not')
    quick = (10000, 200)
    thorough = (300000, 3000)

    def enumerated(self, tier):
        # more parts than a call stack is deep
        for k, spec in enumerate(gen.huge_geometries()):
            src = source.fresh(f'C16 {k}')
            p, q = ref.points(spec)[-2:]
            yield ((spec, gen.represented(src, spec),
                    gen.represented(src, spec),
                    ref.map_points(spec, lambda v: (
                        (v[0], v[1] + Fraction(1, 9)) if v == p else v))),
                   (p, q))

    def make(self, src):
        specs = [gen.any_geometry(src)]
        for _ in range(src.int(2, 6)):
            base = src.choice(specs)
            if src.bool():
                specs.append(gen.represented(src, base))
            else:
                other = gen.relative(src, base)
                if ref.error(other) is None:
                    specs.append(other)
        if src.chance(1, 4):
            specs += [twin
                      for twin in gen.hash_twins(src, src.choice(specs))
                      if ref.error(twin) is None]
        if src.chance(1, 10):
            specs.append(('E',))
        points = [src.choice(ref.points(specs[0]))]
        for _ in range(src.int(1, 3)):
            x, y = src.choice(points)
            step = src.choice((1, gen._div(1, 3), gen._div(1, 10 ** 25),
                               2 ** 61 - 1))
            points.append((x + step * src.zigzag(1), y + step * src.zigzag(1)))
        return tuple(specs), tuple(points)

    def run(self, case, ctx):
        specs, points = case
        kinds(ctx, specs[0])
        known = [ref.normal_form(spec) for spec in specs]
        objects = [target.build(spec) for spec in specs]
        objects += [target.build(spec) for spec in specs[:1]]
        known += known[:1]
        specs = (*specs, specs[0])
        hashes = list(map(hash, objects))
        boxes = [x.bounding_box for x in objects
                 if not isinstance(x, exact.Empty)]
        ctx.nontrivial = (
            len(set(known)) > 1 and any(
                known[i] == known[j] and specs[i] != specs[j]
                for i in range(len(specs)) for j in range(i)))
        for i, x in enumerate(objects):
            for j, y in enumerate(objects):
                expected = known[i] == known[j]
                if (x == y) is not expected:
                    return f'{specs[i]} == {specs[j]} is {x == y}'
                if (x != y) is expected:
                    return f'{specs[i]} != {specs[j]} is {x != y}'
                if expected and hashes[i] != hashes[j]:
                    return f'hashes of {specs[i]} and {specs[j]} differ'
            for foreign in (*(FOREIGN if i < 2 else ()), *boxes[:2],
                            target.point(points[0])):
                if (x == foreign or foreign == x
                        or not x != foreign or not foreign != x):
                    return f'{specs[i]} equals {foreign!r}'
        if len(set(objects)) != len(set(known)):
            return f'set of {specs} has {len(set(objects))} items'
        first = {}
        for i, x in enumerate(objects):
            first.setdefault(x, i)
        for i, x in enumerate(objects):
            if first[x] != known.index(known[i]):
                return f'{specs[i]} is not found as key of a dict'
        return points_error(points)


PROPERTY = C16()
