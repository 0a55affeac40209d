"""C15: boxes as closed rectangles, bounding boxes as least boxes."""
import itertools

from rene import exact
from rene.enums import Relation

from .. import gen, ref, target
from ..base import Property
from .common import kinds

METHODS = {'covers': 'COVER', 'disjoint_with': 'DISJOINT',
           'enclosed_by': 'ENCLOSED', 'encloses': 'ENCLOSES',
           'equals_to': 'EQUAL', 'overlaps': 'OVERLAP', 'touches': 'TOUCH',
           'within': 'WITHIN'}
# what is asked of degenerate boxes too
PLAIN = {'COVER', 'DISJOINT', 'EQUAL', 'WITHIN'}


def relation(a, b):
    """Of closed rectangles (min_x, max_x, min_y, max_y)."""
    if a[1] < b[0] or b[1] < a[0] or a[3] < b[2] or b[3] < a[2]:
        return 'DISJOINT'
    if a == b:
        return 'EQUAL'
    if a[1] == b[0] or b[1] == a[0] or a[3] == b[2] or b[3] == a[2]:
        return 'TOUCH'
    for first, second, strict, weak in ((a, b, 'WITHIN', 'ENCLOSED'),
                                        (b, a, 'COVER', 'ENCLOSES')):
        if (second[0] < first[0] and first[1] < second[1]
                and second[2] < first[2] and first[3] < second[3]):
            return strict
        if (second[0] <= first[0] and first[1] <= second[1]
                and second[2] <= first[2] and first[3] <= second[3]):
            return weak
    return 'OVERLAP'


def solid(a):
    return a[0] < a[1] and a[2] < a[3]


def least(spec):
    points = ref.points(spec)
    xs, ys = [p[0] for p in points], [p[1] for p in points]
    return (min(xs), max(xs), min(ys), max(ys))


def read_box(box):
    return tuple(target.number(v) for v in (box.min_x, box.max_x,
                                            box.min_y, box.max_y))


def pair_error(a, b):
    first, second = exact.Box(*a), exact.Box(*b)
    expected = relation(a, b)
    both = solid(a) and solid(b)
    actual = first.relate_to(second)
    if both or expected in PLAIN:
        if actual is not Relation[expected]:
            return f'{a} relates {actual} to {b}, not {expected}'
    elif actual.name in PLAIN:
        return f'{a} relates {actual} to {b}, not {expected}'
    for method, name in METHODS.items():
        if both or name in PLAIN:
            answer = getattr(first, method)(second)
            if answer is not (expected == name):
                return f'{a} {method} {b} is {answer}: they {expected}'
    if second.relate_to(first) is not actual.complement:
        return f'{b} and {a} relate differently from {a} and {b}'
    if (first == second) is not (a == b) or (first != second) is not (a != b):
        return f'equality of {a} and {b}'
    if a == b and hash(first) != hash(second):
        return f'hashes of equal {a}'
    if read_box(first) != a:
        return f'{a} reads {read_box(first)}'
    return None


class C15(Property):
    id = 'C15'
    rule = ('either two boxes (sides from a few values, so that they share '
            'some, also flat and inverted ones for is_valid), or one compound '
            'under a rational affine map; predicates compared with closed '
            'rectangles, bounding boxes with least and greatest '
            'coordinates; non-trivial when both boxes have area, or the '
            'compound at least 4 vertices; all pairs of boxes with sides '
            'among 4 values enumerated')
    quick = (80000, 200)
    thorough = (400000, 3000)

    def enumerated(self, tier):
        spans = [(i, j) for i in range(4) for j in range(i, 4)]
        boxes = [(*x, *y) for x in spans for y in spans]
        for a in boxes:
            for b in boxes:
                yield ('boxes', a, b)
        for limits in itertools.product(range(3), repeat=4):
            yield ('valid', limits)
        for spec in gen.huge_geometries():
            yield ('bounds', spec)

    def make(self, src):
        kind = src.below(4)
        if kind == 0:
            base = src.choice((0, 0, 10 ** 20, -10 ** 30))
            step = src.choice((1, gen._div(1, 3), gen._div(-7, 10 ** 20)))
            sides = src.choice((3, 5, 9))

            def box():
                result = []
                for _ in range(2):
                    values = [base + step * src.below(sides)
                              for _ in range(2)]
                    result += sorted(values)
                return tuple(result)
            return ('boxes', box(), box())
        if kind == 1 and src.bool():
            return ('valid', tuple(gen._div(src.zigzag(4), src.choice((
                1, 1, 7, 10 ** 20))) for _ in range(4)))
        return ('bounds', gen.any_geometry(src))

    def run(self, case, ctx):
        ctx.tag(case[0])
        if case[0] == 'boxes':
            ctx.nontrivial = solid(case[1]) and solid(case[2])
            return pair_error(case[1], case[2])
        if case[0] == 'valid':
            low_x, high_x, low_y, high_y = case[1]
            ctx.nontrivial = True
            expected = low_x <= high_x and low_y <= high_y
            actual = exact.Box(*case[1]).is_valid()
            if actual is not expected:
                return f'is_valid of {case[1]} is {actual}'
            return None
        spec = case[1]
        kinds(ctx, spec)
        if spec[0] == 'E':
            return None
        ctx.nontrivial = len(set(ref.points(spec))) > 3
        geometry = target.build(spec)
        actual = read_box(geometry.bounding_box)
        if actual != least(spec):
            return f'bounding box of {spec} is {actual}'
        if geometry.bounding_box != exact.Box(*least(spec)):
            return f'bounding box of {spec} is not equal to the least box'
        if target.read(geometry) != spec:
            return 'geometry changed'
        return None


PROPERTY = C15()
