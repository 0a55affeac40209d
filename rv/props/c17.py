"""C17: answers commute with exact affine maps, whatever the magnitudes."""
from fractions import Fraction

from .. import gen, ref, target
from ..base import Property
from .common import apply, any_pair, kinds, mixed_supported

TURNS = ((1, 0, 0, 1), (0, 1, 1, 0), (-1, 0, 0, 1), (1, 0, 0, -1),
         (0, -1, 1, 0), (-1, 0, 0, -1), (1, 1, 0, 1), (1, 0, -3, 1),
         (2, 1, 1, 1), (3, -2, 1, 4), (1, 10 ** 12, 0, 1), (7, 0, 0, -2))
SCALES = (1, 1, Fraction(1, 3), Fraction(10 ** 30), Fraction(1, 10 ** 30),
          Fraction(2 ** 70 + 1, 3 ** 20), Fraction(1, 2 ** 1080), 10 ** 320,
          Fraction(-5, 7))
OFFSETS = (0, 0, 1, Fraction(1, 7), 10 ** 30, -10 ** 320, 2 ** 53 + 1,
           Fraction(10 ** 40 + 1, 10 ** 20))


def moved(spec, numbers):
    a, b, c, d, s, x, y = numbers
    return ref.map_points(spec, lambda p: ((a * p[0] + b * p[1]) * s + x,
                                           (c * p[0] + d * p[1]) * s + y))


class C17(Property):
    id = 'C17'
    rule = ('two valid compounds of any kinds with 6 points and an '
            'invertible affine map with entries up to 10 ** 320 and down to '
            '2 ** -1080 in size; the answers about the mapped operands '
            'compared with the mapped answers (operators, relate_to, locate, '
            'in, is_valid, orientation, bounding box of the result); '
            'non-trivial when the map is not the identity and the operands '
            'are not disjoint')
    quick = (2600, 240)
    thorough = (90000, 3000)

    def make(self, src):
        a, b = any_pair(src)
        numbers = (*src.choice(TURNS), src.choice(SCALES),
                   src.choice(OFFSETS), src.choice(OFFSETS))
        return (a, b, numbers, tuple(gen.probe_points(src, [a, b], 6)))

    def run(self, case, ctx):
        a, b, numbers, points = case
        kinds(ctx, a, b)
        p, q = moved(a, numbers), moved(b, numbers)
        x, y = target.build(a), target.build(b)
        u, v = target.build(p), target.build(q)
        relation = x.relate_to(y)
        ctx.tag(relation.name)
        ctx.nontrivial = (numbers != (1, 0, 0, 1, 1, 0, 0)
                          and relation.name != 'DISJOINT')
        if u.relate_to(v) is not relation:
            return f'relation {relation} is {u.relate_to(v)} after mapping'
        if target.read(u) != p or target.read(v) != q:
            return 'coordinates are not kept'
        linear = [spec[0] in 'SMC' for spec in (a, b)]
        if linear[0] == linear[1]:
            ops = '&|-^'
        elif linear[0]:
            ops = mixed_supported(a, b, 0)
        else:
            ops = mixed_supported(b, a, 1)
        for op in ops:
            before = target.read(apply(op, x, y))
            after = target.read(apply(op, u, v))
            error = ref.same_set(moved(before, numbers), after)
            if error is not None:
                return f'{op} gives {before}, after mapping {after}: {error}'
        for spec, first, second in ((a, x, u), (b, y, v)):
            for point in points:
                image = moved(('S', point, point), numbers)[1]
                before = first.locate(target.point(point))
                after = second.locate(target.point(image))
                if before is not after:
                    return f'{point} located {before}, after mapping {after}'
                if (target.point(image) in second) is not (
                        target.point(point) in first):
                    return f'{point} in differs after mapping'
            if spec[0] in 'MC':
                if first.is_valid() is not second.is_valid():
                    return f'is_valid is {second.is_valid()} after mapping'
            if spec[0] == 'C':
                flips = numbers[0] * numbers[3] < numbers[1] * numbers[2]
                same = first.orientation is second.orientation
                if same is flips:
                    return f'orientation {second.orientation} after mapping'
        return None


PROPERTY = C17()
