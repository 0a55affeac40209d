"""C24: coordinates of any number type are kept exactly and act the same."""
import math
from fractions import Fraction

from rithm.fraction import Fraction as RithmFraction
from rithm.integer import Int

from rene import exact

from .. import gen, ref, target
from ..base import Property
from .common import any_pair, apply, kinds, mixed_supported

REFUSED = (float('nan'), float('inf'), -float('inf'), '1', b'1', 1j, (), [],
           (1, 2), object())
FLOATS = (0.0, -0.0, .5, -.25, .1, 1 / 3, 1e16, 1e16 + 2, 2.0 ** 53,
          2.0 ** 53 + 2, 5e-324, -5e-324, 2.2250738585072014e-308,
          1.7976931348623157e308, -1e300, 1e-300, 123456789.125)


def writings(value):
    """The number in every type that holds it exactly."""
    value = Fraction(value)
    result = [value, RithmFraction(value.numerator, value.denominator)]
    if value.denominator == 1:
        result += [value.numerator, Int(value.numerator)]
        if value.numerator in (0, 1):
            result.append(bool(value.numerator))
    try:
        approximate = float(value)
    except OverflowError:
        return result
    if Fraction(approximate) == value:
        result.append(approximate)
        if not value:
            result.append(-0.0)
    return result


class Writer:
    """Builds geometries from specs, types of numbers picked by a list."""

    def __init__(self, picks):
        self.picks, self.at = picks or (0,), 0

    def number(self, value):
        options = writings(value)
        self.at += 1
        return options[self.picks[self.at % len(self.picks)] % len(options)]

    def point(self, p):
        return exact.Point(self.number(p[0]), self.number(p[1]))

    def segment(self, p, q):
        return exact.Segment(self.point(p), self.point(q))

    def contour(self, ring):
        return exact.Contour([self.point(p) for p in ring])

    def polygon(self, border, holes):
        return exact.Polygon(self.contour(border),
                             [self.contour(hole) for hole in holes])

    def build(self, spec):
        kind = spec[0]
        if kind == 'E':
            return exact.Empty()
        if kind == 'S':
            return self.segment(*spec[1:])
        if kind == 'M':
            return exact.Multisegment([self.segment(*s) for s in spec[1]])
        if kind == 'C':
            return self.contour(spec[1])
        if kind == 'P':
            return self.polygon(spec[1], spec[2])
        return exact.Multipolygon([self.polygon(*p) for p in spec[1]])


def number(src):
    kind = src.below(5)
    if kind == 0:
        return src.zigzag(9)
    if kind == 1:
        return Fraction(src.choice(FLOATS))
    if kind == 2:
        return Fraction(src.zigzag(20), src.choice((2, 8, 1 << 60, 1 << 1074,
                                                    3, 10, 7 ** 30)))
    if kind == 3:
        return src.choice((1, -1)) * (src.choice((
            1 << 53, 1 << 63, 1 << 64, 10 ** 30, 1 << 1023, 1 << 1024,
            10 ** 400)) + src.zigzag(2))
    mantissa = sum(src.below(1 << 13) << 13 * k for k in range(4))
    return Fraction(math.ldexp(mantissa, src.int(-1074, 900)))


class C24(Property):
    id = 'C24'
    rule = ('two numbers of every size (floats at the limits included) as '
            'point and box coordinates in every number type that holds '
            'them; a pair of compounds built twice, with coordinates in '
            'mixed number types and with plain ones: equality, hashes, '
            'texts, locations, relations and operators agree; values that '
            'are no finite number refused; non-trivial when some coordinate '
            'has at least 3 writings')
    quick = (4500, 120)
    thorough = (200000, 2000)

    def make(self, src):
        if src.bool():
            return ('numbers', number(src), number(src))
        pair = any_pair(src)
        scale = src.choice((1, Fraction(1, 2), Fraction(1, 1 << 20), 1 << 70,
                            Fraction(1, 1 << 70)))
        a, b = (ref.map_points(spec, lambda p: (
            gen._div(p[0] * Fraction(scale).numerator,
                     Fraction(scale).denominator),
            gen._div(p[1] * Fraction(scale).numerator,
                     Fraction(scale).denominator))) for spec in pair)
        picks = tuple(src.below(60) for _ in range(src.int(1, 7)))
        return ('pair', a, b, picks, tuple(gen.probe_points(src, [a, b], 2)))

    def enumerated(self, tier):
        for value in FLOATS:
            for other in FLOATS:
                yield ('numbers', Fraction(value), Fraction(other))
        for k in range(len(REFUSED)):
            yield ('refused', k)

    def run(self, case, ctx):
        ctx.tag(case[0])
        if case[0] == 'refused':
            value = REFUSED[case[1]]
            for k in range(2):
                try:
                    exact.Point(*(value if k == i else 1 for i in (0, 1)))
                except (TypeError, ValueError, OverflowError):
                    continue
                return f'point coordinate {value!r} accepted'
            for k in range(4):
                try:
                    exact.Box(*(value if k == i else 1 for i in range(4)))
                except (TypeError, ValueError, OverflowError):
                    continue
                return f'box coordinate {value!r} accepted'
            return None
        if case[0] == 'numbers':
            return numbers_error(case[1], case[2], ctx)
        _, a, b, picks, probes = case
        kinds(ctx, a, b)
        ctx.nontrivial = any(len(writings(v)) > 2
                             for p in ref.points(a) for v in p)
        writer = Writer(picks)
        mixed, plain = [], []
        for spec in (a, b):
            x, y = writer.build(spec), target.build(spec)
            mixed.append(x)
            plain.append(y)
            if target.read(x) != spec:
                return f'{spec} reads {target.read(x)}'
            if not (x == y) or not (y == x) or x != y or hash(x) != hash(y):
                return f'{spec} differs when written with {picks}'
            if repr(x) != repr(y) or str(x) != str(y):
                return f'texts {x!r} and {y!r}'
            for p in probes:
                if (x.locate(writer.point(p)) is not y.locate(target.point(p))
                        or (writer.point(p) in x)
                        is not (target.point(p) in y)):
                    return f'location of {p} in {spec}'
        for first, second in ((mixed[0], plain[1]), (plain[0], mixed[1]),
                              mixed):
            if first.relate_to(second) is not plain[0].relate_to(plain[1]):
                return 'relations differ'
        if ref.is_shaped(a) == ref.is_shaped(b) or 'E' in (a[0], b[0]):
            ops = '&|-^'
        else:
            ops = mixed_supported(a, b, int(ref.is_shaped(a)))
        for op in ops:
            expected = target.read(apply(op, *plain))
            actual = target.read(apply(op, *mixed))
            if actual != expected:
                return f'a {op} b is {actual}, not {expected}'
        return None


def numbers_error(x, y, ctx):
    ctx.nontrivial = len(writings(x)) > 2
    first = exact.Point(Fraction(x), Fraction(y))
    for u in writings(x):
        for v in writings(y):
            p = exact.Point(u, v)
            for actual, expected in ((p.x, x), (p.y, y)):
                if type(actual) is not RithmFraction:
                    return f'coordinate of type {type(actual).__name__}'
                if target.number(actual) != expected:
                    return f'Point({u!r}, {v!r}) has {actual!r}'
            if not (p == first) or p != first or hash(p) != hash(first):
                return f'Point({u!r}, {v!r}) is not equal to {first}'
            if p < first or p > first or not p <= first or not p >= first:
                return f'order of Point({u!r}, {v!r}) and {first}'
            if repr(p) != repr(first) or str(p) != str(first):
                return f'texts of Point({u!r}, {v!r}) and {first}'
    base = exact.Box(Fraction(x), Fraction(y), Fraction(y), Fraction(x))
    for u, v in zip(writings(x) * 2, writings(y) * 2):
        box = exact.Box(u, v, v, u)
        if [target.number(w) for w in (box.min_x, box.max_x, box.min_y,
                                       box.max_y)] != [x, y, y, x]:
            return f'Box({u!r}, {v!r}, {v!r}, {u!r}) is {box!r}'
        if box != base or hash(box) != hash(base) or repr(box) != repr(base):
            return f'{box!r} differs from {base!r}'
        if box.is_valid() is not (x == y):
            return f'validity of {box!r}'
    return None


PROPERTY = C24()
