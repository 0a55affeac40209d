"""C21: chains of operations track the set model."""
from __future__ import annotations

from fractions import Fraction

from rene import exact

from .. import gen, ref, target
from ..base import Property
from ..runner import Harness
from .common import APPLY

LIMIT = 260          # edges of one operand
ACTIONS = ('&', '|', '-', '^')
LOOKS = ('locate', 'relate', 'part', 'again', 'trapezoids', 'triangles')


class Layer:
    """A base operand: bit of the arrangement layer."""

    def __init__(self, bit, shaped):
        self.bit = 1 << bit
        self.shaped = shaped

    def holds(self, mask, side):
        return bool((side if self.shaped else mask) & self.bit)


class Nothing:
    shaped = None

    def holds(self, mask, side):
        return False


class Result:
    """Set operation over models; memoized per arrangement cell."""

    def __init__(self, op, first, second, shaped):
        self.f = ref.OPS[op]
        self.first, self.second = first, second
        self.shaped = shaped
        self.cache = {}

    def holds(self, mask, side):
        key = (mask, side)
        if key not in self.cache:
            self.cache[key] = self.f(self.of(self.first, mask, side),
                                     self.of(self.second, mask, side))
        return self.cache[key]

    def of(self, model, mask, side):
        if self.shaped or not model.shaped:
            return model.holds(mask, side)
        # closed region as clip of a linear geometry; both sides in the key
        return (model.holds(mask, side[0]) or model.holds(mask, side[1]))


def membership_error(bases, model, spec):
    """The spec against its model on every piece of the joint arrangement."""
    arr = ref.Arrangement([*map(ref.segments, bases), ref.segments(spec)])
    bit = 1 << len(bases)
    shaped = [k for k, base in enumerate(bases) if ref.is_shaped(base)]
    if ref.is_shaped(spec):
        shaped.append(len(bases))
    for piece, mask in arr.pieces.items():
        sides = arr.sides(piece, shaped)
        if model.shaped:
            for side in sides:
                want = model.holds(mask, side & ~bit)
                if want != bool(side & bit):
                    return (f'next to {arr.point(piece)}: in result='
                            f'{not want}, expected {want}')
        else:
            want = model.holds(mask & ~bit, tuple(sides))
            if want != bool(mask & bit):
                return (f'at {arr.point(piece)}: in result={not want}, '
                        f'expected {want}')
    return None


class Entry:
    def __init__(self, obj, spec, model):
        self.obj, self.spec, self.model = obj, spec, model


def shape_of(spec):
    return 'E' if spec[0] == 'E' else 'S' if ref.is_shaped(spec) else 'L'


def operands(op, x, y):
    """(op, x, y) that is supported, as close to the asked one as possible."""
    kinds = {shape_of(x.spec), shape_of(y.spec)}
    if kinds == {'S', 'L'} and op != '&':
        if op == '-':
            if shape_of(x.spec) == 'S':
                x, y = y, x
            if x.spec[0] == 'S':
                op = '&'
        else:
            op = '&'
    return op, x, y


class History:
    def __init__(self, specs):
        self.bases = list(specs)
        self.pool = []
        for k, spec in enumerate(specs):
            self.pool.append(Entry(target.build(spec), spec,
                                   Layer(k, ref.is_shaped(spec))))
        self.depth = [0] * len(specs)

    def step(self, action, i, j, points, ctx):
        first = i % len(self.pool)
        second = j % len(self.pool)
        x, y = self.pool[first], self.pool[second]
        if action in ACTIONS:
            return self.operate(action, first, second, ctx)
        if action == 'locate':
            return located(x, points)
        if action == 'relate':
            return related(x, y)
        if action == 'part':
            return self.take_part(x, j)
        if action == 'again':
            return self.rebuild(x)
        if action == 'trapezoids':
            return trapezoids(x, j, points)
        return triangles(x)

    def operate(self, action, first, second, ctx):
        op, x, y = operands(action, self.pool[first], self.pool[second])
        if (len(ref.segments(x.spec)) > LIMIT
                or len(ref.segments(y.spec)) > LIMIT):
            return None
        value = APPLY[op](x.obj, y.obj)
        spec = target.read(value)
        kinds = {shape_of(x.spec), shape_of(y.spec)} - {'E'}
        if not kinds:
            model = Nothing()
        else:
            model = Result(op, x.model, y.model, kinds == {'S'})
        here = f'{op} of {x.spec} and {y.spec} gave {spec}'
        if spec[0] != 'E' and model.shaped is not None and (
                ref.is_shaped(spec) is not model.shaped):
            return here
        if not kinds and spec[0] != 'E':
            return here
        error = ref.error(spec)
        if error is not None:
            return f'{here}: {error}'
        error = membership_error(self.bases, model, spec)
        if error is not None:
            return f'{here}: {error}'
        error = box_error(value, spec)
        if error is not None:
            return f'{here}: {error}'
        if spec[0] in ('M', 'C') and not value.is_valid():
            return f'{here}: not valid'
        depth = 1 + max(self.depth[first], self.depth[second])
        if spec[0] == 'E' and len(self.pool) > 3:
            return None
        ctx.tag(f'depth {min(depth, 8)}')
        self.depth.append(depth)
        self.pool.append(Entry(value, spec,
                               Nothing() if spec[0] == 'E' else model))
        return None

    def take_part(self, x, j):
        """A component of an entry becomes a base operand of its own."""
        parts = components(x.obj)
        if not parts or len(self.bases) > 9:
            return None
        obj = parts[j % len(parts)]
        return self.add(obj, target.read(obj))

    def rebuild(self, x):
        """An equal copy in the place of an entry (same model)."""
        copy = target.build(x.spec)
        if not (copy == x.obj and hash(copy) == hash(x.obj)):
            return f'copy of {x.spec} is not equal to it'
        x.obj = copy
        return None

    def add(self, obj, spec):
        error = ref.error(spec)
        if error is not None:
            return f'component {spec}: {error}'
        self.bases.append(spec)
        self.pool.append(Entry(obj, spec, Layer(len(self.bases) - 1,
                                                ref.is_shaped(spec))))
        self.depth.append(0)
        # models keep their bits: a new layer takes the next one
        return None


def components(obj):
    if isinstance(obj, exact.Multipolygon):
        return list(obj.polygons)
    if isinstance(obj, exact.Polygon):
        return [obj.border, *obj.holes]
    if isinstance(obj, (exact.Contour, exact.Multisegment)):
        return list(obj.segments)
    return []


def box_error(value, spec):
    if spec[0] == 'E':
        return None
    points = ref.points(spec)
    xs, ys = [p[0] for p in points], [p[1] for p in points]
    box = value.bounding_box
    if tuple(map(target.number, (box.min_x, box.max_x, box.min_y,
                                 box.max_y))) != (min(xs), max(xs), min(ys),
                                                  max(ys)):
        return f'bounding box is {box}'
    return None


def near(spec, points):
    """Vertices, middles and the given points."""
    segs = ref.segments(spec)
    step = max(1, len(segs) // 6)
    result = list(points)
    for p, q in segs[::step]:
        result += [p, ((p[0] + q[0]) * Fraction(1, 2),
                       (p[1] + q[1]) * Fraction(1, 2))]
    return result


def located(x, points):
    for p in near(x.spec, points):
        expected = target.LOCATIONS[ref.locate(x.spec, p)]
        point = target.point(p)
        if x.obj.locate(point) is not expected:
            return (f'{p} is {x.obj.locate(point)} of {x.spec}, expected '
                    f'{expected}')
        if (point in x.obj) is (expected is target.LOCATIONS['E']):
            return f'{p} in {x.spec} is {point in x.obj}'
    return None


def related(x, y):
    expected = ref.relate(x.spec, y.spec)
    actual = x.obj.relate_to(y.obj).name
    if actual != expected:
        return f'{x.spec} to {y.spec} is {actual}, expected {expected}'
    return None


def trapezoids(x, seed, points):
    if isinstance(x.obj, exact.Polygon):
        build = exact.Trapezoidation.from_polygon
    elif isinstance(x.obj, exact.Multisegment):
        build = exact.Trapezoidation.from_multisegment
    else:
        return None
    graph = build(x.obj, seeder=lambda: seed)
    for p in near(x.spec, points):
        expected = target.LOCATIONS[ref.locate(x.spec, p)]
        if graph.locate(target.point(p)) is not expected:
            return (f'trapezoids of {x.spec} locate {p} as '
                    f'{graph.locate(target.point(p))}, expected {expected}')
    return None


def triangles(x):
    if not isinstance(x.obj, exact.Polygon) or (
            len(ref.segments(x.spec)) > 60):
        return None
    result = exact.ConstrainedDelaunayTriangulation.from_polygon(x.obj)
    found = [target.read_ring(t) for t in result.triangles]
    area = sum(abs(ref.area2(t)) for t in found)
    if area != ref.spec_area2(x.spec):
        return (f'triangles of {x.spec} have twice the area {area}, not '
                f'{ref.spec_area2(x.spec)}')
    for t in found:
        center = (sum(p[0] for p in t) * Fraction(1, 3),
                  sum(p[1] for p in t) * Fraction(1, 3))
        if ref.locate(x.spec, center) != 'I':
            return f'triangle {t} is not inside {x.spec}'
    return None


class C21(Property):
    id = 'C21'
    rule = ('2 to 5 related valid regions and linear geometries and 4 to 24 '
            'steps: operators on anything in the pool (results go back into '
            'it), components of results, equal copies, locations, relations, '
            'trapezoidations and triangulations of results; every result '
            'checked against a boolean model over the initial operands; '
            'non-trivial when an operand of a result was a result of a '
            'result')
    quick = (2600, 240)
    thorough = (60000, 3000)

    def make(self, src):
        kind = src.below(4)
        if kind == 0:
            specs = gen.regions(src, src.int(3, 4))
        elif kind == 1:
            specs = gen.linears(src, src.int(3, 4))
        elif kind == 2:
            specs = gen.regions(src, src.int(2, 3))
        else:
            specs = gen.scene(src)
        probes = gen.probe_points(src, specs, 3)
        steps = []
        count = src.choice((6, 10, 16, 24, 4))
        for k in range(count):
            name = (src.choice(LOOKS) if src.chance(1, 4)
                    else src.choice(ACTIONS))
            # recent results more often than old ones
            size = len(specs) + k + 1
            i = src.below(size) if src.bool() else size - 1 - src.below(3)
            j = src.below(size)
            steps.append((name, i, j))
        return (tuple(specs), tuple(steps), tuple(probes))

    def run(self, case, ctx):
        specs, steps, probes = case
        history = History(specs)
        for spec in specs:
            error = ref.error(spec)
            if error is not None:
                raise Harness(f'invalid operand {spec}: {error}')
        for k, (action, i, j) in enumerate(steps):
            message = history.step(action, i, j, probes, ctx)
            ctx.tag(action)
            if message is not None:
                return f'step {k} ({action}): {message}'
        ctx.nontrivial = max(history.depth) > 2
        for entry in history.pool:
            if target.read(entry.obj) != entry.spec:
                return f'{entry.spec} became {target.read(entry.obj)}'
        return None


PROPERTY = C21()
