"""C20: operations are pure, deterministic, total and refuse the rest."""
import os

from rene import exact

from .. import gen, ref, target
from ..base import Property
from ..pristine import Pristine
from .common import APPLY

FOREIGN = (None, 1, 1.5, 'x', (), [], (0, 0), {1}, frozenset(), object())
QUERIES = ('locate', 'in', 'valid', 'hash', 'box', 'repr', 'trapezoids',
           'triangles', 'points', 'iterate')


def supported(op, a, b):
    """Whether the operator is defined; None where no claim is made."""
    if op == '&' or 'E' in (a, b):
        return True
    linear = [kind in 'SMC' and kind != 'MP' for kind in (a, b)]
    if linear[0] == linear[1]:
        return True
    if op == '-' and linear[0]:
        return None if a == 'S' else True
    return False


def result_form(value):
    """Comparable reading of any answer of the library."""
    if isinstance(value, (exact.Empty, exact.Segment, exact.Multisegment,
                          exact.Contour, exact.Polygon, exact.Multipolygon)):
        return target.read(value)
    return value


def query(name, spec, obj, point):
    if name == 'locate':
        return obj.locate(point)
    if name == 'in':
        return point in obj
    if spec[0] == 'E':
        return hash(obj)
    if name == 'valid' and spec[0] in 'MC' and spec[0] != 'MP':
        return obj.is_valid()
    if name == 'box':
        box = obj.bounding_box
        return tuple(map(target.number, (box.min_x, box.max_x,
                                         box.min_y, box.max_y)))
    if name == 'repr':
        return repr(obj), str(obj)
    if name == 'trapezoids' and spec[0] in 'MP' and spec[0] != 'MP':
        build = (exact.Trapezoidation.from_polygon if spec[0] == 'P'
                 else exact.Trapezoidation.from_multisegment)
        graph = build(obj, seeder=lambda: 5)
        return graph.height, graph.locate(point), point in graph
    if name == 'triangles' and spec[0] == 'P':
        result = exact.ConstrainedDelaunayTriangulation.from_polygon(obj)
        return ([target.read_ring(t) for t in result.triangles],
                target.read_ring(result.border))
    if name == 'points':
        points = [target.point(p) for p in ref.points(spec)]
        given = list(points)
        result = exact.DelaunayTriangulation.from_points(points)
        if points != given:
            raise AssertionError('points given to from_points were changed')
        return [target.read_ring(t) for t in result.triangles]
    if name == 'iterate' and spec[0] == 'C':
        return obj.orientation, [result_form(s) for s in obj.segments]
    return hash(obj)


def perform(step, specs, objects):
    name, i, j, point = step
    x, y = objects[i], objects[j % len(objects)]
    if name in APPLY:
        allowed = supported(name, specs[i][0], specs[j][0])
        if allowed is not True:
            try:
                value = APPLY[name](x, y)
            except TypeError:
                return 'TypeError'
            if allowed is None:
                return result_form(value)
            raise AssertionError(f'{specs[i][0]} {name} {specs[j][0]} gave '
                                 f'{value!r}')
        return result_form(APPLY[name](x, y))
    if name == 'relate':
        return x.relate_to(y)
    if name == '==':
        return x == y, x != y
    if name == 'foreign':
        return refusals(specs[i], x, FOREIGN[j % len(FOREIGN)])
    return query(name, specs[i], x, target.point(point))


def refusals(spec, x, foreign):
    for other in (foreign, target.point((0, 0)), exact.Box(0, 1, 0, 1)):
        for op, call in APPLY.items():
            for first, second in ((x, other), (other, x)):
                try:
                    value = call(first, second)
                except TypeError:
                    continue
                raise AssertionError(f'{first!r} {op} {second!r} is {value!r}')
        if spec[0] != 'E':
            try:
                value = x.relate_to(other)
            except TypeError:
                continue
            raise AssertionError(f'{x!r} relates {value} to {other!r}')
    return 'refused'


def alone(request):
    step, specs = request
    return repr(perform(step, specs, [target.build(spec) for spec in specs]))


class C20(Property):
    id = 'C20'
    rule = ('2 to 4 related valid compounds of any kinds and 4 to 10 steps '
            '(operators in supported and unsupported combinations, '
            'relations, queries, decompositions, foreign operands), performed '
            'in order, then in reverse on the same objects, then each on '
            'fresh copies, then each in a process where nothing was asked '
            'before; answers compared, operands re-read after every '
            'step; non-trivial when steps use at least two operators')
    quick = (3000, 240)
    thorough = (120000, 3000)

    _alone = None

    def prepare(self):
        self._alone = Pristine(alone, 60)

    def enumerated(self, tier):
        """Every operator and refusal for every pair of kinds."""
        for a in (gen.EMPTY, *gen.SAMPLES):
            for b in (gen.EMPTY, *gen.SAMPLES):
                steps = [(name, i, 1 - i, (0, 0)) for i in (0, 1)
                         for name in (*APPLY, 'relate', '==', *QUERIES)]
                yield (a, b), tuple(steps)
            yield (a,), tuple(('foreign', 0, j, (0, 0))
                              for j in range(len(FOREIGN)))

    def make(self, src):
        if src.bool():
            specs = [*gen.mixed(src)]
            specs += [gen.represented(src, spec) for spec in specs
                      if src.chance(1, 3)]
        else:
            kind = gen.regions if src.bool() else gen.linears
            specs = [*kind(src, src.int(2, 3))]
        if src.chance(1, 8):
            specs.append(('E',))
        specs = src.shuffled(specs)
        probes = gen.probe_points(src, [s for s in specs if s[0] != 'E'], 3)
        steps = []
        for _ in range(src.int(4, 10)):
            name = src.choice((*APPLY, *APPLY, *APPLY, 'relate', 'relate',
                               '==', 'foreign', *QUERIES))
            steps.append((name, src.below(len(specs)), src.below(len(specs)),
                          src.choice(probes)))
        return (tuple(specs), tuple(steps))

    def run(self, case, ctx):
        specs, steps = case
        objects = [target.build(spec) for spec in specs]
        names = {step[0] for step in steps}
        ctx.nontrivial = len(names & set(APPLY)) > 1
        answers = []
        for k, step in enumerate(steps):
            ctx.tag(step[0])
            answers.append(perform(step, specs, objects))
            if [target.read(x) for x in objects] != list(specs):
                return f'operands changed by step {k}: {step}'
        for k in reversed(range(len(steps))):
            if perform(steps[k], specs, objects) != answers[k]:
                return f'step {steps[k]} answered differently when repeated'
        for k, step in enumerate(steps):
            fresh = [target.build(spec) for spec in specs]
            if perform(step, specs, fresh) != answers[k]:
                return f'step {step} answered differently for equal copies'
        if [target.read(x) for x in objects] != list(specs):
            return 'operands changed'
        if self._alone is None or self._alone.owner != os.getpid():
            self.prepare()
        for k, step in enumerate(steps):
            try:
                answer = self._alone((step, specs))
            except BaseException:
                self._alone = None
                raise
            if answer != ('ok', repr(answers[k])):
                return (f'step {step} answered {answers[k]!r} but {answer} '
                        'when nothing else was asked before')
        return None


PROPERTY = C20()
