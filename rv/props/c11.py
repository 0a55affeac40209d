"""C11: trapezoidation against the geometry it was built from."""
import sys

from rene import exact

from .. import gen, ref, target
from ..base import Property
from .common import kinds

MAX_SEED = 2 * sys.maxsize + 1
REFUSED = [(-1, ValueError), (-2 ** 70, ValueError),
           (MAX_SEED + 1, OverflowError), (2 ** 80, OverflowError),
           ('1', TypeError), (1.0, TypeError), (None, TypeError)]


class C11(Property):
    id = 'C11'
    rule = ('one valid Polygon or Multisegment, 4 seeds (0, the largest, '
            'factorial-sized and uniform ones), 10 points biased to vertices, '
            'edges, lines through vertices and outside the box; locate and '
            'in compared with the exact location, also by turns with the '
            'trapezoidation of the mirrored geometry, height repeated, bad seeds '
            'refused; non-trivial when the points have at least two '
            'different locations and there are at least 4 edges')
    quick = (20000, 240)
    thorough = (200000, 3000)

    def make(self, src):
        if src.chance(1, 3):
            n = gen.size(src)
            spec = gen.multisegment(src, n)
            spec = spec if spec[0] == 'M' else ('M', list(
                [(spec[1], spec[2]), (spec[2], gen.lerp(
                    spec[1], spec[2], 2, 1))]))
            spec = gen.transformed(src, gen.sound(spec))[0]
        else:
            spec = (gen.large_polygon(src) if src.chance(1, 5)
                    else gen.sound(gen.region(src, gen.size(src))))
            spec = gen.transformed(src, spec)[0]
            spec = ('P', *src.choice(ref.polygons(spec))
                    ) if spec[0] == 'MP' else spec
        if spec[0] == 'S':
            spec = ('M', [(spec[1], spec[2]),
                          (spec[2], (spec[2][0] + 1, spec[2][1] + 7))])
        seeds = []
        for _ in range(4):
            kind = src.below(4)
            if kind == 0:
                seeds.append(src.below(40))
            elif kind == 1:
                seeds.append(MAX_SEED - src.below(3))
            else:
                value = 0
                for _ in range(8):
                    value = value * 256 + src.below(256)
                seeds.append(value >> src.choice((0, 32, 48)))
        points = gen.probe_points(src, [spec], 10)
        return (spec, tuple(seeds), tuple(points), src.below(40))

    def enumerated(self, tier):
        # many edges: more than 256 of them, and of their trapezoids
        for count in (90, 150):
            ring = [(i, (i * i * 7) % 50) for i in range(count)]
            ring += [(i, (i * i * 7) % 50 + 60)
                     for i in range(count - 1, -1, -1)]
            ring = gen.normalize_ring(ring)
            points = tuple((i * 3, j * 7) for i in range(0, count // 3, 6)
                           for j in range(-1, 17))
            yield (('P', ring, []), (0, 12345678901234567, MAX_SEED), points,
                   None)
            yield (('M', ref.ring_segments(ring)), (7, 98765432109876543),
                   points, None)

        # inserted in order of the edges: as deep as there are edges
        count = 1200
        ring = [(i, i * i) for i in range(count)]
        points = tuple((i, i * i + d) for i in (0, 1, 7, 600, 1100, 1198)
                       for d in (-1, 0, 1, 2, 1000))
        yield (('P', ring, []), (0, 1), points, None)

    def run(self, case, ctx):
        spec, seeds, points, refused = case
        kinds(ctx, spec)
        geometry = target.build(spec)
        build = (exact.Trapezoidation.from_polygon if spec[0] == 'P'
                 else exact.Trapezoidation.from_multisegment)
        expected = [ref.locate(spec, p) for p in points]
        ctx.nontrivial = (len(set(expected)) > 1
                          and len(ref.segments(spec)) >= 4)
        for seed in seeds:
            graph = build(geometry, seeder=lambda: seed)
            message = compare(graph, points, expected)
            if message is not None:
                return f'seed {seed}: {message}'
            height = graph.height
            if not isinstance(height, int) or height <= 0:
                return f'height is {height!r}'
            if build(geometry, seeder=lambda: seed).height != height:
                return f'seed {seed}: height differs when built again'
        # another one of the same kind, asked by turns
        side = min(ref.points(spec))[0] + max(ref.points(spec))[0]
        twin = ref.map_points(spec, lambda p: (side - p[0], p[1]))
        graphs = [(graph, expected), (build(target.build(twin)),
                                      [ref.locate(twin, p) for p in points])]
        for k, p in enumerate(points):
            for one, answers in graphs:
                message = compare(one, [p], [answers[k]])
                if message is not None:
                    return f'asked by turns with {twin}: {message}'
        message = compare(build(geometry), points, expected)
        if message is not None:
            return f'no seeder: {message}'
        if target.read(geometry) != spec:
            return 'geometry changed'
        if refused is not None and refused < len(REFUSED):
            value, error = REFUSED[refused]
            try:
                build(geometry, seeder=lambda: value)
            except error:
                ctx.tag('refused')
            except Exception as other:
                return f'seed {value!r} raised {type(other).__name__}'
            else:
                return f'seed {value!r} accepted'
        return None


def compare(graph, points, expected):
    for p, location in zip(points, expected):
        point = target.point(p)
        actual = graph.locate(point)
        if actual is not target.LOCATIONS[location]:
            return f'{p} located {actual}, not {location}'
        if (point in graph) is not (location != 'E'):
            return f'{p} in is {point in graph}, located {actual}'
    return None


PROPERTY = C11()
