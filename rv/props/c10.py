"""C10: point location against the definition."""
from .. import gen, ref, source, target
from ..base import Property
from .common import kinds


def others(spec):
    """The mirror image in the box and the region without holes."""
    points = ref.points(spec)
    if points:
        side = min(points)[0] + max(points)[0]
        yield ref.map_points(spec, lambda p: (side - p[0], p[1]))
    if spec[0] == 'P' and spec[2]:
        yield ('P', spec[1], [])


class C10(Property):
    id = 'C10'
    rule = ('one valid compound (rarely Empty) and 12 points biased to its '
            'vertices, edge points and the lines through vertices; locate '
            'and in compared with even-odd containment and exact '
            'collinearity, some also by turns with the mirror image and the '
            'region without holes; geometries of over a thousand parts '
            'enumerated; non-trivial when the points have at least two '
            'different locations')
    quick = (48000, 200)
    thorough = (600000, 3000)

    def enumerated(self, tier):
        # more parts than a call stack is deep
        for k, spec in enumerate(gen.huge_geometries()):
            src = source.fresh(f'C10 {k}')
            yield spec, tuple(gen.probe_points(src, [spec], 24))

    def make(self, src):
        spec = ('E',) if src.chance(1, 100) else gen.any_geometry(src)
        points = gen.probe_points(src, [spec], 12)
        if src.chance(1, 4):
            # a hair off the point
            tiny = src.choice((10 ** 3, 10 ** 12, 10 ** 40))
            points = [(x + gen.lerp((0, 0), (src.zigzag(1), 0), 1, tiny)[0],
                       y + gen.lerp((0, 0), (src.zigzag(1), 0), 1, tiny)[0])
                      for x, y in points]
        return (spec, tuple(points))

    def run(self, case, ctx):
        spec, points = case
        kinds(ctx, spec)
        geometry = target.build(spec)
        seen = set()
        for p in points:
            expected = ref.locate(spec, p)
            seen.add(expected)
            point = target.point(p)
            actual = geometry.locate(point)
            if actual is not target.LOCATIONS[expected]:
                return f'{p} located {actual}, not {expected}'
            if (point in geometry) is not (expected != 'E'):
                return f'{p} in is {point in geometry} but locate {actual}'
        # asked by turns with others
        twins = [(spec, geometry)]
        for twin in others(spec):
            twins.append((twin, target.build(twin)))
        for p in points[:4] if len(twins) > 1 else ():
            for other, built in twins:
                expected = ref.locate(other, p)
                actual = built.locate(target.point(p))
                if actual is not target.LOCATIONS[expected]:
                    return (f'{p} located {actual}, not {expected}, in '
                            f'{other} after others')
        ctx.tag(*(f'at {name}' for name in sorted(seen)))
        ctx.nontrivial = len(seen) > 1
        return None


PROPERTY = C10()
