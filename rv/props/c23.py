"""C23: grid geometry behaves as sets of cells and edges at any size."""
from fractions import Fraction
from itertools import combinations

from .. import cells, gen, ref, source, target
from ..base import Property
from .common import apply, mixed_supported

MAPS = ((1, 0, 0, 1), (0, 1, 1, 0), (-1, 0, 0, 1), (1, 1, 0, 1),
        (2, 1, 1, 1), (1, -2, 3, 1), (0, -1, 1, 0), (1, 3, -2, 5))
SIZES = (3, 2, 3, 4, 5, 3, 4, 6, 2, 9, 4, 3, 13, 5, 18)
ALGEBRA = {'&': frozenset.__and__, '|': frozenset.__or__,
           '-': frozenset.__sub__, '^': frozenset.__xor__}
PLAIN = (1, 0, 0, 1, 0, 0, 1)


def pack(items):
    return tuple(sorted(items))


def forth(f, p):
    a, b, c, d, ox, oy, m = f
    x, y = a * p[0] + b * p[1] + ox, c * p[0] + d * p[1] + oy
    return (x, y) if m == 1 else (Fraction(x) / m, Fraction(y) / m)


def back(f, p):
    a, b, c, d, ox, oy, m = f
    x, y, det = m * p[0] - ox, m * p[1] - oy, a * d - b * c
    return tuple(int(v) if v == int(v) else v
                 for v in (Fraction(d * x - b * y) / det,
                           Fraction(a * y - c * x) / det))


def spec_of(kind, items, seed):
    return (cells.region(items) if kind == 'R'
            else cells.linear(items, seed))


def mutated(src, w, h, items, some):
    """Another set: unrelated, subset, superset, complement, near copy."""
    kind = src.below(6)
    if kind <= 1:
        return some(src, w, h)
    if kind == 2:
        return items & some(src, w, h) or items
    if kind == 3:
        return items | some(src, w, h)
    if kind == 4:
        return items ^ frozenset(src.sample(sorted(items), 1))
    return items - some(src, w, h) or items


def huge():
    n = 520
    comb = {(x, 0) for x in range(n)} | {(x, 1) for x in range(0, n, 2)}
    other = {(x, 2) for x in range(n)} | {(x, 1) for x in range(1, n, 2)}
    yield 'R', comb, 'R', other
    yield 'R', comb, 'R', {(x + 1, y) for x, y in comb}
    apart = {(2 * i, 2 * j) for i in range(27) for j in range(18)}
    strips = {(x, y) for x in range(54) for y in range(3, 36, 9)}
    yield 'R', apart, 'R', strips
    holes = {(2 * i + 1, 2 * j + 1) for i in range(22) for j in range(11)}
    yield ('R', {(x, y) for x in range(45) for y in range(23)} - holes,
           'R', holes)
    n = 1100
    row = {(i, 1, 0) for i in range(n)}
    teeth = {(i, 0, 1) for i in range(n)}
    stairs = {(i // 2 + i % 2, i // 2, i % 2) for i in range(n)}
    yield 'L', teeth, 'L', row
    yield 'L', stairs, 'L', {(x + 1, y, z) for x, y, z in stairs} | row
    yield 'L', row, 'R', comb
    yield 'L', teeth, 'R', other
    yield 'L', stairs, 'R', {(x, y) for x in range(60) for y in range(2, 19)}


class C23(Property):
    id = 'C23'
    rule = ('pairs of cell sets and unit-edge sets of grids up to 19 x 19 '
            '(unions, holes, checkers, frames, teeth, spirals, noise; up to '
            'about 1000 edges) under affine maps in random representation; '
            'all pairs of cell sets of small grids enumerated; operators, '
            'relations and locations against set algebra on cells and '
            'edges; non-trivial when the sets share a point and neither '
            'is a single rectangle')
    quick = (1500, 120)
    thorough = (80000, 3000)

    def enumerated(self, tier):
        yield 'R', (), 'R', (), PLAIN, 0, ()
        w, h = (2, 2) if tier == 'quick' else (3, 2)
        every = [(x, y) for x in range(w) for y in range(h)]
        sets = [c for k in range(1, len(every) + 1)
                for c in combinations(every, k)]
        for k, (a, b) in enumerate((a, b) for a in sets for b in sets):
            yield 'R', pack(a), 'R', pack(b), PLAIN, k, ()
        edges = [(0, 0, 0), (1, 0, 0), (0, 0, 1), (1, 0, 1), (0, 1, 0),
                 (1, 1, 0), (1, 1, 1), (2, 0, 1)]
        sets = [c for k in range(1, 4 if tier == 'quick' else 6)
                for c in combinations(edges, k)]
        step = 17 if tier == 'quick' else 5
        for k, (a, b) in enumerate((a, b) for a in sets for b in sets):
            if k % step == 0:
                yield 'L', pack(a), 'L', pack(b), PLAIN, k, ()
        regions = [c for k in range(1, 5)
                   for c in combinations(((0, 0), (1, 0), (0, 1), (1, 1)), k)]
        for k, (a, b) in enumerate((a, b) for a in sets for b in regions):
            if k % (3 if tier == 'quick' else 1) == 0:
                yield 'L', pack(a), 'R', pack(b), PLAIN, k, ()

        # more edges and parts than a call stack is deep
        for k, (first, a, second, b) in enumerate(huge()):
            yield first, pack(a), second, pack(b), PLAIN, k, ((1, 1), (3, 2))

    def make(self, src):
        kinds = src.choice(('RR', 'LL', 'LR'))
        w, h = src.choice(SIZES), src.choice(SIZES)
        some = {'R': cells.some_cells, 'L': cells.some_edges}
        first = some[kinds[0]](src, w, h)
        if kinds[0] == kinds[1]:
            second = mutated(src, w, h, first, some[kinds[1]])
        else:
            second = cells.some_cells(src, w, h)
            kind = src.below(5)
            if kind == 0:
                first = frozenset(cells.boundary(second))
            elif kind == 1:
                first = cells.clip(first, second) or first
            elif kind == 2:
                inner = first - cells.boundary(second)
                first = inner or first
        # shifted whole sometimes
        if src.chance(1, 6):
            dx, dy = src.zigzag(w), src.zigzag(h)
            first = frozenset((x + dx, y + dy, *rest)
                              for x, y, *rest in first)
        affine = PLAIN
        if src.chance(2, 3):
            affine = (*src.choice(MAPS), src.zigzag(20), src.zigzag(20),
                      src.choice((1, 1, 3, 7)))
        probes = tuple((src.int(-1, 2 * w + 1), src.int(-1, 2 * h + 1))
                       for _ in range(6))
        return (kinds[0], pack(first), kinds[1], pack(second), affine,
                src.below(1 << 12), probes)

    def run(self, case, ctx):
        first, a, second, b, affine, seed, probes = case
        a, b = frozenset(a), frozenset(b)
        src = source.fresh(seed)

        def shown(kind, items, salt):
            spec = ref.map_points(spec_of(kind, items, salt),
                                  lambda p: forth(affine, p))
            return gen.represented(src, spec)

        specs = (shown(first, a, seed), shown(second, b, seed + 5))
        geometries = [target.build(spec) for spec in specs]
        x, y = geometries
        size = sum(len(ref.segments(spec)) for spec in specs)
        ctx.tag(f'{first}{second}', 'edges < 32' if size < 32 else
                'edges < 128' if size < 128 else 'edges >= 128')
        if first == second == 'R':
            relation = cells.relate_regions(a, b)
        elif first == second:
            relation = cells.relate_linears(a, b)
        else:
            relation = cells.relate_mixed(a, b)
        ctx.nontrivial = relation != 'DISJOINT' and min(
            len(ref.segments(spec)) for spec in specs) > 4
        ctx.tag(relation)
        if x.relate_to(y).name != relation:
            return f'relates {x.relate_to(y).name}, not {relation}'
        if y.relate_to(x).name != ref.COMPLEMENT[relation]:
            return (f'backwards relates {y.relate_to(x).name}, not '
                    f'{ref.COMPLEMENT[relation]}')
        if first == second:
            for op, f in ALGEBRA.items():
                message = wrong(first, apply(op, x, y), f(a, b), affine)
                if message is not None:
                    return f'a {op} b: {message}'
            message = wrong(first, y - x, b - a, affine)
            if message is not None:
                return f'b - a: {message}'
        elif a and b:
            inside = cells.clip(a, b)
            todo = [('a & b', x & y, inside), ('b & a', y & x, inside)]
            if '-' in mixed_supported(specs[0], specs[1], 0):
                todo.append(('a - b', x - y, a - inside))
            for name, result, expected in todo:
                message = wrong('L', result, expected, affine)
                if message is not None:
                    return f'{name}: {message}'
        for p in probes:
            at = forth(affine, (Fraction(p[0], 2), Fraction(p[1], 2)))
            for name, geometry, kind, items in (('a', x, first, a),
                                                ('b', y, second, b)):
                expected = (cells.locate_region if kind == 'R'
                            else cells.locate_linear)(items, p)
                point = target.point(at)
                actual = geometry.locate(point)
                if actual is not target.LOCATIONS[expected]:
                    return f'{name} locates {at} {actual}, not {expected}'
                if (point in geometry) is not (expected != 'E'):
                    return f'{at} in {name} is {point in geometry}'
        return None


def wrong(kind, result, expected, affine):
    """What is wrong with the result as the given set, or None."""
    spec = target.read(result)
    if not expected:
        return None if spec == ('E',) else f'not empty: {brief(spec)}'
    if spec == ('E',):
        return f'empty, not {len(expected)} items'
    spec = ref.map_points(spec, lambda p: back(affine, p))
    if kind == 'L':
        if spec[0] not in 'SMC':
            return f'is {brief(spec)}'
        found = cells.edges_of(ref.segments(spec))
        if found is None:
            return f'off the grid: {brief(spec)}'
        if found[0] != expected:
            return difference(expected, found[0])
        if found[1]:
            return f'{found[1]} edges more than once'
        return None
    if spec[0] not in ('P', 'MP'):
        return f'is {brief(spec)}'
    polys = ref.polygons(spec)
    found = cells.cells_of(polys)
    if found is None:
        return f'off the grid: {brief(spec)}'
    if found != expected:
        return difference(expected, found)
    parts = len(cells.components(expected))
    # components that meet at corners may share a polygon
    if len(polys) > parts or (len(polys) != parts
                              and not cells.pinched(expected)):
        return f'{len(polys)} polygons, {parts} components'
    total = 0
    for border, holes in polys:
        total += len(cells.cells_of([(border, holes)]))
        for ring in (border, *holes):
            n = len(ring)
            if any((ring[i - 2][0] == ring[i - 1][0] == ring[i][0])
                   or (ring[i - 2][1] == ring[i - 1][1] == ring[i][1])
                   for i in range(n)) or len(set(ring)) < n:
                return f'straight or repeated vertex in {brief(ring)}'
    if total != len(expected):
        return 'polygons overlap'
    edges = cells.edges_of(ref.segments(spec))
    if edges[1] or edges[0] != cells.boundary(expected):
        return 'rings are not the boundary'
    return None


def difference(expected, found):
    return (f'missing {sorted(expected - found)[:4]}, extra '
            f'{sorted(found - expected)[:4]}')


def brief(value):
    return repr(value)[:300]


PROPERTY = C23()
