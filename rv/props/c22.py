"""C22: contour orientation and edges are faithful."""
from itertools import permutations

from rene import exact

from .. import gen, ref, target
from ..base import Property
from ..target import Orientation


def ring_of(src):
    kind = src.below(6)
    if src.chance(1, 40):
        spec = gen.large_geometry(src)
        ring = (gen.triangle(src, 9) if spec[0] in 'SM'
                else src.choice(ref.rings(spec)))
    elif kind == 0:
        ring = gen.grown(src, src.choice((4, 10, 40)), src.int(4, 40))
    elif kind == 1:
        mesh = gen.Mesh(src)
        ring = src.choice(ref.rings(gen.sound(gen.mesh_region(src, mesh))))
    elif kind == 2:
        # several vertices sharing the least abscissa
        n = src.int(2, 6)
        ys = sorted(src.sample(range(2 * n), n))
        left = [(0, y) for y in ys]
        right = [(src.int(1, 4), y + src.choice((0, 1))) for y in ys]
        notched = []
        for p, q in zip(left, right):
            notched += [p, q]
        top = notched[-1][1] + 1
        ring = gen.normalize_ring([*notched, (9, top), (9, ys[0] - 1)])
        ring = ring or gen.triangle(src, n)
    else:
        ring = gen.ring(src, gen.size(src))
    ring = gen.transformed(src, ('C', list(ring)))[0][1]
    return gen.reorder(src, ring)


class C22(Property):
    id = 'C22'
    rule = ('valid contours (lattice, large, several vertices on the extreme '
            'coordinates; affine images), every start vertex (24 of them for '
            'large contours) in both directions; all simple quadrilaterals '
            'and pentagons of a 3x3 grid enumerated; orientation against the '
            'signed area, segments against the vertex pairs; non-trivial '
            'when the least abscissa or ordinate is shared or the contour '
            'is not convex')
    quick = (30000, 200)
    thorough = (300000, 2000)

    def enumerated(self, tier):
        grid = [(x, y) for x in range(3) for y in range(3)]
        for k in (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6):
            for ring in permutations(grid, k):
                if ring[0] != min(ring) or ring[1] > ring[-1]:
                    continue
                ring = list(ring)
                if ref.ring_error(ring) is None:
                    yield (ring,)
        for seed in range(4):
            yield (gen.huge_ring(1500, seed),)

    def make(self, src):
        return (ring_of(src),)

    def run(self, case, ctx):
        ring, = case
        n = len(ring)
        xs, ys = [p[0] for p in ring], [p[1] for p in ring]
        turns = {ref.orient(ring[i - 2], ring[i - 1], ring[i])
                 for i in range(n)}
        ctx.nontrivial = (len(turns) > 1 or xs.count(min(xs)) > 1
                          or ys.count(min(ys)) > 1)
        ctx.tag('convex' if len(turns) == 1 else 'not convex')
        for k in range(0, n, max(1, n // 24)):
            for candidate in (ring[k:] + ring[:k],
                              (ring[k:] + ring[:k])[::-1]):
                message = wrong(candidate)
                if message is not None:
                    return f'{candidate}: {message}'
        return None


def wrong(ring):
    contour = target.contour(ring)
    area = ref.area2(ring)
    expected = (Orientation.COUNTERCLOCKWISE if area > 0
                else Orientation.CLOCKWISE)
    for _ in range(2):
        if contour.orientation is not expected:
            return f'{contour.orientation}, twice the area is {area}'
    for other in (exact.Contour(list(contour.vertices)),
                  target.polygon(ring, []).border):
        if other.orientation is not expected:
            return f'{other.orientation} for the same vertices'
    if target.contour(ring[::-1]).orientation is expected:
        return 'orientation does not flip on reversal'
    if target.read_ring(contour) != ring:
        return f'vertices are {target.read_ring(contour)}'
    pairs = [(target.read_point(s.start), target.read_point(s.end))
             for s in contour.segments]
    n = len(ring)
    if len(pairs) != n or len(contour.segments) != n:
        return f'{len(pairs)} segments'
    if any(pairs[i - 1][1] != pairs[i][0] for i in range(n)):
        return f'segments do not follow each other: {pairs}'
    forward = {(ring[i - 1], ring[i]) for i in range(n)}
    backward = {(q, p) for p, q in forward}
    if set(pairs) not in (forward, backward):
        return f'segments are {pairs}'
    return None


PROPERTY = C22()
