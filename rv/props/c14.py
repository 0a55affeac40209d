"""C14: is_valid of contours and multisegments against the definitions."""
import itertools

from .. import gen, ref, target
from ..base import Property
from .common import kinds


def any_ring(src, n):
    kind = src.below(6)
    if kind == 0:
        return [gen.point(src, n) for _ in range(src.int(3, 8))]
    if kind == 1:
        return gen.ring(src, n)
    return edited(src, gen.ring(src, n), n)


def edited(src, ring, n):
    ring = list(ring)
    for _ in range(src.int(1, 2)):
        i = src.below(len(ring))
        action = src.below(6)
        if action == 0:
            ring[i] = gen.point(src, n)
        elif action == 1:
            ring.insert(i, gen.point(src, n))
        elif action == 2:
            # vertex on an edge (of the next vertices)
            j = src.below(len(ring))
            ring.insert(i, gen.lerp(ring[j - 1], ring[j], src.int(0, 2), 2))
        elif action == 3:
            ring.insert(i, src.choice(ring))
        elif action == 4:
            j = src.below(len(ring))
            ring[i], ring[j] = ring[j], ring[i]
        elif len(ring) > 3:
            del ring[i]
    return gen.reorder(src, ring)


def any_segments(src, n):
    count = src.int(2, 7)
    segs = []
    for _ in range(count):
        if segs and src.bool():
            p, q = src.choice(segs)
            kind = src.below(6)
            if kind == 0:
                segs.append((q, p) if src.bool() else (p, q))
            elif kind == 1:
                segs.append((p, gen.lerp(p, q, src.choice((1, 3, -1, 4)), 2)))
            elif kind == 2:
                segs.append((gen.lerp(p, q, 1, 2), gen.lerp(p, q, src.choice(
                    (3, -1, 4)), 2)))
            elif kind == 3:
                segs.append((gen.lerp(p, q, src.int(0, 2), 2),
                             gen.segment_pair(src, n)[0]))
            elif kind == 4:
                segs.append((q, gen.lerp(p, q, 2 + src.below(2), 1)))
            else:
                r = gen.point(src, n)
                segs.append((r, gen.lerp(r, gen.lerp(p, q, 1, 2), 2, 1)))
        else:
            segs.append(gen.segment_pair(src, n))
    segs = [s for s in segs if s[0] != s[1]]
    while len(segs) < 2:
        segs.append(((0, 0), (1, len(segs))))
    return src.shuffled([(q, p) if src.bool() else (p, q) for p, q in segs])


def large(src):
    """Tens of edges, at most one or two of them amiss."""
    spec = gen.large_geometry(src)
    if spec[0] in 'SE':
        spec = ('C', [(i, i * i) for i in range(30)])
    if spec[0] not in 'CM':
        spec = (('C', list(src.choice(ref.rings(spec)))) if src.bool()
                else ('M', ref.segments(spec)))
    if src.bool():
        return spec
    if spec[0] == 'C':
        return ('C', edited(src, spec[1], src.choice((3, 12, 40))))
    segs = list(spec[1])
    p, q = src.choice(segs)
    r, s = src.choice(segs)
    new = src.choice(((p, s), (q, r), (p, q), (gen.lerp(p, q, 1, 2), r),
                      (gen.lerp(p, q, -1, 2), q),
                      (p, gen.lerp(p, q, 1, 3))))
    if new[0] != new[1]:
        segs.insert(src.below(len(segs)), new)
    return ('M', segs)


class C14(Property):
    id = 'C14'
    rule = ('vertex cycles and segment lists, valid, nearly valid (one or '
            'two edits away) and free, under rational affine maps; is_valid '
            'compared with pairwise contact of edges, also after rotation, '
            'reversal and reordering; non-trivial when no two given points '
            'of a cycle coincide, or some two segments have a contact')
    quick = (48000, 200)
    thorough = (600000, 3000)

    def make(self, src):
        n = gen.size(src)
        kind = src.below(5)
        if src.chance(1, 100):
            spec = large(src)
        elif kind < 2:
            spec = ('C', any_ring(src, n))
        elif kind == 2:
            spec = ('C', list(gen.contour(src, n)[1]))
        elif kind == 3:
            spec = ('M', any_segments(src, n))
        else:
            spec = gen.multisegment(src, n)
            if spec[0] != 'M':
                spec = ('M', any_segments(src, n))
        spec = gen.transformed(src, spec)[0]
        if spec[0] == 'C':
            other = ('C', gen.reorder(src, list(spec[1])))
        else:
            other = ('M', src.shuffled([(q, p) if src.bool() else (p, q)
                                        for p, q in spec[1]]))
        return (spec, other)

    def enumerated(self, tier):
        # all cycles of 3 and 4 vertices and all pairs and (a third of)
        # triples of segments of a 3x3 grid
        grid = [(i, j) for i in range(3) for j in range(3)]
        for size in (3, 4):
            for ring in itertools.product(grid, repeat=size):
                if ring[0] == min(ring):
                    yield (('C', list(ring)), ('C', list(ring[::-1])))
        segs = list(itertools.combinations(grid, 2))
        for pair in itertools.combinations_with_replacement(segs, 2):
            yield (('M', list(pair)), ('M', [(q, p) for p, q in pair[::-1]]))
        for k, three in enumerate(itertools.combinations(segs, 3)):
            if k % 3 == 0 or tier != 'quick':
                yield (('M', list(three)), ('M', [*three[::-1]]))

        # more edges than a call stack is deep, valid and with one edge amiss
        for seed in range(4):
            ring = gen.huge_ring(1500, seed)
            bad = [*ring[:700], gen.lerp(ring[300], ring[301], 1, 2),
                   *ring[700:]]
            for vertices in (ring, bad):
                yield (('C', vertices),
                       ('C', vertices[999::-1] + vertices[:999:-1]))
            segs = gen.huge_segments(400 if seed == 2 else 1500, seed)
            yield ('M', segs), ('M', segs[::-1])
            x, y = gen.lerp(*segs[300], 1, 2)
            bad = list(segs)
            bad.insert(77, ((x - gen._div(1, 16), y - gen._div(1, 64)),
                            (x + gen._div(1, 16), y + gen._div(1, 64))))
            yield ('M', bad), ('M', bad[::-1])

    def run(self, case, ctx):
        spec, other = case
        error = ref.error(spec)
        expected = error is None
        kinds(ctx, spec)
        ctx.tag(f'{spec[0]} {"valid" if expected else "invalid"}')
        if spec[0] == 'C':
            ctx.nontrivial = len(set(spec[1])) == len(spec[1])
        else:
            ctx.nontrivial = any(
                ref.segments_contact(*s, *t) is not None
                for i, s in enumerate(spec[1][:300]) for t in spec[1][:i])
        for variant in (spec, other):
            actual = target.build(variant).is_valid()
            if actual is not expected:
                return f'is_valid of {variant} is {actual}: {error}'
        return None


PROPERTY = C14()
