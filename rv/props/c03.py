"""C03: linear geometry clipped by regions against the exact arrangement."""
from .. import gen, ref
from ..base import Property
from .common import boxes_meet, kinds, mixed_supported, results_of


class C03(Property):
    id = 'C03'
    rule = ('a valid linear geometry and a valid region, the linear one '
            'mostly derived from the region (edges, chords, vertex to '
            'vertex); linear & region, region & linear and (contours, '
            'multisegments) linear - region compared piece by piece; '
            'non-trivial when the bounding boxes meet')
    quick = (8000, 200)
    thorough = (150000, 3000)

    def enumerated(self, tier):
        yield from gen.large_mixed()
        yield from (pair for pair in gen.small_mixed(tier)
                    if gen.EMPTY not in pair)

    def make(self, src):
        return tuple(gen.mixed(src))

    def run(self, case, ctx):
        a, b = case
        kinds(ctx, a, b)
        ctx.nontrivial = boxes_meet(a, b)
        message = ref.check_ops(a, b, results_of(mixed_supported(a, b, 0),
                                                 a, b))
        if message is None:
            message = ref.check_ops(b, a, results_of(mixed_supported(a, b, 1),
                                                     b, a))
            if message is not None:
                message = 'region first: ' + message
        return message


PROPERTY = C03()
