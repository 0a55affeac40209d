"""C02: linear set operations against the exact arrangement."""
from .. import gen, ref
from ..base import Property
from .common import boxes_meet, kinds, results_of, with_empty


class C02(Property):
    id = 'C02'
    rule = ('pairs of valid Segment/Multisegment/Contour (rarely Empty), '
            'free or derived from each other (sub-pieces, overlaps, '
            'crossings, stars); all of & | - ^ compared piece by piece; '
            'non-trivial when the bounding boxes meet')
    quick = (18000, 200)
    thorough = (300000, 3000)

    def enumerated(self, tier):
        yield from gen.large_linears()
        yield from gen.small_linears(tier)

    def make(self, src):
        return with_empty(src, tuple(gen.linears(src)))

    def run(self, case, ctx):
        a, b = case
        kinds(ctx, a, b)
        results = results_of('&|-^', a, b)
        ctx.nontrivial = boxes_meet(a, b)
        message = ref.check_ops(a, b, results)
        if message is None:
            message = ref.check_ops(b, a, results_of('-', b, a))
            if message is not None:
                message = 'second first: ' + message
        return message


PROPERTY = C02()
