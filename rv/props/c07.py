"""C07: relation of linear geometries against its definition."""
from .. import gen
from ..base import Property
from .c06 import relation_error
from .common import boxes_meet, kinds, with_empty


class C07(Property):
    id = 'C07'
    rule = ('pairs of valid Segment/Multisegment/Contour (rarely Empty): '
            'free, mesh and derived ones under rational affine maps; '
            'relate_to in both orders compared with the relation read off '
            'the arrangement; non-trivial when the boxes meet')
    quick = (32000, 200)
    thorough = (300000, 3000)

    def enumerated(self, tier):
        yield from gen.large_linears()
        yield from gen.small_linears(tier)

    def make(self, src):
        return with_empty(src, tuple(gen.linears(src)))

    def run(self, case, ctx):
        a, b = case
        kinds(ctx, a, b)
        ctx.nontrivial = boxes_meet(a, b)
        return relation_error(a, b, ctx)


PROPERTY = C07()
