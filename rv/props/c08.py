"""C08: relation of linear geometries with regions against its definition."""
from .. import gen
from ..base import Property
from .c06 import relation_error
from .common import boxes_meet, kinds, with_empty


class C08(Property):
    id = 'C08'
    rule = ('pairs of a valid Segment/Multisegment/Contour and a valid '
            'Polygon/Multipolygon (rarely one Empty), mostly derived from '
            'the region; relate_to in both orders compared with the relation '
            'read off the arrangement; non-trivial when the boxes meet')
    quick = (20000, 200)
    thorough = (240000, 3000)

    def enumerated(self, tier):
        yield from gen.large_mixed()
        yield from gen.small_mixed(tier)

    def make(self, src):
        return with_empty(src, tuple(gen.mixed(src)))

    def run(self, case, ctx):
        a, b = case
        kinds(ctx, a, b)
        ctx.nontrivial = boxes_meet(a, b)
        return relation_error(a, b, ctx)


PROPERTY = C08()
