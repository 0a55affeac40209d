"""C06: relation of regions against its definition."""
from .. import gen, ref, target
from ..base import Property
from .common import boxes_meet, kinds, with_empty


class C06(Property):
    id = 'C06'
    rule = ('pairs of valid Polygon/Multipolygon (rarely Empty): free, mesh '
            'and derived shapes under rational affine maps; relate_to in both '
            'orders compared with the relation read off the arrangement; '
            'non-trivial when the boxes meet')
    quick = (14000, 200)
    thorough = (160000, 3000)

    def enumerated(self, tier):
        yield from gen.large_regions()
        yield from gen.small_regions(tier)

    def make(self, src):
        return with_empty(src, tuple(gen.regions(src)))

    def run(self, case, ctx):
        a, b = case
        kinds(ctx, a, b)
        ctx.nontrivial = boxes_meet(a, b)
        return relation_error(a, b, ctx)


def relation_error(a, b, ctx):
    expected = ref.relate(a, b)
    ctx.tag(expected)
    x, y = target.build(a), target.build(b)
    actual = x.relate_to(y).name
    if actual != expected:
        return f'relation of {a} to {b} is {actual}, not {expected}'
    actual = y.relate_to(x).name
    if actual != ref.COMPLEMENT[expected]:
        return (f'relation of {b} to {a} is {actual}, not '
                f'{ref.COMPLEMENT[expected]}')
    return None


PROPERTY = C06()
