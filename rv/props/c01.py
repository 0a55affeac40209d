"""C01: region set operations against the exact arrangement."""
from .. import gen, ref
from ..base import Property
from .common import boxes_meet, kinds, results_of, with_empty


class C01(Property):
    id = 'C01'
    rule = ('pairs of valid Polygon/Multipolygon (rarely Empty): free, mesh '
            'and derived-from-the-other shapes under rational affine maps; '
            'all of & | - ^ computed and compared on both sides of every '
            'arrangement piece; non-trivial when the boundaries meet')
    quick = (4400, 200)
    thorough = (120000, 3000)

    def enumerated(self, tier):
        yield from gen.large_regions()
        yield from gen.small_regions(tier)

    def make(self, src):
        return with_empty(src, tuple(gen.regions(src)))

    def run(self, case, ctx):
        a, b = case
        kinds(ctx, a, b)
        results = results_of('&|-^', a, b)
        ctx.nontrivial = boxes_meet(a, b)
        return ref.check_ops(a, b, results)


PROPERTY = C01()
