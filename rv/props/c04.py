"""C04: every operation result is valid and of the smallest type."""
from .. import gen, ref
from ..base import Property
from .common import boxes_meet, kinds, mixed_supported, results_of, with_empty


class C04(Property):
    id = 'C04'
    rule = ('pairs of valid regions, of linear geometries, or mixed; every '
            'supported operator result is read back and judged by an '
            'independent validity predicate; non-trivial when some result '
            'has two or more parts or holes')
    quick = (8000, 200)
    thorough = (200000, 3000)

    def make(self, src):
        kind = src.below(4)
        if kind == 0:
            return (tuple(gen.linears(src)), '&|-^')
        if kind == 1:
            linear, region = gen.mixed(src)
            if src.chance(1, 3):
                return ((region, linear), '&')
            return ((linear, region), mixed_supported(linear, region, 0))
        return (with_empty(src, tuple(gen.regions(src))), '&|-^')

    def run(self, case, ctx):
        (a, b), ops = case
        kinds(ctx, a, b)
        for op, r in results_of(ops, a, b):
            if boxes_meet(a, b) and (r[0] in ('M', 'MP')
                                     or (r[0] == 'P' and r[2])):
                ctx.nontrivial = True
            message = ref.error(r)
            if message is not None:
                return f'{op}: {message}; result {r}'
            if r[0] == 'C' and ref.normal_form(r) not in (
                    ref.normal_form(a), ref.normal_form(b)):
                return f'{op}: contour result {r} is neither operand'
        return None


PROPERTY = C04()
