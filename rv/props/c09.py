"""C09: relations, set operations and point location agree."""
from .. import gen, ref, target
from ..base import Property
from .common import any_pair, boxes_meet, kinds, with_empty

SUBSET = ('EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN')
SUPERSET = ('EQUAL', 'COMPOSITE', 'ENCLOSES', 'COVER')


class C09(Property):
    id = 'C09'
    rule = ('pairs of any two valid compounds and points near them; '
            'relate_to, its reverse, & - ^ and locate of the library '
            'compared with each other; non-trivial when the boxes meet')
    quick = (9000, 200)
    thorough = (120000, 3000)

    def make(self, src):
        pair = with_empty(src, tuple(any_pair(src)))
        if src.chance(1, 60):
            pair = (('E',), ('E',))
        return (*pair, tuple(gen.probe_points(src, pair, 6)))

    def run(self, case, ctx):
        a, b, probes = case
        kinds(ctx, a, b)
        ctx.nontrivial = boxes_meet(a, b)
        x, y = target.build(a), target.build(b)
        relation, reverse = x.relate_to(y), y.relate_to(x)
        name = relation.name
        ctx.tag(name)
        if reverse is not relation.complement:
            return f'{name} one way, {reverse.name} the other'
        if relation.complement.complement is not relation:
            return f'complement of the complement of {name} differs'
        if relation.complement.name != ref.COMPLEMENT[name]:
            return f'complement of {name} is {relation.complement.name}'
        if ref.is_empty(a) or ref.is_empty(b):
            expected = ('EQUAL' if ref.is_empty(a) and ref.is_empty(b)
                        else 'DISJOINT')
            return (None if name == expected
                    else f'{name} with the empty geometry')
        if ref.is_shaped(a) == ref.is_shaped(b):
            message = same_dimension(name, x, y, ref.is_shaped(a))
        elif ref.is_linear(a):
            message = linear_shaped(name, x, y, a[0])
        else:
            message = linear_shaped(reverse.name, y, x, b[0])
        return message or located(name, a, b, x, y, probes)


def empty(geometry):
    return type(geometry).__name__ == 'Empty'


def same_dimension(name, x, y, shaped):
    apart = ('DISJOINT', 'TOUCH') if shaped else ('DISJOINT', 'TOUCH', 'CROSS')
    for label, result, expected in [
            ('a ^ b', x ^ y, name == 'EQUAL'),
            ('a - b', x - y, name in SUBSET),
            ('b - a', y - x, name in SUPERSET),
            ('a & b', x & y, name in apart)]:
        if empty(result) is not expected:
            return f'{name}, but {label} is {result}'
    return None


def linear_shaped(name, linear, shaped, kind):
    common = linear & shaped
    if name == 'DISJOINT' and not empty(common):
        return f'{name}, but common part is {common}'
    if name not in ('DISJOINT', 'TOUCH') and empty(common):
        return f'{name}, but no common part'
    if kind in 'CM':
        rest = linear - shaped
        if empty(rest) is not (name in SUBSET):
            return f'{name}, but linear - shaped is {rest}'
    return None


def located(name, a, b, x, y, probes):
    points = {*ref.points(a), *ref.points(b), *probes}
    for p in sorted(points):
        point = target.point(p)
        first, second = x.locate(point).name, y.locate(point).name
        message = clash(name, first, second, ref.is_shaped(a),
                        ref.is_shaped(b))
        if message:
            return (f'{name}, but {p} is {first} of the first and {second} '
                    f'of the second: {message}')
    return None


def clash(name, first, second, first_shaped, second_shaped):
    in_first, in_second = first != 'EXTERIOR', second != 'EXTERIOR'
    if name == 'DISJOINT' and in_first and in_second:
        return 'common point'
    if name in SUBSET and in_first and not in_second:
        return 'not a subset'
    if name in SUPERSET and in_second and not in_first:
        return 'not a superset'
    if name == 'EQUAL' and first != second:
        return 'not the same'
    if name == 'WITHIN' and in_first and second != 'INTERIOR':
        return 'meets the boundary'
    if name == 'COVER' and in_second and first != 'INTERIOR':
        return 'meets the boundary'
    if name == 'TOUCH' and first == second == 'INTERIOR':
        return 'common interior'
    if name == 'TOUCH' and in_first and in_second and 'INTERIOR' in (
            first, second):
        return 'inside and touching'
    if (name == 'COMPONENT' and second_shaped and not first_shaped
            and in_first and second != 'BOUNDARY'):
        return 'off the boundary'
    if (name == 'COMPONENT' and first_shaped and first == 'BOUNDARY'
            and second != 'BOUNDARY'):
        return 'off the boundary'
    return None


PROPERTY = C09()
