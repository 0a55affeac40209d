"""C25: relations compose, and place results among the operands."""
from itertools import permutations

from .. import gen, ref, target
from ..base import Property
from .common import apply, kinds, mixed_supported

SUB = {'EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN'}
APART = {'DISJOINT', 'TOUCH'}
MEETING = {'DISJOINT', 'TOUCH', 'CROSS'}


class C25(Property):
    id = 'C25'
    rule = ('2 or 3 related compounds of any kinds and results of operators '
            'on them (pool of at most 6); all pairs related; results placed '
            'as their operator says (a & b within a, a - b apart from b) and '
            'every triple checked for transitivity of subsets, disjointness '
            'inherited by subsets, equal geometries relating equally, '
            'strictness; non-trivial when some two different members of the '
            'pool are a subset and a superset')
    quick = (2000, 120)
    thorough = (60000, 3000)

    def enumerated(self, tier):
        for a, b, steps in gen.small_pairs(tier, 13, (
                ('&', 0, 1), ('|', 0, 1), ('-', 0, 1))):
            yield (a, b), steps

    def make(self, src):
        kind = src.below(4)
        if kind == 0:
            specs = gen.regions(src, src.int(2, 3))
        elif kind == 1:
            specs = gen.linears(src, src.int(2, 3))
        elif kind == 2:
            specs = gen.mixed(src)
        else:
            specs = gen.scene(src)[:3]
        count = len(specs)
        steps = tuple((src.choice('&|-^'), src.below(count), src.below(count))
                      for _ in range(src.int(1, 6 - count)))
        return (tuple(specs), steps)

    def run(self, case, ctx):
        specs, steps = case
        kinds(ctx, *specs[:2])
        pool = [target.build(spec) for spec in specs]
        shaped = [ref.is_shaped(spec) for spec in specs]
        facts = []
        for op, i, j in steps:
            if specs[i][0] == 'E' or specs[j][0] == 'E':
                continue
            if shaped[i] != shaped[j] and op not in mixed_supported(
                    specs[i], specs[j], int(shaped[i])):
                continue
            result = apply(op, pool[i], pool[j])
            if target.read(result)[0] == 'E':
                continue
            k = len(pool)
            pool.append(result)
            shaped.append(shaped[i] and shaped[j])
            if op == '&':
                facts += [(k, i, SUB), (k, j, SUB)]
            elif op == '|':
                facts += [(i, k, SUB), (j, k, SUB)]
            elif op == '-':
                facts += [(k, i, SUB), (k, j, MEETING if not (
                    shaped[i] or shaped[j]) else APART)]
        names = {}
        for i, x in enumerate(pool):
            for j, y in enumerate(pool):
                if target.read(x)[0] != 'E' and target.read(y)[0] != 'E':
                    names[i, j] = x.relate_to(y).name
        for i, j, allowed in facts:
            if (i, j) in names and names[i, j] not in allowed:
                return (f'{i} relates {names[i, j]} to {j} in '
                        f'{list(map(target.read, pool))}')
        for (i, j), name in names.items():
            if names[j, i] != ref.COMPLEMENT[name]:
                return f'{name} one way, {names[j, i]} the other way'
            if i == j and name != 'EQUAL':
                return f'{target.read(pool[i])} relates {name} to itself'
            if name in SUB - {'EQUAL'}:
                ctx.nontrivial = True
            ctx.tag(name)
        for i, j, k in permutations(range(len(pool)), 3):
            if (i, j) not in names or (j, k) not in names:
                continue
            message = wrong(names[i, j], names[j, k], names[i, k],
                            shaped[i], shaped[j], shaped[k])
            if message is not None:
                return (f'{message}: {names[i, j]}, {names[j, k]}, but '
                        f'{names[i, k]} of '
                        f'{[target.read(pool[n]) for n in (i, j, k)]}')
        return None


def wrong(xy, yz, xz, x_shaped, y_shaped, z_shaped):
    """Contradiction of the relations of x, y and z, or None."""
    if xy not in SUB:
        return None
    if xy == 'EQUAL' and xz != yz:
        return 'equal geometries relate differently'
    if yz in SUB:
        if xz not in SUB:
            return 'subset of a subset'
        if xz == 'EQUAL' and not xy == yz == 'EQUAL':
            return 'strict subset is equal'
        if z_shaped and xz != 'WITHIN' and (
                yz == 'WITHIN' or (xy == 'WITHIN' and y_shaped)):
            return 'part of the interior'
    if yz == 'DISJOINT' and xz != 'DISJOINT':
        return 'subset of a disjoint one'
    if yz == 'TOUCH':
        if x_shaped or not z_shaped and not y_shaped:
            if xz not in APART:
                return 'subset of a touching one'
        elif xz in ('WITHIN', 'ENCLOSED', 'CROSS') and z_shaped:
            return 'linear subset of a touching one'
    if yz == 'CROSS' and not x_shaped and not y_shaped and not z_shaped and (
            xz not in MEETING):
        return 'subset of a crossing one'
    return None


PROPERTY = C25()
