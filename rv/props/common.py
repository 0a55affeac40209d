from __future__ import annotations

from collections.abc import Sequence

from .. import gen, ref, target

APPLY = {
    '&': lambda a, b: a & b,
    '|': lambda a, b: a | b,
    '-': lambda a, b: a - b,
    '^': lambda a, b: a ^ b,
}


def apply(op, a, b):
    return APPLY[op](a, b)


def results_of(ops, a, b):
    x, y = target.build(a), target.build(b)
    return [(op, target.read(apply(op, x, y))) for op in ops]


def kinds(ctx, *specs):
    ctx.tag('/'.join(spec[0] for spec in specs))


def boxes_meet(a, b):
    p, q = ref.points(a), ref.points(b)
    if not p or not q:
        return False
    return all(min(v[i] for v in p) <= max(v[i] for v in q)
               and min(v[i] for v in q) <= max(v[i] for v in p)
               for i in (0, 1))


def with_empty(src, pair):
    """Replaces one operand of about 1 case in 40 by the empty geometry."""
    if src.chance(1, 40):
        return ((('E',), pair[1]) if src.bool() else (pair[0], ('E',)))
    return pair


def mixed_supported(linear, shaped, order):
    """Operators supported between a linear and a shaped operand."""
    if order == 0:  # linear op shaped
        return '&-' if linear[0] in 'CM' else '&'
    return '&'


def polygons_of(spec):
    return ref.polygons(spec)


def any_pair(src):
    kind = src.below(3)
    if kind == 0:
        return gen.regions(src)
    if kind == 1:
        return gen.linears(src)
    pair = gen.mixed(src)
    return pair if src.bool() else (pair[1], pair[0])


class Own(Sequence):
    """A sequence of the user: nothing but the two required methods."""

    def __init__(self, items):
        self.items = list(items)

    def __getitem__(self, index):
        return self.items[index]

    def __len__(self):
        return len(self.items)
