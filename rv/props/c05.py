"""C05: laws of set algebra between results."""
from .. import gen, ref, target
from ..base import Property
from .common import apply, boxes_meet, kinds

X, Y, Z = 'xyz'
# law: (name, left, right); expressions are nested (op, left, right)
LAWS = [
    ('& commutes', ('&', X, Y), ('&', Y, X)),
    ('| commutes', ('|', X, Y), ('|', Y, X)),
    ('^ commutes', ('^', X, Y), ('^', Y, X)),
    ('& associates', ('&', ('&', X, Y), Z), ('&', X, ('&', Y, Z))),
    ('| associates', ('|', ('|', X, Y), Z), ('|', X, ('|', Y, Z))),
    ('^ associates', ('^', ('^', X, Y), Z), ('^', X, ('^', Y, Z))),
    ('& distributes over |', ('&', X, ('|', Y, Z)),
     ('|', ('&', X, Y), ('&', X, Z))),
    ('| distributes over &', ('|', X, ('&', Y, Z)),
     ('&', ('|', X, Y), ('|', X, Z))),
    ('& distributes over ^', ('&', X, ('^', Y, Z)),
     ('^', ('&', X, Y), ('&', X, Z))),
    ('- by ^', ('-', X, Y), ('^', X, ('&', X, Y))),
    ('& by -', ('&', X, Y), ('-', X, ('-', X, Y))),
    ('^ by | - &', ('^', X, Y), ('-', ('|', X, Y), ('&', X, Y))),
    ('^ by - | -', ('^', X, Y), ('|', ('-', X, Y), ('-', Y, X))),
    ('| absorbs &', ('|', X, ('&', X, Y)), X),
    ('& absorbs |', ('&', X, ('|', X, Y)), X),
    ('& idempotent', ('&', X, X), X),
    ('| idempotent', ('|', X, X), X),
    ('- of |', ('-', X, ('|', Y, Z)), ('&', ('-', X, Y), ('-', X, Z))),
    ('- of &', ('-', X, ('&', Y, Z)), ('|', ('-', X, Y), ('-', X, Z))),
    ('- twice', ('-', ('-', X, Y), Z), ('-', X, ('|', Y, Z))),
]
EQUAL_LAWS = ('& commutes', '| commutes', '^ commutes')
EMPTY_LAWS = [
    ('x - x', lambda x, e: x - x, False),
    ('x ^ x', lambda x, e: x ^ x, False),
    ('x & empty', lambda x, e: x & e, False),
    ('empty & x', lambda x, e: e & x, False),
    ('empty - x', lambda x, e: e - x, False),
    ('x | empty', lambda x, e: x | e, True),
    ('empty | x', lambda x, e: e | x, True),
    ('x ^ empty', lambda x, e: x ^ e, True),
    ('empty ^ x', lambda x, e: e ^ x, True),
    ('x - empty', lambda x, e: x - e, True),
]


class C05(Property):
    id = 'C05'
    rule = ('triples of valid regions or of valid linear geometries; '
            f'{len(LAWS)} two-sided laws (point-set equality by arrangement, '
            'and == where the ring decomposition is unique) and '
            f'{len(EMPTY_LAWS)} laws of Empty; non-trivial when at least two '
            'of the operand boxes meet')
    quick = (2000, 200)
    thorough = (60000, 3000)

    def make(self, src):
        laws = src.sample(range(len(LAWS)), 6)
        triple = (gen.regions if src.below(3) else gen.linears)(src, 3)
        return (tuple(triple), tuple(sorted(laws)))

    def run(self, case, ctx):
        triple, laws = case
        kinds(ctx, *triple)
        ctx.nontrivial = sum(boxes_meet(triple[i - 1], triple[i])
                             for i in range(3)) >= 2
        built = dict(zip('xyz', map(target.build, triple)))
        cache = {}

        def value(expression):
            if isinstance(expression, str):
                return built[expression]
            if expression not in cache:
                op, left, right = expression
                cache[expression] = apply(op, value(left), value(right))
            return cache[expression]

        empty = target.build(('E',))
        x = built[X]
        for name, f, same in EMPTY_LAWS:
            if not f(x, empty) == (x if same else empty):
                return f'{name} gave {f(x, empty)}'
        for index in laws:
            name, left, right = LAWS[index]
            p, q = value(left), value(right)
            u, v = target.read(p), target.read(q)
            equal = ref.normal_form(u) == ref.normal_form(v)
            if (p == q) is not equal:
                return f'{name}: == is {p == q} for {u} and {v}'
            if equal:
                continue
            message = ref.same_set(u, v)
            if message is not None:
                return f'{name}: sides differ: {message}'
            if name in EQUAL_LAWS:
                return f'{name}: sides not equal: {u} and {v}'
            if ref.is_shaped(u) and ref.manifold(u):
                return f'{name}: sides not equal: {u} and {v}'
            ctx.tag('several decompositions')
        return None


PROPERTY = C05()
