"""C18: component views against a tuple model, constructors' data."""
from rene import exact

from .. import gen, ref, target
from ..base import Property
from .common import Own


class Index:
    def __init__(self, value):
        self.value = value

    def __index__(self):
        return self.value


ODD_INDICES = (True, False, Index(0), Index(-1), Index(7), 10 ** 30,
               -10 ** 30, 1.0, 'x', None, (0,), slice(Index(0), Index(2)),
               slice(-10 ** 30, 10 ** 30, 2), slice(None, None, 10 ** 30),
               slice(10 ** 30, None, -1), slice(0.0, 1), slice('a', 'b'),
               slice(None, None, 0))
VIEWS = ('vertices', 'edges', 'segments', 'holes', 'polygons')
LEAST = {'vertices': 3, 'edges': 3, 'segments': 2, 'holes': 0, 'polygons': 2}
BORDER = [(-100, -100), (100, -100), (0, 100)]


def item(src, view, n):
    if view in ('vertices', 'edges'):
        return gen.point(src, n)
    if view == 'segments':
        return gen.segment_pair(src, n)
    ring = gen.triangle(src, n)
    if view == 'holes':
        return ring
    return (ring, [gen.triangle(src, n)] if src.chance(1, 3) else [])


def make_item(view, value):
    if view in ('vertices', 'edges'):
        return target.point(value)
    if view == 'segments':
        return exact.Segment(target.point(value[0]), target.point(value[1]))
    if view == 'holes':
        return target.contour(value)
    return target.polygon(*value)


def form(view, value):
    """The same for items that are equal as items of the view."""
    if view == 'vertices':
        return value
    if view in ('edges', 'segments'):
        return tuple(sorted(value))
    if view == 'holes':
        return ref.ring_form(list(value))
    return (ref.ring_form(list(value[0])),
            tuple(sorted(map(ref.ring_form, map(list, value[1])))))


def read_item(view, obj):
    if view == 'vertices':
        return target.read_point(obj)
    if view in ('edges', 'segments'):
        return (target.read_point(obj.start), target.read_point(obj.end))
    if view == 'holes':
        return target.read_ring(obj)
    return (target.read_ring(obj.border),
            [target.read_ring(hole) for hole in obj.holes])


def construct(view, items):
    if view in ('vertices', 'edges'):
        return exact.Contour(items)
    if view == 'segments':
        return exact.Multisegment(items)
    if view == 'holes':
        return exact.Polygon(target.contour(BORDER), items)
    return exact.Multipolygon(items)


def view_of(view, geometry):
    return getattr(geometry, 'segments' if view == 'edges' else view)


def attempt(call):
    try:
        return ('value', call())
    except (IndexError, ValueError, TypeError) as error:
        return ('error', type(error).__name__)


def bound(src, count):
    return None if src.chance(1, 4) else src.int(-count - 2, count + 2)


class C18(Property):
    id = 'C18'
    rule = ('constructor arguments (lists with repeats, too short ones) and '
            'up to 12 steps of len, index, slice (chained), iteration (also '
            'several at once), '
            'reversal, search and comparison, the list passed to the '
            'constructor changed in between; every answer compared with a '
            'tuple of the arguments; non-trivial with at least 3 items and a '
            'slice with bounds or step')
    quick = (60000, 200)
    thorough = (500000, 3000)

    def make(self, src):
        view = src.choice(VIEWS)
        n = src.choice((2, 4, 9))
        count = src.weighted([(3, 3), (3, 4), (2, 2), (2, 6), (1, 9), (1, 1),
                              (1, 0), (1, 18), (1, 40), (1, 80)])
        items = []
        for _ in range(count):
            if items and src.chance(1, 3):
                items.append(src.choice(items))
            else:
                items.append(item(src, view, n))
        steps = []
        for _ in range(src.int(1, 12)):
            kind = src.choice(('len', 'get', 'slice', 'iter', 'reversed',
                               'in', 'index', 'count', 'mutate', 'slice',
                               'set', 'same', 'pairs', 'odd', 'late'))
            if kind == 'get':
                steps.append((kind, src.int(-count - 2, count + 1)))
            elif kind == 'slice':
                steps.append((kind, bound(src, count), bound(src, count),
                              src.choice((None, 1, 2, -1, -2, 3, -3, 0))))
            elif kind in ('in', 'index', 'count'):
                if items and src.chance(3, 4):
                    k = src.below(len(items))
                    value = ((items[k], items[k + 1 - len(items)])
                             if view == 'edges' else items[k])
                    if view in ('segments', 'edges') and src.bool():
                        value = (value[1], value[0])
                    if view == 'holes' and src.bool():
                        value = gen.reorder(src, list(value))
                else:
                    value = (gen.segment_pair(src, n) if view == 'edges'
                             else item(src, view, n))
                steps.append((kind, value, bound(src, count),
                              bound(src, count)))
            else:
                steps.append((kind,))
        return (view, tuple(items), tuple(steps), src.below(5))

    def run(self, case, ctx):
        view, items, steps, container = case
        ctx.tag(view)
        objects = [make_item(view, value) for value in items]
        argument = (tuple if container == 0 else Own if container == 1
                    else list)(objects)
        if len(items) < LEAST[view]:
            ctx.tag('refused')
            try:
                construct(view, argument)
            except ValueError:
                return None
            return f'{len(items)} {view} accepted'
        ctx.nontrivial = len(items) > 2 and any(
            step[0] == 'slice' and step[1:] != (None, None, None)
            for step in steps)
        geometry = construct(view, argument)
        if container == 2 and view != 'edges':
            # made of the view of another geometry
            first, geometry = geometry, construct(view, view_of(
                view, geometry))
            del first
        values = ([(items[i], items[i + 1 - len(items)])
                   for i in range(len(items))]
                  if view == 'edges' else list(items))
        whole = tuple(values)
        message = self.walk(view, geometry, argument, whole, steps)
        if message is not None:
            return message
        if view != 'edges' and [read_item(view, x) for x in view_of(
                view, geometry)] != list(items):
            return 'components changed'
        return None

    def walk(self, view, geometry, argument, whole, steps):
        current, model = view_of(view, geometry), whole
        for step in steps:
            kind = step[0]
            if kind == 'len':
                if len(current) != len(model) or bool(current) is not bool(
                        model):
                    return f'len is {len(current)}, not {len(model)}'
            elif kind == 'get':
                actual = attempt(lambda: read_item(view, current[step[1]]))
                expected = attempt(lambda: model[step[1]])
                if actual != expected:
                    return f'[{step[1]}] is {actual}, not {expected}'
            elif kind == 'slice':
                cut = slice(*step[1:])
                actual = attempt(lambda: current[cut])
                expected = attempt(lambda: model[cut])
                if actual[0] != expected[0] or (
                        actual[0] == 'error' and actual != expected):
                    return f'[{cut}] is {actual}, not {expected}'
                if actual[0] == 'value':
                    if type(actual[1]) is not type(current):
                        return f'[{cut}] is a {type(actual[1]).__name__}'
                    current, model = actual[1], expected[1]
                    found = [read_item(view, x) for x in current]
                    if found != list(model):
                        return f'[{cut}] is {found}, not {model}'
            elif kind in ('iter', 'reversed'):
                walk = iter if kind == 'iter' else reversed
                found = [read_item(view, x) for x in walk(current)]
                if found != list(walk(model)):
                    return f'{kind} gives {found}, not {model}'
            elif kind == 'pairs':
                found = [(read_item(view, x), read_item(view, y))
                         for x in current for y in current]
                if found != [(x, y) for x in model for y in model]:
                    return f'two walks at once give {found}'
                found = [(read_item(view, x), read_item(view, y))
                         for x, y in zip(current, reversed(current))]
                if found != list(zip(model, reversed(model))):
                    return f'walks in both directions at once give {found}'
            elif kind == 'odd':
                for index in ODD_INDICES:
                    actual = attempt(lambda: current[index])
                    expected = attempt(lambda: model[index])
                    if actual[0] == 'value' == expected[0]:
                        if isinstance(index, slice):
                            actual = [read_item(view, x) for x in actual[1]]
                            expected = list(expected[1])
                        else:
                            actual = read_item(view, actual[1])
                            expected = expected[1]
                    if actual != expected:
                        return f'[{index!r}] is {actual}, not {expected}'
            elif kind == 'late':
                walk = iter(current)
                found = [read_item(view, x) for _, x in zip(range(2), walk)]
                if isinstance(argument, list):
                    del argument[1:]
                found += [read_item(view, x) for x in walk]
                if found != list(model) or next(walk, None) is not None:
                    return f'a resumed walk gives {found}'
            elif kind in ('in', 'index', 'count'):
                message = search(view, current, model, step)
                if message is not None:
                    return message
            elif kind == 'mutate':
                if isinstance(argument, list) and argument:
                    argument.append(argument[0])
                    argument.reverse()
                    del argument[1:]
                for name in ('x', 'vertices', 'segments', 'border', 'holes',
                             'polygons', 'start', 'bounding_box'):
                    if hasattr(type(geometry), name):
                        try:
                            setattr(geometry, name, ())
                        except AttributeError:
                            continue
                        return f'{name} was set'
                if len(current):
                    try:
                        current[0] = current[-1]
                    except TypeError:
                        pass
                    else:
                        return 'item was set'
            elif kind == 'set':
                fresh = construct(view, [
                    make_item(view, v) for v in whole]) if (
                        view != 'edges') else geometry
                other = view_of(view, fresh)
                if not (other == view_of(view, geometry)) or hash(
                        other) != hash(view_of(view, geometry)):
                    return 'views of equal arguments differ'
                equal = [form(view, v) for v in model] == [
                    form(view, v) for v in whole]
                if (current == other) is not equal or (
                        current != other) is equal:
                    return f'comparison of {model} and {whole}'
                if equal and hash(current) != hash(other):
                    return f'hashes of {model} and {whole}'
            elif current == tuple(current) or current == list(current) or (
                    current == geometry) or current == 1:
                return 'view equals a foreign object'
        return None


def search(view, current, model, step):
    kind, value, start, stop = step
    obj = (exact.Segment(*map(target.point, value)) if view == 'edges'
           else make_item(view, value))
    forms = tuple(form(view, v) for v in model)
    wanted = form(view, value)
    if kind == 'in':
        if (obj in current) is not (wanted in forms):
            return f'{value} in is {obj in current}'
    elif kind == 'count':
        if current.count(obj) != forms.count(wanted):
            return f'count of {value} is {current.count(obj)}'
    else:
        bounds = () if start is None else (
            (start,) if stop is None else (start, stop))
        actual = attempt(lambda: current.index(obj, *bounds))
        expected = attempt(lambda: forms.index(wanted, *bounds))
        if actual != expected:
            return f'index of {value} {bounds} is {actual}, not {expected}'
        if start is not None and stop is None:
            actual = attempt(lambda: current.index(obj, start, None))
            if actual != expected:
                return f'index of {value}, {start}, None is {actual}'
    for foreign in (None, 0, 'x'):
        if foreign in current or current.count(foreign):
            return f'{foreign!r} found'
    return None


PROPERTY = C18()
