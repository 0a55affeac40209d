"""C19: repr evaluates to an equal object, str shows every coordinate."""
import re
from fractions import Fraction

from rithm import fraction as rithm_fraction
from rithm import integer as rithm_integer

from rene import enums, exact

from .. import gen, ref, source, target
from ..base import Property
from .c17 import OFFSETS, SCALES, moved
from .common import kinds

NAMES = {name: getattr(exact, name) for name in (
    'Box', 'Contour', 'Empty', 'Multipolygon', 'Multisegment', 'Point',
    'Polygon', 'Segment')}
NAMES['Fraction'] = rithm_fraction.Fraction
NAMES['Int'] = rithm_integer.Int
NUMBER = re.compile(r'-?\d+(?:/\d+)?')
NUMBERS = re.compile(
    r'Fraction\((?:Int\()?-?\d+\)?, (?:Int\()?\d+\)?\)')


def coordinates(spec):
    """All coordinates in the order of their appearance."""
    if isinstance(spec, (int, Fraction)):
        return [Fraction(spec)]
    return [x for part in spec if not isinstance(part, str)
            for x in coordinates(part)]


def text_error(obj, expected, read):
    shown = repr(obj)
    try:
        back = eval(shown, {'__builtins__': {}}, dict(NAMES))
    except Exception as error:
        return f'repr {shown} is not evaluated: {error!r}'
    if type(back) is not type(obj):
        return f'repr {shown} gives a {type(back).__name__}'
    if not (back == obj) or not (obj == back) or hash(back) != hash(obj):
        return f'repr {shown} gives an object not equal to the original'
    if read(back) != expected:
        return f'repr {shown} gives {read(back)}, not {expected}'
    if repr(back) != shown or repr(obj) != shown:
        return f'repr {shown} differs for a copy'
    text = str(obj)
    if str(back) != text:
        return f'str {text} differs for a copy'
    if [Fraction(s) for s in NUMBER.findall(text)] != coordinates(expected):
        return f'str {text} does not show {expected}'
    if NUMBER.sub('#', text) != NUMBERS.sub('#', shown):
        return f'str {text} is built otherwise than repr {shown}'
    return None


def read_box(box):
    return tuple(target.number(v) for v in (box.min_x, box.max_x,
                                            box.min_y, box.max_y))


class C19(Property):
    id = 'C19'
    rule = ('2 valid geometries (from integers to rationals of 300 digits), '
            'their boxes and vertices, and derived results; repr evaluated, '
            'str searched for the coordinates in order; non-trivial when '
            'some coordinate is fractional or negative, or there are holes '
            'or several parts')
    quick = (20000, 200)
    thorough = (400000, 3000)

    def make(self, src):
        spec = gen.any_geometry(src)
        if src.chance(1, 3):
            spec = moved(spec, (1, 0, 0, 1, src.choice(SCALES),
                                src.choice(OFFSETS), src.choice(OFFSETS)))
        other = (gen.represented(src, spec) if src.bool()
                 else gen.relative(src, spec))
        if src.chance(1, 40):
            spec = ('E',)
        return (spec, other)

    def enumerated(self, tier):
        yield (('E',), ('E',))
        yield ('enums',)
        for k, spec in enumerate(gen.huge_geometries()):
            yield spec, gen.represented(source.fresh(f'C19 {k}'), spec)

    def run(self, case, ctx):
        if case == ('enums',):
            for cls in (enums.Location, enums.Orientation, enums.Relation):
                for member in cls:
                    if eval(repr(member), {cls.__name__: cls}) is not member:
                        return f'repr of {member!r}'
            return None
        kinds(ctx, case[0])
        ctx.nontrivial = any(
            isinstance(x, Fraction) and x.denominator > 1 or x < 0
            for x in coordinates(case[0])) or case[0][0] in ('MP', 'M')
        texts = []
        for spec in case:
            obj = target.build(spec)
            message = text_error(obj, spec, target.read)
            if message is not None:
                return message
            texts.append((str(obj), repr(obj)))
            if spec[0] == 'E':
                continue
            box = obj.bounding_box
            message = text_error(box, read_box(box), read_box)
            if message is not None:
                return message
            p = ref.points(spec)[0]
            message = text_error(target.point(p), p, target.read_point)
            if message is not None:
                return message
        if case[0][0] == case[1][0]:
            for first, second in zip(*texts):
                if (first == second) is not (case[0] == case[1]):
                    return f'{first} is the text of {case[0]} and {case[1]}'
        return None


PROPERTY = C19()
