"""C28: an abandoned operation leaves no trace."""
from .. import steps
from ..base import Property
from .shared import hold, make, perform, unchanged


LINES = 150000
ERRORS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
          'Abandoned': steps.Abandoned}


class C28(Property):
    id = 'C28'
    rule = ('2 to 4 related valid compounds and 3 to 6 steps (operators, '
            'relations, queries, decompositions, things made before); some '
            'steps are abandoned at a generated line of rene by an '
            'exception from outside, once or at up to 150 lines all along '
            'their course, then all steps are performed on the same objects '
            'and on copies and compared with answers got before; non-trivial when an operator or relation was abandoned '
            'after at least 30 lines')
    quick = (2400, 150)
    thorough = (80000, 3000)
    guided = False

    def make(self, src):
        specs, found = make(src)
        found = found[:6]
        cuts = tuple((src.below(len(found)), src.below(10 ** 6))
                     for _ in range(src.int(1, 5)))
        if src.chance(1, 3):
            # one step, abandoned all along its course
            cuts = ((src.below(len(found)), -1 - src.below(50)),)
        return specs, found, cuts, src.choice(sorted(ERRORS))

    def run(self, case, ctx):
        specs, found, cuts, error_name = case

        expected = [perform(step, specs, hold(specs)) for step in found]
        objects = hold(specs)
        for k, part in cuts:
            step = found[k]
            copies = hold(specs)
            total = steps.length(lambda: perform(step, specs, copies))
            if total == 0:
                continue
            if part >= 0:
                numbers = [1 + part * total // 10 ** 6]
            else:
                count = min(150, 1 + LINES // total)
                numbers = range(1 + -part % (total // count + 1), total + 1,
                                total // count + 1)
            for number in numbers:
                error = ERRORS[error_name]('from outside')
                if steps.interrupted(lambda: perform(step, specs, objects),
                                     number, error):
                    ctx.tag('abandoned ' + step[0])
                    ctx.nontrivial |= (step[0] in ('&', '|', '-', '^',
                                                   'relate')
                                       and number >= 30)
                if not unchanged(specs, objects):
                    return f'operands changed by {step} abandoned at {number}'
                if part < 0 and perform(step, specs, objects) != expected[k]:
                    return (f'{step} gives another answer after it was '
                            f'abandoned at {number}')
        for name, subjects in (('the same objects', objects),
                               ('copies', hold(specs))):
            for step, answer in zip(found, expected):
                try:
                    value = perform(step, specs, subjects)
                except Exception as raised:
                    return (f'{step} on {name} raised '
                            f'{type(raised).__name__}: {raised} after '
                            'abandoned steps')
                if value != answer:
                    return (f'{step} on {name} gave {value} after abandoned '
                            f'steps, {answer} before')
        return None


PROPERTY = C28()
