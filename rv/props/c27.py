"""C27: threads using the same geometries do not disturb each other."""
from .. import steps
from ..base import Property
from .shared import hold, make, perform, unchanged


def work(own_steps, specs, held, answers):
    for step in own_steps:
        answers.append(perform(step, specs, held))


class C27(Property):
    id = 'C27'
    rule = ('2 to 4 related valid compounds shared by 2 or 3 threads of 1 to '
            '3 steps each (operators, relations, queries, decompositions, '
            'trapezoidations, triangulations, sequence views and boxes made '
            'before), run line by line of rene (or bytecode by bytecode) in a '
            'generated order of turns; every answer compared with that of '
            'the same step alone on copies; non-trivial when a turn ended '
            'inside a step at least 3 times')
    quick = (1600, 150)
    thorough = (60000, 3000)
    guided = False

    def make(self, src):
        specs, found = make(src)
        count = src.choice((2, 2, 2, 3))
        threads = [tuple(found[i::count][:3]) for i in range(count)]
        if src.bool():
            # all at the same work, in different places of it
            threads = [threads[0]] * count
        top = src.choice((2, 5, 20, 100, 500))
        runs = tuple(src.int(1, top) for _ in range(src.int(1, 12)))
        return specs, tuple(threads), runs, src.chance(1, 5)

    def run(self, case, ctx):
        specs, threads, runs, opcodes = case
        threads = [own for own in threads if own] or [()]
        expected = []
        for own in threads:
            expected.append([])
            for step in own:
                ctx.tag(step[0])
                work([step], specs, hold(specs), expected[-1])
        held = hold(specs)
        answers = [[] for _ in threads]

        def call(own):
            return lambda: work(threads[own], specs, held, answers[own])

        outcomes, switches = steps.interleaved(
            [call(own) for own in range(len(threads))], runs, opcodes)
        ctx.tag('bytecode' if opcodes else 'line', f'{len(threads)} threads')
        ctx.nontrivial = switches >= 3
        for own, (state, text) in enumerate(outcomes):
            if state == 'error':
                step = threads[own][len(answers[own])]
                return f'{step} raised {text} beside another thread'
            for k, answer in enumerate(answers[own]):
                if answer != expected[own][k]:
                    return (f'{threads[own][k]} gave {answer} beside another '
                            f'thread, {expected[own][k]} alone')
        if not unchanged(specs, held):
            return 'operands changed'
        return None


PROPERTY = C27()
