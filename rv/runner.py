"""Runs one property: generate, evaluate, shrink, write replay and evidence.

Every case is a function of (VERIF_SEED, property, worker, number); no clock
or RNG of its own takes part in what a case is or what its verdict is.  The
wall-clock cap only bounds how many cases run.
"""
from __future__ import annotations

import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import queue
import random
import re
import resource
import signal
import sys
import time
import traceback
from fractions import Fraction

from . import source
from .coverage import Novelty

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = 8
MEMORY = 3 << 30
HISTORY = 400
CASE_CPU_SECONDS = 60
NAMES = {'Fraction': Fraction}


class Endless(BaseException):
    pass


class Harness(Exception):
    """Raised by a property when its own machinery (not rene) is at fault."""


class Context:
    """What one evaluation observed about its case."""

    __slots__ = ('nontrivial', 'tags')

    def __init__(self):
        self.nontrivial = False
        self.tags = []

    def tag(self, *names):
        self.tags.extend(names)


def load(name):
    return importlib.import_module(f'rv.props.{name.lower()}').PROPERTY


def case_text(case):
    return repr(case)


def parse_case(text):
    return eval(text, dict(NAMES))


def digest(case):
    return hashlib.blake2b(case_text(case).encode(), digest_size=8).digest()


def _alarm(_signum, _frame):
    raise Endless(f'no answer within {CASE_CPU_SECONDS} s of processor time')


def evaluate(prop, case):
    """(message or None, context); any escape from the code is a message."""
    context = Context()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        message = prop.run(case, context)
    except Harness:
        raise
    except (Endless, Exception) as error:
        frames = traceback.extract_tb(error.__traceback__)
        where = frames[-1]
        message = (f'raised {type(error).__name__}: {str(error)[:200]} at '
                   f'{os.path.basename(where.filename)}:{where.lineno} in '
                   f'{where.name}')
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return message, context


def generate(prop, src):
    return prop.make(src)


# ------------------------------------------------------------------ findings

def known_findings(property_id):
    """[(case text, what)] of the findings listed for the property."""
    path = os.path.join(ROOT, 'known_findings.txt')
    result = []
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                match = re.match(r'finding: property=(\S+) case=(.*) what=(.*)',
                                 line.rstrip('\n'))
                if match and match[1] == property_id:
                    result.append((match[2], match[3]))
    return result


# -------------------------------------------------------------------- worker

def _case_seed(seed, property_id, worker, number):
    text = f'{seed}/{property_id}/{worker}/{number}'
    return int.from_bytes(hashlib.blake2b(text.encode(),
                                          digest_size=8).digest(), 'big')


def _mutate(rng, choices, other):
    choices = list(choices)
    for _ in range(1 + rng.randrange(3)):
        kind = rng.randrange(5)
        i = rng.randrange(len(choices)) if choices else 0
        if kind == 0 and choices:
            choices[i] = rng.randrange(64)
        elif kind == 1 and choices:
            choices[i] += rng.choice((-1, 1))
            choices[i] = max(choices[i], 0)
        elif kind == 2 and choices:
            del choices[i:i + 1 + rng.randrange(3)]
        elif kind == 3:
            choices[i:i] = [rng.randrange(8)
                            for _ in range(1 + rng.randrange(3))]
        elif other:
            j = rng.randrange(len(other))
            choices = choices[:i] + list(other[j:])
    return choices


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def _worker(prop, worker, seed, tier, count, deadline, known, out, stop):
    try:
        _limit()
        prop.prepare()
        tally = collections.Counter()
        nontrivial = set()
        samples = []
        evaluations = 0
        guided = worker % 4 == 0 and prop.guided
        novelty = Novelty(f'{os.sep}rene{os.sep}') if guided else None
        if novelty is not None and not novelty.start():
            novelty = None
        corpus = []
        failure = None
        history = collections.deque(maxlen=HISTORY)

        def one(case):
            nonlocal evaluations
            history.append(case)
            message, context = evaluate(prop, case)
            evaluations += 1
            tally.update(context.tags)
            if context.nontrivial:
                nontrivial.add(digest(case))
                if len(samples) < 2 and len(case_text(case)) < 1500:
                    samples.append(case_text(case))
            if message is not None and case_text(case) in known:
                return None
            return message

        for index, case in enumerate(prop.enumerated(tier)):
            if index % WORKERS != worker:
                continue
            if failure is not None or stop.is_set():
                break
            tally['enumerated'] += 1
            message = one(case)
            if message is not None:
                failure = (case, None, message)
        number = 0
        while (failure is None and number < count
               and time.monotonic() < deadline and not stop.is_set()):
            rng = random.Random(_case_seed(seed, prop.id, worker, number))
            number += 1
            if corpus and rng.randrange(2):
                base = corpus[rng.randrange(len(corpus))]
                other = corpus[rng.randrange(len(corpus))]
                src = source.Source(rng=rng,
                                    prefix=_mutate(rng, base, other))
                tally['mutated'] += 1
            else:
                src = source.Source(rng=rng)
            if novelty is not None:
                novelty.take()
            case = prop.make(src)
            message = one(case)
            if novelty is not None and novelty.take():
                corpus.append(src.choices)
            if message is not None:
                failure = (case, src.choices, message)
        if failure is not None:
            stop.set()
            failure = (*failure, list(history)[:-1])
        out.put(('done', worker, evaluations, list(nontrivial), samples,
                 dict(tally), failure,
                 novelty.total() if novelty is not None else None))
    except BaseException as error:
        stop.set()
        out.put(('error', worker, f'{type(error).__name__}: {error}\n'
                 + traceback.format_exc()))


def _afresh(prop, cases):
    """Message of the last of the cases, run in a process of their own."""
    receiver, sender = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(receiver)
            _limit()
            prop.prepare()
            message = None
            for case in cases:
                message, _ = evaluate(prop, case)
            with os.fdopen(sender, 'w') as file:
                file.write(message or '')
        finally:
            os._exit(0)
    os.close(sender)
    with os.fdopen(receiver) as file:
        message = file.read()
    os.waitpid(pid, 0)
    return message or None


def _needed(prop, history, case, seconds):
    """Shortest found part of the history after which the case fails.

    None if the case does not fail after all of the history either.
    """
    end = time.monotonic() + seconds
    if _afresh(prop, [*history, case]) is None:
        return None
    size = max(1, len(history) // 2)
    while history and time.monotonic() < end:
        start = 0
        while start < len(history) and time.monotonic() < end:
            rest = history[:start] + history[start + size:]
            if _afresh(prop, [*rest, case]) is not None:
                history = rest
            else:
                start += size
        if size == 1:
            break
        size = max(1, size // 2)
    return history


def _shrink(prop, failure, known, seconds):
    case, choices, message = failure
    if choices is None:
        return failure
    end = time.monotonic() + seconds
    best = {'case': case, 'message': message}

    def fails(candidate):
        src = source.replaying(candidate)
        try:
            smaller = prop.make(src)
        except Exception:
            return None
        if case_text(smaller) in known:
            return None
        result, _ = evaluate(prop, smaller)
        if result is None:
            return None
        key = tuple(src.choices)
        found[key] = (smaller, result)
        return src.choices

    found = {}
    final = source.shrink(choices, fails, lambda: time.monotonic() < end)
    if tuple(final) in found:
        best['case'], best['message'] = found[tuple(final)]
    return best['case'], list(final), best['message']


def main(property_id, tier, replay=None):
    started = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = load(property_id)
    prop.prepare()
    if replay is not None:
        with open(replay) as file:
            data = json.load(file)
        for text in data.get('history', ()):
            evaluate(prop, parse_case(text))
        message, _ = evaluate(prop, parse_case(data['case']))
        if message is None:
            print(f'replay: property={prop.id} holds on {replay}')
            return 0
        print(f'{prop.id}: {message}')
        print(f'VIOLATION property={prop.id} replay={replay}')
        return 1
    listed = known_findings(prop.id)
    known = {text for text, _ in listed}
    for text, what in listed:
        message, _ = evaluate(prop, parse_case(text))
        if message is not None:
            print(f'KNOWN-FINDING: property={prop.id} {what}')
    count, cap = prop.budget(tier)
    scale = float(os.environ.get('RV_SCALE', '1'))
    share = max(1, int(count * scale) // WORKERS)
    deadline = time.monotonic() + cap
    context = multiprocessing.get_context('fork')
    out = context.Queue()
    stop = context.Event()
    processes = [
        context.Process(target=_worker, daemon=True,
                        args=(prop, worker, seed, tier, share, deadline,
                              known, out, stop))
        for worker in range(WORKERS)]
    for process in processes:
        process.start()
    reports = []
    while len(reports) < WORKERS:
        try:
            reports.append(out.get(timeout=5))
        except queue.Empty:
            dead = [process.exitcode for process in processes
                    if process.exitcode not in (None, 0)]
            if dead:
                print(f'error: worker ended with {dead}', file=sys.stderr)
                return 3
    for process in processes:
        process.join()
    errors = [report for report in reports if report[0] == 'error']
    if errors:
        print(errors[0][2], file=sys.stderr)
        return 3
    reports.sort(key=lambda report: report[1])
    evaluations = sum(report[2] for report in reports)
    nontrivial = set().union(*(report[3] for report in reports))
    samples = [text for report in reports for text in report[4]][:6]
    tally = collections.Counter()
    for report in reports:
        tally.update(report[5])
    failures = [report[6] for report in reports if report[6] is not None]
    branches = [report[7] for report in reports if report[7] is not None]
    replay_path = None
    if failures:
        failure = min(failures, key=lambda item: len(case_text(item[0])))
        seconds = 60 if tier == 'quick' else 180
        _limit()
        *failure, history = failure
        if _afresh(prop, [failure[0]]) is not None:
            history = []
            case, choices, message = _shrink(prop, failure, known, seconds)
        else:
            # only what ran before makes the case fail
            history = _needed(prop, history, failure[0], seconds)
            case, choices, message = failure
            message = f'after {len(history or [])} other cases: {message}'
        directory = os.path.join(ROOT, 'replays')
        os.makedirs(directory, exist_ok=True)
        name = digest(case).hex()
        replay_path = os.path.join(directory, f'{prop.id}-{name}.json')
        with open(replay_path, 'w') as file:
            json.dump({'property': prop.id, 'case': case_text(case),
                       'message': message, 'choices': choices,
                       'history': list(map(case_text, history or ())),
                       'seed': seed}, file, indent=1)
    wall = time.monotonic() - started
    directory = os.path.join(ROOT, 'evidence')
    os.makedirs(directory, exist_ok=True)
    evidence = {
        'property': prop.id, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(nontrivial),
            'rule': prop.rule,
            'samples': samples,
            'classes': dict(sorted(tally.items())),
            'requested': share * WORKERS,
            'branch_outcomes_seen_by_guided_workers': branches},
        'assumptions': list(prop.assumptions),
        'wall_s': round(wall, 2),
        'violations': len(failures)}
    with open(os.path.join(directory, f'{prop.id}.json'), 'w') as file:
        json.dump(evidence, file, indent=1)
    print(f'{prop.id} {tier}: {evaluations} cases, {len(nontrivial)} distinct '
          f'non-trivial, {wall:.1f} s, {dict(sorted(tally.items()))}')
    if replay_path is not None:
        print(f'{prop.id}: {message}')
        print(f'case: {case_text(case)[:2000]}')
        print(f'VIOLATION property={prop.id} replay={replay_path}')
        return 1
    return 0
