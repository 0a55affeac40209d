"""Line-by-line control over the code under test.

`interrupted` runs a call and abandons it at a chosen line of rene, and
`interleaved` runs calls in threads of which only one moves at a time, the
others waiting in the middle of whatever they were doing.  Both count the line
events of frames whose code belongs to the package, so the same numbers give
the same run again.
"""
from __future__ import annotations

import os
import sys
import threading

import rene

TURNS = 400
PACKAGE = os.path.dirname(os.path.abspath(rene.__file__)) + os.sep


class Abandoned(BaseException):
    """Comes from outside, as KeyboardInterrupt does."""


def _tracer(tick, opcodes=False):
    event_wanted = 'opcode' if opcodes else 'line'

    def local(frame, event, _argument):
        if event == event_wanted:
            tick()
        return local

    def begin(frame, _event, _argument):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        frame.f_trace_opcodes = opcodes
        return local

    return begin


def length(call):
    """Number of lines of the package the call executes."""
    count = 0

    def tick():
        nonlocal count
        count += 1

    sys.settrace(_tracer(tick))
    try:
        call()
    finally:
        sys.settrace(None)
    return count


def interrupted(call, number, error):
    """Whether the call was abandoned before its line of that number."""
    left = number

    def tick():
        nonlocal left
        left -= 1
        if left == 0:
            sys.settrace(None)
            raise error

    sys.settrace(_tracer(tick))
    try:
        call()
    except type(error) as raised:
        if raised is not error:
            raise
        return True
    finally:
        sys.settrace(None)
    return False


class _Stage:
    def __init__(self, runs, count):
        self.runs = runs
        self.used = 0
        self.left = self.next_run()
        self.batons = [threading.Lock() for _ in range(count)]
        for baton in self.batons:
            baton.acquire()
        self.live = list(range(count))
        self.switches = 0
        self.abort = False

    def next_run(self):
        # turns get longer, so that long work takes a bounded number of them
        run = self.runs[self.used % len(self.runs)] << (self.used // TURNS)
        self.used += 1
        return run

    def tick(self, own):
        if self.abort:
            raise Abandoned
        self.left -= 1
        if self.left > 0:
            return
        self.left = self.next_run()
        if len(self.live) == 1:
            return
        following = self.live[(self.live.index(own) + 1) % len(self.live)]
        self.switches += 1
        self.batons[following].release()
        self.batons[own].acquire()
        if self.abort:
            raise Abandoned

    def leave(self, own):
        position = self.live.index(own)
        self.live.remove(own)
        if self.live:
            self.batons[self.live[position % len(self.live)]].release()


def interleaved(calls, runs, opcodes=False):
    """([('ok', answer) or ('error', text)] per call, number of switches).

    The threads move in turn, each for the next of the numbers of lines (or
    bytecode instructions) in `runs`.
    """
    stage = _Stage(runs, len(calls))
    results = [None] * len(calls)

    def body(own):
        stage.batons[own].acquire()
        sys.settrace(_tracer(lambda: stage.tick(own), opcodes))
        try:
            results[own] = ('ok', calls[own]())
        except BaseException as error:
            results[own] = ('error', f'{type(error).__name__}: {error}'[:300])
        finally:
            sys.settrace(None)
            stage.leave(own)

    threads = [threading.Thread(target=body, args=(own,), daemon=True)
               for own in range(len(calls))]
    for thread in threads:
        thread.start()
    try:
        stage.batons[0].release()
        for thread in threads:
            thread.join()
    except BaseException:
        stage.abort = True
        for baton in stage.batons:
            if baton.locked():
                baton.release()
        raise
    return results, stage.switches
