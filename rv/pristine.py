"""Answers from a process in which nothing else has been asked before.

`Pristine(answer)` forks a server which never calls the library itself; for
every request it forks once more, and that process evaluates `answer(request)`
and ends.  What comes back is therefore free of any history.
"""
from __future__ import annotations

import os
import pickle
import signal
import struct


def _send(fd, value):
    data = pickle.dumps(value)
    data = struct.pack('>I', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _exactly(fd, size):
    parts = b''
    while len(parts) < size:
        part = os.read(fd, size - len(parts))
        if not part:
            return None
        parts += part
    return parts


def _receive(fd):
    head = _exactly(fd, 4)
    if head is None:
        return None
    body = _exactly(fd, struct.unpack('>I', head)[0])
    return None if body is None else pickle.loads(body)


class Pristine:
    def __init__(self, answer, seconds):
        requests, self._ask = os.pipe()
        self._answers, replies = os.pipe()
        self.owner = os.getpid()
        if os.fork() == 0:
            os.close(self._ask)
            os.close(self._answers)
            try:
                _serve(answer, seconds, requests, replies)
            finally:
                os._exit(0)
        os.close(requests)
        os.close(replies)

    def __call__(self, request):
        """('ok', answer), ('error', text), or None if the process ended."""
        _send(self._ask, request)
        return _receive(self._answers)


def _serve(answer, seconds, requests, replies):
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    while True:
        request = _receive(requests)
        if request is None:
            return
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_PROF, seconds)
                try:
                    reply = ('ok', answer(request))
                except Exception as error:
                    reply = ('error', f'{type(error).__name__}: {error}')
                _send(replies, reply)
            finally:
                os._exit(0)
        if os.waitpid(pid, 0)[1] != 0:
            _send(replies, None)
