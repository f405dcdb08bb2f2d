"""Seams at the granularity of executed lines of the code under test (trace functions of the interpreter)."""
import os
import sys

import neuro_shooting

PACKAGE = os.path.realpath(list(neuro_shooting.__path__)[0]) + os.sep


def tracer(on_line, exclude=()):
    """Trace function that calls on_line() before every line of the code under test."""
    def local(frame, event, arg):
        if event == 'line':
            on_line()
        return local

    known = {}

    def call(frame, event, arg):
        f = frame.f_code.co_filename
        if f not in known:
            r = os.path.realpath(f)
            known[f] = r.startswith(PACKAGE) and os.path.basename(r) not in exclude
        return local if known[f] else None
    return call


class LineFault(object):
    """Raises before the n-th executed line of the code under test (an interrupt or a failing allocation can happen anywhere)."""

    def __init__(self, n, exc):
        self.left, self.exc, self.fired = n, exc, False

    def on_line(self):
        self.left -= 1
        if self.left <= 0 and not self.fired:
            self.fired = True
            raise self.exc

    def __enter__(self):
        self.saved = sys.gettrace()
        # an interrupted recorder leaves an incomplete record, of which it does not claim anything
        sys.settrace(tracer(self.on_line, exclude=('shooting_hooks.py',)))
        return self

    def __exit__(self, *a):
        sys.settrace(self.saved)
        return False


def caused_by(e, exc):
    """Is exc the exception e, or did it lead to e?"""
    while e is not None:
        if e is exc or 'injected' in str(e):
            return True
        e = e.__cause__ or e.__context__
    return False
