"""Execution points: line events inside the library, through sys.settrace.

The k-th executed library line of a given operation on a given input is the
same in every run, so an action placed there is exactly repeatable."""
import sys

from .engine import svgpy_dir


class Injected(BaseException):
    """The asynchronous exception the simulator raises."""


class Lines:
    """Calls action(n) before every executed line of the library."""

    def __init__(self, action, only=None):
        self.action = action
        self.base = svgpy_dir()
        self.n = 0
        self.busy = False
        self.only = only
        self.codes = {}

    def ours(self, code):
        known = self.codes.get(code)
        if known is None:
            known = code.co_filename.startswith(self.base) and (
                self.only is None or self.only(code))
            self.codes[code] = known
        return known

    def glob(self, frame, event, arg):
        if self.busy or not self.ours(frame.f_code):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' and not self.busy:
            self.n += 1
            self.busy = True
            try:
                self.action(self.n, frame)
            finally:
                self.busy = False
        return self.local

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


def count_lines(fn):
    """Runs fn and returns (number of library lines, result)."""
    lines = Lines(lambda n, frame: None)
    with lines:
        result = fn()
    return lines.n, result


class Spots:
    """The lines of one execution by the function they are in, so that a
    place can be drawn by function: one that runs few lines is drawn as often
    as one that runs thousands."""

    def __init__(self, fn):
        self.found = {}

        def action(n, frame):
            self.found.setdefault(frame.f_code, []).append(n)
        lines = Lines(action)
        with lines:
            self.result = fn()
        self.n = lines.n

    def pick(self, function, line):
        if not self.found:
            return 0
        numbers = list(self.found.values())
        numbers = numbers[function % len(numbers)]
        return numbers[line % len(numbers)]


def inject_at(k, fn, only=None):
    """Runs fn, raising Injected before its k-th library line. Returns
    (True, None) if it was raised, else (False, result)."""
    def action(n, frame):
        if n == k:
            raise Injected(k)
    try:
        with Lines(action, only):
            result = fn()
    except Injected:
        return True, None
    return False, result
