"""Cut an operation off before a chosen source line of the library."""
import sys

from . import seams
from . import threads

KINDS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError,
         'exit': SystemExit}


class Tracer:
    """Counts the lines of the library an operation executes, and raises an
    exception before the chosen one."""

    def __init__(self, at=None, spot=None, nth=1, kind='interrupt'):
        self.at, self.spot, self.nth, self.kind = at, spot, nth, kind
        self.lines = 0
        self.passed = {}
        self.order = []
        self.fired = None

    def run(self, fn):
        sys.settrace(self._trace)
        try:
            return fn()
        finally:
            sys.settrace(None)

    def _trace(self, frame, event, _arg):
        code = frame.f_code
        if event != 'call' or code.co_name[0] == '<' \
                or not code.co_filename.startswith(threads.PREFIX):
            return None
        last = -1

        def line(frame, event, _arg):
            nonlocal last
            if event == 'line' and frame.f_lineno != last:
                last = frame.f_lineno
                self._line(frame)
            return line
        return line

    def _line(self, frame):
        if self.fired is not None:
            return
        self.lines += 1
        here = (frame.f_code.co_filename, frame.f_lineno)
        n = self.passed.get(here, 0) + 1
        self.passed[here] = n
        if n == 1:
            self.order.append(here)
        if self.lines == self.at or here == self.spot and n == self.nth:
            self.fired = '%s:%d' % (here[0].rsplit('/', 1)[-1], here[1])
            raise KINDS[self.kind]('cut off by the simulator')


def with_entropy_failure(nth, fn):
    """the n-th request for entropy fails"""
    e = seams.SEAM.entropy
    e.fail_at = e.calls + nth
    before = e.failed
    try:
        return fn()
    finally:
        e.fail_at = None
        with_entropy_failure.fired = e.failed > before
