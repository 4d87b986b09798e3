"""Exceptions injected in the library code at a chosen event."""
import sys
from . import fw


class Injected(KeyboardInterrupt):
    "Asynchronous interruption (not an Exception)."


class InjectedMemory(BaseException):
    pass


class Injector(object):
    """Counts the line (or opcode) events of the library code executed by a
    function, and raises an exception at the event of the given rank."""
    def __init__(self, opcodes, at=None, exc=Injected):
        self.opcodes, self.at, self.exc = opcodes, at, exc
        self.n = 0
        self.where = None
        self.files = {}

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.n += 1
            if self.n - 1 == self.at:
                self.where = '%s:%s' % (frame.f_code.co_name, frame.f_lineno)
                raise self.exc('injected')
        return self.local

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        ok = self.files.get(name)
        if ok is None:
            ok = self.files[name] = name.startswith(fw.PKG)
        if not ok:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        if event == 'call' and self.at is not None and self.n > self.at:
            return None
        return self.local

    def run(self, f, *args):
        "(finished, result or exception)"
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            r = f(*args)
            return True, r
        except self.exc as e:
            return False, e
        finally:
            sys.settrace(old)
