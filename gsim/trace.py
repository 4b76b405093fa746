"""Interrupts at a chosen point of gridded's own code (sys.settrace seam)."""
import os
import sys

from . import boot

PREFIX = os.path.join(os.path.abspath(boot.REPO), "gridded") + os.sep
TESTS = os.path.join(PREFIX, "tests") + os.sep


class SimInterrupt(KeyboardInterrupt):
    pass


class SimMemory(MemoryError):
    pass


class SimIO(OSError):
    pass


EXC = {"interrupt": SimInterrupt, "memory": SimMemory, "io": SimIO}


class Interrupter:
    """Counts line (or bytecode) events in gridded frames; raises at the nth one, once."""

    def __init__(self, nth=None, exc=SimInterrupt, opcodes=False, trail=None):
        self.trail = trail
        self.depth = 0
        self.nth, self.exc, self.opcodes = nth, exc, opcodes
        self.n = 0
        self.fired = None

    def _call(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(PREFIX) or fn.startswith(TESTS):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        self.depth += 1
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.n += 1
            if self.trail is not None:
                self.trail.append((frame.f_code.co_filename, frame.f_lineno, self.depth))
            if self.nth is not None and self.n == self.nth and self.fired is None:
                self.fired = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_qualname}:{frame.f_lineno}"
                raise self.exc("simulated")
        elif event == "return":
            self.depth -= 1
        return self._local

    def run(self, fn):
        if self.opcodes:
            sys._getframe().f_trace_opcodes = True  # 3.12 delivers opcode events only if some frame asked before
        sys.settrace(self._call)
        try:
            return fn()
        finally:
            sys.settrace(None)


_guarded = {}


def guarded(path):
    """Lines of a source file that lie inside the body of a try statement with handlers."""
    if path not in _guarded:
        import ast
        out = set()
        try:
            for node in ast.walk(ast.parse(open(path).read())):
                if isinstance(node, ast.Try) and node.handlers:
                    for b in node.body:
                        out.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
        except (OSError, SyntaxError):
            pass
        _guarded[path] = out
    return _guarded[path]


_storing = {}


def storing(path):
    """Lines of a source file that may leave something behind: they store into an object or a container, or call
    something and drop the result."""
    if path not in _storing:
        import ast
        out = set()
        try:
            for node in ast.walk(ast.parse(open(path).read())):
                if isinstance(node, (ast.Attribute, ast.Subscript)) and isinstance(node.ctx, (ast.Store, ast.Del)):
                    out.add(node.lineno)
                elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                    out.update((node.lineno, node.end_lineno))
        except (OSError, SyntaxError):
            pass
        _storing[path] = out
    return _storing[path]


def know_guarded():
    """once per worker, before it forks"""
    if not _guarded:
        for m in list(sys.modules.values()):
            f = getattr(m, "__file__", None)
            if f and f.startswith(PREFIX) and not f.startswith(TESTS):
                guarded(f)
                storing(f)


def index(trail):
    """(number of events, [events of each distinct line], [the same for guarded lines], [for each distinct line that
    stores something, the events right after it]) of a recorded run"""
    by = {}
    for k, where in enumerate(trail):
        by.setdefault(where[:2], []).append(k)
    lines = list(by.values())
    after = []
    for w in by:
        if w[1] not in storing(w[0]):
            continue
        ev = []
        for k in by[w]:
            d = trail[k][2]
            for j in range(k + 1, len(trail)):
                if trail[j][2] <= d:
                    if trail[j][:2] != w:
                        ev.append(j)
                    break
        if ev:
            after.append(ev)
    return len(trail), lines, [by[w] for w in by if w[1] in guarded(w[0])], after


def choose(places, focus, frac, again):
    """0-based event to interrupt: any event, an occurrence of some line, an occurrence of some guarded line, or one
    right after a line that stores something"""
    n, lines, tries, after = places
    pool = {"any": None, "line": lines, "try": tries or lines, "store": after or lines}[focus]
    if not pool:
        return min(int(frac * n), n - 1)
    ev = pool[min(int(frac * len(pool)), len(pool) - 1)]
    return ev[min(int(again * len(ev)), len(ev) - 1)]
