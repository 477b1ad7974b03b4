"""Execution seams: a line-granular fault injector and a cooperative thread
scheduler for the code under test.

Neither needs a hook in the code: Python's own tracing facility reports every line
of the code under test (and only those lines) before it executes, and that is where
the simulator raises a fault or hands control to another simulated client.
"""

import os
import sys
import threading

REPO = os.environ.get('VERIF_REPO', '/repo')
PREFIXES = (
    os.path.join(REPO, 'src', 'onepower') + os.sep,
    os.path.join(REPO, 'cosmosis_modules') + os.sep,
)


# The caching layer (hmf, and the small subclass of it here) is not struck: it marks
# quantities for recalculation after it has stored a new parameter value, so an error
# between the two is outside what the code under test can guarantee.
NOT_STRUCK = (os.path.join(REPO, 'src', 'onepower', 'utils', 'framework.py'),)


def mine(code):
    f = code.co_filename
    return f.startswith(PREFIXES) and f not in NOT_STRUCK


def make_exc(kind):
    import errno

    import numpy as np

    e = {
        'memory': lambda: MemoryError('injected: allocation failed'),
        'io': lambda: OSError(errno.EIO, 'injected: input/output error'),
        'nospace': lambda: OSError(errno.ENOSPC, 'injected: no space left on device'),
        'emfile': lambda: OSError(errno.EMFILE, 'injected: too many open files'),
        'fpe': lambda: FloatingPointError('injected: floating point error'),
        'linalg': lambda: np.linalg.LinAlgError('injected: singular matrix'),
        'runtime': lambda: RuntimeError('injected: external solver failed'),
        'value': lambda: ValueError('injected: value out of range'),
        'interrupt': lambda: KeyboardInterrupt('injected: interrupted by the user'),
    }[kind]()
    e.injected = True
    return e


# 'interrupt' (Ctrl-C) is for code that holds no model: hmf's caching layer takes back
# its bookkeeping of a failed evaluation for Exception only, not for KeyboardInterrupt.
FAULT_KINDS = ['memory', 'io', 'fpe', 'linalg', 'runtime', 'value', 'emfile']

# what an operation may end with: the user's interrupt is not an Exception
ERRORS = (Exception, KeyboardInterrupt)


class LineSeam:
    """Count the lines of the code under test executed inside the block; at line
    number ``at`` (0-based) raise ``exc``."""

    def __init__(self, at=None, exc=None, on_line=None):
        self.n = 0
        self.at = at
        self.exc = exc
        self.fired = False
        self.where = None
        self.on_line = on_line

    def _global(self, frame, event, arg):
        if event == 'call' and mine(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            i = self.n
            self.n += 1
            if self.on_line is not None:
                self.on_line(i, frame)
            if i == self.at and not self.fired:
                self.fired = True
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                raise self.exc
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


def locate(fn, f):
    """(number of code-under-test lines fn() executes, number of the one the fault
    ``f`` strikes), measured in a forked copy of this process so that nothing here
    changes.

    ``f['frac']`` alone picks uniformly among the executed lines; with ``f['line']`` a
    distinct source line is picked first and ``frac`` chooses among the times it is
    executed, so that code that runs once is struck as often as an inner loop."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = '0 0'
        try:
            seq = []
            seam = LineSeam(on_line=lambda i, fr: seq.append((id(fr.f_code), fr.f_lineno)))
            try:
                with seam:
                    fn()
            except BaseException:  # noqa: BLE001
                pass
            n = len(seq)
            at = min(n - 1, int(f['frac'] * n))
            if n and f.get('line') is not None:
                places = {}
                for i, k in enumerate(seq):
                    places.setdefault(k, []).append(i)
                lines = list(places.values())  # in order of first execution
                hits = lines[min(len(lines) - 1, int(f['line'] * len(lines)))]
                at = hits[min(len(hits) - 1, int(f['frac'] * len(hits)))]
            out = f'{n} {at}'
        finally:
            os.write(w, out.encode())
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        c = os.read(r, 100)
        if not c:
            break
        data += c
    os.close(r)
    os.waitpid(pid, 0)
    n, at = (int(x) for x in (data or b'0 0').split())
    return n, at


def count_lines(fn):
    """Lines of the code under test that fn() executes, measured in a forked copy."""
    return locate(fn, {'frac': 0.0})[0]


def line_fault(r, kinds=None):
    """A fault at a line of the code under test: where in the execution, or (half of
    them) which distinct source line."""
    f = {'kind': r.choice(kinds or FAULT_KINDS), 'frac': round(r.random(), 5)}
    if r.random() < 0.5:
        f['line'] = round(r.random(), 5)
    return f


class Deadlock(Exception):
    pass


class ThreadSim:
    """Several client threads, exactly one of which runs at any moment.  Control can
    move only at a line of the code under test; ``decide(n_runnable, step)`` (a pure
    function of the trace) picks who runs next."""

    def __init__(self, decide, quantum):
        self.decide = decide
        self.quantum = quantum  # callable(step) -> lines until the next switch point
        self.cond = threading.Condition()
        self.current = None
        self.alive = []
        self.step = 0
        self.left = 0
        self.switches = 0
        self.order = []

    def _pick(self, me=None):
        self.step += 1
        self.left = self.quantum(self.step)
        if not self.alive:
            self.current = None
            return
        i = self.decide(len(self.alive), self.step)
        nxt = self.alive[i]
        if nxt != self.current:
            self.switches += 1
        self.current = nxt
        if len(self.order) < 20000:
            self.order.append(nxt)

    def _yield(self, me):
        with self.cond:
            self._pick(me)
            self.cond.notify_all()
            while self.current != me:
                self.cond.wait()

    def run(self, fns, faults=None):
        """Run the callables to completion; returns [(ok, value_or_exc)].  ``faults``
        maps a client to [(line number of that client, exception kind)]."""
        n = len(fns)
        results = [None] * n
        faults = {int(k): sorted(v) for k, v in (faults or {}).items()}
        self.lines = [0] * n
        self.fired = []

        def body(i):
            with self.cond:
                while self.current != i:
                    self.cond.wait()

            def local(frame, event, arg):
                if event == 'line':
                    self.lines[i] += 1
                    self.left -= 1
                    if self.left <= 0:
                        self._yield(i)
                    mine_f = faults.get(i)
                    if mine_f and self.lines[i] >= mine_f[0][0]:
                        _, kind = mine_f.pop(0)
                        self.fired.append(kind)
                        raise make_exc(kind)
                return local

            def glob(frame, event, arg):
                if event == 'call' and mine(frame.f_code):
                    return local
                return None

            sys.settrace(glob)
            try:
                results[i] = (True, fns[i]())
            except BaseException as e:  # noqa: BLE001
                results[i] = (False, e)
            finally:
                sys.settrace(None)
                with self.cond:
                    self.alive.remove(i)
                    self._pick()
                    self.cond.notify_all()

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        self.alive = list(range(n))
        for t in threads:
            t.start()
        with self.cond:
            self._pick()
            self.cond.notify_all()
        for t in threads:
            t.join(timeout=200)
            if t.is_alive():
                raise Deadlock('simulated clients made no progress')
        return results


# ------------------------------------------------------------------ identity

class Identity:
    """id() as the code under test sees it: the number of a dead object is given to the
    next one of its type at once. Memory is reused like this now and then; whether it is
    must not be left to the allocator."""

    def __init__(self):
        self.known = {}  # real id -> (number, weak reference)
        self.free = {}
        self.next = 16
        self.calls = 0

    def __call__(self, obj):
        import builtins
        import weakref

        self.calls += 1
        real = builtins.id(obj)
        if real in self.known and self.known[real][1]() is obj:
            return self.known[real][0]
        kind = type(obj)
        free = self.free.setdefault(kind, [])
        number = free.pop() if free else self.next
        if number == self.next:
            self.next += 16

        def gone(ref):
            self.known.pop(real, None)
            free.append(number)

        try:
            ref = weakref.ref(obj, gone)
        except TypeError:
            if number == self.next - 16:
                self.next -= 16
            return real
        self.known[real] = (number, ref)
        return number


IDENTITY = Identity()


LIVE = []


def install_identity():
    LIVE[:] = [True]
    for m in list(sys.modules.values()):
        if str(getattr(m, '__file__', None)).startswith(PREFIXES) and 'id' not in vars(m):
            m.id = IDENTITY
