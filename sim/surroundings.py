"""The process a model lives in: what the simulator changes around the code under test,
and what has to be as it was after each call."""

import datetime
import gc
import os
import random
import sys
import threading
import time
import warnings

import numpy as np

_REAL = {n: getattr(time, n) for n in ('time', 'time_ns', 'monotonic', 'perf_counter', 'process_time')}
CLOCK = {'offset': 0.0, 'reads': 0}


def _mine(depth=2):
    from .seams import mine

    return mine(sys._getframe(depth).f_code)


def _now():
    CLOCK['reads'] += 1
    return 1.7e9 + 1e-3 * CLOCK['reads'] + CLOCK['offset']


def install_clock():
    """The clocks of the time module, shifted by what the simulator has decided; reads by
    the code under test are counted."""

    def make(name, real):
        def clock():
            off = CLOCK['offset']
            if not _mine():
                return real() + (int(off * 1e9) if name.endswith('_ns') else off)
            # the code under test sees simulated time only
            now = _now()
            return int(now * 1e9) if name.endswith('_ns') else now

        return clock

    shifted = {n: make(n, real) for n, real in _REAL.items()}
    for n, f in shifted.items():
        setattr(time, n, f)
    swap = {id(_REAL[n]): f for n, f in shifted.items()} | {id(datetime.datetime): DateTime, id(datetime.date): Date}
    for m in _ours():
        for k, v in list(vars(m).items()):
            if id(v) in swap:
                setattr(m, k, swap[id(v)])
    datetime.datetime, datetime.date = DateTime, Date


class DateTime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_now(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_now(), datetime.UTC).replace(tzinfo=None)

    today = now


class Date(datetime.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(_now())


def _ours():
    from .seams import PREFIXES

    return [m for m in list(sys.modules.values()) if str(getattr(m, '__file__', None)).startswith(PREFIXES)]


# Environment variables that the code under test asks for, whatever they are called, are
# set once the simulator has decided so.
ENV = {'n': None, 'reads': 0}


def install_environ():
    real = os._Environ.__getitem__

    def get(self, key):
        f, mine = sys._getframe(1), False
        for _ in range(3):
            if f is None:
                break
            if _ours_code(f.f_code):
                mine = True
                break
            f = f.f_back
        if mine:
            ENV['reads'] += 1
            if ENV['n'] is not None:
                try:
                    return real(self, key)
                except KeyError:
                    return ('1', '2', '0')[ENV['n'] % 3]
        return real(self, key)

    os._Environ.__getitem__ = get


def _ours_code(code):
    from .seams import PREFIXES

    return code.co_filename.startswith(PREFIXES)


# What the process does outside its own directory (files written, processes, sockets).
ACTS = {'on': False, 'base': '', 'seen': []}


def install_audit(base):
    ACTS['base'] = base

    def hook(event, args):
        if not ACTS['on']:
            return
        if event == 'open':
            path, _, flags = args
            if isinstance(path, str) and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and not path.startswith((ACTS['base'], '/dev/', '/proc/')):
                p = os.path.abspath(path)
                if not p.startswith(ACTS['base']):
                    ACTS['seen'].append(('writes', p))
        elif event in ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.symlink', 'os.link', 'os.utime'):
            p = os.path.abspath(str(args[0]))
            if not p.startswith(ACTS['base']):
                ACTS['seen'].append((event, p))
        elif event in ('subprocess.Popen', 'os.system', 'os.fork', 'os.posix_spawn', 'socket.connect', 'socket.bind'):
            ACTS['seen'].append((event, str(args)[:100]))

    sys.addaudithook(hook)


def quiet():
    """Warnings shown are nobody's concern here."""
    warnings.showwarning = lambda *a, **k: None


def _digest(x):
    import hashlib
    import pickle

    return hashlib.md5(pickle.dumps(x)).hexdigest()


def look(base):
    """What a caller can see of the process, apart from the models themselves."""
    import decimal
    import locale
    import signal

    from astropy.cosmology import default_cosmology

    um = os.umask(0)
    os.umask(um)
    return {
        'numpy random state': _digest(np.random.get_state()),
        'random state': _digest(random.getstate()),
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'numpy error handling': np.geterr(),
        'numpy print options': {k: str(v) for k, v in np.get_printoptions().items()},
        'warning filters': [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters],
        'warnings.showwarning': warnings.showwarning,
        'module search path': list(sys.path),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'garbage collector': (gc.isenabled(), gc.get_threshold()),
        'decimal context': str(decimal.getcontext()),
        'locale': locale.setlocale(locale.LC_ALL),
        'signal handlers': [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        'umask': um,
        'threads': threading.active_count(),
        'open files': sorted(_fds()),
        'standard streams': (id(sys.stdout), id(sys.stderr)),
        'default astropy cosmology': default_cosmology.get().name,
        'files': _listing(base),
    }


def _fds():
    out = []
    for f in os.listdir('/proc/self/fd'):
        try:
            out.append((int(f), os.readlink(f'/proc/self/fd/{f}')))
        except OSError:
            pass  # the descriptor of the listing itself
    return out


def _listing(base):
    out = []
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            try:
                s = os.stat(p)
            except OSError:
                continue
            out.append((os.path.relpath(p, base), s.st_size, s.st_mtime_ns, s.st_mode))
    return sorted(out)


KINDS = ['seed', 'clock', 'cwd', 'environ', 'printoptions', 'errstate', 'gc', 'churn', 'warnings', 'colossus', 'astropy', 'recursion', 'decimal', 'umask', 'replace_stdout']


def perturb(op, base):
    """Something else in the process (or the user) changes the surroundings."""
    kind, n = op['kind'], op['n']
    if kind == 'seed':
        random.seed(n)
        np.random.seed(n)
    elif kind == 'clock':
        CLOCK['offset'] += op['by']
    elif kind == 'cwd':
        d = os.path.join(base, f'dir{n % 3}')
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
    elif kind == 'environ':
        os.environ[('TZ', 'COLUMNS', 'USER', 'LC_ALL', 'ONEPOWER_DEBUG', 'XDG_DATA_HOME')[n % 6]] = ('UTC', '40', 'someone', 'C', '1', base)[n % 6]
        time.tzset()
        ENV['n'] = n
    elif kind == 'printoptions':
        np.set_printoptions(precision=(2, 4, 8, 17)[n % 4], threshold=(2, 5, 1000)[n % 3], edgeitems=1 + n % 3, suppress=bool(n % 2))
    elif kind == 'errstate':
        np.seterr(all=('ignore', 'warn')[n % 2])
    elif kind == 'gc':
        (gc.collect, gc.unfreeze, gc.freeze)[n % 3]()
        if n % 5 == 0:
            gc.set_threshold(50 + n % 700, 5, 5)
    elif kind == 'churn':
        # memory is released and handed out again: identities of dead objects are reused
        junk = [[np.empty(2 + i % 40), {}, [], object()] for i in range(300 + n % 500)]
        del junk[:: 2 + n % 3]
        gc.collect()
    elif kind == 'warnings':
        warnings.simplefilter(('ignore', 'always', 'default', 'once')[n % 4])
    elif kind == 'colossus':
        from colossus.cosmology import cosmology

        cosmology.setCosmology(('planck15', 'WMAP9', 'planck18', 'millennium')[n % 4])
    elif kind == 'astropy':
        from astropy import cosmology as ac

        ac.default_cosmology._value = (ac.Planck13, ac.WMAP5, ac.Planck18)[n % 3]
    elif kind == 'recursion':
        sys.setrecursionlimit(2000 + n % 3000)
    elif kind == 'decimal':
        import decimal

        decimal.getcontext().prec = 5 + n % 30
    elif kind == 'umask':
        os.umask((0o077, 0o022, 0o002)[n % 3])
    elif kind == 'replace_stdout':
        sys.stdout = open(os.devnull, 'w') if n % 2 else sys.__stdout__
    else:
        raise ValueError(kind)


def diff(before, after):
    for k, v in before.items():
        if after[k] != v:
            a, b = v, after[k]
            if isinstance(a, dict):
                ks = [x for x in {**a, **b} if a.get(x) != b.get(x)]
                a, b = {x: a.get(x) for x in ks}, {x: b.get(x) for x in ks}
            elif isinstance(a, list):
                a, b = [x for x in a if x not in b], [x for x in b if x not in a]
            return k, f'{str(a)[:200]} before, {str(b)[:200]} after'
    return None
