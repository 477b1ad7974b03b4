"""Observable snapshots of live objects, and their comparison."""

import functools
import inspect

import numpy as np

RTOL = 1e-8
SKIP = object()


def public_quantities(cls, parameters):
    """Names of the public derived quantities of a model class."""
    from hmf._internals._framework import Framework

    out = []
    for name in dir(cls):
        if name.startswith('_') or name in parameters or hasattr(Framework, name):
            continue
        st = inspect.getattr_static(cls, name)
        if isinstance(st, (property, functools.cached_property)):
            out.append(name)
    return sorted(out)


def canon(v, depth=0):
    """A picklable, comparable image of an observable value (SKIP when opaque)."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (int, float, np.integer, np.floating)):
        return float(v)
    if isinstance(v, np.ndarray):
        if v.dtype.kind in 'biufc':
            return np.array(v)
        return SKIP
    if depth > 4:
        return SKIP
    if isinstance(v, dict):
        out = {}
        for k in v:
            c = canon(v[k], depth + 1)
            if c is not SKIP:
                out[str(k)] = c
        return out
    if isinstance(v, (list, tuple)):
        out = [canon(x, depth + 1) for x in v]
        return [('opaque' if x is SKIP else x) for x in out] if any(x is not SKIP for x in out) else SKIP
    tn = type(v).__name__
    mod = type(v).__module__ or ''
    if isinstance(v, type):
        return f'<class {v.__name__}>'
    if mod.startswith('astropy'):
        if hasattr(v, 'H0'):
            d = {}
            for a in ('H0', 'Om0', 'Ob0', 'Ode0', 'Tcmb0', 'Neff', 'w0', 'wa'):
                if hasattr(v, a):
                    x = getattr(v, a)
                    x = getattr(x, 'value', x)
                    d[a] = float(x) if x is not None else None
            m = getattr(v, 'm_nu', None)
            if m is not None:
                d['m_nu'] = np.array(getattr(m, 'value', m), dtype=float)
            return d
        if hasattr(v, 'value'):
            return canon(np.asarray(v.value), depth + 1)
        return SKIP
    if tn == 'PowerSpectrumResult':
        return {k: canon(x, depth + 1) for k, x in vars(v).items() if not k.startswith('_')}
    if mod.startswith('onepower'):
        from hmf._internals._framework import Component, Framework

        if isinstance(v, (Component, Framework)):
            d = {}
            pars = set(v.parameter_values) if isinstance(v, Framework) else set()
            for name in public_quantities(type(v), pars):
                c = read(v, name, depth + 1)
                if c is not SKIP:
                    d[name] = c
            for name in sorted(pars):
                c = canon(getattr(v, name), depth + 1)
                if c is not SKIP:
                    d[name] = c
            return d
        return SKIP
    if callable(v) and tn in ('interp1d',):
        try:
            return np.asarray(v(np.array([0.2, 0.5, 0.9])), dtype=float)
        except Exception:  # noqa: BLE001
            return SKIP
    return SKIP


class Failed:
    """An observable failure of a read."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f'raised {self.exc}'

    def __eq__(self, o):
        return isinstance(o, Failed)

    def __hash__(self):
        return 1


def read(obj, name, depth=0):
    try:
        v = getattr(obj, name)
    except Exception as e:  # noqa: BLE001
        if getattr(e, 'injected', False):
            raise
        return Failed(f'{type(e).__name__}: {e}'[:200])
    return canon(v, depth)


def diff(a, b, path='', rtol=RTOL):
    """None when equal, else a short description of the first difference."""
    if isinstance(a, Failed) or isinstance(b, Failed):
        if isinstance(a, Failed) and isinstance(b, Failed):
            return None
        return f'{path}: {_short(a)} vs {_short(b)}'
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return f'{path}: keys {sorted(a)} vs {sorted(b)}'
        for k in a:
            d = diff(a[k], b[k], f'{path}.{k}', rtol)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f'{path}: length {len(a)} vs {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}[{i}]', rtol)
            if d:
                return d
        return None
    num = (float, np.ndarray)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return f'{path}: shape {x.shape} vs {y.shape}'
        if x.size == 0:
            return None
        with np.errstate(all='ignore'):
            fin = np.isfinite(x) & np.isfinite(y)
            if not np.array_equal(np.isfinite(x), np.isfinite(y)):
                return f'{path}: finite pattern differs'
            nf = ~fin
            if nf.any() and not np.array_equal(
                np.nan_to_num(x[nf].astype(complex)), np.nan_to_num(y[nf].astype(complex))
            ):
                return f'{path}: non-finite values differ'
            if not fin.any():
                return None
            xs, ys = x[fin], y[fin]
            scale = float(np.max(np.abs(ys)))
            bad = np.abs(xs - ys) > rtol * np.abs(ys) + 1e-13 * scale
        if bad.any():
            i = int(np.argmax(bad))
            return f'{path}: {xs[i]:.12g} vs {ys[i]:.12g} ({int(bad.sum())}/{x.size} entries differ)'
        return None
    if type(a) is not type(b) or a != b:
        return f'{path}: {_short(a)} vs {_short(b)}'
    return None


def _short(v):
    if isinstance(v, np.ndarray):
        return f'array{v.shape} {v.ravel()[:2]}'
    return repr(v)[:160]


def feed(h, v):
    """Feed a canonical value into a hash."""
    if isinstance(v, dict):
        for k in sorted(v):
            h.update(k.encode())
            feed(h, v[k])
    elif isinstance(v, list):
        for x in v:
            feed(h, x)
    elif isinstance(v, np.ndarray):
        h.update(str(v.shape).encode())
        h.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, Failed):
        h.update(b'FAILED')
    else:
        h.update(repr(v).encode())
