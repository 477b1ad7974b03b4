"""JSON value specs <-> Python values.  Every decode builds new objects, so the
simulator decides explicitly when two call sites share one object."""

import os

import numpy as np


def decode(s, base=None):
    if isinstance(s, dict):
        ((tag, v),) = s.items()
        if tag == 'a':
            return np.array(v, dtype=float)
        if tag == 'ai':
            return np.array(v, dtype=int)
        if tag == 'd':
            return {k: decode(x, base) for k, x in v.items()}
        if tag == 'file':
            return os.path.join(base, v)
        if tag == 'logspace':
            if len(v) == 4:  # the same ends and size, other points in between
                lo, hi, n, w = v
                x = np.linspace(0.0, 1.0, n)
                return 10.0 ** (lo + (hi - lo) * (x + w * x * (1.0 - x)))
            return np.logspace(*v)
        if tag == 'linspace':
            return np.linspace(*v)
        if tag == 'pk':  # (nz, nk) power spectrum, positive, mildly wiggly
            nz, nk, amp, tilt, *one = v
            i = np.arange(nk)
            zz = np.arange(nz)[:, None]
            p = amp * 1e4 * (1.0 + i) ** (-tilt) * (1 + 0.1 * np.sin(1.3 * i)) / (1.0 + 0.3 * zz)
            for j in one:  # other values inside; ends, mean and size as before
                j = 1 + j % (nk - 2)
                p[nz // 2, j], p[nz // 2, nk - 1 - j] = p[nz // 2, nk - 1 - j], p[nz // 2, j] * (1.0 if 2 * j != nk - 1 else 1.05)
            return p
        if tag == 'bnl':  # (1, nk, nm, nm), symmetric
            nk, nm, amp, *hole = v
            m = np.linspace(0.2, 1.0, nm)
            k = np.linspace(0.0, 1.0, nk)
            b = amp * (m[:, None] * m[None, :])[None, None] * np.sin(3 * k)[None, :, None, None]
            if hole:  # entries outside the range of the emulator
                b[0, 0, 0, :] = b[0, 0, :, 0] = np.nan if hole[0] == 'nan' else np.inf
            return b
        if tag == 'tk':  # transfer function on logspace(-5, 4, n)
            n, k0, *one = v
            k = np.logspace(-5, 4, n)
            t = 1.0 / (1.0 + (k / k0) ** 2) ** 0.9
            t[n // 3:2 * n // 3] *= one[0] if one else 1.0  # inside only
            return t
        if tag == 'gz':  # growth on linspace(0, 6, n)
            n, g, *one = v
            z = np.linspace(0, 6, n)
            d = (1.0 + z) ** (-g)
            d[1:n // 3] *= one[0] if one else 1.0  # inside only
            return d
        if tag == 'h':  # (nz, nm) smooth halo array
            nz, nm, amp, slope = v
            return amp * np.linspace(1.0, 2.0, nm)[None, :] ** slope * (1 + 0.1 * np.arange(nz))[:, None]
        if tag == 'h1':
            nm, amp, slope = v
            return amp * np.linspace(1.0, 2.0, nm) ** slope
        if tag == 'tuple':
            return tuple(decode(x, base) for x in v)
        raise ValueError(f'unknown spec tag {tag}')
    if isinstance(s, list):
        return [decode(x, base) for x in s]
    return s


def merge(old, new):
    """Semantics of a dictionary parameter: merge; an empty dictionary clears."""
    if isinstance(new, dict) and 'd' in new and isinstance(old, dict) and 'd' in old and new['d']:
        return {'d': {**old['d'], **new['d']}}
    return new


def apply_update(model, kw):
    model = dict(model)
    for k, v in kw.items():
        model[k] = merge(model.get(k), v)
    return model
