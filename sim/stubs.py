"""Stand-ins for external parties: the Dark Emulator and the CosmoSIS data block."""

import copy
import sys
import types

import numpy as np

EMU = {'constructed': 0, 'set': 0, 'fail': None}


class _Cosmo:
    def __init__(self, om):
        self._om = om

    def get_Omega0(self):
        return self._om


class StubEmulator:
    """Cheap emulator with the interface the bias code uses.  Its answers depend on the
    cosmology set last on the same instance, as the real one's do."""

    def __init__(self):
        EMU['constructed'] += 1
        self._maybe_fail('construct')
        self.c = None
        self.cosmo = None

    def _maybe_fail(self, where):
        f = EMU['fail']
        if f is not None:
            f(where)

    def set_cosmology(self, cparam):
        self._maybe_fail('set_cosmology')
        EMU['set'] += 1
        self.c = np.array(cparam, dtype=float).reshape(6)
        self.cosmo = _Cosmo(1.0 - self.c[2])

    def _all(self):
        """A factor near one in which every parameter of the cosmology counts."""
        return 1.0 + 0.1 * np.dot(self.c - [0.022, 0.12, 0.69, 3.0, 0.96, -1.0], [3.0, 1.0, 0.7, 0.11, 0.5, 0.4])

    def get_sigma8(self):
        self._maybe_fail('get_sigma8')
        return 0.8 * np.exp(0.5 * (self.c[3] - 3.04)) * (self.c[1] / 0.12) * self._all()

    def get_pklin_from_z(self, k, z):
        self._maybe_fail('get_pklin_from_z')
        k = np.asarray(k, dtype=float)
        a = np.exp(self.c[3] - 3.0) * (self.c[4] / 0.96) * self._all()
        return a * 2e4 * (k / 0.02) / (1 + (k / 0.02) ** 2.4) / (1 + z) ** 1.6

    def get_phh_mass(self, k, m1, m2, z):
        self._maybe_fail('get_phh_mass')
        k = np.asarray(k, dtype=float)
        b1 = 1 + 0.3 * (np.log10(m1) - 12) * (1 + self.c[5] * -0.1)
        b2 = 1 + 0.3 * (np.log10(m2) - 12) * (1 + self.c[0])
        wig = 1 + 0.2 * np.sin(6 * np.log(k + 1e-3)) * (1 + 0.1 * self.c[4] + 0.3 * (self.c[3] - 3.0) + 0.5 * (self.c[2] - 0.69))
        return self.get_pklin_from_z(k, z) * b1 * b2 * wig + 10.0


def install_emulator():
    pkg = types.ModuleType('dark_emulator')
    mod = types.ModuleType('dark_emulator.darkemu')
    mod.base_class = StubEmulator
    pkg.darkemu = mod
    sys.modules['dark_emulator'] = pkg
    sys.modules['dark_emulator.darkemu'] = mod


# ----------------------------------------------------------------- CosmoSIS


class BlockError(Exception):
    pass


_NONE = object()


class Block:
    """A CosmoSIS-like data block: values are copied in and copied out, section names
    are case-insensitive, reads of missing values raise."""

    def __init__(self):
        self.d = {}
        self.meta = {}
        self.hook = None  # hook(kind, section, name): the simulator's I/O seam
        self.writes = []
        self.reads = []

    @staticmethod
    def _k(s, n):
        return (s.lower(), n.lower())

    def _cp(self, v):
        return copy.deepcopy(v)

    def _get(self, s, n, default=_NONE):
        if self.hook:
            self.hook('get', s, n)
        self.reads.append(self._k(s, n))
        k = self._k(s, n)
        if k in self.d:
            return self._cp(self.d[k])
        if default is _NONE:
            raise BlockError(f'Name {n} not found in section {s}')
        return default

    def _put(self, s, n, v):
        if self.hook:
            self.hook('put', s, n)
        self.writes.append(self._k(s, n))
        self.d[self._k(s, n)] = self._cp(v)

    def has_value(self, s, n):
        return self._k(s, n) in self.d

    def has_section(self, s):
        return any(a == s.lower() for a, _ in self.d)

    def __getitem__(self, k):
        return self._get(*k)

    def __setitem__(self, k, v):
        self._put(k[0], k[1], v)

    def get(self, s, n):
        return self._get(s, n)

    def put(self, s, n, v):
        self._put(s, n, v)

    def get_double(self, s, n, default=_NONE):
        v = self._get(s, n, default)
        if v is default and default is None:
            raise ValueError('default must be a float')  # as the C binding does
        if isinstance(v, str):
            raise BlockError(f'wrong type {s} {n}')
        return float(v)

    def get_int(self, s, n, default=_NONE):
        return int(self._get(s, n, default))

    def get_bool(self, s, n, default=_NONE):
        return bool(self._get(s, n, default))

    def get_string(self, s, n, default=_NONE):
        v = self._get(s, n, default)
        if not isinstance(v, str):
            raise BlockError(f'wrong type {s} {n}')
        return v

    def get_double_array_1d(self, s, n, default=_NONE):
        return np.asarray(self._get(s, n, default), dtype=float)

    def put_double_array_1d(self, s, n, v):
        v = np.asarray(v, dtype=float)
        if v.ndim != 1:
            raise BlockError(f'{s} {n} is not one-dimensional')
        self._put(s, n, v)

    def put_double_array_nd(self, s, n, v):
        self._put(s, n, np.asarray(v, dtype=float))

    def replace_double_array_1d(self, s, n, v):
        if not self.has_value(s, n):
            raise BlockError(f'{s} {n} not there to be replaced')
        self._put(s, n, np.asarray(v, dtype=float))

    def put_int(self, s, n, v):
        self._put(s, n, int(v))

    def put_double(self, s, n, v):
        self._put(s, n, float(v))

    def put_string(self, s, n, v):
        self._put(s, n, str(v))

    def put_bool(self, s, n, v):
        self._put(s, n, bool(v))

    def put_grid(self, s, nx, x, ny, y, nz, z):
        x, y, z = np.asarray(x, float), np.asarray(y, float), np.asarray(z, float)
        if z.shape != (x.size, y.size):
            raise BlockError(f'shapes do not match in put_grid {s} {nz}: {z.shape} {x.size} {y.size}')
        self._put(s, nx, x)
        self._put(s, ny, y)
        self._put(s, nz, z)

    replace_grid = put_grid

    def get_grid(self, s, nx, ny, nz):
        return self._get(s, nx), self._get(s, ny), self._get(s, nz)

    def get_metadata(self, s, n, key):
        k = (*self._k(s, n), key)
        if k not in self.meta:
            raise BlockError(f'no metadata {k}')
        return self.meta[k]

    def put_metadata(self, s, n, key, v):
        self.meta[(*self._k(s, n), key)] = v

    replace_metadata = put_metadata


def install_cosmosis():
    pkg = types.ModuleType('cosmosis')
    db = types.ModuleType('cosmosis.datablock')

    class _Names:
        def __getattr__(self, n):
            return n

    db.names = _Names()
    db.option_section = 'module_options'
    db.DataBlock = Block
    db.BlockError = BlockError
    pkg.datablock = db
    sys.modules['cosmosis'] = pkg
    sys.modules['cosmosis.datablock'] = db
