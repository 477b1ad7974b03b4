"""The stateful objects of the code under test, as the simulator drives them."""

import numpy as np

from . import snap
from .codec import decode


class Kind:
    name = None

    def cls(self):
        raise NotImplementedError

    def build(self, model, base):
        return self.cls()(**{k: decode(v, base) for k, v in model.items() if not k.startswith('_')})

    _names = None

    def names(self, obj):
        c = type(obj)
        if self._names is None:
            type(self)._names = {}
        if c not in self._names:
            self._names[c] = snap.public_quantities(c, set(obj.parameter_values))
        return self._names[c]

    def read(self, obj, name):
        return snap.read(obj, name)

    def raw(self, obj, name):
        return getattr(obj, name)

    def params(self, obj):
        out = {}
        for k, v in obj.parameter_values.items():
            c = snap.canon(v)
            if c is not snap.SKIP:
                out[k] = c
        return out

    def update(self, obj, kw):
        obj.update(**kw)


class SpectraKind(Kind):
    name = 'spectra'

    def cls(self):
        from onepower import Spectra

        return Spectra


class HmiKind(Kind):
    name = 'hmi'

    def cls(self):
        from onepower import HaloModelIngredients

        return HaloModelIngredients


class AlignKind(Kind):
    name = 'align'

    def cls(self):
        from onepower import SatelliteAlignment

        return SatelliteAlignment

    def names(self, obj):
        return [*super().names(obj), *self.CALLS]

    # the helper, for two grids of equal ends and size
    CALLS = {'upsampled_wkm()': 0.0, 'upsampled_wkm(other)': 0.3}

    def _call(self, obj, name):
        x = np.linspace(0.0, 1.0, 4)
        x = x + self.CALLS[name] * x * (1.0 - x)
        return obj.upsampled_wkm(10.0 ** (3.0 * x - 1.5), np.array(obj.mass_in))

    def read(self, obj, name):
        if name not in self.CALLS:
            return super().read(obj, name)
        try:
            return snap.canon(self._call(obj, name))
        except Exception as e:  # noqa: BLE001
            if getattr(e, 'injected', False):
                raise
            return snap.Failed(f'{type(e).__name__}: {e}'[:200])

    def raw(self, obj, name):
        return self._call(obj, name) if name in self.CALLS else getattr(obj, name)


class AmplitudeKind(Kind):
    name = 'ampl'

    def cls(self):
        from onepower.ia import AlignmentAmplitudes

        return AlignmentAmplitudes


class BnlKind(Kind):
    name = 'bnl'

    def cls(self):
        from onepower import NonLinearBias

        return NonLinearBias


KINDS = {k.name: k() for k in (SpectraKind, HmiKind, AlignKind, AmplitudeKind, BnlKind)}


def dependencies(obj):
    """What the caching layer recorded: for each quantity the parameters whose change invalidates it.

    Only used to choose the next parameter to change (see Machine.op_probe), never to judge.
    """
    try:
        from hmf._internals._cache import hidden_loc

        return {q: sorted(ps) for q, ps in getattr(obj, hidden_loc(obj, 'recalc_prop_par')).items() if not q.startswith(':')}
    except Exception:  # noqa: BLE001
        return {}


def evaluate(kind, model, base, names=None):
    """Reference: every public quantity of an object freshly built from ``model``."""
    K = KINDS[kind]
    obj = K.build(model, base)
    params = K.params(obj)
    names = names or K.names(obj)
    out = {n: K.read(obj, n) for n in names}
    out = {n: v for n, v in out.items() if v is not snap.SKIP}
    return {'params': params, 'values': out, '_index': dependencies(obj)}
