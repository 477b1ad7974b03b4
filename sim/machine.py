"""History machine: drives slots of live objects through a trace and compares what
they show with reference evaluations in pristine processes."""

import copy
import pickle
import random

import numpy as np

from . import codec, seams, snap
from .engine import HarnessError, Violation
from .kinds import KINDS, dependencies, evaluate
from .stubs import EMU


DIAG = False


def has_failed(v):
    if isinstance(v, snap.Failed):
        return True
    if isinstance(v, dict):
        return any(has_failed(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(has_failed(x) for x in v)
    return False


def exact_diff(a, b):
    return snap.diff(a, b, rtol=0.0)


def traits(x):
    """What a caller can tell of an argument beside its values."""
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, x.flags.writeable)
    if isinstance(x, dict):
        return {k: traits(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [traits(v) for v in x]
    return type(x).__name__


def scribble(x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fi' and x.flags.writeable:
            x *= 2
    elif isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (int, float)) and not isinstance(x[k], bool):
                x[k] = x[k] * 1.5
            else:
                scribble(x[k])
        x['something_else'] = 1.0


# a bad value of this parameter -> a quantity that cannot be computed with it
MUST_FAIL = {'matter_power_lin': 'power_spectrum_lin', 'transfer_model': 'dndlnm'}


class Machine:
    """``checks``: which invariants this property asserts."""

    def __init__(self, ctx, base, checks):
        self.ctx = ctx
        self.base = base
        self.checks = set(checks)
        self.slots = {}
        self.models = {}
        self.kinds = {}
        self.inputs = []  # (where, caller's object, canonical copy)
        self.held = []  # (where, returned object, canonical copy)
        self.shared = {}
        self.buffers = {}  # (slot, parameter) -> the array or dictionary the caller passed last

    # ------------------------------------------------------------- helpers

    def ref(self, slot):
        kind, model = self.kinds[slot], self.models[slot]
        clean = {k: v for k, v in model.items() if not k.startswith('_')}
        return self.ctx.oracle('evaluate', kind, clean, self.base)

    def decode(self, kw, where, slot=None, reuse=False):
        """Arguments of a call. With ``reuse`` the caller writes the new values into the
        arrays and dictionaries it passed for the same parameters before."""
        out = {}
        for k, v in kw.items():
            if k.startswith('_'):
                continue
            key = None
            if isinstance(v, dict) and 'shared' in v:
                # one caller-owned object handed to several calls
                key = v['shared']
                if key not in self.shared:
                    self.shared[key] = codec.decode(v['of'], self.base)
                out[k] = self.shared[key]
            else:
                out[k] = codec.decode(v, self.base)
                if slot is not None:
                    if reuse and (slot, k) in self.buffers:
                        out[k] = self.write(self.buffers[slot, k], out[k])
                    self.buffers[slot, k] = out[k]
            if 'inputs' in self.checks and not isinstance(out[k], (int, float, str, bool, type(None))):
                self.inputs.append((f'{where}.{k}', out[k], snap.canon(copy.deepcopy(out[k])), traits(out[k])))
        return out

    def write(self, old, new):
        """The caller's object ``old`` with the values of ``new``, if it can take them."""
        if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype and old.flags.writeable:
            np.copyto(old, new)
        elif isinstance(old, dict) and isinstance(new, dict):
            inner = {k: self.write(old[k], v) if k in old else v for k, v in new.items()}
            old.clear()
            old.update(inner)
        else:
            return new
        self.ctx.count('buffers_reused')
        self.retake()
        return old

    def retake(self):
        """The caller has changed its own objects: remember them as they are now."""
        self.inputs = [(where, obj, snap.canon(copy.deepcopy(obj)), traits(obj)) for where, obj, _, _ in self.inputs]

    @staticmethod
    def spec(kw):
        return {k: (v['of'] if isinstance(v, dict) and 'shared' in v else v) for k, v in kw.items()}

    def faulted(self, op, fn):
        """Run fn with the op's fault (if any); returns (ok, value)."""
        f = op.get('fault')
        self.struck = None
        if not f:
            return True, fn()
        if f['kind'].startswith('emu'):
            calls = {'n': 0}

            def fail(where):
                calls['n'] += 1
                if calls['n'] == f.get('at', 1):
                    self.ctx.fault_fired('emulator_error')
                    raise seams.make_exc('runtime')

            EMU['fail'] = fail
            try:
                return True, fn()
            except seams.ERRORS as e:  # noqa: BLE001
                if not getattr(e, 'injected', False) and not getattr(e.__context__, 'injected', False):
                    raise
                return False, e
            finally:
                EMU['fail'] = None
        n, at = seams.locate(fn, f)
        if n == 0:
            return True, fn()
        seam = seams.LineSeam(at, seams.make_exc(f['kind']))
        self.ctx.steps += n
        try:
            with seam:
                v = fn()
            ok = True
        except seams.ERRORS as e:  # noqa: BLE001
            if not seam.fired:
                raise
            v, ok = e, False
        if seam.fired:
            self.struck = f['kind']
            self.ctx.fault_fired(f['kind'])
            self.ctx.count('faults_swallowed' if ok else 'faults_raised')
            self.ctx.event('fault', f['kind'], seam.where, at, n)
            self.ctx.state('fault', seam.where, f['kind'])
        return ok, v

    def must_work(self, what, kind, model, fn):
        """fn() is something a new process accepts: if it raises here, history matters."""
        try:
            return fn()
        except (Violation, HarnessError):
            raise
        except seams.ERRORS as e:  # noqa: BLE001
            clean = {k: v for k, v in model.items() if not k.startswith('_')}
            self.ctx.oracle('params', kind, clean, self.base)  # a new object rejects it too: the trace is at fault
            raise Violation('operation_failed', f'{what} raised {type(e).__name__}: {e}'[:400] + '; a new object accepts the same parameters') from e

    def compare(self, slot, names=None, why='check'):
        obj, K = self.slots[slot], KINDS[self.kinds[slot]]
        ref = self.ref(slot)
        got = {}
        for n in names or ref['values']:
            if n not in ref['values']:
                continue
            v = K.read(obj, n)
            got[n] = v
            self.ctx.checks += 1
            self.ctx.steps += 1
            d = snap.diff(v, ref['values'][n])
            if d and DIAG:
                print('  DIFF', self.ctx.op_index, n, d, flush=True)
                continue
            if d and 'values' in self.checks:
                raise Violation(
                    'stale_value' if why == 'check' else why,
                    f'slot {slot} ({self.kinds[slot]}): {n}{d} (live vs freshly built with the same parameters)',
                    quantity=n,
                )
            snap.feed(self.ctx.log, v)
            if isinstance(v, snap.Failed):
                self.ctx.count('reads_that_raise')
        return got

    def check_params(self, slot):
        K = KINDS[self.kinds[slot]]
        ref = self.ref(slot)['params']
        now = K.params(self.slots[slot])
        self.ctx.checks += 1
        d = snap.diff(now, ref)
        if d:
            raise Violation('parameters_changed', f'slot {slot}: reported parameters{d} (live vs what the caller set)')

    def hold(self, slot, name):
        K = KINDS[self.kinds[slot]]
        try:
            raw = K.raw(self.slots[slot], name)
        except seams.ERRORS as e:  # noqa: BLE001
            if getattr(e, 'injected', False):
                raise
            return
        c = snap.canon(raw)
        if c is snap.SKIP or isinstance(c, (float, str, bool, type(None))):
            return
        self.held.append((f'slot {slot} {name}', raw, copy.deepcopy(c)))
        self.ctx.count('results_held')

    def check_held(self):
        for where, raw, was in self.held:
            self.ctx.checks += 1
            d = exact_diff(snap.canon(raw), was)
            if d:
                raise Violation('result_changed', f'{where} returned earlier has changed: {d} (now vs when returned)')

    def check_inputs(self):
        for where, obj, was, like in self.inputs:
            self.ctx.checks += 1
            d = exact_diff(snap.canon(obj), was)
            if not d and traits(obj) != like:
                d = f'{traits(obj)} vs {like}'[:200]
            if d:
                raise Violation('input_modified', f'caller data passed as {where} was modified: {d} (now vs when passed)')

    def passive(self):
        if 'inputs' in self.checks:
            self.check_inputs()
        if 'held' in self.checks:
            self.check_held()

    # ------------------------------------------------------------- ops

    def run(self, ops):
        ctx = self.ctx
        for i, op in enumerate(ops):
            if not ctx.begin(i, op):
                continue
            ctx.steps += 1
            getattr(self, 'op_' + op['op'])(op)
            self.passive()
            ctx.end(i, op)
        return self

    def op_new(self, op):
        slot, kind = op['slot'], op['kind']
        kw = self.decode(op['kw'], f'new({slot})', slot)
        K = KINDS[kind]

        def make():
            return K.cls()(**kw)

        def go():
            ok, obj = self.faulted(op, make)
            # on failure the caller tries again with the same arguments
            return obj if ok else make()

        model = self.spec(op['kw'])
        self.slots[slot] = self.must_work(f'construction of {slot}', kind, model, go)
        self.kinds[slot] = kind
        self.models[slot] = model

    def op_update(self, op):
        slot = op['slot']
        if slot not in self.slots:
            return
        kw = self.decode(op['kw'], f'update({slot})', slot, op.get('reuse'))
        K = KINDS[self.kinds[slot]]
        model = codec.apply_update(self.models[slot], self.spec(op['kw']))

        def go():
            ok, _ = self.faulted(op, lambda: K.update(self.slots[slot], kw))
            if not ok:
                K.update(self.slots[slot], kw)  # the caller retries

        self.must_work(f'update of {slot} with {sorted(kw)}', self.kinds[slot], model, go)
        self.models[slot] = model
        self.ctx.state('update', self.kinds[slot], sorted(op['kw']), self.regime(slot))

    def op_setattr(self, op):
        slot = op['slot']
        if slot not in self.slots:
            return
        kw = self.decode(op['kw'], f'set({slot})', slot, op.get('reuse'))
        model = codec.apply_update(self.models[slot], self.spec(op['kw']))

        def go():
            for k, v in kw.items():
                setattr(self.slots[slot], k, v)

        self.must_work(f'setting {sorted(kw)} of {slot}', self.kinds[slot], model, go)
        self.models[slot] = model
        self.ctx.state('set', self.kinds[slot], sorted(op['kw']), self.regime(slot))

    def op_overwrite(self, op):
        """The caller uses its own arrays and dictionaries for something else."""
        slot = op['slot']
        if slot not in self.slots:
            return
        K = KINDS[self.kinds[slot]]
        before = copy.deepcopy(K.params(self.slots[slot]))
        for (s, _), x in self.buffers.items():
            if s == slot:
                scribble(x)
        self.retake()
        self.ctx.count('buffers_overwritten')
        self.ctx.checks += 1
        d = exact_diff(K.params(self.slots[slot]), before)
        if d:
            raise Violation('parameters_changed', f'slot {slot}: reported parameters changed with the arrays and dictionaries of the caller{d} (now vs before)')

    def op_badupdate(self, op):
        """An update that has to be rejected; what it did apply is what it reports."""
        slot = op['slot']
        if slot not in self.slots:
            return
        kw = self.decode(op['kw'], f'bad({slot})')
        bad = op['bad']
        obj, K = self.slots[slot], KINDS[self.kinds[slot]]
        try:
            K.update(obj, kw)
            self.ctx.count('bad_accepted')
            rejected = False
        except seams.ERRORS:  # noqa: BLE001
            rejected = True
            self.ctx.fault_fired('rejected_update')
        if not rejected and op.get('must', True):
            raise Violation('bad_update_accepted', f'slot {slot}: invalid update {bad} accepted')
        # find out which of the valid parameters were taken over, from what is reported
        before = self.models[slot]
        now = K.params(obj)
        model = dict(before)
        spec = self.spec(op['kw'])
        for k in op['kw']:
            if k in bad:
                continue
            trial = codec.apply_update(model, {k: spec[k]})
            ask = {a: b for a, b in trial.items() if not a.startswith('_')}
            for a in ('nonlinear_mode', 'hmcode_ingredients'):
                if a != k:  # the combination may be what was rejected
                    ask.pop(a, None)
            if k == 'nonlinear_mode' and spec[k] == 'hmcode':
                ask['hmcode_ingredients'] = 'mead2020'
            ref = self.ctx.oracle('params', self.kinds[slot], ask, self.base)
            if k in now and snap.diff(now[k], ref[k]) is None:
                model = trial
                self.ctx.count('partially_applied')
        self.models[slot] = model
        self.ctx.state('bad', self.kinds[slot], sorted(bad), self.regime(slot))

    def op_read(self, op):
        slot = op['slot']
        if slot not in self.slots:
            return
        obj, K = self.slots[slot], KINDS[self.kinds[slot]]
        names = op['names']
        done = {}

        def go():
            for n in names:
                done[n] = K.read(obj, n)

        ok, _ = self.faulted(op, go)
        if self.struck in ('interrupt', 'memory') and ok and not any(has_failed(v) for v in done.values()):
            raise Violation('error_swallowed', f'slot {slot}: {self.struck} raised while reading {names} never reached the caller')
        if op.get('fault') and 'values' in self.checks:
            # what was returned although something failed has to be right, or an error
            ref = self.ref(slot)['values']
            for n, v in done.items():
                if n not in ref or has_failed(v):
                    continue
                self.ctx.checks += 1
                d = snap.diff(v, ref[n])
                if d:
                    raise Violation('wrong_value_returned', f'slot {slot}: {n}{d} (returned while a fault was being handled vs freshly built)')
        cond = op.get('mustfail', {})
        for n in [MUST_FAIL[k] for k, v in cond.items() if self.models[slot].get(k) == v]:
            self.ctx.checks += 1
            if not has_failed(K.read(obj, n)):
                raise Violation('error_swallowed', f'slot {slot}: {n} was returned although the inputs are inconsistent')
        if 'held' in self.checks:
            for n in names:
                self.hold(slot, n)
        self.ctx.state('read', self.kinds[slot], names[:3], self.regime(slot))

    def op_call(self, op):
        slot = op['slot']
        if slot not in self.slots:
            return
        obj = self.slots[slot]
        ref = {}
        if 'values' in self.checks:
            clean = {k: v for k, v in self.models[slot].items() if not k.startswith('_')}
            ref = self.ctx.oracle('calls', self.kinds[slot], clean, self.base)
        for n in op['names']:
            v = call(obj, n)
            self.ctx.count('calls_that_raise' if isinstance(v, snap.Failed) else 'calls_ok')
            if n not in ref:
                continue
            self.ctx.checks += 1
            d = snap.diff(v, ref[n])
            if d and DIAG:
                print('  DIFF', self.ctx.op_index, n, d, flush=True)
                continue
            if d:
                raise Violation('stale_value', f'slot {slot} ({self.kinds[slot]}): helper {n}{d} (live vs freshly built with the same parameters)', quantity=n)
            snap.feed(self.ctx.log, v)
        self.ctx.state('call', self.kinds[slot], op['names'][:2], self.regime(slot))

    def op_check(self, op):
        slot = op['slot']
        if slot not in self.slots:
            return
        self.compare(slot, op.get('names'))
        if 'params' in self.checks:
            self.check_params(slot)

    def op_probe(self, op):
        """Change, on copies of the object, what it may have forgotten to depend on.

        A new object with the same parameters recorded dependencies that this one did not: each such
        parameter is changed on a copy and everything is compared, as after any other update.
        """
        slot = op['slot']
        if slot not in self.slots or self.kinds[slot] not in PROBERS:
            return
        kind, model = self.kinds[slot], self.models[slot]
        fresh, live = self.ref(slot).get('_index', {}), dependencies(self.slots[slot])
        suspects = {}
        for q, ps in fresh.items():
            for p in set(ps) - set(live.get(q, ps)):
                suspects.setdefault(p, []).append(q)
        if not suspects:
            self.ctx.count('probes_without_suspect')
            return
        r = random.Random(op['seed'])
        chosen = sorted(suspects)
        r.shuffle(chosen)
        for p in chosen[: op.get('max', 5)]:
            kws = PROBERS[kind](r, model, p, self.base)
            if kws is None:
                continue
            self.ctx.count('probes')
            name = f'{slot}?{p}'
            self.slots[name] = self.must_work(f'copy of {slot}', kind, model, lambda: copy.deepcopy(self.slots[slot]))
            self.kinds[name], self.models[name] = kind, model
            for kw in kws:
                self.op_update({'slot': name, 'kw': kw})
            self.compare(name)
            for d in (self.slots, self.kinds, self.models):
                d.pop(name)

    def op_clone(self, op):
        if op['slot'] not in self.slots:
            return
        src, dst = op['slot'], op['to']
        obj = self.slots[src]
        how = op.get('how', 'clone')
        kw = self.decode(op.get('kw', {}), f'clone({src})')
        model = codec.apply_update(self.models[src], self.spec(op.get('kw', {})))
        if how == 'clone':
            new = self.must_work(f'clone of {src}', self.kinds[src], model, lambda: obj.clone(**kw))
        elif how == 'deepcopy':
            new = self.must_work(f'copy of {src}', self.kinds[src], model, lambda: copy.deepcopy(obj))
        elif how == 'pickle':
            try:
                new = pickle.loads(pickle.dumps(obj))
            except Exception:  # noqa: BLE001  (objects holding e.g. closures do not pickle)
                self.ctx.count('unpicklable')
                return
        else:
            raise HarnessError(how)
        self.slots[dst] = new
        self.kinds[dst] = self.kinds[src]
        self.models[dst] = model
        self.ctx.state('clone', how, self.regime(dst))

    def op_del(self, op):
        self.slots.pop(op['slot'], None)

    def regime(self, slot):
        m = self.models[slot]
        return [
            str(m.get(k))
            for k in ('nonlinear_mode', 'hmcode_ingredients', 'hod_model', 'mdef_model', 'response', 'method', 'central_ia_depends_on', 'z_dep')
        ]


# kind of object -> fn(r, model, parameter, scratch) -> updates that change this parameter, or None
PROBERS = {}


def changed(r, model, p, gen):
    for _ in range(12):
        kws = gen(r, model)
        if any(p in kw and (p not in model or kw[p] != model[p]) for kw in kws):
            return kws
    return None


def _k(o):
    return o.k_vec


# public helper methods, called on the object's own results as a user would
CALLS = {
    'dewiggle_plin': lambda o: o.dewiggle_plin(o.power_spectrum_lin.pk_tot[0]),
    'get_Pk_wiggle': lambda o: o.get_Pk_wiggle(_k(o), o.power_spectrum_lin.pk_tot[0], o.n_s),
    'sigmaV': lambda o: o.sigmaV(_k(o), o.power_spectrum_lin.pk_tot[0]),
    'one_halo_truncation_mead2020': lambda o: o.one_halo_truncation_mead2020(o.sigma8_z),
    'two_halo_truncation_mead2020': lambda o: o.two_halo_truncation_mead2020(o.sigma8_z),
    'transition_smoothing': lambda o: o.transition_smoothing(o.neff, o.power_spectrum_mm.pk_1h, o.power_spectrum_mm.pk_2h),
    'compute_1h_term': lambda o: o.compute_1h_term(o.matter_profile, o.matter_profile, o.mass, o.dndlnm[None, :, None, :]),
    'compute_A_term': lambda o: o.compute_A_term(o.mass, o.halo_bias, o.dndlnm, o.mean_density0[:, None]),
    'compute_Im_term': lambda o: o.compute_Im_term(o.mass, o.u_dm, o.halo_bias[:, None, :], o.dndlnm[:, None, :], o.mean_density0[:, None, None]),
    'compute_Ig_term': lambda o: o.compute_Ig_term(o.central_galaxy_profile, o.mass, o.dndlnm[None, :, None, :], o.halo_bias[None, :, None, :]),
    'fg': lambda o: o.fg(o.mass, o.z_vec[:, None], o.fs(o.z_vec)[:, None]),
    'fg_fit': lambda o: o.fg_fit(o.mass, 10.0**o.mb, o.fstar),
    'fs': lambda o: o.fs(o.z_vec),
    'matter_profile_with_feedback_stellar_fraction_from_obs': lambda o: o.matter_profile_with_feedback_stellar_fraction_from_obs(o.fstar),
    # the same helpers with other arguments
    'dewiggle_plin(other)': lambda o: o.dewiggle_plin(1.1 * o.power_spectrum_lin.pk_tot[0] * (1.0 + 0.1 * np.cos(3.0 * np.log(_k(o))))),
    'get_Pk_wiggle(other)': lambda o: o.get_Pk_wiggle(_k(o), o.power_spectrum_lin.pk_tot[0] * (1.0 + 0.1 * np.cos(3.0 * np.log(_k(o)))), 0.9 * o.n_s, sigma_dlnk=0.3),
    'sigmaV(other)': lambda o: o.sigmaV(_k(o), 1.3 * o.power_spectrum_lin.pk_tot[0][:, ::-1]),
    'one_halo_truncation_mead2020(other)': lambda o: o.one_halo_truncation_mead2020(0.9 * o.sigma8_z),
    'two_halo_truncation_mead2020(other)': lambda o: o.two_halo_truncation_mead2020(0.9 * o.sigma8_z),
    'transition_smoothing(other)': lambda o: o.transition_smoothing(0.9 * o.neff, o.power_spectrum_mm.pk_2h, o.power_spectrum_mm.pk_1h),
    'compute_1h_term(other)': lambda o: o.compute_1h_term(o.matter_profile, 2.0 * o.matter_profile, o.mass, 1.5 * o.dndlnm[None, :, None, :]),
    'fs(other)': lambda o: o.fs(o.z_vec[::-1] + 0.1),
    'fg(other)': lambda o: o.fg(1.1 * o.mass, o.z_vec[:, None] + 0.1, 0.5 * o.fs(o.z_vec)[:, None], beta=3),
    'trapezoidal_integrator(other)': lambda o: o.trapezoidal_integrator(o.dndlnm[:, 1:], x=1.2 * o.mass[1:], axis=-1),
    'upsampled_wkm(other)': lambda o: o.alignment_class.upsampled_wkm(_k(o)[0] * (_k(o) / _k(o)[0]) ** 0.9, o.mass),
    'trapezoidal_integrator': lambda o: o.trapezoidal_integrator(o.dndlnm, x=o.mass, axis=-1),
    'I_NL': lambda o: o.I_NL(o.matter_profile_2h, o.matter_profile_2h, o.halo_bias, o.halo_bias, o.dndlnm, o.dndlnm, o.A_term, o.mean_density0, o.calc_bnl, o.I12, o.I21, o.I22),
    'Tk_cold_ratio': lambda o: o.Tk_cold_ratio(_k(o), o.growth_factor[0], 0.14, o.h0, 0.01, 3.0),
    'upsampled_wkm': lambda o: o.alignment_class.upsampled_wkm(_k(o), o.mass),
    'parameter_values': lambda o: dict(o.parameter_values),
    'mean_l': lambda o: o.alignment_class.calculate_f_ell(2, o.alignment_class.gamma_1h_slope),
    'repr': lambda o: repr(o),
    'validate': lambda o: o.validate(),
}


def call(obj, n):
    try:
        return snap.canon(CALLS[n](obj))
    except seams.ERRORS as e:  # noqa: BLE001
        if getattr(e, 'injected', False):
            raise
        return snap.Failed(f'{type(e).__name__}: {e}'[:200])


def oracle_calls(kind, model, base):
    obj = KINDS[kind].build(model, base)
    out = {n: call(obj, n) for n in sorted(CALLS) if n not in ('repr', 'parameter_values')}
    return {n: v for n, v in out.items() if v is not snap.SKIP}


def oracle_params(kind, model, base):
    K = KINDS[kind]
    return K.params(K.build(model, base))


ORACLE = {'evaluate': evaluate, 'calls': oracle_calls, 'params': oracle_params}
