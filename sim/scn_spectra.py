"""Scenarios over the main power-spectrum model."""

import random

from . import space_spectra as sp
from .codec import apply_update, merge
from .engine import default_shrink
from .machine import CALLS, ORACLE, PROBERS, Machine, changed
from .seams import line_fault

FILES = []


class Base:
    rule = ''
    simulated_time = 'no simulated clock: the code under test has no timers; time is counted in scheduler steps'
    distinct_measure = ''
    real_code = ['src/onepower (all modules)', 'hmf', 'halomod', 'numpy', 'scipy', 'astropy', 'colossus']
    stubs = ['dark_emulator (deterministic stand-in with the same interface)']
    assumptions = []
    checks = ('values',)
    quick = {'runs': 126, 'wall_cap': 400, 'run_timeout': 200, 'determinism_runs': 4, 'shrink_s': 90}
    thorough = {'runs': 3000, 'wall_cap': 3000, 'run_timeout': 200, 'determinism_runs': 16, 'shrink_s': 300}

    def plan(self, tier):
        return dict(self.quick if tier == 'quick' else self.thorough)

    def oracle_functions(self):
        return ORACLE

    def shrink(self, trace, res):
        return default_shrink(trace, res)

    def brief(self, trace):
        return {'ops': trace['ops'][:6], 'n_ops': len(trace['ops'])}

    def prepare(self, trace, ctx):
        pass

    def execute(self, trace, ctx):
        self.prepare(trace, ctx)
        Machine(ctx, ctx.scratch, self.checks).run(trace['ops'])


PARAMS = sorted(sp.GEN)


def _probe(r, m, p, base):
    return changed(r, m, p, lambda r, m: sp.gen_update(r, m, n=1, forced=p)) if p in sp.GEN else None


PROBERS['spectra'] = PROBERS['hmi'] = _probe


def probed(r, ops):
    """Every full check is followed by a probe."""
    out = []
    for op in ops:
        out.append(op)
        if op['op'] == 'check' and 'names' not in op and r.random() < 0.15:
            out.append({'op': 'call', 'slot': op['slot'], 'names': r.sample(sorted(CALLS), 6)})
        if op['op'] == 'check' and 'names' not in op:
            out.append({'op': 'probe', 'slot': op['slot'], 'seed': r.randrange(10**6)})
    return out


def careless(r, ops):
    """In some of the histories the caller goes on using its arrays and dictionaries: it passes
    the same ones with other contents, or overwrites them."""
    if r.random() < 0.6:
        return ops
    out = []
    for op in ops:
        if op['op'] in ('update', 'setattr') and r.random() < 0.8:
            op = {**op, 'reuse': True}
        out.append(op)
        if op['op'] in ('new', 'update', 'setattr') and r.random() < 0.3:
            out.append({'op': 'overwrite', 'slot': op['slot']})
    return out


class History(Base):
    """P01: any sequence of updates equals one construction."""

    rule = (
        'seeded random update histories of a live Spectra object (every parameter, in every regime), '
        'with partial and full reads in between; after each update every public quantity is compared with '
        'a freshly built object in a pristine process. Non-trivial: an update that reached the object and was followed by a comparison'
    )
    distinct_measure = 'distinct (set of parameters updated, regime of model switches) pairs, and read prefixes per regime'

    def generate(self, r, i, tier):
        t = (self.sweep, self.walk, self.flip)[i % 3](r, i, tier)
        t['ops'] = careless(r, probed(r, t['ops']))
        return t

    def flip(self, r, i, tier):
        """The options are changed one by one, each followed by what matters only under the new one."""
        m = sp.rich(r)
        n = 6 if tier == 'quick' else 15
        turn = [sp.FLIP[(i // 3 * n + j) * 5 % len(sp.FLIP)] for j in range(n)]
        for k in turn:
            if r.random() < 0.5:
                sp.put(m, sp.gen_update(r, m, n=1, forced=k))
        ops = [{'op': 'new', 'slot': 'a', 'kind': 'spectra', 'kw': m}, {'op': 'check', 'slot': 'a'}]
        m = dict(m)
        for k in [k for k in turn for _ in range(2)]:
            for kw in changed(r, m, k, lambda r, m: sp.gen_update(r, m, n=1, forced=k)) or []:
                ops.append({'op': 'update', 'slot': 'a', 'kw': kw})
                m = apply_update(m, kw)
            ops.append({'op': 'check', 'slot': 'a'})
        return {'ops': ops}

    def sweep(self, r, i, tier):
        """One thing at a time, dealt from a deck of everything there is, in a rich regime."""
        n = 13 if tier == 'quick' else 24
        # each pass through the deck in another mode
        m = sp.rich(r)
        sp.put(m, [sp.MODES[i // 3 * n // len(sp.DECK) % len(sp.MODES)]])
        shape = lambda m: (sp.nz_of(m), sp.nk_of(m), sp.nm_of(m))
        for k in ('matter_power_nl', 'beta_nl'):
            m[k] = None
            while m[k] is None and (k == 'beta_nl' or m['nonlinear_mode'] == 'fortuna' or r.random() < 0.5):
                m[k] = sp.GEN[k](r, m)
        ops = [{'op': 'new', 'slot': 'a', 'kind': 'spectra', 'kw': m}, {'op': 'check', 'slot': 'a'}]
        m = dict(m)
        for j in range(n):
            lap, at = divmod(i // 3 * n + j, len(sp.DECK))
            order = list(range(len(sp.DECK)))
            random.Random(lap).shuffle(order)
            old = dict(m)
            for kw in sp.single(r, m, sp.DECK[order[at]]):
                ops.append({'op': 'update', 'slot': 'a', 'kw': kw})
                m = apply_update(m, kw)
            ops.append({'op': 'check', 'slot': 'a'})
            back = {k: old[k] for k in kw if k in old and not (isinstance(old[k], dict) and 'd' in old[k])}
            if back and (r.random() < 0.1 or shape(m) != shape(old) or m['nonlinear_mode'] != old['nonlinear_mode']) and sp.valid({**m, **back}):
                ops.append({'op': 'update', 'slot': 'a', 'kw': back})
                m = apply_update(m, back)
                ops.append({'op': 'check', 'slot': 'a'})
        return {'ops': ops}

    def walk(self, r, i, tier):
        m = sp.start(r)
        ops = [{'op': 'new', 'slot': 'a', 'kind': 'spectra', 'kw': m}]
        m = dict(m)
        if r.random() < 0.8:
            ops.append({'op': 'check', 'slot': 'a'})
        n = 10 if tier == 'quick' else 16
        for j in range(n):
            forced = PARAMS[(i * n + j) % len(PARAMS)] if j % 2 == 0 else None
            for kw in sp.gen_update(r, m, forced=forced):
                if len(kw) == 1 and r.random() < 0.3:
                    ops.append({'op': 'setattr', 'slot': 'a', 'kw': kw})
                else:
                    ops.append({'op': 'update', 'slot': 'a', 'kw': kw})
                m = apply_update(m, kw)
            p = r.random()
            if p < 0.75:
                ops.append({'op': 'check', 'slot': 'a'})
            elif p < 0.9:
                ops.append({'op': 'read', 'slot': 'a', 'names': r.sample(QUANT, r.randint(1, 6))})
        ops.append({'op': 'check', 'slot': 'a'})
        return {'ops': ops}



SPECTRA = [f'power_spectrum_{x}' for x in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi', 'lin')]


def names(r, lo=1, hi=8):
    q = list(QUANT)
    if r.random() < 0.35:
        return r.sample(SPECTRA, r.randint(1, 4))
    return [r.choice(q) for _ in range(r.randint(lo, hi))]


class Reads(Base):
    """P02: reading is pure and order-independent."""

    checks = ('values', 'params')
    rule = (
        'seeded random read schedules (orders, repetitions, helper-method calls) of a live Spectra object in a random '
        'regime; every value read is compared with a freshly built object in a pristine process read in one fixed order, '
        'and the reported parameters with what the caller set. Non-trivial: a read whose value was compared'
    )
    distinct_measure = 'distinct (first quantities of a read batch, regime of model switches) pairs'
    quick = {**Base.quick, 'runs': 330}

    def generate(self, r, i, tier):
        m = sp.start(r)
        for _ in range(3):
            for kw in sp.gen_update(r, m, forced=r.choice(['nonlinear_mode', 'hmcode_ingredients', 'response', 'matter_power_nl', 'mdef_model', 'pointmass'])):
                for k, v in kw.items():
                    m[k] = merge(m.get(k, sp.DEFAULTS.get(k)), v)
        ops = [{'op': 'new', 'slot': 'a', 'kind': 'spectra', 'kw': m}]
        for _ in range(2):
            first = list(QUANT)
            r.shuffle(first)
            cut = r.choice([3, 8, 20, len(first)])
            ops.append({'op': 'check', 'slot': 'a', 'names': first[:cut]})
            for _ in range(r.randint(2, 5)):
                p = r.random()
                if p < 0.35:
                    ops.append({'op': 'call', 'slot': 'a', 'names': r.sample(sorted(CALLS), r.randint(1, 4))})
                else:
                    ops.append({'op': 'check', 'slot': 'a', 'names': names(r)})
            rest = list(QUANT)
            r.shuffle(rest)
            ops.append({'op': 'check', 'slot': 'a', 'names': rest})
            if r.random() < 0.6:
                for kw in sp.gen_update(r, m):
                    ops.append({'op': 'update', 'slot': 'a', 'kw': kw})
                    m = apply_update(m, kw)
            else:
                # a second object of the same run starts from scratch, with other reads first
                ops.append({'op': 'new', 'slot': 'a', 'kind': 'spectra', 'kw': m})
        ops.append({'op': 'check', 'slot': 'a'})
        return {'ops': ops}


class Recovery(Base):
    """P03: a failed evaluation leaves no trace."""

    checks = ('values', 'params')
    rule = (
        'seeded histories of a live Spectra object in which evaluations, updates and constructions are struck by a fault '
        '(failed allocation, I/O error, numerical failure, emulator failure) at a random executed line of the code under test, '
        'or fail by themselves because of inconsistent inputs; afterwards every public quantity is compared with a freshly built '
        'object in a pristine process. Non-trivial: the fault fired'
    )
    distinct_measure = 'distinct (function struck, fault kind) pairs and (update, regime) pairs'
    quick = {**Base.quick, 'runs': 200}
    stubs = [*Base.stubs, 'faults raised at traced lines of the code under test (sys.settrace)']

    def generate(self, r, i, tier):
        m = sp.start(r)
        if r.random() < 0.3:
            m = {**m, 'nonlinear_mode': 'bnl', 'beta_nl': None}
        ops = [{'op': 'new', 'slot': 'a', 'kind': 'spectra', 'kw': m}]
        if r.random() < 0.2:
            ops[0]['fault'] = self.fault(r)
        if r.random() < 0.5:
            ops.append({'op': 'check', 'slot': 'a'})
        for _ in range(4 if tier == 'quick' else 8):
            p = r.random()
            if p < 0.75:
                for kw in sp.gen_update(r, m):
                    op = {'op': 'update', 'slot': 'a', 'kw': kw}
                    if r.random() < 0.2:
                        op['fault'] = self.fault(r)
                    ops.append(op)
                    m = apply_update(m, kw)
            if r.random() < 0.15:
                # inputs that cannot be evaluated, then repaired
                bad = r.choice([
                    ({'matter_power_lin': {'pk': [7, 3, 1.0, 1.0]}}, {'matter_power_lin': None}),
                    ({'halo_concentration_model_dm': 'no_such_model'}, {'halo_concentration_model_dm': 'Duffy08'}),
                    ({'hmf_model': 'NoSuchModel'}, {'hmf_model': 'Tinker10'}),
                    ({'transfer_model': 'NoSuchTransfer'}, {'transfer_model': 'EH', 'transfer_params': {'d': {}}}),
                    ({'beta_nl': {'bnl': [3, 2, 0.1]}, 'nonlinear_mode': 'bnl'}, {'beta_nl': None}),
                ])
                ops.append({'op': 'update', 'slot': 'a', 'kw': bad[0]})
                ops.append({'op': 'read', 'slot': 'a', 'names': names(r) + r.sample(SPECTRA, 3), 'mustfail': {k: v for k, v in bad[0].items() if k in ('matter_power_lin', 'transfer_model')}})
                ops.append({'op': 'update', 'slot': 'a', 'kw': bad[1]})
                m = apply_update(apply_update(m, bad[0]), bad[1])
            for _ in range(r.choice([1, 1, 2, 3])):
                ops.append({
                    'op': 'read', 'slot': 'a',
                    'names': r.sample(SPECTRA, r.randint(2, 7)) if r.random() < 0.6 else names(r, 3, 12),
                    'fault': self.fault(r),
                })
            if r.random() < 0.75:
                ops.append({'op': 'check', 'slot': 'a'})
        ops.append({'op': 'check', 'slot': 'a'})
        return {'ops': ops}

    @staticmethod
    def fault(r):
        if r.random() < 0.15:
            return {'kind': 'emulator', 'at': r.choice([1, 2, 3, 5, 9, 20, 30])}
        return line_fault(r)


BAD = [
    ({'nonlinear_mode': 'halofit'}, ['nonlinear_mode']),
    ({'hmcode_ingredients': 'mead2016'}, ['hmcode_ingredients']),
    ({'no_such_parameter': 3.0}, ['no_such_parameter']),
    ({'hod_model': 'NoSuchHod'}, ['hod_model']),
    ({'poisson_model': 'NoSuchPoisson'}, ['poisson_model']),
    ({'hod_params': 5.0}, ['hod_params']),
    ({'align_params': 'text'}, ['align_params']),
    ({'transfer_params': [1, 2]}, ['transfer_params']),
    ({'growth_params': 1.0}, ['growth_params']),
    ({'poisson_params': 'x'}, ['poisson_params']),
]


class Rejected(Base):
    """P04: a rejected update leaves the object consistent with what it reports."""

    checks = ('values', 'params')
    rule = (
        'seeded histories mixing accepted updates with updates that must be rejected (unknown parameter, unknown model or mode, '
        'wrong type, inconsistent combination), the invalid entry at a random position among valid ones; after each the reported '
        'parameters and every public quantity are compared with a freshly built object holding the reported parameters. '
        'Non-trivial: the update was rejected'
    )
    distinct_measure = 'distinct (rejected entries, regime) and (update, regime) pairs'
    quick = {**Base.quick, 'runs': 190}

    def generate(self, r, i, tier):
        m = sp.start(r)
        ops = [{'op': 'new', 'slot': 'a', 'kind': 'spectra', 'kw': m}]
        if r.random() < 0.7:
            ops.append({'op': 'check', 'slot': 'a'})
        for j in range(5 if tier == 'quick' else 9):
            p = r.random()
            if p < 0.4:
                for kw in sp.gen_update(r, m):
                    ops.append({'op': 'update', 'slot': 'a', 'kw': kw})
                    m = apply_update(m, kw)
            good = {}
            for _ in range(r.choice([0, 1, 1, 2, 2, 5, 9])):
                k = r.choice(sorted({**sp.SCALARS, **sp.ARRAYS, 'hod_params': 1, 'align_params': 1, 'hod_settings': 1, 'k_vec': 1}))
                good[k] = sp.GEN[k](r, m)
            if r.random() < 0.2:
                # rejected by cross-validation
                if r.random() < 0.5 and m.get('nonlinear_mode') != 'hmcode':
                    bad, badk = {'nonlinear_mode': 'hmcode', 'hmcode_ingredients': r.choice([None, 'fit'])}, []
                else:
                    bad, badk = {'hmcode_ingredients': r.choice([None, 'fit']), 'nonlinear_mode': 'hmcode'}, []
                fix = r.choice([{'nonlinear_mode': None}, {'hmcode_ingredients': 'mead2020'}, {'nonlinear_mode': 'fortuna', 'omega_c': 0.26}])
            else:
                bad, badk = r.choice(BAD)
                fix = None
            items = [*good.items(), *bad.items()]
            items = [x for x in items if x[0] not in badk or x in list(bad.items())]
            order = list({k: v for k, v in items}.items())
            r.shuffle(order)
            ops.append({'op': 'badupdate', 'slot': 'a', 'kw': dict(order), 'bad': badk})
            if fix:
                ops.append({'op': 'update', 'slot': 'a', 'kw': fix})
            # the generator does not need to know which of the valid entries were applied
            if fix or r.random() < 0.7:
                ops.append({'op': 'check', 'slot': 'a'})
            # bring the generator and the object back in step
            sync = {k: v for k, v in {**good, **({} if not fix else {**bad, **fix})}.items()}
            if sync and not (sync.get('nonlinear_mode') == 'hmcode' and sync.get('hmcode_ingredients') in (None, 'fit')):
                ops.append({'op': 'update', 'slot': 'a', 'kw': sync})
                m = apply_update(m, sync)
        ops.append({'op': 'check', 'slot': 'a'})
        return {'ops': ops}


class Isolation(Base):
    """P05: objects do not influence one another."""

    checks = ('values', 'params')
    rule = (
        'seeded interleavings of operations on several live Spectra objects (built, cloned with and without overrides, deep-copied), '
        'some built from the same caller-owned dictionaries and arrays; after each operation on one object every public quantity and reported parameter of a '
        'random other object is compared with a freshly built one in a pristine process. Non-trivial: at least two live objects'
    )
    distinct_measure = 'distinct (kind of operation, regime) pairs and clone styles'
    quick = {**Base.quick, 'runs': 160}

    def generate(self, r, i, tier):
        models = {}
        ops = []
        m = sp.start(r)
        if i % 4 == 3:
            # models that lean on the cosmology of the process
            m = {**m, 'halo_concentration_model_dm': 'dutton14', 'halo_concentration_model_sat': 'dutton14', 'hmcode_ingredients': None}
            m['nonlinear_mode'] = None if m.get('nonlinear_mode') == 'hmcode' else m.get('nonlinear_mode')
        sharable = [k for k in m if isinstance(m[k], dict)]
        shared = {k: {'shared': f's{k}', 'of': m[k]} for k in sharable if r.random() < 0.6}
        for n in range(r.choice([1, 2, 2])):
            kw = {**m, **shared}
            for _ in range(r.choice([0, 1])):
                for u in sp.gen_update(r, m):
                    kw.update({k: v for k, v in u.items() if k not in shared and not k.endswith(('_model', '_params'))})
            if kw.get('nonlinear_mode') == 'hmcode' and kw.get('hmcode_ingredients') not in ('mead2020', 'mead2020_feedback'):
                kw['nonlinear_mode'] = None
            s = 'abcdef'[n]
            ops.append({'op': 'new', 'slot': s, 'kind': 'spectra', 'kw': kw})
            models[s] = {k: (v['of'] if isinstance(v, dict) and 'shared' in v else v) for k, v in kw.items()}
            if r.random() < 0.5:
                ops.append({'op': 'check', 'slot': s})
        for _ in range(8 if tier == 'quick' else 14):
            s = r.choice(sorted(models))
            p = r.random()
            if p < 0.5:
                forced = r.choice(sorted(sp.DICTS)) if r.random() < 0.45 else None
                for kw in sp.gen_update(r, models[s], forced=forced):
                    ops.append({'op': 'update', 'slot': s, 'kw': kw})
                    models[s] = apply_update(models[s], kw)
            elif p < 0.8 and len(models) < 4:
                d = 'abcdef'[len(models)]
                how = r.choice(['clone', 'clone', 'deepcopy'])
                kw = {}
                if how == 'clone' and r.random() < 0.6:
                    us = sp.gen_update(r, models[s])
                    if len(us) == 1:
                        kw = us[0]
                ops.append({'op': 'clone', 'slot': s, 'to': d, 'how': how, 'kw': kw})
                models[d] = apply_update(models[s], kw)
            else:
                ops.append({'op': 'read', 'slot': s, 'names': names(r)})
                if i % 4 == 3:
                    t = r.choice(sorted(models))
                    ops.append({'op': 'read', 'slot': t, 'names': ['conc_cen', 'conc_sat'][: r.randint(1, 2)]})
                    for kw in sp.gen_update(r, models[s], n=1, forced=r.choice(['omega_c', 'h0', 'sigma_8'])):
                        ops.append({'op': 'update', 'slot': s, 'kw': kw})
                        models[s] = apply_update(models[s], kw)
                    ops.append({'op': 'read', 'slot': s, 'names': ['conc_cen']})
                    ops.append({'op': 'check', 'slot': t})
            t = r.choice(sorted(models))
            if r.random() < 0.7:
                ops.append({'op': 'check', 'slot': t})
        for s in sorted(models):
            ops.append({'op': 'check', 'slot': s})
        return {'ops': ops}


class Immutable(Base):
    """P06: caller data and returned results stay what they were."""

    checks = ('inputs', 'held')
    rule = (
        'seeded histories of constructions, updates, reads and clones in which the simulated client keeps every array and dictionary it '
        'passed in and every result it got back; after each operation all of them are compared bit for bit with copies taken at that time. '
        'Non-trivial: a retained object compared after a later operation'
    )
    distinct_measure = 'distinct (first quantities read, regime) and (update, regime) pairs'
    quick = {**Base.quick, 'runs': 200}

    def generate(self, r, i, tier):
        m = sp.start(r)
        if r.random() < 0.5:
            m['align_params'] = sp.g_align(r, m)
        if i % 5 == 4:
            m = {**m, 'nonlinear_mode': 'bnl', 'beta_nl': {'bnl': [sp.nk_of(m), sp.nm_of(m), 0.2, *(['nan'] if r.random() < 0.5 else [])]}}
        for k in ('hod_params', 'poisson_params'):
            if r.random() < 0.4:
                m[k] = sp.GEN[k](r, m)
        kw = dict(m)
        shared = {}
        for k in list(kw):
            if isinstance(kw[k], dict) and r.random() < 0.3:
                shared[k] = kw[k] = {'shared': f's{k}', 'of': m[k]}
        ops = [{'op': 'new', 'slot': 'a', 'kind': 'spectra', 'kw': kw}]
        if r.random() < 0.3:
            ops.append({'op': 'new', 'slot': 'b', 'kind': 'spectra', 'kw': {**m, **shared}})
            ops.append({'op': 'read', 'slot': 'b', 'names': r.sample(SPECTRA, 3)})
        for j in range(6 if tier == 'quick' else 10):
            q = list(QUANT)
            r.shuffle(q)
            ops.append({'op': 'read', 'slot': 'a', 'names': q[: r.choice([4, 10, 25])] + (['hod', 'alignment_class'] if r.random() < 0.3 else [])})
            if r.random() < 0.3:
                ops.append({'op': 'call', 'slot': 'a', 'names': r.sample(sorted(CALLS), r.randint(1, 4))})
            forced = r.choice([None, 'hod_settings', 'hod_params', 'align_params', 'poisson_params', 'obs_settings', 'matter_power_lin', 'matter_power_nl', 'response', 'beta_nl'])
            for u in sp.gen_update(r, m, forced=forced):
                ops.append({'op': 'update', 'slot': 'a', 'kw': u})
                m = apply_update(m, u)
            if r.random() < 0.2:
                ops.append({'op': 'clone', 'slot': 'a', 'to': 'c', 'how': 'clone', 'kw': {}})
                ops.append({'op': 'update', 'slot': 'c', 'kw': {'hod_params': {'d': {'A_cen': 0.15}}}})
                ops.append({'op': 'read', 'slot': 'c', 'names': names(r)})
        ops.append({'op': 'read', 'slot': 'a', 'names': list(QUANT)})
        return {'ops': careless(r, ops)}


QUANT = []


def load_quantities():
    from onepower import Spectra

    from .kinds import KINDS

    s = Spectra(transfer_model='EH', growth_model='GrowthFactor')
    QUANT[:] = KINDS['spectra'].names(s)
