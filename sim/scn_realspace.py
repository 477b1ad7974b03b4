"""Scenarios over the modules that follow the power spectra in a pipeline: projection to
real space, correction for the cosmology of the data, conversion of angles."""

import numpy as np

from . import seams, snap
from .engine import HarnessError, Violation
from .scn_cosmosis import contents, load
from .scn_spectra import Base
from .stubs import Block, BlockError

MODULES = {
    'real': ('pk_to_real', 'pk_to_real'), 'ogata': ('pk_to_real_ogata', 'pk_to_real'),
    'correct': ('correct_cosmo_real', 'pk_to_real'), 'theta': ('convert_theta', 'convert_theta'),
}
RAD = {'rad': 1.0, 'deg': np.pi / 180, 'arcmin': np.pi / 10800, 'arcsec': np.pi / 648000, 'radian': 1.0, 'radians': 1.0}


def module(kind):
    load('pyfftlog', 'pk_to_real')
    return load(*MODULES[kind])


def options(config):
    b = Block()
    for k, v in config['options'].items():
        b.d[('module_options', k)] = np.array(v) if isinstance(v, list) else v
    return b


def sample(s):
    """The block of one sample, as the modules upstream leave it."""
    b = Block()
    z = np.array(s['z'])
    k = np.logspace(-3, 1, s['nk'])
    for i, (name, amp, slope) in enumerate(s['spectra']):
        p = amp * k[None, :] / (1 + (k[None, :] / 0.05) ** slope) / (1 + z[:, None])
        if s.get('sign') == i:
            p = -p
        elif s.get('mixed') == i:
            p = p * np.sin(3 * np.log(k))[None, :]
        b.put_grid(name, 'z', z, 'k_h', k, 'p_k', p)
    b['density', 'mean_density0'] = np.full(s['nd'], s['density'])
    zz = np.linspace(0.0, 1.5, s['nnz'])
    for name, mean in s['nz']:
        b[name, 'z'] = zz
        b[name, 'nbin'] = len(mean)
        for i, m in enumerate(mean):
            b[name, f'bin_{i + 1}'] = np.exp(-0.5 * ((zz - m) / 0.2) ** 2)
    for n, v in s['cosmo'].items():
        b['cosmological_parameters', n] = v
    for sec, u, th in s['theta']:
        b[sec, 'theta'] = np.array(th)
        b.put_metadata(sec, 'theta', 'unit', u)
    b['unrelated', 'x'] = s['density'] / 3
    for d in s.get('drop', []):
        b.d.pop(tuple(d), None)
    b.writes = []
    return b


def state(b):
    d = contents(b)
    d.update({'meta/' + '/'.join(k): v for k, v in sorted(b.meta.items())})
    return d


def run(steps, smp):
    """Reference: new instances of the modules run over a new block."""
    b = sample(smp)
    for config in steps:
        try:
            m = module(config['kind'])
            m.execute(b, m.setup(options(config)))
        except Exception as e:  # noqa: BLE001
            return {'failed': f'{type(e).__name__}: {e}'[:200]}
    return {'state': state(b)}


class RealSpace(Base):
    """P17"""

    rule = (
        'seeded pipelines of up to five instances of the projection, cosmology-correction and angle-conversion modules, fed in seeded interleavings with samples, some struck by a failing block access, '
        'a missing entry or a fault at a chosen line; after each module the whole block is compared with that of new instances run over the same sample in a pristine process, and the angles with those '
        'that went in. Non-trivial: an instance that had executed before'
    )
    distinct_measure = 'distinct (module kinds run on the block, outcome of the previous block) pairs and fault sites'
    real_code = ['cosmosis_modules/pk_to_real/pk_to_real.py', 'cosmosis_modules/pk_to_real/pk_to_real_ogata.py', 'cosmosis_modules/pk_to_real/pyfftlog.py', 'cosmosis_modules/pk_to_real/correct_cosmo_real.py', 'cosmosis_modules/convert_theta/convert_theta.py', 'scipy', 'astropy']
    stubs = ['CosmoSIS data block and options (in-memory stand-in: values copied in and out, missing values raise)', 'the sampler and the modules upstream (samples are generated)']
    quick = {**Base.quick, 'runs': 160}

    def oracle_functions(self):
        return {'run': run}

    # ------------------------------------------------------------- generation

    def gen_config(self, r, kind):
        if kind == 'theta':
            return {'kind': kind, 'options': {'output_units': r.choice(['rad', 'deg', 'arcmin', 'arcsec']), 'section_name': r.choice(['shear', 'clustering'])}}
        if kind == 'correct':
            o = {'section_name': r.choice(['wp', 'ds', 'wp2']), 'z': round(r.uniform(0.1, 0.5), 2)}
            if r.random() < 0.6:
                o['z'] = [round(r.uniform(0.1, 0.5), 2) for _ in range(r.choice([1, 2]))]
            if r.random() < 0.5:
                o['cosmo_kwargs'] = repr({'H0': r.choice([68.0, 72.0]), 'Om0': r.choice([0.25, 0.31]), **({} if r.random() < 0.5 else {'Ode0': 0.7})})
                o['astropy_cosmology_class'] = 'LambdaCDM' if 'Ode0' in o['cosmo_kwargs'] else 'FlatLambdaCDM'
            return {'kind': kind, 'options': o}
        o = {'corr_type': r.choice(['wp', 'ds']), 'sample': r.choice(['nz_a', 'nz_b']), 'n_transform': r.choice([64, 128]) if kind == 'real' else r.choice([12, 20])}
        if r.random() < 0.5:
            o['rp_min'], o['rp_max'] = r.choice([0.05, 0.2]), r.choice([50.0, 400.0])
        if r.random() < 0.3:
            o['k_min_extrapolate'] = 0.001
        if r.random() < 0.4:
            o['output_section_name'] = 'wp2'
        if r.random() < 0.5:
            o['suffixes'] = r.choice([['1'], ['1', '2'], ['2', '1']])
        elif r.random() < 0.3:
            o['input_section_name'] = r.choice(['galaxy_power', 'matter_galaxy_power', 'galaxy_power_1'])
        return {'kind': kind, 'options': o}

    def gen_sample(self, r):
        nz = r.choice([3, 4])
        s = {
            'z': [round(0.05 + 0.3 * i, 3) for i in range(nz)], 'nk': r.choice([12, 20]), 'nd': r.choice([1, nz]), 'nnz': r.choice([20, 31]), 'density': round(r.uniform(7e10, 9e10), 0),
            'spectra': [[n, round(r.uniform(1e4, 5e4), 1), round(r.uniform(2.2, 3.0), 2)] for n in ('galaxy_power', 'matter_galaxy_power', 'galaxy_power_1', 'galaxy_power_2', 'matter_galaxy_power_1', 'matter_galaxy_power_2')],
            'nz': [[n, [round(r.uniform(0.2, 0.9), 2) for _ in range(r.choice([1, 2]))]] for n in ('nz_a', 'nz_b')],
            'cosmo': {'hubble': round(r.uniform(65, 75), 2), 'omega_b': r.choice([0.045, 0.05]), 'omega_m': round(r.uniform(0.25, 0.35), 3), 'mnu': r.choice([0.0, 0.06]), 'w': r.choice([-1.0, -0.9, -1.1]), 'wa': r.choice([0.0, 0.1, -0.1])},
            'theta': [[n, r.choice(['rad', 'deg', 'arcmin', 'arcsec', 'radian', 'radians']), [round(r.uniform(0.1, 3) * (i + 1), 4) for i in range(r.choice([3, 5]))]] for n in ('shear', 'clustering')],
        }
        if r.random() < 0.2:
            s['sign'] = r.randrange(6)
        if r.random() < 0.2:
            s['mixed'] = r.randrange(6)
        return s

    def vary(self, r, s):
        n = self.gen_sample(r)
        keep = [k for k in s if r.random() < 0.6]
        if 'z' in keep or 'nd' in keep:
            keep += ['z', 'nd']
        out = {**n, **{k: s[k] for k in keep}}
        if r.random() < 0.5:
            # one or two of the cosmological parameters only, perhaps by very little
            ks = r.sample(sorted(s['cosmo']), r.choice([1, 1, 2]))
            out['cosmo'] = {**s['cosmo'], **{k: n['cosmo'][k] for k in ks}}
            k = r.choice(sorted(s['cosmo']))
            if r.random() < 0.3:
                out['cosmo'][k] = out['cosmo'][k] * (1.0 + r.choice([1e-3, 1e-4, 1e-5, 1e-6]))
        return out

    def generate(self, r, i, tier):
        ops, slots = [], {}
        for s in 'abcde'[: r.choice([2, 3, 4, 5])]:
            c = self.gen_config(r, r.choice(['real', 'real', 'real', 'ogata', 'correct', 'theta']))
            slots[s] = c
            ops.append({'op': 'setup', 'slot': s, 'config': c})
        smp = self.gen_sample(r)
        for _ in range(8 if tier == 'quick' else 14):
            smp = self.vary(r, smp)
            cur = dict(smp)
            chain = [r.choice(sorted(slots)) for _ in range(r.choice([1, 2, 3]))]
            chain.sort(key=lambda s: {'real': 0, 'ogata': 0, 'correct': 1, 'theta': 2}[slots[s]['kind']])
            op = {'op': 'pipe', 'slots': chain, 'sample': cur}
            p = r.random()
            if p < 0.2:
                op['fault'] = {'on': r.randrange(len(chain)), 'kind': r.choice(['get', 'put']), 'at': r.randint(1, 12)}
            elif p < 0.35:
                op['fault'] = {'on': r.randrange(len(chain)), **seams.line_fault(r, [*seams.FAULT_KINDS, 'interrupt'])}
            elif p < 0.45:
                cur['drop'] = [r.choice([['nz_a', 'bin_2'], ['nz_b', 'bin_1'], ['density', 'mean_density0'], ['galaxy_power_2', 'p_k'], ['matter_galaxy_power', 'z'], ['shear', 'theta'], ['cosmological_parameters', 'wa']])]
            ops.append(op)
        return {'ops': ops, 'keep_kw': ()}

    # ------------------------------------------------------------- execution

    def execute(self, trace, ctx):
        self.ctx = ctx
        self.inst, self.conf = {}, {}
        self.prev = 'none'
        for i, op in enumerate(trace['ops']):
            if ctx.begin(i, op):
                getattr(self, 'op_' + op['op'])(op)
                ctx.end(i, op)

    def op_setup(self, op):
        opts = options(op['config'])
        before = contents(opts)
        try:
            self.inst[op['slot']] = module(op['config']['kind']).setup(opts)
        except Exception as e:  # noqa: BLE001
            raise HarnessError(f'setup failed: {type(e).__name__}: {e}') from e
        self.conf[op['slot']] = op['config']
        self.ctx.checks += 1
        d = snap.diff(contents(opts), before, rtol=0.0)
        if d:
            raise Violation('options_changed', f'setup changed the options{d}')

    def op_pipe(self, op):
        ctx = self.ctx
        b = sample(op['sample'])
        f = op.get('fault')
        done = []
        for i, s in enumerate(op['slots']):
            if s not in self.inst:
                continue
            kind = self.conf[s]['kind']
            before = state(b)
            here = f if f and f['on'] == i else None
            ok, why, fired = self.call(module(kind), b, s, here)
            done.append(self.conf[s])
            ctx.state('block', [c['kind'] for c in done], self.prev, ok)
            if fired and not ok:
                self.prev = 'fault'
                return
            ref = ctx.oracle('run', done, op['sample'])
            ctx.checks += 1
            if not ok:
                self.prev = 'bad'
                ctx.count('samples_rejected')
                if 'failed' not in ref:
                    raise Violation('sample_failed', f'slot {s} ({kind}): {why}; new instances accept the same block')
                return
            if 'failed' in ref:
                raise Violation('sample_accepted', f'slot {s} ({kind}): new instances reject the same block: {ref["failed"]}')
            now = state(b)
            ctx.checks += len(now)
            d = snap.diff(now, ref['state'])
            if d:
                raise Violation('block_depends_on_history', f'slot {s} ({kind}): block{d} (these instances vs new ones)')
            snap.feed(ctx.log, now)
            own = self.sections(s)
            for k, v in before.items():
                if k not in now or snap.diff(now[k], v, rtol=0.0):
                    sec = k.split('/')[1 if k.startswith('meta/') else 0]
                    if sec not in own:
                        raise Violation('input_changed', f'slot {s} ({kind}) changed {k}, which is not its output')
            self.prev = 'ok'
        self.angles(op['sample'], b, done)

    def sections(self, s):
        c = self.conf[s]
        o = c['options']
        if c['kind'] in ('real', 'ogata'):
            return {o.get('output_section_name', o['corr_type'])}
        return {o['section_name']}

    def angles(self, smp, b, done):
        """Any sequence of conversions leaves the physical angles alone, in the unit asked for last."""
        for sec, u, th in smp['theta']:
            if not b.has_value(sec, 'theta'):
                continue
            unit = b.get_metadata(sec, 'theta', 'unit')
            last = [c['options']['output_units'] for c in done if c['kind'] == 'theta' and c['options']['section_name'] == sec]
            self.ctx.checks += 1
            if unit != (last[-1] if last else u):
                raise Violation('angle_unit', f'{sec}: unit {unit!r} after conversions {last} from {u!r}')
            d = snap.diff(np.asarray(b.d[(sec, 'theta')]) * RAD[unit], np.array(th) * RAD[u], rtol=1e-11)
            if d:
                raise Violation('angle_changed', f'{sec}: angles{d} (radians, after conversions {last} from {u!r})')

    def call(self, m, b, s, f):
        ctx, conf = self.ctx, self.inst[s]
        fired, sigs, seam = [], [], None
        if f and f['kind'] in ('get', 'put'):
            n = {'i': 0}

            def hook(what, sec, name):
                if what == f['kind']:
                    n['i'] += 1
                    if n['i'] == f['at']:
                        fired.append('block_' + what)
                        sigs.append((what, sec, name))
                        raise BlockError(f'injected: {what} {sec} {name}')

            b.hook = hook
        elif f:
            def fn():
                c = Block()
                c.d, c.meta = dict(b.d), dict(b.meta)
                m.execute(c, conf)

            total, at = seams.locate(fn, f)
            if total:
                seam = seams.LineSeam(at, seams.make_exc(f['kind']))
                ctx.steps += total
        ok, why = True, ''
        try:
            if seam:
                with seam:
                    m.execute(b, conf)
            else:
                m.execute(b, conf)
        except seams.ERRORS as e:  # noqa: BLE001
            ok, why = False, f'{type(e).__name__}: {e}'[:300]
        finally:
            b.hook = None
        if seam and seam.fired:
            fired.append(f['kind'])
            sigs.append(seam.where)
        for k in fired:
            ctx.fault_fired(k)
        for g in sigs:
            ctx.state('fault', g)
            ctx.event('fault', *g)
        ctx.steps += 1
        return ok, why, bool(fired)
