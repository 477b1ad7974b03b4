"""Scenarios over the alignment, non-linear bias and upsampling classes."""

import os

from . import files, snap
from . import space_spectra as sp
from .codec import apply_update, decode
from .engine import Violation
from .machine import ORACLE, PROBERS, Machine, changed, scribble
from .scn_spectra import Base, careless, probed
from . import seams

U, C = sp.U, sp.C

# ----------------------------------------------------------------- alignment


def lum_files(r, n=3):
    return {
        f'lum{i}.fits': {'kind': 'lum', 'n': r.choice([400, 700]), 'seed': r.randrange(10**6), 'mean': round(r.uniform(9.5, 10.5), 2)}
        for i in range(n)
    }


def amp_gen(fnames):
    f = lambda r, m: None if r.random() < 0.1 else {'file': r.choice(fnames)}
    return {
        'central_ia_depends_on': C('constant', 'luminosity', 'halo_mass'),
        'satellite_ia_depends_on': C('constant', 'luminosity', 'halo_mass'),
        'gamma_2h_amplitude': U(3, 6), 'beta_cen': U(0.2, 0.6),
        'beta_two': lambda r, m: None if r.random() < 0.4 else round(r.uniform(0.1, 0.5), 3),
        'gamma_1h_amplitude': U(0.0005, 0.003), 'gamma_1h_slope': C(-2.0, 0.0, -1.5, -1.0),
        'beta_sat': U(0.2, 0.6),
        'mpivot_cen': lambda r, m: None if r.random() < 0.15 else round(r.uniform(13, 14), 3),
        'mpivot_sat': lambda r, m: None if r.random() < 0.15 else round(r.uniform(13, 14), 3),
        'lpivot_cen': lambda r, m: None if r.random() < 0.15 else round(r.uniform(9.5, 10.5), 3),
        'lpivot_sat': lambda r, m: None if r.random() < 0.15 else round(r.uniform(9.5, 10.5), 3),
        'z_loglum_file_centrals': f, 'z_loglum_file_satellites': f,
        'z_vec': lambda r, m: {'a': sorted(round(x, 3) for x in r.sample([0.05 + 0.1 * i for i in range(14)], len(m['z_vec']['a'])))},
    }


def sat_gen(fnames):
    nz = lambda m: len(m['z_vec']['a'])
    nm = lambda m: m['mass_in']['logspace'][2]
    return {
        **amp_gen(fnames),
        'mass_in': lambda r, m: {'logspace': [round(r.uniform(10, 11), 2), round(r.uniform(14, 15), 2), nm(m)]},
        'c_in': lambda r, m: {'h': [nz(m), nm(m), round(r.uniform(5, 12), 2), round(r.uniform(-0.6, -0.2), 2)]},
        'r_s_in': lambda r, m: {'h': [nz(m), nm(m), round(r.uniform(0.02, 0.2), 3), round(r.uniform(0.5, 1.5), 2)]},
        'rvir_in': lambda r, m: {'h1': [nm(m), round(r.uniform(0.2, 1.0), 3), round(r.uniform(0.8, 1.4), 2)]},
        'n_hankel': C(60, 80), 'nmass': C(2, 3, 2, 3, 5, 6, 40), 'nk': C(5, 6), 'ell_max': C(2, 4, 6), 'truncate': C(True, False),
        'method': C('fftlog', 'fftlog', 'hankel'),
    }


def amp_initial(r, fnames):
    m = {
        'z_vec': {'a': [0.1, 0.45, 0.8][: r.choice([2, 3])]},
        'lpivot_cen': 10.0, 'lpivot_sat': 10.1,
        'z_loglum_file_centrals': {'file': fnames[0]}, 'z_loglum_file_satellites': {'file': fnames[1]},
    }
    g = amp_gen(fnames)
    for _ in range(r.choice([0, 1, 2, 3])):
        k = r.choice(sorted(g))
        m[k] = g[k](r, m)
    if r.random() < 0.5:
        m['central_ia_depends_on'] = 'luminosity'
    if r.random() < 0.5:
        m['satellite_ia_depends_on'] = 'luminosity'
    return m


def sat_initial(r, fnames):
    m = amp_initial(r, fnames)
    nz, nm = len(m['z_vec']['a']), r.choice([5, 6, 9])
    m.update({
        'mass_in': {'logspace': [10.0, 15.0, nm]},
        'c_in': {'h': [nz, nm, 8.0, -0.4]},
        'r_s_in': {'h': [nz, nm, 0.05, 1.0]},
        'rvir_in': {'h1': [nm, 0.4, 1.1]},
        'n_hankel': 60, 'nmass': 3, 'nk': 5, 'ell_max': r.choice([2, 4, 6]),
    })
    if r.random() < 0.3:
        m['method'] = 'hankel'
    return m


class Alignment(Base):
    """P12: alignment amplitude and satellite alignment objects."""

    checks = ('values', 'params', 'inputs')
    rule = (
        'seeded histories of updates, reads, rejected updates and struck evaluations of live AlignmentAmplitudes and SatelliteAlignment objects '
        '(constant, luminosity and halo-mass scalings, FFTLog and Hankel transforms, catalogue files); every public quantity is compared with a freshly built '
        'object in a pristine process after each update. Non-trivial: an update followed by a comparison'
    )
    distinct_measure = 'distinct (update, regime) pairs, faults and read prefixes'
    real_code = ['src/onepower/ia.py', 'astropy.io.fits', 'hankel', 'scipy', 'hmf caching']
    stubs = ['galaxy catalogues are generated FITS files in a scratch directory']
    quick = {**Base.quick, 'runs': 500}

    def prepare(self, trace, ctx):
        files.make_all(ctx.scratch, trace['files'])

    def generate(self, r, i, tier):
        fs = lum_files(r)
        fnames = sorted(fs)
        ops = []
        slots = {}
        for s in 'ab'[: r.choice([1, 1, 2])]:
            kind = r.choice(['ampl', 'align', 'align'])
            m = (amp_initial if kind == 'ampl' else sat_initial)(r, fnames)
            ops.append({'op': 'new', 'slot': s, 'kind': kind, 'kw': m})
            slots[s] = (kind, m)
            if r.random() < 0.8:
                ops.append({'op': 'check', 'slot': s})
        for j in range(10 if tier == 'quick' else 16):
            s = r.choice(sorted(slots))
            kind, m = slots[s]
            gen = (amp_gen if kind == 'ampl' else sat_gen)(fnames)
            keys = sorted(gen)
            if r.random() < 0.12:
                bad = r.choice([{'central_ia_depends_on': 'colour'}, {'satellite_ia_depends_on': 'x'}, {'nope': 1}] + ([{'ell_max': 12}, {'method': 'fft'}] if kind == 'align' else []))
                ops.append({'op': 'badupdate', 'slot': s, 'kw': bad, 'bad': sorted(bad)})
            kw = {}
            k0 = keys[(i * 7 + j) % len(keys)] if r.random() < 0.5 else r.choice(keys)
            kw[k0] = gen[k0](r, m)
            if k0 in m and k0 not in sp.NO_NEAR and r.random() < 0.15:
                kw[k0] = sp.near(r, m[k0]) or kw[k0]
            for _ in range(r.choice([0, 0, 1, 2])):
                k = r.choice(keys)
                kw[k] = gen[k](r, m)
            op = {'op': 'setattr' if len(kw) == 1 and r.random() < 0.2 else 'update', 'slot': s, 'kw': kw}
            ops.append(op)
            m = apply_update(m, kw)
            slots[s] = (kind, m)
            p = r.random()
            if p < 0.25:
                ops.append({
                    'op': 'read', 'slot': s, 'names': r.sample(AMP_Q + (SAT_Q if kind == 'align' else []), 3),
                    'fault': seams.line_fault(r),
                })
            if p < 0.8:
                ops.append({'op': 'check', 'slot': r.choice([s, s, *sorted(slots)])})
            if r.random() < 0.08 and len(slots) < 3:
                d = 'cde'[len(slots) - 1]
                ops.append({'op': 'clone', 'slot': s, 'to': d, 'how': r.choice(['clone', 'deepcopy'])})
                slots[d] = (kind, dict(m))
        for s in sorted(slots):
            ops.append({'op': 'check', 'slot': s})
        return {'ops': careless(r, probed(r, ops)), 'files': fs}


def _probe_amp(gens):
    def f(r, m, p, base):
        g = gens(sorted(x for x in os.listdir(base) if x.startswith('lum')))
        return changed(r, m, p, lambda r, m: [{p: g[p](r, m)}]) if p in g else None

    return f


PROBERS['ampl'] = _probe_amp(amp_gen)
PROBERS['align'] = _probe_amp(sat_gen)

AMP_Q = ['alignment_gi', 'gamma_1h_amp', 'lum_centrals', 'lum_pdf_z_centrals', 'lum_satellites', 'lum_pdf_z_satellites']
SAT_Q = ['wkm_f_ell', 'compute_uell_gamma_r_hankel', 'ell_values', 'k_vec', 'mass', 'c', 'r_s', 'rvir', 'upsampled_wkm()', 'upsampled_wkm(other)']


# ----------------------------------------------------------------- non-linear bias

BNL_GEN = {
    'mass': lambda r, m: {'logspace': [round(r.uniform(11, 12), 2), round(r.uniform(14, 15), 2), m['mass']['logspace'][2]]},
    'z_vec': lambda r, m: {'a': sorted(round(x, 2) for x in r.sample([0.05 * i for i in range(1, 20)], len(m['z_vec']['a'])))},
    'k_vec': lambda r, m: {'logspace': [round(r.uniform(-2, -1.2), 2), round(r.uniform(0.3, 1), 2), m['k_vec']['logspace'][2]]},
    'h0': U(0.66, 0.7), 'sigma_8': U(0.7, 0.9), 'omega_b': U(0.046, 0.052), 'omega_c': U(0.24, 0.27),
    'omega_lambda': U(0.6, 0.78), 'n_s': U(0.92, 1.0), 'w0': U(-1.15, -0.85), 'z_dep': C(True, False),
    'A_s': lambda r, m: None if r.random() < 0.45 else round(r.uniform(1.5, 2.8), 3) * 1e-9,
}


PROBERS['bnl'] = lambda r, m, p, base: changed(r, m, p, lambda r, m: [{p: BNL_GEN[p](r, m)}]) if p in BNL_GEN else None


class Bias(Base):
    """P14: non-linear halo bias objects."""

    checks = ('values', 'params', 'inputs')
    rule = (
        'seeded histories of updates, reads, clones and emulator failures of live NonLinearBias objects, two of which may be interleaved; every public quantity is '
        'compared with a freshly built object in a pristine process. Non-trivial: an update followed by a comparison'
    )
    distinct_measure = 'distinct (update, regime) pairs and faults'
    real_code = ['src/onepower/bnl.py', 'scipy', 'hmf caching']
    stubs = ['dark_emulator (deterministic stand-in whose answers depend on the cosmology set last on the instance)']
    quick = {**Base.quick, 'runs': 700}

    def generate(self, r, i, tier):
        ops, slots = [], {}
        for s in 'ab'[: r.choice([1, 2])]:
            m = {
                'mass': {'logspace': [11.5, 14.5, r.choice([3, 4])]}, 'z_vec': {'a': [0.1, 0.5][: r.choice([1, 2])]},
                'k_vec': {'logspace': [-1.5, 0.7, r.choice([4, 5])]}, 'h0': 0.68, 'omega_b': 0.048, 'omega_c': 0.26, 'omega_lambda': 0.69, 'n_s': 0.96,
            }
            for _ in range(r.choice([0, 1, 2])):
                k = r.choice(sorted(BNL_GEN))
                m[k] = BNL_GEN[k](r, m)
            if r.random() < 0.4:
                m['A_s'] = BNL_GEN['A_s'](r, m)
            ops.append({'op': 'new', 'slot': s, 'kind': 'bnl', 'kw': m})
            slots[s] = m
            if r.random() < 0.7:
                ops.append({'op': 'check', 'slot': s})
        keys = sorted(BNL_GEN)
        for j in range(8 if tier == 'quick' else 12):
            s = r.choice(sorted(slots))
            k0 = keys[(i * 5 + j) % len(keys)] if r.random() < 0.6 else r.choice(['A_s', 'sigma_8', 'z_dep', 'z_vec'])
            kw = {k0: BNL_GEN[k0](r, slots[s])}
            if k0 in slots[s] and r.random() < 0.15:
                kw[k0] = sp.near(r, slots[s][k0]) or kw[k0]
            for _ in range(r.choice([0, 0, 1])):
                k = r.choice(keys)
                kw[k] = BNL_GEN[k](r, slots[s])
            ops.append({'op': 'update', 'slot': s, 'kw': kw})
            slots[s] = apply_update(slots[s], kw)
            p = r.random()
            if p < 0.25:
                f = {'kind': 'emulator', 'at': r.choice([1, 2, 3, 4, 6, 10, 25])} if r.random() < 0.6 else seams.line_fault(r)
                ops.append({'op': 'read', 'slot': s, 'names': ['bnl'], 'fault': f})
            if p < 0.85:
                ops.append({'op': 'check', 'slot': r.choice([s, s, *sorted(slots)])})
            if r.random() < 0.1 and len(slots) < 3:
                ops.append({'op': 'clone', 'slot': s, 'to': 'c', 'how': r.choice(['clone', 'deepcopy'])})
                slots['c'] = dict(slots[s])
        for s in sorted(slots):
            ops.append({'op': 'check', 'slot': s})
        return {'ops': careless(r, probed(r, ops))}


# ----------------------------------------------------------------- upsampled spectra

MODES = ['mm', 'gg', 'gm', 'mi', 'ii', 'gi']
COMPS = ['1h', '2h', 'tot']


def build_ups(m, base, bufs=None):
    from onepower import Spectra, UpsampledSpectra

    src = None
    if m['source'] is not None:
        src = Spectra(**{k: decode(v, base) for k, v in m['source'].items()})
    kw = {k: decode(m[k], base) for k in ('z', 'k', 'fraction_z', 'fraction', 'extrapolate_option')}
    kw['model_1_params'] = decode(m['model_1_params'], base)
    kw['model_2_params'] = decode(m['model_2_params'], base)
    if bufs is not None:
        bufs.update(kw)
    return UpsampledSpectra(model=src, **kw), src


def ups_read(u, modes, comps):
    u.results(modes, comps)
    out = {}
    for mode in modes:
        res = getattr(u, f'power_spectrum_{mode}')
        for c in comps:
            out[f'{mode}.{c}'] = snap.canon(getattr(res, f'pk_{c}'))
    out['frac_1'] = snap.canon(u.frac_1)
    out['frac_2'] = snap.canon(u.frac_2)
    return out


def ups_try(u, modes, comps):
    """Like ups_read, with a failure (of the code, not of the simulator) as an outcome."""
    try:
        return ups_read(u, modes, comps)
    except Exception as e:  # noqa: BLE001
        if getattr(e, 'injected', False):
            raise
        return {'failed': f'{type(e).__name__}: {e}'}


def oracle_ups(m, base, modes):
    u, _ = build_ups(m, base)
    return ups_try(u, modes, COMPS)


class Upsampled(Base):
    """P13: upsampled and mixed spectra."""

    rule = (
        'seeded histories of updates of live UpsampledSpectra objects (grids, red fraction, source model, parameters of either population, extrapolation option), '
        'requests for different spectra and components, and evaluations struck by faults; every component is compared with a freshly built object in a pristine process, '
        'and the source model with what it was before. Non-trivial: an update followed by a comparison'
    )
    distinct_measure = 'distinct (parameters updated, spectra requested) pairs and faults'
    quick = {**Base.quick, 'runs': 150}

    def oracle_functions(self):
        return {**ORACLE, 'ups': oracle_ups}

    def generate(self, r, i, tier):
        def src():
            m = dict(sp.BASE)
            for _ in range(r.choice([0, 1, 2])):
                k = r.choice(['omega_c', 'h0', 'sigma_8', 'norm_cen', 'hmf_model', 'n_s', 'two_halo_ktrunc_ia', 'hmcode_ingredients'])
                m[k] = sp.GEN[k](r, m)
            return m

        second = lambda: {'d': {'hod_params': sp.g_hod_params(r, {}), 'align_params': sp.g_align(r, {})}} if r.random() < 0.5 else {'d': {r.choice(['norm_sat', 'sigma_8', 'omega_c', 'log10T_AGN']): round(r.uniform(0.8, 0.9), 3) if False else r.choice([0.81, 0.84])}}
        gen = {
            'z': lambda: {'linspace': [round(r.uniform(0.05, 0.2), 3), round(r.uniform(0.5, 0.9), 3), r.choice([3, 4])]},
            'k': lambda: {'logspace': [round(r.uniform(-2.2, -1.5), 2), round(r.uniform(0.5, 1.2), 2), r.choice([6, 7])]},
            'fraction': lambda: {'a': [round(r.uniform(0.1, 0.9), 3) for _ in range(3)]} if r.random() < 0.8 else None,
            'fraction_z': lambda: {'a': sorted(round(x, 2) for x in r.sample([0.1 * j for j in range(11)], 3))},
            'extrapolate_option': lambda: r.choice(['extrapolate', 0.0, 1.0]),
            'source': lambda: src(),
            'model_2_params': lambda: second() if r.random() < 0.8 else None,
            'model_1_params': lambda: {'d': {'omega_c': round(r.uniform(0.22, 0.3), 3)}},
        }
        first = src()
        m = {
            'z': gen['z'](), 'k': gen['k'](), 'fraction': gen['fraction'](), 'fraction_z': gen['fraction_z'](),
            'extrapolate_option': 'extrapolate', 'source': first, 'model_1_params': {'d': {}}, 'model_2_params': second(),
        }
        if r.random() < 0.3:
            m['source'] = None
            m['model_1_params'] = {'d': first}
        ops = [{'op': 'new', 'kw': m}]
        for _ in range(5 if tier == 'quick' else 9):
            ops.append({'op': 'results', 'modes': r.sample(MODES, r.randint(1, 3)), 'comps': COMPS if r.random() < 0.7 else r.sample(COMPS, 2)})
            kw = {}
            for _ in range(r.choice([1, 1, 2])):
                k = r.choice(sorted(gen))
                if k == 'source' and m['source'] is None:
                    continue
                if k == 'model_1_params' and m['source'] is not None:
                    continue
                if k == 'model_2_params' and m['model_2_params'] is None:
                    continue
                kw[k] = gen[k]()
                if k in ('k', 'fraction') and m[k] and r.random() < 0.2:
                    kw[k] = sp.near(r, m[k]) or kw[k]
            if kw:
                ops.append({'op': 'update', 'kw': kw})
                m = apply_update(m, kw)
            if r.random() < 0.25:
                ops.append({'op': 'results', 'modes': r.sample(MODES, 2), 'comps': COMPS, 'fault': seams.line_fault(r)})
        ops.append({'op': 'results', 'modes': MODES, 'comps': COMPS})
        return {'ops': careless(r, [{'slot': 'u', **op} for op in ops])}

    def execute(self, trace, ctx):
        from onepower import Spectra

        u = src = None
        m = None
        held = []
        helper = Machine(ctx, ctx.scratch, ())
        for i, op in enumerate(trace['ops']):
            if not ctx.begin(i, op):
                continue
            if op['op'] == 'new':
                m = op['kw']
                bufs = {}
                u, src = build_ups(m, ctx.scratch, bufs)
            elif op['op'] == 'overwrite' and u is not None:
                for x in bufs.values():
                    scribble(x)
                ctx.count('buffers_overwritten')
            elif op['op'] == 'update' and u is not None:
                kw = {}
                for k, v in op['kw'].items():
                    if k == 'source':
                        src = Spectra(**{a: decode(b, ctx.scratch) for a, b in v.items()})
                        kw['model'] = src
                    else:
                        x = decode(v, ctx.scratch)
                        if op.get('reuse') and k in bufs:
                            x = helper.write(bufs[k], x)
                        bufs[k] = kw['_' + k if k.startswith('model_') else k] = x
                u.update(**kw)
                m = apply_update(m, op['kw'])
                ctx.state('update', sorted(op['kw']))
            elif op['op'] == 'results' and u is not None:
                ref = ctx.oracle('ups', m, ctx.scratch, sorted(op['modes']))
                if op.get('fault') and 'failed' not in ref:
                    try:
                        helper.faulted(op, lambda op=op, u=u: ups_read(u, op['modes'], op['comps']))
                    except seams.ERRORS as e:  # noqa: BLE001
                        raise Violation('live_failed', f'results() raised {type(e).__name__}: {e}; a freshly built object gives an answer') from e
                got = ups_try(u, op['modes'], op['comps'])
                if ('failed' in got) != ('failed' in ref):
                    raise Violation('live_failed', f'results(): live {got.get("failed", "gives an answer")}, freshly built {ref.get("failed", "gives an answer")}')
                if 'failed' in got:
                    ctx.count('results_that_raise')
                    continue
                for k, v in got.items():
                    ctx.checks += 1
                    ctx.steps += 1
                    d = snap.diff(v, ref[k])
                    if d:
                        raise Violation('stale_value', f'{k}{d} (live vs freshly built with the same parameters)')
                    snap.feed(ctx.log, v)
                ctx.state('results', op['modes'], sorted(op['comps']))
                for mode in op['modes']:
                    raw = getattr(u, f'power_spectrum_{mode}')
                    held.append((mode, raw, snap.canon(raw)))
                for mode, raw, was in held:
                    ctx.checks += 1
                    d = snap.diff(snap.canon(raw), was, rtol=0.0)
                    if d:
                        raise Violation('result_changed', f'power_spectrum_{mode} returned earlier has changed: {d}')
                if src is not None:
                    now = {k: snap.canon(v) for k, v in src.parameter_values.items()}
                    want = ctx.oracle('params', 'spectra', m['source'], ctx.scratch)
                    d = snap.diff({k: v for k, v in now.items() if v is not snap.SKIP}, want)
                    ctx.checks += 1
                    if d:
                        raise Violation('source_changed', f'parameters of the source model{d} (now vs as built)')
            ctx.end(i, op)
        if src is not None:
            ref = ctx.oracle('evaluate', 'spectra', m['source'], ctx.scratch, SRC_NAMES)['values']
            for n in SRC_NAMES:
                ctx.checks += 1
                d = snap.diff(snap.read(src, n), ref[n])
                if d:
                    raise Violation('source_changed', f'source model {n}{d} (now vs freshly built)')


SRC_NAMES = ['power_spectrum_mm', 'power_spectrum_gg', 'power_spectrum_ii', 'mass', 'dndlnm', 'u_sat', 'wkm_sat']
