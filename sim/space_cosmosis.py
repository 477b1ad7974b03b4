"""Configurations and samples of the CosmoSIS deployment, as JSON, and the data blocks
built from them."""

import math

import numpy as np

from . import space_spectra as sp
from .stubs import Block

SEC = 'module_options'

IA_SECTION_KEYS = ['M_pivot', 'gamma_2h_amplitude', 'beta', 'gamma_1h_radial_slope', 'gamma_1h_amplitude', 'beta_sat']


def _bins(r, suffix, nb, file=None):
    if file:
        return {f'observables_file_{suffix}': {'file': file}, f'nobs_{suffix}': r.choice([8, 10])}
    lo = [round(r.uniform(8.5, 9.5), 2) for _ in range(nb)]
    one = lambda v: v[0] if nb == 1 else {'a': v}
    return {
        f'log10_obs_min_{suffix}': one(lo),
        f'log10_obs_max_{suffix}': one([round(x + r.uniform(0.8, 1.6), 2) for x in lo]),
        f'zmin_{suffix}': one([round(r.uniform(0.0, 0.2), 2) for _ in range(nb)]),
        f'zmax_{suffix}': one([round(r.uniform(0.4, 0.9), 2) for _ in range(nb)]),
        f'nz_{suffix}': 2,
        f'nobs_{suffix}': r.choice([8, 10]),
    }


def gen_config(r, files, bnl=None):
    """files: names of observables files available in the scratch directory."""
    c = {
        'log_mass_min': 10.0, 'log_mass_max': 15.0, 'nmass': r.choice([10, 12]),
        'zmin_hmf': 0.0, 'zmax_hmf': round(r.uniform(0.5, 1.0), 2), 'nz_hmf': 2, 'nk': r.choice([6, 7]),
        'hmf_model': r.choice(['Tinker10', 'Tinker08', 'SMT']), 'bias_model': r.choice(['Tinker10', 'SMT01']),
        'mdef_model': r.choice(['SOMean', 'SOMean', 'SOVirial', 'SOCritical']),
        'overdensity': r.choice([200.0, 200.0, 300.0]),
        'cm_model_cen': r.choice(['Duffy08', 'Bullock01']), 'cm_model_sat': 'Duffy08',
        'hod_section_name': r.choice(['hod', 'hod_gal']), 'values_name': r.choice(['hod_parameters', 'hod_parameters_b']),
        'hod_model': r.choice(['Cacciato', 'Cacciato', 'Cacciato', 'Zheng', 'Zhai']),
        'poisson_type': r.choice(['constant', 'power_law']),
        'dewiggle': r.random() < 0.2, 'point_mass': r.random() < 0.3,
        'observable_h_unit': r.choice(['1/h', '1/h^2']),
    }
    if c['mdef_model'] == 'SOVirial':
        c.pop('overdensity')
    what = [k for k in ['p_mm', 'p_gg', 'p_gm', 'p_gI', 'p_mI', 'p_II'] if r.random() < 0.5]
    if r.random() < 0.2:
        what = ['p_mm', 'p_gg', 'p_gm', 'p_gI', 'p_mI', 'p_II']
    if r.random() < 0.12:
        what = r.sample(['p_gI', 'p_mI', 'p_II'], 2)
    if not what:
        what = ['p_mm']
    for k in what:
        c[k] = True
    mode = r.choice([None, None, None, 'fortuna', 'hmcode'] if not set(what) & {'p_gI', 'p_mI', 'p_II'} else [None, 'fortuna', 'fortuna', 'hmcode'])
    if bnl or (bnl is None and r.random() < 0.1):
        mode = 'bnl'
        c['update_bnl'] = bnl or r.choice([1, 2, 3])
        c['nmass'] = 6
        c['nk'] = 5
    if mode:
        c['nonlinear_mode'] = mode
    if mode == 'hmcode' or r.random() < 0.2:
        c['hmcode_ingredients'] = r.choice(['mead2020', 'mead2020_feedback'])
    if r.random() < 0.15:
        c['response'] = True
    galaxy = 'p_gg' in what or 'p_gm' in what
    alignment = any(k in what for k in ('p_gI', 'p_mI', 'p_II'))
    nb = r.choice([1, 1, 2, 2, 3])
    if galaxy:
        c.update(_bins(r, 'hod', nb))
    if alignment:
        if r.random() < 0.5:
            c['central_IA_depends_on'] = c['satellite_IA_depends_on'] = 'halo_mass'
        if not galaxy:
            c['hod_model'] = 'Cacciato'
        split = r.random() < 0.35
        c['split_ia'] = split
        for s in (['ia_1', 'ia_2'] if split else ['ia']):
            use_file = files and r.random() < 0.4 and c['hod_model'] == 'Cacciato'
            c.update(_bins(r, s, nb if galaxy else 1, r.choice(files) if use_file else None))
            c[f'hod_section_name_{s}'] = f'hod_{s}'
            c[f'output_suffix_{s}'] = {'ia': r.choice(['ia', '']), 'ia_1': 'ia_red', 'ia_2': 'ia_blue'}[s]
        if r.random() < 0.3:
            c['two_halo_ktrunc_ia'] = 'None'
    if c['hod_model'] == 'Cacciato' and r.random() < 0.4:
        c['save_observable'] = True
        c.update(_bins(r, 'smf', r.choice([1, 2, 3])))
        if r.random() < 0.5:
            c['nz_smf'] = 1
    if r.random() < 0.3:
        c['one_halo_ktrunc'] = r.choice(['None', 0.2])
    return c


def gen_sample(r):
    """One point of a chain: every parameter any configuration may need."""
    u = lambda a, b: round(r.uniform(a, b), 4)
    s = {
        'cosmological_parameters': {
            'omega_c': r.randint(226, 286) / 1024, 'omega_b': r.randint(45, 54) / 1024, 'h0': u(0.66, 0.72), 'n_s': u(0.94, 0.99),
            'sigma_8': u(0.75, 0.85), 'mnu': r.choice([0.0, 0.06, 0.12]), 'w': r.choice([-1.0, u(-1.1, -0.9)]), 'wa': r.choice([0.0, 0.0, 0.1, -0.1]),
            'A_s': u(1.8, 2.4) * 1e-9,
        },
        'halo_model_parameters': {'logT_AGN': u(7.6, 8.0)},
        'profile_parameters': {'norm_cen': u(0.9, 1.1), 'norm_sat': u(0.9, 1.1), 'eta_cen': u(-0.1, 0.1), 'eta_sat': u(-0.1, 0.1)},
        'pk_parameters': {'linear_fraction_fortuna': u(0.0, 0.5), 'poisson': u(0.9, 1.1), 'pivot': u(12.0, 13.0), 'slope': u(0.0, 0.2)},
    }
    if r.random() < 0.4:
        s['halo_model_parameters']['m_b'] = u(13.5, 14.0)
    if r.random() < 0.4:
        s['cosmological_parameters']['TCMB'] = u(2.7, 2.75)
    # special values and values left to their defaults
    p = s['pk_parameters']
    if r.random() < 0.5:
        p['linear_fraction_fortuna'] = 0.0
    if r.random() < 0.25:
        del p['linear_fraction_fortuna']
    if r.random() < 0.2:
        p.update(r.choice([{'poisson': 1.0}, {'slope': 0.0}, {'poisson': 1.0, 'slope': 0.0}]))
    for k, v in (('norm_cen', 1.0), ('norm_sat', 1.0), ('eta_cen', 0.0), ('eta_sat', 0.0)):
        if r.random() < 0.2:
            s['profile_parameters'][k] = v
        elif r.random() < 0.15:
            del s['profile_parameters'][k]
    if r.random() < 0.2:
        del s['profile_parameters']
    for sec in ('hod_parameters', 'hod_parameters_b'):
        d = {}
        for model in ('Cacciato', 'Zheng', 'Zhai'):
            for k, (a, b) in sp.HOD_PARAMS[model].items():
                for suf in ('', '_1', '_2', '_3'):
                    if not (k in ('A_cen', 'A_sat') and suf):
                        d[k + suf] = round(r.uniform(a, b), 4)
        if r.random() < 0.3:
            d.pop('A_cen')
        if r.random() < 0.3:
            d.pop('A_sat')
        s[sec] = d
    for suf in ('', '_ia', '_ia_red', '_ia_blue'):
        s['intrinsic_alignment_parameters' + suf] = {
            'M_pivot': u(13.0, 14.0), 'gamma_2h_amplitude': u(3, 6), 'beta': u(0.2, 0.6),
            'gamma_1h_radial_slope': r.choice([-2.0, -2.0, -1.5]), 'gamma_1h_amplitude': u(0.0005, 0.003), 'beta_sat': u(0.2, 0.6),
        }
    s['lin'] = {'amp': u(0.8, 1.2), 'g': u(0.8, 1.2), 't0': u(0.01, 0.03)}
    if r.random() < 0.3:
        # inside of one of the tables only: ends and size as before
        s['lin']['inside'] = [r.choice(['lin', 'nl', 'transfer', 'growth']), r.choice([0.97, 1.03, 1.001])]
    if r.random() < 0.2:
        # other grids from upstream: other points in between, other ends, other size
        s['lin']['grid'] = r.choice([1, 1, 2, 3])
    return s


def vary(r, s):
    """The next point of a chain: most parameters stay (fast/slow splitting)."""
    new = gen_sample(r)
    p = r.random()
    if p < 0.35:
        return new
    if p < 0.45:
        return s
    if p < 0.6:
        # a very small step, or baryons for dark matter
        if r.random() < 0.2:
            c = s['cosmological_parameters']
            d = r.choice([-3, -2, 2, 3]) / 1024
            return {**s, 'cosmological_parameters': {**c, 'omega_c': c['omega_c'] + d, 'omega_b': c['omega_b'] - d}}
        if r.random() < 0.2:
            return {**s, 'lin': {**s['lin'], 'inside': [r.choice(['lin', 'nl', 'transfer', 'growth']), r.choice([0.97, 1.03, 1.001])]}}
        sec = r.choice([x for x in sorted(s) if any(isinstance(v, float) and v for v in s[x].values())] + ['cosmological_parameters'] * 3)
        k = r.choice([k for k, v in sorted(s[sec].items()) if isinstance(v, float) and v])
        return {**s, sec: {**s[sec], k: s[sec][k] * (1.0 + r.choice([1e-3, 1e-4, 1e-5, 1e-6]))}}
    out = dict(s)
    for sec in r.sample(sorted(new), r.choice([1, 1, 2])):
        out[sec] = new[sec]
    if r.random() < 0.4:
        sec = r.choice([x for x in sorted(out) if x in new])
        ks = r.sample(sorted(new[sec]), 1)
        out[sec] = {**out[sec], **{k: new[sec][k] for k in ks}}
    return out


def dec(v, base):
    if isinstance(v, dict):
        if 'a' in v:
            return np.array(v['a'], dtype=float)
        return f'{base}/{v["file"]}'
    return v


def options_block(config, base):
    b = Block()
    for k, v in config.items():
        b.d[(SEC, k.lower())] = dec(v, base)
    return b


def sample_block(s, base=None):
    b = Block()
    put = lambda sec, k, v: b.d.__setitem__((sec.lower(), k.lower()), v)
    for sec, d in s.items():
        if sec == 'lin':
            continue
        for k, v in d.items():
            put(sec, k, v)
    c, lin = s['cosmological_parameters'], s['lin']
    if 'omega_c' in c and 'omega_b' in c and isinstance(c['omega_c'], float):
        put('cosmological_parameters', 'omega_m', c['omega_c'] + c['omega_b'] + 0.0012)
    grid = lin.get('grid', 0)
    k = np.logspace(-2, 1.3, 11 if grid == 3 else 9)
    z = np.linspace(0.0, 1.2, 5 if grid == 3 else 4)
    if grid == 1:
        k[1:-1] *= 1.05
        z[1:-1] *= 1.1
    if grid == 2:
        k, z = k * 0.9, z * 1.05
    table, factor = lin.get('inside', ('', 1.0))
    pk = lin['amp'] * 2.2e4 * (k / 0.02) / (1 + (k / 0.02) ** 2.4) / (1 + z[:, None]) ** (1.4 * lin['g'])
    pk[1:-1, 3:-3] *= factor if table == 'lin' else 1.0
    put('matter_power_lin', 'k_h', k)
    put('matter_power_lin', 'z', z)
    put('matter_power_lin', 'p_k', pk)
    kn = np.logspace(-2.2, 1.5, 11)
    pn = lin['amp'] * 2.3e4 * (kn / 0.02) / (1 + (kn / 0.02) ** 2.1) / (1 + z[:, None]) ** (1.4 * lin['g'])
    pn[1:-1, 3:-3] *= factor if table == 'nl' else 1.0
    put('matter_power_nl', 'k_h', kn)
    put('matter_power_nl', 'z', z)
    put('matter_power_nl', 'p_k', pn)
    kt = np.logspace(-5, 4, 60)
    put('matter_power_transfer_func', 'k_h', kt)
    tk = 1.0 / (1.0 + (kt / lin['t0']) ** 2) ** 0.9
    tk[20:40] *= factor if table == 'transfer' else 1.0
    put('matter_power_transfer_func', 't_k', tk)
    zg = np.linspace(0, 6, 30)
    put('growth_parameters', 'z', zg)
    dz = (1.0 + zg) ** (-lin['g'])
    dz[1:10] *= factor if table == 'growth' else 1.0
    put('growth_parameters', 'd_z', dz)
    return b


def bins_of(config, s):
    if f'observables_file_{s}' in config:
        return 1
    v = config.get(f'log10_obs_min_{s}')
    return len(v['a']) if isinstance(v, dict) else 1


def expected_sections(config):
    """Which power-spectrum sections a configuration asks for."""
    f = lambda n: bool(config.get(n))
    suf = lambda nb: [''] if nb == 1 else [f'_{i + 1}' for i in range(nb)]
    out = set()
    gal = f('p_gg') or f('p_gm')
    if gal:
        nb = bins_of(config, 'hod')
        if f('p_gg'):
            out |= {'galaxy_power' + x for x in suf(nb)}
        if f('p_gm'):
            out |= {'matter_galaxy_power' + x for x in suf(nb)}
    if f('p_gI') or f('p_mI') or f('p_II'):
        nb = bins_of(config, 'ia_1' if f('split_ia') else 'ia')
        for flag, name in (('p_gI', 'galaxy_intrinsic_power'), ('p_mI', 'matter_intrinsic_power'), ('p_II', 'intrinsic_power')):
            if f(flag):
                out |= {name + x for x in suf(nb)}
    return out


SPECTRUM_SECTIONS = ('galaxy_power', 'matter_galaxy_power', 'galaxy_intrinsic_power', 'matter_intrinsic_power', 'intrinsic_power')


def is_nan(x):
    return isinstance(x, float) and math.isnan(x)
