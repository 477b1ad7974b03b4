"""Parameter space of the main power-spectrum model, as JSON value specs."""

import math

BASE = {
    'z_vec': {'a': [0.1, 0.55]},
    'k_vec': {'logspace': [-2.0, 1.0, 5]},
    'lnk_min': math.log(1e-4),
    'lnk_max': math.log(1e3),
    'dlnk': 0.25,
    'Mmin': 10.0,
    'Mmax': 15.0,
    'dlog10m': 0.3125,
    'omega_c': 0.25,
    'omega_b': 48 / 1024,
    'transfer_model': 'EH',
    'growth_model': 'GrowthFactor',
    'hod_settings': {
        'd': {
            'observables_file': None,
            'obs_min': {'a': [9.0]},
            'obs_max': {'a': [11.0]},
            'zmin': {'a': [0.0]},
            'zmax': {'a': [0.6]},
            'nz': 3,
            'nobs': 12,
            'observable_h_unit': '1/h^2',
        }
    },
}

# value of every parameter that BASE leaves at the constructor's default, as far as the
# generators need to know it
DEFAULTS = {
    'hmcode_ingredients': None,
    'nonlinear_mode': None,
    'hod_model': 'Cacciato',
    'poisson_model': 'constant',
    'hod_params': {'d': {}},
    'poisson_params': {'d': {}},
    'align_params': {'d': {}},
    'transfer_params': {'d': {}},
    'growth_params': {'d': {}},
    'obs_settings': {'d': {}},
    'hod_settings_mm': {'d': {}},
    'beta_nl': None,
}

HOD_PARAMS = {
    'Cacciato': {
        'log10_obs_norm_c': (9.6, 10.2), 'log10_m_ch': (11.0, 11.6), 'g1': (2.8, 3.4),
        'g2': (0.2, 0.3), 'sigma_log10_O_c': (0.12, 0.2), 'norm_s': (0.5, 0.65),
        'pivot': (11.8, 12.2), 'alpha_s': (-1.3, -1.0), 'beta_s': (1.8, 2.2),
        'b0': (-1.3, -1.0), 'b1': (1.3, 1.7), 'b2': (-0.25, -0.18),
        'A_cen': (0.1, 0.3), 'A_sat': (0.1, 0.3),
    },
    'Simple': {'log10_Mmin': (11.5, 12.5), 'log10_Msat': (12.7, 13.3), 'alpha': (0.9, 1.1), 'A_cen': (0.1, 0.3), 'A_sat': (0.1, 0.3)},
    'Zehavi': {'log10_Mmin': (11.5, 12.5), 'log10_Msat': (12.7, 13.3), 'alpha': (0.9, 1.1), 'A_cen': (0.1, 0.3), 'A_sat': (0.1, 0.3)},
    'Zheng': {'log10_Mmin': (11.5, 12.5), 'log10_M0': (11.5, 12.4), 'log10_M1': (12.7, 13.3), 'sigma': (0.1, 0.3), 'alpha': (0.9, 1.1), 'A_cen': (0.1, 0.3), 'A_sat': (0.1, 0.3)},
    'Zhai': {'log10_Mmin': (12.5, 13.7), 'log10_Msat': (13.5, 14.8), 'log10_Mcut': (12.0, 12.5), 'sigma': (0.5, 0.9), 'alpha': (0.4, 0.6), 'A_cen': (0.1, 0.3), 'A_sat': (0.1, 0.3)},
}

U = lambda a, b: (lambda r, m: round(r.uniform(a, b), 4))
C = lambda *vals: (lambda r, m: r.choice(vals))
# a range with a value at which the code takes a shortcut or a branch changes sides
V = lambda a, b, *vals: (lambda r, m: r.choice(vals) if r.random() < 0.2 else round(r.uniform(a, b), 4))


def _get(m, k):
    return m.get(k, BASE.get(k, DEFAULTS.get(k)))


def nz_of(m):
    return len(_get(m, 'z_vec')['a'])


def nk_of(m):
    return _get(m, 'k_vec')['logspace'][2]


def nm_of(m):
    import numpy as np

    return len(np.arange(_get(m, 'Mmin'), _get(m, 'Mmax'), _get(m, 'dlog10m')))


def near(r, v):
    """A value that differs from ``v`` by very little, or None."""
    e = r.choice([1e-3, 1e-4, 1e-5, 1e-6]) * r.choice([-1, 1])
    if isinstance(v, bool) or v is None:
        return None
    if isinstance(v, float):
        return v * (1.0 + e) if v else abs(e)
    if isinstance(v, dict):
        ((tag, x),) = v.items()
        if tag == 'a' and all(isinstance(y, float) for y in x) and all(x):
            j = r.randrange(len(x))
            return {'a': [y * (1.0 + e) if j == i else y for i, y in enumerate(x)]}
        if tag == 'logspace':
            return {'logspace': [x[0] * (1.0 + e), *x[1:]]}
        if tag == 'pk' and x[1] >= 4 and r.random() < 0.5:
            return {tag: [*x[:4], r.randrange(8)]}
        if tag in ('tk', 'gz') and r.random() < 0.5:
            return {tag: [*x[:2], 1.0 + e]}
        if tag in ('tk', 'gz'):
            return {tag: [x[0], x[1] * (1.0 + e), *x[2:]]}
        if tag in ('pk', 'bnl'):
            return {tag: [*x[:2], x[2] * (1.0 + e), *x[3:]]}
        if tag == 'd':
            ks = [k for k in sorted(x) if isinstance(x[k], (float, dict)) and k not in NO_NEAR]
            if ks:
                k = r.choice(ks)
                if k in ('obs_min', 'obs_max') and len(x[k]['a']) > 1 and r.random() < 0.5:  # the bins in another order
                    return {'d': {j: {'a': x[j]['a'][::-1]} for j in ('obs_min', 'obs_max') if j in x}}
                v = near(r, x[k])
                return None if v is None else {'d': {**({j: x[j] for j in ('k', 'T', 'z', 'd') if j in x}), k: v}}
    return None


def exchange(r, m):
    """Baryons for dark matter: the total stays exactly the same."""
    d = r.choice([-7, -5, 3, 6]) / 1024
    if not 0.035 < _get(m, 'omega_b') - d < 0.07:
        d = -d
    return {'omega_c': _get(m, 'omega_c') + d, 'omega_b': _get(m, 'omega_b') - d}


NO_NEAR = {'lnk_min', 'lnk_max', 'dlnk', 'Mmin', 'Mmax', 'dlog10m', 'gamma_1h_slope', 'k', 'z'}


def g_z(r, m):
    n = nz_of(m) if r.random() < 0.9 else r.choice([2, 3])
    cur = _get(m, 'z_vec')['a']
    if n == len(cur) == 3 and r.random() < 0.3:
        return {'a': [cur[0], round(cur[0] + (cur[2] - cur[0]) * r.uniform(0.2, 0.8), 3), cur[2]]}
    return {'a': sorted(round(x, 3) for x in r.sample([0.02 + 0.06 * i for i in range(30)], n))}


def g_k(r, m):
    if r.random() < 0.25:
        return {'logspace': [*_get(m, 'k_vec')['logspace'][:3], round(r.uniform(-0.3, 0.3), 2)]}
    return {'logspace': [round(r.uniform(-2.3, -1.5), 2), round(r.uniform(0.3, 1.2), 2), nk_of(m) if r.random() < 0.92 else r.choice([4, 6])]}


def g_hod_params(r, m):
    dom = HOD_PARAMS[_get(m, 'hod_model')]
    keys = r.sample(sorted(dom), r.randint(1, 3))
    return {'d': {k: round(r.uniform(*dom[k]), 4) for k in keys}}


def _settings(r, nb, nz, nobs):
    lo = [round(r.uniform(8.5, 9.5), 2) for _ in range(nb)]
    return {
        'observables_file': None,
        'obs_min': {'a': lo},
        'obs_max': {'a': [round(x + r.uniform(0.8, 1.6), 2) for x in lo]},
        'zmin': {'a': [round(r.uniform(0.0, 0.2), 2) for _ in range(nb)]},
        'zmax': {'a': [round(r.uniform(0.4, 0.9), 2) for _ in range(nb)]},
        'nz': nz,
        'nobs': nobs,
        'observable_h_unit': r.choice(['1/h', '1/h^2']),
    }


def g_hod_settings(r, m):
    nb = r.choice([1, 1, 2, 2, 3])
    full = _settings(r, nb, r.choice([2, 3]), r.choice([10, 12, 15]))
    p = r.random()
    if p < 0.25:
        k = r.choice(['nobs', 'nz', 'observable_h_unit'])
        return {'d': {k: full[k]}}
    if p < 0.4:
        cur = _get(m, 'hod_settings')['d']
        n = len(cur['obs_min']['a']) if 'obs_min' in cur else 1
        f = _settings(r, n, 3, 12)
        k = r.choice(['obs_min', 'zmin', 'zmax'])
        return {'d': {k: f[k]}}
    if p < 0.55 and m.get('_files'):
        return {'d': {'observables_file': {'file': r.choice(m['_files'])}, 'nobs': 10, 'observable_h_unit': '1/h^2'}}
    return {'d': full}


def g_settings_aux(r, m):
    return {'d': _settings(r, 1, r.choice([2, 3]), r.choice([10, 14]))}


def g_poisson_params(r, m):
    if _get(m, 'poisson_model') == 'power_law':
        return {'d': {'poisson': r.choice([1.0, round(r.uniform(0.8, 1.2), 3)]), 'pivot': round(r.uniform(12, 13), 3), 'slope': round(r.uniform(-0.1, 0.1), 3)}}
    return {'d': {'poisson': round(r.uniform(0.8, 1.2), 3)}}


def g_align(r, m):
    dom = {
        'beta_cen': V(0.2, 0.6, 0.0, None), 'beta_sat': V(0.2, 0.6, 0.0, None),
        'mpivot_cen': V(13.0, 13.8, None), 'mpivot_sat': V(13.0, 13.8, None),
        'gamma_1h_amplitude': V(0.0005, 0.003, 0.0), 'gamma_2h_amplitude': V(3, 6, 0.0),
        'gamma_1h_slope': C(-2.0, 0.0, -1.5), 'ell_max': C(2, 4, 6), 'truncate': C(True, False),
        'central_ia_depends_on': C('halo_mass', 'constant'),
        'satellite_ia_depends_on': C('halo_mass', 'constant'),
        'n_hankel': C(300, 350), 'nmass': C(5, 4), 'nk': C(10, 8),
    }
    keys = r.sample(sorted(dom), r.randint(1, 3))
    return {'d': {k: dom[k](r, m) for k in keys}}


def g_transfer_params(r, m):
    if _get(m, 'transfer_model') == 'FromArray':
        return {'d': {'k': {'logspace': [-5, 4, 60]}, 'T': {'tk': [60, round(r.uniform(0.015, 0.03), 4)]}}}
    return {'d': {}}


def g_growth_params(r, m):
    if _get(m, 'growth_model') == 'FromArray':
        return {'d': {'z': {'linspace': [0, 6, 40]}, 'd': {'gz': [40, round(r.uniform(0.8, 1.0), 3)]}}}
    return {'d': {}}


def g_pk(r, m):
    if r.random() < 0.2:
        return {'pk': [nz_of(m), nk_of(m), 1.0, round(r.uniform(1.0, 1.6), 3)]}
    return {'pk': [nz_of(m), nk_of(m), round(r.uniform(0.5, 2), 3), round(r.uniform(1.0, 1.6), 3)]}


def g_pk_or_none(r, m):
    return None if r.random() < 0.4 else g_pk(r, m)


def g_bnl(r, m):
    return None if r.random() < 0.35 else {'bnl': [nk_of(m), nm_of(m), round(r.uniform(0.05, 0.3), 3), *(['nan'] if r.random() < 0.06 else [])]}


SCALARS = {
    # densities on a grid of binary fractions, so that their sum can stay exactly the same
    'h0': U(0.6, 0.8), 'omega_c': lambda r, m: r.randint(205, 327) / 1024, 'omega_b': lambda r, m: r.randint(41, 61) / 1024, 'w0': V(-1.1, -0.9, -1.0),
    'wa': C(0.0, 0.1, -0.1), 'n_s': V(0.9, 1.0, 1.0), 'tcmb': U(2.6, 2.8), 'Neff': U(2.9, 3.2),
    'm_nu': C(0.0, 0.06, 0.1), 'sigma_8': U(0.7, 0.9), 'log10T_AGN': U(7.4, 8.2),
    'norm_cen': V(0.8, 1.2, 1.0), 'norm_sat': V(0.8, 1.2, 1.0), 'eta_cen': V(-0.1, 0.2, 0.0), 'eta_sat': V(-0.1, 0.2, 0.0),
    'overdensity': C(200.0, 250.0, 300.0), 'delta_c': U(1.6, 1.75), 'mb': U(13.0, 14.2),
    't_eff': V(0.0, 1.0, 0.0, 1.0),
    'one_halo_ktrunc': lambda r, m: None if r.random() < 0.3 else round(r.uniform(0.05, 0.2), 4),
    'two_halo_ktrunc': lambda r, m: None if r.random() < 0.3 else round(r.uniform(1, 3), 4),
    'one_halo_ktrunc_ia': lambda r, m: None if r.random() < 0.3 else round(r.uniform(3, 5), 4),
    'two_halo_ktrunc_ia': lambda r, m: None if r.random() < 0.3 else round(r.uniform(5, 7), 4),
}
GRID = {
    'z_vec': g_z, 'k_vec': g_k,
    # grids of other sizes, and others of the same size
    'lnk_min': C(math.log(1e-4), math.log(5e-4), math.log(1.05e-4)), 'lnk_max': C(math.log(1e3), math.log(2e3), math.log(1.02e3)),
    'dlnk': C(0.25, 0.2, 0.249), 'Mmin': C(10.0, 10.3125, 10.05, 10.1), 'Mmax': C(15.0, 15.3125, 14.95, 14.9), 'dlog10m': C(0.3125, 0.25, 0.33),
}
MODELS = {
    'mdef_model': C('SOMean', 'SOCritical', 'SOVirial'),
    'hmf_model': C('Tinker10', 'Tinker08', 'ST', 'SMT', 'PS', 'Jenkins'),
    'bias_model': C('Tinker10', 'ST99', 'Mo96', 'SMT01', 'UnityBias'),
    'halo_profile_model_dm': C('NFW', 'NFWInf', 'Hernquist'),
    'halo_profile_model_sat': C('NFW', 'NFWInf', 'Hernquist'),
    'halo_concentration_model_dm': C('Duffy08', 'Bullock01', 'Ludlow16', 'Maccio07', 'dutton14'),
    'halo_concentration_model_sat': C('Duffy08', 'Bullock01', 'Ludlow16', 'Maccio07', 'dutton14'),
    'hod_model': C('Cacciato', 'Simple', 'Zehavi', 'Zheng', 'Zhai'),
    'poisson_model': C('constant', 'power_law'),
    'transfer_model': C('EH', 'BBKS', 'EH_NoBAO', 'FromArray'),
    'growth_model': C('GrowthFactor', 'Carroll1992', 'FromArray'),
}
SWITCHES = {
    'hmcode_ingredients': C(None, 'mead2020', 'mead2020_feedback', 'fit'),
    'nonlinear_mode': C(None, 'bnl', 'hmcode', 'fortuna'),
    'response': C(True, False), 'dewiggle': C(True, False), 'pointmass': C(True, False),
    'compute_observable': C(True, False),
}
ARRAYS = {'matter_power_lin': g_pk_or_none, 'matter_power_nl': g_pk_or_none, 'beta_nl': g_bnl}
DICTS = {
    'hod_params': g_hod_params, 'hod_settings': g_hod_settings, 'hod_settings_mm': g_settings_aux,
    'obs_settings': g_settings_aux, 'poisson_params': g_poisson_params, 'align_params': g_align,
    'transfer_params': g_transfer_params, 'growth_params': g_growth_params,
}
GEN = {**SCALARS, **GRID, **MODELS, **SWITCHES, **ARRAYS, **DICTS}
GROUPS = [
    (SCALARS, 9), (GRID, 3), (MODELS, 3), (SWITCHES, 4), (ARRAYS, 2), (DICTS, 5),
]


def pick_param(r):
    tot = sum(w for _, w in GROUPS)
    x = r.uniform(0, tot)
    for g, w in GROUPS:
        x -= w
        if x <= 0:
            return r.choice(sorted(g))
    return 'omega_c'


def valid(m):
    nl, hm = _get(m, 'nonlinear_mode'), _get(m, 'hmcode_ingredients')
    return not (nl == 'hmcode' and hm not in ('mead2020', 'mead2020_feedback'))


def gen_update(r, m, n=None, forced=None):
    """A list of one or two update dictionaries that keep the parameters valid."""
    n = n or r.choice([1, 1, 1, 2, 3])
    kw, pre = {}, {}
    for j in range(n):
        p = forced if forced and j == 0 else pick_param(r)
        if p in kw:
            continue
        cur = {**m, **kw}
        kw[p] = GEN[p](r, cur)
        if p in m and p not in NO_NEAR and r.random() < 0.15:
            v = near(r, m[p])
            kw[p] = kw[p] if v is None else v
        if p in ('omega_c', 'omega_b') and 'omega_c' in m and 'omega_b' in m and r.random() < 0.25:
            # baryons for dark matter
            kw.update(exchange(r, m))
        if p == 'hod_model':
            pre['hod_params'] = {'d': {}}
            kw.pop('hod_params', None)
            if r.random() < 0.6:
                kw['hod_params'] = g_hod_params(r, {**cur, p: kw[p]})
        if p == 'poisson_model':
            pre['poisson_params'] = {'d': {}}
            kw['poisson_params'] = g_poisson_params(r, {**cur, p: kw[p]})
        if p == 'transfer_model':
            pre['transfer_params'] = {'d': {}}
            if kw[p] == 'FromArray':
                kw['transfer_params'] = g_transfer_params(r, {**cur, p: kw[p]})
        if p == 'growth_model':
            pre['growth_params'] = {'d': {}}
            if kw[p] == 'FromArray':
                kw['growth_params'] = g_growth_params(r, {**cur, p: kw[p]})
    full = {**m, **kw}
    if not valid(full):
        if r.random() < 0.5 and 'nonlinear_mode' in kw:
            kw['hmcode_ingredients'] = r.choice(['mead2020', 'mead2020_feedback'])
        else:
            kw['nonlinear_mode'] = r.choice([None, 'fortuna', 'bnl'])
    items = list(kw.items())
    r.shuffle(items)
    kw = dict(items)
    return ([pre] if pre else []) + [kw]


def initial(r, files=()):
    """Constructor arguments of a run (specs)."""
    m = {k: v for k, v in BASE.items()}
    if files:
        m['_files'] = list(files)
    if r.random() < 0.25:
        m['z_vec'] = {'a': [0.05, 0.4, 0.9]}
    if r.random() < 0.5:
        # fine enough for wiggles to be told from the smooth spectrum
        m['k_vec'] = {'logspace': [-1.8, 0.6, 10]}
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        for kw in gen_update(r, m):
            for k, v in kw.items():
                from .codec import merge

                m[k] = merge(m.get(k, DEFAULTS.get(k)), v)
    return m


def put(m, updates):
    from .codec import merge

    for kw in updates:
        for k, v in kw.items():
            m[k] = merge(m.get(k, DEFAULTS.get(k)), v)
    return m


REGIME = (
    'nonlinear_mode', 'hmcode_ingredients', 'response', 'dewiggle', 'pointmass', 'compute_observable', 'hod_model', 'poisson_model',
    'mdef_model', 'transfer_model', 'growth_model', 'matter_power_nl', 'hod_settings', 'align_params', 'halo_concentration_model_dm',
)


def rich(r, files=()):
    """Constructor arguments with many options away from their defaults."""
    m = initial(r, files)
    for k in REGIME:
        if r.random() < 0.45:
            put(m, gen_update(r, m, n=1, forced=k))
    return m


FLIP = (*REGIME, 'matter_power_lin', 'beta_nl', 'one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia')


MODES = (
    {'nonlinear_mode': 'bnl', 'hmcode_ingredients': None, 'response': False},
    {'nonlinear_mode': None, 'hmcode_ingredients': None},
    {'nonlinear_mode': 'hmcode', 'hmcode_ingredients': 'mead2020', 'response': False},
    {'nonlinear_mode': 'fortuna', 'hmcode_ingredients': 'fit'},
    {'nonlinear_mode': None, 'hmcode_ingredients': 'mead2020_feedback'},
)


def start(r, files=()):
    return rich(r, files) if r.random() < 0.5 else initial(r, files)


ALIGN_KEYS = (
    'beta_cen', 'beta_sat', 'mpivot_cen', 'mpivot_sat', 'gamma_1h_amplitude', 'gamma_2h_amplitude', 'gamma_1h_slope', 'ell_max', 'truncate',
    'central_ia_depends_on', 'satellite_ia_depends_on', 'n_hankel', 'nmass', 'nk',
)
SETTING_KEYS = ('obs_min', 'obs_max', 'zmin', 'zmax', 'nz', 'nobs', 'observable_h_unit')
# everything that can be changed alone: parameters, and entries of the dictionary parameters
DECK = (
    [(k, None) for k in sorted(GEN) if k not in ('align_params',)]
    + [('omega_c', 'exchange'), ('matter_power_lin', 'inside'), ('matter_power_nl', 'inside'), ('hod_settings', 'order')]
    + [(k, 'near') for k in ('h0', 'omega_c', 'omega_b', 'w0', 'n_s', 'tcmb', 'sigma_8', 'hod_params', 'align_params', 'z_vec', 'k_vec')]
    + [('k_vec', 'bend'), ('z_vec', 'bend')]
    + [('align_params', k) for k in ALIGN_KEYS]
    + [('hod_params', i) for i in range(14)]
    + [(d, k) for d in ('hod_settings', 'obs_settings', 'hod_settings_mm') for k in SETTING_KEYS]
)


def single(r, m, entry):
    """Updates that change one parameter, or one entry of a dictionary parameter."""
    k, sub = entry
    if sub is None:
        return gen_update(r, m, n=1, forced=k)
    if sub == 'bend':
        # the same ends and size, other points in between
        if k == 'k_vec':
            return [{k: {'logspace': [*_get(m, k)['logspace'][:3], r.choice([-0.25, 0.2, 0.3])]}}]
        z = _get(m, k)['a']
        return [{k: {'a': [z[0], *(round(x + r.uniform(-0.3, 0.3) * (z[-1] - z[0]) / (len(z) - 1), 4) for x in z[1:-1]), z[-1]]}}] if len(z) > 2 else gen_update(r, m, n=1, forced=k)
    if sub == 'exchange':
        return [exchange(r, m)]
    if sub == 'inside':
        if not (m.get(k) and m[k]['pk'][1] >= 4):
            return [{k: g_pk(r, m)}]
        return [{k: {'pk': [*m[k]['pk'][:4], r.randrange(8)]}}]
    if sub == 'order':
        cur = _get(m, k)['d']
        ks = [j for j in SETTING_KEYS[:4] if j in cur]
        return [{k: {'d': {j: {'a': cur[j]['a'][::-1]} for j in ks}}}] if ks and len(cur[ks[0]]['a']) > 1 else [{k: g_hod_settings(r, m)}]
    if sub == 'near':
        v = near(r, _get(m, k)) if _get(m, k) is not None else None
        return [{k: v}] if v is not None else gen_update(r, m, n=1, forced=k)
    if k == 'align_params':
        for _ in range(60):
            d = g_align(r, m)['d']
            if sub in d:
                return [{k: {'d': {sub: d[sub]}}}]
        return [{k: g_align(r, m)}]
    if k == 'hod_params':
        dom = HOD_PARAMS[_get(m, 'hod_model')]
        name = sorted(dom)[sub % len(dom)]
        return [{k: {'d': {name: round(r.uniform(*dom[name]), 4)}}}]
    cur = _get(m, k)['d']
    nb = len(cur['obs_min']['a']) if 'obs_min' in cur else 1
    full = _settings(r, nb, r.choice([2, 3]), r.choice([10, 12, 14, 15]))
    if 'obs_min' not in cur and k != 'hod_settings':
        return [{k: {'d': full}}]
    if sub == 'obs_max' and 'obs_min' in cur:
        full['obs_max'] = {'a': [round(x + r.uniform(0.8, 1.6), 2) for x in cur['obs_min']['a']]}
    if sub == 'obs_min' and 'obs_max' in cur:
        full['obs_min'] = {'a': [round(x - r.uniform(0.8, 1.6), 2) for x in cur['obs_max']['a']]}
    return [{k: {'d': {sub: full[sub]}}}]
