"""A small executable reference for the CosmoSIS interface: which numbers of the library a
sample has to put into the block.  It shares no code with the interface module; the
library itself (onepower) computes the spectra."""

import numpy as np
from scipy.interpolate import interp1d

from . import space_cosmosis as sc

HOD = {
    'Zheng': 'log10_Mmin sigma log10_M0 log10_M1 alpha'.split(),
    'Zhai': 'log10_Mmin sigma log10_Msat log10_Mcut alpha'.split(),
    'Cacciato': 'log10_obs_norm_c log10_m_ch g1 g2 sigma_log10_O_c norm_s pivot alpha_s beta_s b0 b1 b2'.split(),
}


def _num(v):
    """Cut-offs may be given as numbers or as the word None."""
    return None if v == 'None' else v


def _settings(cfg, s, base):
    f = cfg.get(f'observables_file_{s}')
    d = {'nobs': cfg[f'nobs_{s}'], 'observable_h_unit': cfg.get('observable_h_unit', '1/h^2').lower(), 'observables_file': None}
    if f is not None:
        d['observables_file'] = sc.dec(f, base)
        return d
    for key, name in (('obs_min', 'log10_obs_min'), ('obs_max', 'log10_obs_max'), ('zmin', 'zmin'), ('zmax', 'zmax')):
        d[key] = np.atleast_1d(np.asarray(sc.dec(cfg[f'{name}_{s}'], base), dtype=float))
    d['nz'] = cfg[f'nz_{s}']
    return d


def _in_k(p, k_in, k_out):
    f = interp1d(np.log(k_in), np.log(p), axis=1, fill_value='extrapolate')
    return np.exp(f(np.log(k_out)))


def _resample(p, z, k, z_out, k_out):
    p = interp1d(z, p, axis=1, fill_value='extrapolate', bounds_error=False)(z_out)
    return interp1d(np.log10(k), p, axis=2, fill_value='extrapolate', bounds_error=False)(np.log10(k_out))


def reference(cfg, given, base):
    """section/name -> value that a sample has to leave in the block."""
    from onepower import Spectra

    def b(s, n, default=None):
        return given.get((s.lower(), n.lower()), default)

    on = lambda n: bool(cfg.get(n))
    cosmo = lambda n, d=None: b('cosmological_parameters', n, d)
    galaxy = on('p_gg') or on('p_gm')
    align = on('p_gI') or on('p_mI') or on('p_II')
    z = np.linspace(cfg.get('zmin_hmf', 0.0), cfg.get('zmax_hmf', 3.0), cfg.get('nz_hmf', 15))
    k_full, z_full = b('matter_power_lin', 'k_h'), b('matter_power_lin', 'z')
    k = np.logspace(np.log10(k_full[0]), np.log10(k_full[-1]), cfg.get('nk', 100))
    lin = _in_k(interp1d(z_full, b('matter_power_lin', 'p_k'), axis=0)(z), k_full, k)
    lo, hi = cfg.get('log_mass_min', 9.0), cfg.get('log_mass_max', 16.0)
    step = (hi - lo) / cfg.get('nmass', 200)
    prof = cfg.get('profile_value_name', 'profile_parameters')
    mode = _num(cfg.get('nonlinear_mode', 'None'))
    kw = {
        'matter_power_lin': lin, 'k_vec': k, 'z_vec': z, 'Mmin': lo, 'Mmax': hi, 'dlog10m': step,
        'lnk_min': np.log(1e-8), 'lnk_max': np.log(1e8), 'dlnk': 0.05,
        'nonlinear_mode': mode, 'hmcode_ingredients': _num(cfg.get('hmcode_ingredients', 'None')), 'dewiggle': on('dewiggle'),
        'mdef_model': cfg.get('mdef_model', 'SOMean'), 'hmf_model': cfg.get('hmf_model', 'Tinker10'), 'bias_model': cfg.get('bias_model', 'Tinker10'),
        'halo_profile_model_dm': 'NFW', 'halo_profile_model_sat': 'NFW',
        'halo_concentration_model_dm': cfg.get('cm_model_cen', 'Duffy08'), 'halo_concentration_model_sat': cfg.get('cm_model_sat', 'Duffy08'),
        'overdensity': cfg.get('overdensity', 200.0), 'delta_c': cfg.get('delta_c', 1.686),
        'transfer_model': 'FromArray', 'transfer_params': {'k': b('matter_power_transfer_func', 'k_h'), 'T': b('matter_power_transfer_func', 't_k')},
        'growth_model': 'FromArray', 'growth_params': {'z': b('growth_parameters', 'z'), 'd': b('growth_parameters', 'd_z')},
        'norm_cen': b(prof, 'norm_cen', 1.0), 'norm_sat': b(prof, 'norm_sat', 1.0), 'eta_cen': b(prof, 'eta_cen', 0.0), 'eta_sat': b(prof, 'eta_sat', 0.0),
        'one_halo_ktrunc': _num(cfg.get('one_halo_ktrunc', 0.1)), 'two_halo_ktrunc': _num(cfg.get('two_halo_ktrunc', 2.0)),
        'omega_c': cosmo('omega_c'), 'omega_b': cosmo('omega_b'), 'h0': cosmo('h0'), 'n_s': cosmo('n_s'), 'sigma_8': cosmo('sigma_8'),
        'm_nu': cosmo('mnu'), 'w0': cosmo('w'), 'wa': cosmo('wa'), 'tcmb': cosmo('TCMB', 2.7255),
        'log10T_AGN': b('halo_model_parameters', 'logT_AGN'), 'mb': 10.0 ** b('halo_model_parameters', 'm_b', 13.87),
    }
    if mode == 'bnl':
        from onepower.bnl import NonLinearBias

        kw['beta_nl'] = NonLinearBias(
            mass=10 ** np.arange(lo, hi, step), z_vec=z, k_vec=k, h0=cosmo('h0'), A_s=cosmo('A_s'), omega_b=cosmo('omega_b'), omega_c=cosmo('omega_c'),
            omega_lambda=1.0 - cosmo('omega_m'), n_s=cosmo('n_s'), w0=cosmo('w'),
        ).bnl
    if on('response') or mode == 'fortuna':
        pn = interp1d(b('matter_power_nl', 'z'), b('matter_power_nl', 'p_k'), axis=0)(z)
        kw['matter_power_nl'] = _in_k(pn, b('matter_power_nl', 'k_h'), k)
        kw['response'] = on('response')
    model = cfg.get('hod_model', 'Cacciato')
    vals = cfg.get('values_name', 'hod_parameters')
    settings = {}
    observable = on('save_observable')
    if galaxy or align:
        if galaxy:
            settings = _settings(cfg, 'hod', base)
        nb = len(settings['obs_min']) if galaxy else 0
        hp = {'A_cen': b(vals, 'A_cen'), 'A_sat': b(vals, 'A_sat')}
        for p in HOD[model]:
            if model == 'Cacciato':
                hp[p] = b(vals, p)
            else:
                hp[p] = np.array([b(vals, p if nb == 1 else f'{p}_{i + 1}') for i in range(nb)])
        poisson = ['poisson'] if cfg['poisson_type'] == 'constant' else ['poisson', 'pivot', 'slope']
        kw.update(poisson_model=cfg['poisson_type'], poisson_params={p: b('pk_parameters', p) for p in poisson},
                  pointmass=on('point_mass'), hod_model=model, hod_params=hp)
        if galaxy:
            kw['hod_settings'] = settings
            mm = dict(settings, nobs=100)
            if settings['observables_file'] is None:
                mm.update(obs_min=np.array([settings['obs_min'].min()]), obs_max=np.array([settings['obs_max'].max()]),
                          zmin=np.array([settings['zmin'].min()]), zmax=np.array([settings['zmax'].max()]), nz=15)
            kw['hod_settings_mm'] = mm
        if observable:
            kw['compute_observable'] = True
            kw['obs_settings'] = _settings(cfg, 'smf', base)
    if align:
        name = 'ia_1' if on('split_ia') else 'ia'

        def alignment(name):
            suffix = cfg.get(f'output_suffix_{name}', '').lower()
            ia = lambda n: b(f'intrinsic_alignment_parameters_{suffix}' if suffix else 'intrinsic_alignment_parameters', n)
            return {'nmass': 5, 'n_hankel': 350, 'nk': 10, 'ell_max': 6, 'gamma_1h_slope': ia('gamma_1h_radial_slope'),
                    'gamma_1h_amplitude': ia('gamma_1h_amplitude'), 'gamma_2h_amplitude': ia('gamma_2h_amplitude'),
                    'beta_sat': ia('beta_sat'), 'mpivot_sat': ia('M_pivot'), 'beta_cen': ia('beta'), 'mpivot_cen': ia('M_pivot')}

        kw.update(align_params=alignment(name), one_halo_ktrunc_ia=_num(cfg.get('one_halo_ktrunc_ia', 4.0)), two_halo_ktrunc_ia=_num(cfg.get('two_halo_ktrunc_ia', 6.0)),
                  t_eff=b('pk_parameters', 'linear_fraction_fortuna', 0.0))
    out = {}
    power = Spectra(**kw)

    def spectra(model, which, section, nbins=None, other=None):
        r = getattr(model, f'power_spectrum_{which}')
        parts = {n: _resample(getattr(r, f'pk_{p}'), z, k, z_full, k_full) for n, p in (('p_k_1h', '1h'), ('p_k_2h', '2h'), ('p_k', 'tot'))}
        if other is not None:
            # the second population enters with the fraction that the first one leaves: none
            r2 = getattr(other, f'power_spectrum_{which}')
            parts = {n: parts[n] + 0.0 * _resample(getattr(r2, f'pk_{p}'), z, k, z_full, k_full) for n, p in (('p_k_1h', '1h'), ('p_k_2h', '2h'), ('p_k', 'tot'))}
        nb = nbins or r.pk_tot.shape[0]
        for i in range(nb):
            s = section if nb == 1 else f'{section}_{i + 1}'
            for n, v in parts.items():
                out[f'{s}/{n}'] = v[i]
            out[f'{s}/z'], out[f'{s}/k_h'] = z_full, k_full
        return r, nb

    def occupation(model, section):
        h = model.hod
        cols = {'N_cen': h.hod_cen, 'N_sat': h.hod_sat, 'N_tot': h.hod, 'f_star': model.fstar, 'number_density_cen': h.number_density_cen,
                'number_density_sat': h.number_density_sat, 'number_density_tot': h.number_density, 'central_fraction': h.f_c, 'satellite_fraction': h.f_s,
                'average_halo_mass': model.mass_avg}
        nb = h.hod_cen.shape[0]
        out[f'{section}/nbins'] = nb
        for i in range(nb):
            s = '' if nb == 1 else f'_{i + 1}'
            for n, v in cols.items():
                out[f'{section}/{n}{s}'.lower()] = v[i]
            out[f'{section}/z{s}'], out[f'{section}/mass{s}'] = z, model.mass
        return nb

    m = power
    out.update({
        'concentration_m/c': m.conc_cen, 'concentration_sat/c': m.conc_sat, 'nfw_scale_radius_m/rs': m.r_s_cen, 'nfw_scale_radius_sat/rs': m.r_s_sat,
        'virial_radius/m_h': m.mass, 'virial_radius/rvir_m': m.rvir_cen[0], 'virial_radius/rvir_sat': m.rvir_sat[0],
        'fourier_nfw_profile/ukm': m.u_dm, 'fourier_nfw_profile/uksat': m.u_sat, 'fourier_nfw_profile/k_h': k, 'fourier_nfw_profile/m_h': m.mass, 'fourier_nfw_profile/z': z,
        'density/mean_density0': m.mean_density0, 'density/mean_density_z': m.mean_density_z, 'density/rho_halo': m.rho_halo,
        'density/rho_crit': m.mean_density0 / cosmo('omega_m'), 'density/z': z,
        'hmf/dndlnmh': m.dndlnm, 'hmf/nu': m.nu, 'hmf/neff': m.neff, 'hmf/sigma8_z': m.sigma8_z, 'hmf/m_h': m.mass, 'hmf/z': z,
        'halobias/b_hb': m.halo_bias, 'cosmological_parameters/fnu': m.fnu,
    })
    if not (on('p_mm') and not galaxy):
        occupation(power, cfg.get('hod_section_name', 'hod'))
        if observable and power.obs_func is not None:
            sec = cfg.get('observable_section_name', 'stellar_mass_function')
            o = kw['obs_settings']
            one = all(np.size(o[x]) == 1 for x in ('obs_min', 'obs_max', 'zmin', 'zmax')) and o['nz'] == 1
            for i in range(power.obs_func_obs.shape[0]):
                for n, v in (('obs_func', power.obs_func), ('obs_func_c', power.obs_func_cen), ('obs_func_s', power.obs_func_sat)):
                    out[f'{sec}/{n}_{i + 1}'] = np.squeeze(v) if one else v[i]
                out[f'{sec}/obs_val_{i + 1}'] = np.squeeze(power.obs_func_obs) if one else power.obs_func_obs[i, 0, :]
    if on('p_mm') and not on('response'):
        spectra(power, 'mm', 'matter_power_nl', 1)
    if on('p_gg'):
        r, nb = spectra(power, 'gg', 'galaxy_power')
        for i in range(nb):
            out[f'galaxy_linear_bias{"" if nb == 1 else f"_{i + 1}"}/bg_linear'] = r.galaxy_linear_bias[i]
    if on('p_gm'):
        r, nb = spectra(power, 'gm', 'matter_galaxy_power')
        for i in range(nb):
            out[f'galaxy_matter_linear_bias{"" if nb == 1 else f"_{i + 1}"}/bgm_linear'] = r.galaxy_linear_bias[i]
    if align:
        power = Spectra(**{**kw, 'hod_settings': _settings(cfg, name, base)})
        occupation(power, cfg[f'hod_section_name_{name}'])
        other = Spectra(**{**kw, 'hod_settings': _settings(cfg, 'ia_2', base), 'align_params': alignment('ia_2')}) if on('split_ia') else None
        for flag, which, sec in (('p_II', 'ii', 'intrinsic_power'), ('p_gI', 'gi', 'galaxy_intrinsic_power'), ('p_mI', 'mi', 'matter_intrinsic_power')):
            if on(flag):
                spectra(power, which, sec, other=other)
    from . import snap

    return {a.lower(): snap.canon(np.asarray(v) if not np.isscalar(v) else v) for a, v in out.items()}
