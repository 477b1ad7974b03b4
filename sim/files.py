"""Scratch input files of the simulated deployment."""

import os

import numpy as np


def luminosity_fits(path, spec):
    """Galaxy catalogue with columns z and loglum; deterministic in spec."""
    from astropy.io import fits

    n, seed, mean = spec['n'], spec['seed'], spec['mean']
    rng = np.random.RandomState(seed)
    z = rng.uniform(0.0, 1.6, n)
    lum = rng.normal(mean, 0.3, n) + 0.2 * z
    t = fits.BinTableHDU.from_columns([
        fits.Column(name='z', array=z, format='D'),
        fits.Column(name='loglum', array=lum, format='D'),
    ])
    t.writeto(path, overwrite=True)


def observables_txt(path, spec):
    """Columns: z_bin, obs_min, obs_max per row, as load_data expects."""
    with open(path, 'w') as f:
        for row in spec['rows']:
            f.write(' '.join(f'{x:.5e}' for x in row) + '\n')


MAKERS = {'lum': luminosity_fits, 'obs': observables_txt}


def make_all(base, files):
    for name, spec in files.items():
        MAKERS[spec['kind']](os.path.join(base, name), spec)
