"""Command line: one property, one tier, one seed."""

import argparse
import os
import sys
import warnings


def prepare():
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    warnings.filterwarnings('ignore')
    from . import stubs

    stubs.install_emulator()
    stubs.install_cosmosis()
    import onepower

    from .seams import REPO

    got = os.path.realpath(onepower.__file__)
    want = os.path.realpath(os.path.join(REPO, 'src', 'onepower'))
    if not got.startswith(want + os.sep):
        print(f'HARNESS-ERROR onepower imported from {got}, not {want}')
        sys.exit(2)
    try:
        from colossus import settings

        settings.PERSISTENCE = ''
    except ImportError:
        pass
    import numpy as np

    np.seterr(all='ignore')


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--diag', action='store_true', help='with --replay: list every differing quantity')
    a = ap.parse_args(argv)
    prepare()
    from . import engine, registry

    if a.diag:
        from . import machine

        machine.DIAG = True
    if a.replay:
        import json

        with open(a.replay) as f:
            prop = json.load(f)['property']
        return engine.replay(registry.scenario(prop), a.replay)
    return engine.check(registry.scenario(a.property), a.property, a.tier, a.seed, max_runs=a.runs)


if __name__ == '__main__':
    sys.exit(main())
